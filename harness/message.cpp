// Messages: message, bodyPart, body (RFC 2046 multipart structure)
#include "common.hpp"
#include "gen.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/streamContentHandler.hpp"
#include "vmime/utility/seekableInputStream.hpp"
namespace stub { void install(); }
static string contentOf(const body& b) { string r; utility::outputStreamStringAdapter os(r); b.getContents()->extractRaw(os); return r; }
static string decodedOf(const body& b) { string r; utility::outputStreamStringAdapter os(r); b.getContents()->extract(os); return r; }
static string num(size_t n) { string r; do r.insert(r.begin(), char('0' + n % 10)); while (n /= 10); return r; }
// everything that was understood, as a text
static void dump(const shared_ptr<const bodyPart>& p, string& r) {
	auto h = p->getHeader(); auto b = p->getBody();
	r += "[" + num(p->getParsedOffset()) + "+" + num(p->getParsedLength()) + " h" + num(h->getParsedOffset()) + "+" + num(h->getParsedLength()) + "#" + num(h->getFieldCount()) + " b" + num(b->getParsedOffset()) + "+" + num(b->getParsedLength()) + " p<" + b->getPrologText() + "> e<" + b->getEpilogText() + "> c<" + contentOf(*b) + ">";
	for (size_t i = 0; i < b->getPartCount(); i++) dump(b->getPartAt(i), r);
	r += "]";
}
// RFC 2046: the delimiter lines of a multipart body between `from` and `to` of s
struct Delim { size_t start, next; bool last; };
static bool ws(char c) { return c == ' ' || c == '\t'; }
static std::vector<Delim> delims(const string& s, size_t from, size_t to, const string& b) {
	std::vector<Delim> r;
	for (size_t i = from; i + 2 + b.size() <= to; i++) {
		// a delimiter stands at the start of a line
		if (i == 0 || s[i - 1] != '\n' || s[i] != '-' || s[i + 1] != '-' || s.compare(i + 2, b.size(), b) != 0) continue;
		size_t p = i + 2 + b.size(); Delim d; d.last = false;
		if (p + 2 <= to && s[p] == '-' && s[p + 1] == '-') { d.last = true; p += 2; }
		while (p < to && ws(s[p])) p++;
		if (p + 2 <= to && s[p] == '\r' && s[p + 1] == '\n') p += 2;
		else if (p < to && s[p] == '\n') p++;
		else if (p != to) continue; // something else on the line: not a delimiter
		d.next = p; d.start = i - 1; if (i >= 2 && s[i - 2] == '\r') d.start--;
		r.push_back(d); if (d.last) break;
	}
	return r;
}
static void checkPart(const shared_ptr<const bodyPart>& p, const string& s, size_t from, size_t to, unsigned depth) {
	auto h = p->getHeader(); auto b = p->getBody();
	vs_check(p->getParsedOffset() == from && p->getParsedLength() == to - from, "a part spans its region");
	vs_check((h->getParsedLength() == 0 || h->getParsedOffset() == from) && h->getParsedLength() <= to - from, "the header starts the part and lies inside it");
	size_t bs = b->getParsedOffset();
	vs_check(bs >= from && bs <= to && bs == from + h->getParsedLength() && bs + b->getParsedLength() == to, "the body follows the header and ends the part");
	if (bs > to || bs < from) return;
	auto ct = h->findField<contentTypeField>(fields::CONTENT_TYPE);
	if (bs == to) { vs_check(b->getPartCount() == 0 && contentOf(*b).empty(), "an empty body has no parts and no content"); return; }
	if (ct && ct->getValue<mediaType>()->getType() == mediaTypes::MULTIPART && ct->hasBoundary() && !ct->getBoundary().empty()) {
		auto D = delims(s, bs, to, ct->getBoundary());
		std::vector<std::pair<size_t, size_t> > R; // regions of parts
		bool last = D.size() && D.back().last;
		for (size_t i = 0; i + 1 < D.size(); i++) R.push_back(std::make_pair(D[i].next, D[i + 1].start));
		if (!last && (D.empty() || D.back().next < to)) R.push_back(std::make_pair(D.size() ? D.back().next : bs, to));
		vs_check(b->getPartCount() == R.size(), "one part between two delimiter lines");
		vs_check(contentOf(*b).empty(), "a multipart body has no content of its own");
		for (size_t i = 0; i < R.size() && i < b->getPartCount(); i++) {
			if (R[i].second < R[i].first) { // two delimiter lines one after the other: the part is empty
				auto q = b->getPartAt(i); vs_check(contentOf(*q->getBody()).empty() && q->getBody()->getPartCount() == 0 && q->getHeader()->getFieldCount() == 0, "nothing between two delimiter lines"); continue;
			}
			checkPart(b->getPartAt(i), s, R[i].first, R[i].second, depth + 1);
		}
	} else if (!ct || ct->getValue<mediaType>()->getType() != mediaTypes::MULTIPART) {
		vs_check(b->getPartCount() == 0, "a body that is not multipart has no parts");
		checkEq(contentOf(*b), s.substr(bs, to - bs), "the content is exactly the bytes of the body");
	}
}
#define MP "Content-Type: multipart/mixed; boundary="
static const char* PFX[] = {
	/* 0*/ MP "b\r\n\r\n", /* 1*/ MP "b\r\n\r\n--b\r\n", /* 2*/ MP "b\r\n\r\n--b\r\n\r\nx\r\n--b", /* 3*/ MP "b\n\np\n--b\n\nx\n--b--",
	/* 4*/ MP "b\r\n\r\n--b\r\n" MP "c\r\n\r\n--c\r\n\r\n", /* 5*/ MP "b\r\n\r\n--b\r\n" MP "c\r\n\r\n--c--\r\n--", /* 6*/ "A: b\r\n", /* 7*/ "",
	/* 8*/ MP "\"b-\"\r\n\r\n--b-", /* 9*/ MP "b\r\n\r\n--b\r\nContent-Type: message/rfc822\r\n\r\n", /*10*/ MP "b\r\n\r\n--b\r\n" MP "b\r\n\r\n--b\r\n\r\n",
	/*11*/ "Content-Type: multipart/mixed\r\n\r\n", /*12*/ "Content-Type: multipart/mixed\r\n\r\np\r\n--", /*13*/ MP "b\r\n\r\n--b  ", /*14*/ MP "\"\"\r\n\r\n", /*15*/ "Content-Type: multipart/mixed\r\n\r\n-- \t", };
static const char* SFX[] = { "", "\r\n--b--\r\n", "\n--b\n", "\r\n\r\n--c--\r\n\r\n--b--", "--b--", "\r\n--c\r\n\r\ny\r\n--c--\r\n--b--\r\n" };
static string source() {
	string in(PFX[P("pfx", 0)]); size_t n = vs_choice(P("n", 4) + 1 - P("min", 0)) + P("min", 0);
	in += P("set", 1) == 1 ? symStrIn(n, "-b\r\n ") : P("set", 1) == 2 ? symStrIn(n, "-bc\r\n\t :") : symStr(n);
	return in + SFX[P("sfx", 0)];
}
// C16: any message: the structure understood is the one RFC 2046 describes
HARNESS h_msg_parse() {
	stub::install();
	string in = source(); observe("in", in);
	static const char* AFT[] = { "", "\r\n--b--\r\n", "-\n", "b\r\n", "\n--c\nz\n--c--\n" };
	string pre = P("off", 0) ? "X: y\r\n" : "", big = pre + in; big += AFT[P("after", 0)]; size_t np = 0;
	auto m = make_shared<message>(); parsingContext ctx;
	if (P("off", 0) || P("after", 0)) m->parse(ctx, big, pre.size(), pre.size() + in.size(), &np); else { m->parse(in); np = in.size(); }
	vs_check(np == pre.size() + in.size(), "the whole region is parsed");
	string d; dump(m, d); observe("dump", d);
	checkPart(m, big, pre.size(), pre.size() + in.size(), 0);
	if (P("after", 0)) { string big2 = pre + in, d2; auto m2 = make_shared<message>(); m2->parse(ctx, big2, pre.size(), big2.size(), &np); dump(m2, d2); checkEq(d, d2, "what follows the message has no influence"); }
	vs_reach("end");
}
// C16: what the source is (string, seekable stream, other stream; any pieces) makes no difference
struct Seek : public utility::seekableInputStream {
	string data; size_t pos, at; unsigned mask; Seek(const string& d, size_t a, unsigned m) : data(d), pos(0), at(a), mask(m) {}
	bool eof() const override { return pos >= data.size(); } void reset() override { pos = 0; }
	size_t read(byte_t* const b, const size_t n) override {
		size_t e = pos + std::min(n, data.size() - pos), p = pos;
		for (size_t k = pos + 1; k < e; k++) if (k >= at && k < at + 8 && (mask >> (k - at) & 1)) { e = k; break; } // no read goes over a cut
		memcpy(b, data.data() + p, e - p); pos = e; return e - p;
	}
	size_t skip(const size_t n) override { size_t k = std::min(n, data.size() - pos); pos += k; return k; } size_t getPosition() const override { return pos; } void seek(const size_t p) override { pos = std::min(p, data.size()); }
};
struct Plain : public utility::inputStream { Seek c; Plain(const string& s, size_t a, unsigned m) : c(s, a, m) {} bool eof() const override { return c.eof(); } void reset() override { c.reset(); } size_t read(byte_t* const b, const size_t n) override { return c.read(b, n); } size_t skip(const size_t n) override { return c.skip(n); } };
HARNESS h_msg_stream() {
	stub::install();
	string in = source(); observe("in", in); size_t at = P("at", 0);
	auto a = make_shared<message>(), b = make_shared<message>();
	a->parse(in);
	unsigned mask = vs_choice(1u << P("cuts", 4));
	if (P("seekable", 1)) b->parse(make_shared<Seek>(in, at, mask), in.size()); else b->parse(make_shared<Plain>(in, at, mask), in.size());
	string x, y; dump(a, x); dump(b, y); observe("x", x); observe("y", y);
	checkEq(x, y, "the message read does not depend on how its source delivers it");
	vs_reach("end");
}
// C16: what was understood does not change when it is generated and parsed again
static void dumpContents(const shared_ptr<const bodyPart>& p, string& r) {
	auto b = p->getBody(); r += "[#"; r += num(p->getHeader()->getFieldCount()) + "<" + contentOf(*b) + ">";
	for (size_t i = 0; i < b->getPartCount(); i++) dumpContents(b->getPartAt(i), r);
	r += "]";
}
HARNESS h_msg_stable() {
	stub::install();
	string in = source(); observe("in", in);
	auto a = make_shared<message>(), b = make_shared<message>(), c = make_shared<message>();
	a->parse(in); string g = a->generate(); observe("g", g); b->parse(g);
	string x, y; dumpContents(a, x); dumpContents(b, y); observe("x", x); observe("y", y);
	checkEq(x, y, "generating a parsed message keeps its parts and contents");
	string z, w; dumpContents(dynamicCast<bodyPart>(a->clone()), z); checkEq(x, z, "a clone has the same parts and contents");
	*c = *a; dumpContents(c, w); checkEq(x, w, "a copy has the same parts and contents");
	if (a->getBody()->getPartCount()) { c->getBody()->removePart(0); string v; dumpContents(a, v); checkEq(x, v, "a copy is independent"); vs_check(c->getBody()->getPartCount() + 1 == a->getBody()->getPartCount(), "removing a part removes one"); auto q = a->getBody()->getPartAt(0); c->getBody()->appendPart(q); vs_check(q->getParentPart() == &*c, "a part moved to another body leaves its old one"); for (size_t i = 0; i < a->getBody()->getPartCount(); i++) vs_check(a->getBody()->getPartAt(i) != q, "a part is in one body only"); }
	vs_reach("end");
}
// C15: messages built from parts
static const char* ENCS[] = { "7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode" };
static shared_ptr<bodyPart> leaf(const string& data, size_t enc) {
	auto p = make_shared<bodyPart>(); if (enc < 5) p->getBody()->setEncoding(vmime::encoding(ENCS[enc]));
	if (size_t src = P("src", 0)) { // the content is held in another encoding
		string t; { auto c = vmime::encoding(ENCS[src]).getEncoder(); c->getProperties()["maxlinelength"] = 76; utility::outputStreamStringAdapter os(t); utility::inputStreamStringAdapter in(data); c->encode(in, os); }
		p->getBody()->setContents(make_shared<stringContentHandler>(t, vmime::encoding(ENCS[src])));
	} else p->getBody()->setContents(make_shared<stringContentHandler>(data));
	return p;
}
static string body_(size_t n) {
	static const char* B[] = { "", "x\r\n--", "\r\n--=_", "--", "\r\n.\r\n", "\r\n--=_wpo0iewX" };
	string s(B[P("bpfx", 0)]); for (size_t i = 0; i < P("blen", 0); i++) s += P("bfill", 0) ? "\xe9" : "x"; s += P("set", 1) ? symStrIn(n, "-=_\r\n ") : symStr(n); return s;
}
static void build(message& m, std::vector<string>& bodies, generationContext& ctx) {
	size_t kind = P("kind", 0), enc = P("enc", 0);
	auto add = [&](const shared_ptr<bodyPart>& to, const string& s, size_t e) { bodies.push_back(s); if (to) to->getBody()->appendPart(leaf(s, e)); else { m.getBody()->setEncoding(vmime::encoding(ENCS[e])); m.getBody()->setContents(make_shared<stringContentHandler>(s)); } };
	size_t n = vs_choice(P("n", 3) + 1); string s0 = body_(n), s1 = P("two", 0) ? body_(1) : "fixed\r\n";
	shared_ptr<bodyPart> mp; static const char* BND[] = { "", "b", "a'()+_,-./:=?z" };
	auto setB = [&](bodyPart& q, const char* b) { if (*b) { auto f = q.getHeader()->getField<contentTypeField>(fields::CONTENT_TYPE); f->setValue(mediaType("multipart", "mixed")); f->setBoundary(b); } };
	if (kind == 0) add(null, s0, enc);
	else {
		setB(m, BND[P("bnd", 0)]); size_t parts = kind == 2 ? 2 : 1; 
		if (kind <= 2) { m.getBody()->appendPart(leaf(s0, enc)); bodies.push_back(s0); if (parts == 2) { m.getBody()->appendPart(leaf(s1, 0)); bodies.push_back(s1); } }
		else if (kind == 3) { // a multipart in the multipart
			auto in = make_shared<bodyPart>(); in->getBody()->appendPart(leaf(s0, enc)); in->getBody()->appendPart(leaf(s1, 0)); m.getBody()->appendPart(in); m.getBody()->appendPart(leaf("z", 3));
			bodies.push_back(s0); bodies.push_back(s1); bodies.push_back("z");
		} else if (kind == 4) { // empty parts, and one inserted between
			m.getBody()->appendPart(make_shared<bodyPart>()); m.getBody()->appendPart(leaf(s1, 0)); m.getBody()->insertPartBefore(1, leaf(s0, enc)); bodies.push_back(""); bodies.push_back(s0); bodies.push_back(s1);
		}
	}
	if (P("text", 0)) { m.getBody()->setPrologText(P("text", 0) == 1 ? "A prolog" : "--"); m.getBody()->setEpilogText("an epilog"); }
	if (P("ptext", 0)) { ctx.setPrologText("pp pp"); ctx.setEpilogText("ee"); } else { ctx.setPrologText(""); ctx.setEpilogText(""); }
}
// C04: the size estimated for a message is an upper bound
HARNESS h_msg_size() {
	stub::install(); message m; std::vector<string> bodies; generationContext ctx; if (P("mll", 0)) ctx.setMaxLineLength(P("mll", 0)); build(m, bodies, ctx);
	string v = symStrIn(P("sn", 2), "a \"=?;") + string(P("slen", 0), 'x'); if (P("subj", 0)) { m.getHeader()->Subject()->setValue(text(v, charset("utf-8"))); m.getHeader()->To()->setValue(addressList()); m.getHeader()->From()->setValue(mailbox(text(v, charset("utf-8")), emailAddress("a@b.c"))); }
	string out; utility::outputStreamStringAdapter os(out); m.generate(ctx, os); observe("out", out);
	size_t est = m.getGeneratedSize(ctx); vs_observe_int("est", est); vs_observe_int("act", out.size());
	vs_check(est >= out.size(), "the size estimated for a message is not smaller than what is generated");
	std::vector<shared_ptr<bodyPart> > q = m.getBody()->getPartList();
	for (size_t i = 0; i < q.size(); i++) { string o; utility::outputStreamStringAdapter fs(o); q[i]->generate(ctx, fs); vs_check(q[i]->getGeneratedSize(ctx) >= o.size(), "the size estimated for a part is not smaller than what is generated"); auto c = q[i]->getBody()->getPartList(); q.insert(q.end(), c.begin(), c.end()); }
	{ string o; utility::outputStreamStringAdapter fs(o); m.getBody()->generate(ctx, fs); vs_check(m.getBody()->getGeneratedSize(ctx) >= o.size(), "the size estimated for a body is not smaller than what is generated"); }
	size_t i = 0; for (auto& f : m.getHeader()->getFieldList()) { string o; utility::outputStreamStringAdapter fs(o); f->generate(ctx, fs); vs_check(f->getGeneratedSize(ctx) >= o.size(), "the size estimated for a field is not smaller than what is generated"); i++; }
	vs_reach("end");
}
HARNESS h_msg_rt() {
	stub::install();
	size_t kind = P("kind", 0); std::vector<string> bodies; message m; generationContext ctx; build(m, bodies, ctx);
	string out; utility::outputStreamStringAdapter os(out); m.generate(ctx, os); observe("out", out);
	auto r = make_shared<message>(); r->parse(out);
	std::vector<string> got; std::vector<size_t> depth;
	struct W { static void walk(const shared_ptr<const bodyPart>& p, std::vector<string>& g, size_t d, std::vector<size_t>& dd) { auto b = p->getBody(); if (b->getPartCount() == 0) { g.push_back(decodedOf(*b)); dd.push_back(d); } for (size_t i = 0; i < b->getPartCount(); i++) walk(b->getPartAt(i), g, d + 1, dd); } };
	W::walk(r, got, 0, depth);
	vs_check(got.size() == bodies.size(), "as many parts are read as were put in");
	for (size_t i = 0; i < got.size() && i < bodies.size(); i++) { if (i == 0) observe("got", got[0]); checkEq(got[i], bodies[i], "every part has the content it was given"); vs_check(depth[i] == (kind == 0 ? 0u : kind == 3 && i < 2 ? 2u : 1u), "every part is where it was put"); }
	if (kind) {
		string wantP = P("text", 0) ? (P("text", 0) == 1 ? "A prolog" : "--") : P("ptext", 0) ? "pp pp" : "", wantE = P("text", 0) ? "an epilog" : P("ptext", 0) ? "ee" : "";
		checkEq(squeeze(r->getBody()->getPrologText()), wantP, "the prolog is kept"); checkEq(squeeze(r->getBody()->getEpilogText()), wantE, "the epilog is kept");
	}
	vs_reach("end");
}
