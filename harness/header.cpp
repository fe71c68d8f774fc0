// Header blocks: header, headerField; injection through values
#include "common.hpp"
#include "gen.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
namespace stub { void install(); }
static string val(const headerField& f) { generationContext c; c.setMaxLineLength(lineLengthLimits::infinite); string s; utility::outputStreamStringAdapter os(s); f.getValue()->generate(c, os); return s; }
static string txt(const headerField& f) { auto t = f.getValue<text>(); return t ? t->getWholeBuffer() : val(f); }

static const char* PFX[] = { "", "A: b\r\n", "A: b\r\n c", "A", "Subject: x", "A: b\nB", "To: a@b, ", "A: =?utf-8?Q?x?=\r\n ", "junk line\r\nA:", "Content-Type: text/plain; a=b" };
// C14: any block parses inside its bounds; fields are in order and do not overlap; what surrounds the block has no influence
HARNESS h_hdr_parse() {
	stub::install();
	string s = PFX[P("pfx", 0)]; s += P("set", 1) ? symStrUpToIn(P("n", 4), ":\r\n \tAb") : symStrUpTo(P("n", 4));
	s += P("sfx", 0) == 1 ? ":" : P("sfx", 0) == 2 ? "\r\n\r\nbody" : "";
	string all = "Z: 1\n" + s + (P("after", 0) ? "\nQ:\n" : ":R: 2\r\n"); size_t at = 5;
	parsingContext ctx; header h; size_t np = 0; h.parse(ctx, all, at, at + s.size(), &np);
	vs_check(np >= at && np <= at + s.size(), "parsing stops inside the block");
	vs_check(h.getParsedOffset() == at && h.getParsedLength() == np - at, "the bounds of the header are those parsed");
	size_t last = at;
	for (auto& f : h.getFieldList()) {
		size_t a = f->getParsedOffset(), l = f->getParsedLength();
		vs_check(a >= last && a + l <= np, "a field lies inside the block, after the one before");
		vs_check(all.compare(a, f->getName().size(), f->getName()) == 0, "a field starts with its name");
		auto v = f->getValue();
		vs_check(v->getParsedOffset() >= a && v->getParsedOffset() + v->getParsedLength() <= a + l, "a value lies inside its field");
		last = a + l;
	}
	header g; g.parse(s);
	vs_check(h.getFieldCount() == g.getFieldCount(), "what surrounds the block does not change the fields");
	for (size_t i = 0; i < h.getFieldCount() && i < g.getFieldCount(); i++) {
		checkEq(h.getFieldAt(i)->getName(), g.getFieldAt(i)->getName(), "what surrounds the block does not change the names");
		checkEq(val(*h.getFieldAt(i)), val(*g.getFieldAt(i)), "what surrounds the block does not change the values");
	}
	// generating and parsing again gives the same fields
	unsigned char hi = 0; for (unsigned char c : s) hi |= c; // bytes outside US-ASCII have no charset in a header: they are replaced
	if (P("regen", 1) && hi < 0x80) {
		string out = g.generate(); header r; r.parse(out);
		size_t named = 0; for (auto& f : g.getFieldList()) if (!f->getName().empty()) named++;
		if (named == g.getFieldCount()) {
			vs_check(r.getFieldCount() == g.getFieldCount(), "a generated header has the same number of fields");
			for (size_t i = 0; i < r.getFieldCount(); i++) {
				checkEq(r.getFieldAt(i)->getName(), g.getFieldAt(i)->getName(), "a generated header has the same names");
				checkEq(squeeze(txt(*r.getFieldAt(i))), squeeze(txt(*g.getFieldAt(i))), "a generated header has the same values");
			}
		}
	}
	vs_reach("end");
}

// C14: well-formed fields are found with their names and unfolded values, in order
HARNESS h_hdr_wf() {
	stub::install();
	size_t k = P("k", 2); string in; std::vector<string> names, vals; string eol = P("lf", 0) ? "\n" : "\r\n";
	for (size_t i = 0; i < k; i++) {
		string name; name = "X-"; name += symStrIn(1, range(0x21, 0x39) + range(0x3b, 0x7e)); if (P("subj", 0) && i == 0) name = "Subject";
		static const char* SEP[] = { ":", ": ", " : ", ":\t " };
		string sep = SEP[vs_choice(P("seps", 4))]; in += name + sep;
		string v; size_t parts = P("parts", 2);
		for (size_t j = 0; j < parts; j++) {
			string w = symStrIn(P("n", 1), range(0x21, 0x3c) + range(0x3e, 0x7e)); // no '='
			if (j == 0 && w[0] == ':') w[0] = 'x';
			if (j) { static const char* F[] = { " ", "\r\n ", "\r\n\t", "\n ", "\r\n  ", "\t" }; string f = F[vs_choice(P("folds", 6))]; if (P("lf", 0)) { size_t q = f.find('\r'); if (q != string::npos) f.erase(q, 1); } in += f; v += f[0] == '\r' || f[0] == '\n' ? " " : f; }
			in += w; v += w;
		}
		if (vs_choice(2)) in += P("trail", 1) ? " " : "";
		if (i + 1 < k || P("lasteol", 1)) in += eol;
		names.push_back(name); vals.push_back(v);
	}
	if (P("end", 0) && P("lasteol", 1)) in += eol + "Y: body\r\n";
	observe("in", in);
	header h; h.parse(in);
	vs_check(h.getFieldCount() == k, "every field is found, and no other");
	for (size_t i = 0; i < k && i < h.getFieldCount(); i++) {
		checkEq(h.getFieldAt(i)->getName(), names[i], "a field is found with its name");
		checkEq(txt(*h.getFieldAt(i)), vals[i], "a field is found with its unfolded value");
	}
	if (k && !P("subj", 0)) {
		auto f = h.findField(names[k - 1]); vs_check(f != NULL, "a field is found by its name");
		string lower = names[0]; lower[0] = 'x'; auto g = h.findField(lower); vs_check(g == h.getFieldAt(0), "a field is found by its name whatever the case");
	}
	vs_reach("end");
}

static shared_ptr<headerField> mk(size_t id) { return headerFieldFactory::getInstance()->create(id % 2 ? "X-B" : "X-A", string(1, char('a' + id))); }
static string idOf(const headerField& f) { return val(f); }
// C14: the field list behaves as an ordered list under any sequence of operations; copies are equal and independent
HARNESS h_hdr_ops() {
	stub::install();
	header h; std::vector<size_t> m; size_t next = 0, steps = P("steps", 3);
	for (size_t i = 0; i < P("init", 2); i++) { h.appendField(mk(next)); m.push_back(next++); }
	header frozen; std::vector<size_t> fm;
	size_t copyAt = vs_choice(steps + 1); int how = vs_choice(3);
	for (size_t st = 0; st <= steps; st++) {
		if (st == copyAt) { if (how == 0) frozen = h; else if (how == 1) frozen.copyFrom(h); else { auto c = dynamicCast<header>(h.clone()); frozen = *c; } fm = m; }
		if (st == steps) break;
		switch (vs_choice(10)) {
		case 0: h.appendField(mk(next)); m.push_back(next++); break;
		case 1: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.insertFieldBefore(p, mk(next)); m.insert(m.begin() + p, next++); break; }
		case 2: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.insertFieldAfter(p, mk(next)); m.insert(m.begin() + p + 1, next++); break; }
		case 3: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.insertFieldBefore(h.getFieldAt(p), mk(next)); m.insert(m.begin() + p, next++); break; }
		case 4: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.insertFieldAfter(h.getFieldAt(p), mk(next)); m.insert(m.begin() + p + 1, next++); break; }
		case 5: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.removeField(p); m.erase(m.begin() + p); break; }
		case 6: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.removeField(h.getFieldAt(p)); m.erase(m.begin() + p); break; }
		case 7: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.replaceField(h.getFieldAt(p), mk(next)); m[p] = next++; break; }
		case 8: { int b = vs_choice(2); h.removeAllFields(b ? "x-b" : "X-A"); std::vector<size_t> r; for (auto i : m) if ((i % 2) != (size_t)b) r.push_back(i); m = r; break; }
		case 9: { if (m.empty()) vs_end(); size_t p = vs_choice(m.size()); h.getFieldAt(p)->setValue(string(1, char('a' + next))); m[p] = (next - m[p]) % 2 ? next + 1 : next; h.getFieldAt(p)->setValue(string(1, char('a' + m[p]))); next = m[p] + 1; break; }
		}
		vs_check(h.getFieldCount() == m.size(), "the number of fields follows the operations");
		if (h.getFieldCount() != m.size()) vs_end();
		for (size_t i = 0; i < m.size(); i++) vs_check(idOf(*h.getFieldAt(i)) == string(1, char('a' + m[i])) && h.getFieldAt(i)->getName() == (m[i] % 2 ? "X-B" : "X-A"), "the fields are those of the operations, in order");
		for (int b = 0; b < 2; b++) {
			std::vector<size_t> w; for (size_t i = 0; i < m.size(); i++) if (m[i] % 2 == (size_t)b) w.push_back(i);
			vs_check(h.hasField(b ? "X-B" : "x-a") == !w.empty(), "hasField agrees with the list");
			auto f = h.findField(b ? "x-b" : "X-A"); vs_check(f == (w.empty() ? null : h.getFieldAt(w[0])), "findField finds the first field of that name");
			auto all = h.findAllFields(b ? "X-B" : "X-A"); vs_check(all.size() == w.size(), "findAllFields finds all");
		}
	}
	vs_check(frozen.getFieldCount() == fm.size(), "a copy keeps the fields it was made from");
	for (size_t i = 0; i < fm.size() && i < frozen.getFieldCount(); i++) vs_check(idOf(*frozen.getFieldAt(i)) == string(1, char('a' + fm[i])), "a copy is independent of later changes");
	vs_reach("end");
}

// C10
HARNESS h_inject() {
	stub::install();
	size_t kind = P("kind", 0); size_t n = P("n", 2);
	string s = string(P("pre", 0), 'x'); string set = P("set", 0) == 1 ? string("\r\n\0 :;\"\\<>@x\xc3\xa9=?", 16) : "";
	string v = set.empty() ? symStr(n) : symStrIn(n, set); s += v; s += string(P("post", 0), 'y');
	charset ch(P("ch", 0) == 0 ? "utf-8" : P("ch", 0) == 1 ? "us-ascii" : "x-unknown");
	generationContext gctx; gctx.setMaxLineLength(P("mll", 76) ? P("mll", 76) : lineLengthLimits::infinite);
	if (P("mode", 0)) gctx.setEncodedParameterValueMode((generationContext::EncodedParameterValueModes)(P("mode", 0) - 1));
	if (P("intl", 0)) gctx.setInternationalizedEmailSupport(true);
	header h; auto F = headerFieldFactory::getInstance(); string name;
	auto add = [&](const string& nm, const headerFieldValue& hv) { auto f = F->create(nm); f->setValue(hv); h.appendField(f); name = nm; };
	try {
		switch (kind) {
		case 0: { text t; t.createFromString(s, ch); add("Subject", t); break; }
		case 1: { text t(word(s, ch)); add("Subject", t); break; }
		case 2: add("From", mailbox(text(word(s, ch)), emailAddress("a", "b.c"))); break;
		case 3: add("From", mailbox(text(word("n")), emailAddress(word(s, ch), word("b.c")))); break;
		case 4: add("From", mailbox(text(word("n")), emailAddress(word("a"), word(s, ch)))); break;
		case 5: { mailboxGroup g(text(word(s, ch))); g.appendMailbox(make_shared<mailbox>(emailAddress("a", "b"))); addressList l; l.appendAddress(make_shared<mailboxGroup>(g)); add("To", l); break; }
		case 6: { auto f = dynamicCast<contentTypeField>(F->create("Content-Type")); f->setValue(mediaType("text/plain")); f->appendParameter(make_shared<parameter>("p", word(s, ch))); h.appendField(f); name = "Content-Type"; break; }
		case 7: { auto f = dynamicCast<contentDispositionField>(F->create("Content-Disposition")); f->setFilename(word(s, ch)); h.appendField(f); name = "Content-Disposition"; break; }
		case 8: { mailboxList l; l.appendMailbox(make_shared<mailbox>(text(word(s, ch)), emailAddress("a", "b"))); l.appendMailbox(make_shared<mailbox>(emailAddress(word("c"), word("d")))); add("Reply-To", l); break; }
		case 9: { auto f = dynamicCast<contentTypeField>(F->create("Content-Type")); f->setValue(mediaType("text/plain")); f->setCharset(charset(s)); h.appendField(f); name = "Content-Type"; break; }
		case 10: { text t; t.createFromString(s, ch); add("X-Custom", t); break; }
		case 11: { auto f = F->create("Subject"); f->setValue(s); h.appendField(f); name = "Subject"; break; } // parsed from a string
		case 12: { text t; t.appendWord(make_shared<word>("a", ch)); t.appendWord(make_shared<word>(s, ch)); t.appendWord(make_shared<word>("b", charset("us-ascii"))); add("Subject", t); break; }
		case 13: { auto f = F->create("To"); f->setValue(s); h.appendField(f); name = "To"; break; }
		case 14: { auto f = F->create("Content-Disposition"); f->setValue("attachment; filename=" + s); h.appendField(f); name = "Content-Disposition"; break; }
		case 15: { auto f = F->create("Message-Id"); f->setValue(s); h.appendField(f); name = "Message-Id"; break; }
		case 16: { auto f = F->create("References"); f->setValue(s); h.appendField(f); name = "References"; break; }
		case 17: { auto f = F->create("Content-Type"); f->setValue(s); h.appendField(f); name = "Content-Type"; break; }
		case 18: { auto f = F->create("Received"); f->setValue("from " + s); h.appendField(f); name = "Received"; break; }
		case 19: { auto f = F->create("Return-Path"); f->setValue(s); h.appendField(f); name = "Return-Path"; break; }
		case 20: { auto f = F->create("Date"); f->setValue(s); h.appendField(f); name = "Date"; break; }
		case 21: { auto f = F->create("Disposition"); f->setValue(s); h.appendField(f); name = "Disposition"; break; }
		case 22: { text t(word("\xc3\xa9", charset(s))); add("Subject", t); break; }
		case 23: { auto f = dynamicCast<contentTypeField>(F->create("Content-Type")); f->setValue(mediaType("text/plain")); f->appendParameter(make_shared<parameter>("p", word("\xc3\xa9", charset(s)))); h.appendField(f); name = "Content-Type"; break; }
		case 24: add("Content-Type", mediaType("text", s)); break;
		case 25: add("Message-Id", messageId(s, "r")); break;
		case 26: add("Content-Disposition", contentDisposition(s)); break;
		case 27: add("Content-Transfer-Encoding", encoding(s)); break;
		case 28: { auto f = dynamicCast<contentTypeField>(F->create("Content-Type")); f->setValue(mediaType("text/plain")); f->appendParameter(make_shared<parameter>(s, word("v"))); h.appendField(f); name = "Content-Type"; break; }
		case 29: { messageIdSequence q; q.appendMessageId(make_shared<messageId>("a", "b")); q.appendMessageId(make_shared<messageId>("c", s)); add("References", q); break; }
		case 30: add("Return-Path", path(s, "b.c")); break;
		case 31: { relay r; r.setFrom(s); r.setBy("y"); add("Received", r); break; }
		}
	} catch (vmime::exception&) { vs_reach("refused"); vs_reach("end"); return; } // a value that cannot be represented may be refused
	h.appendField(F->create("X-End", "z"));
	string out;
	try { utility::outputStreamStringAdapter os(out); h.generate(gctx, os); } catch (vmime::exception&) { vs_reach("refused"); vs_reach("end"); return; }
	observe("out", out);
	size_t fields = 0;
	for (size_t i = 0; i < out.size(); i++) {
		char c = out[i];
		if (c == '\r') { vs_check(i + 1 < out.size() && out[i + 1] == '\n', "a CR is followed by LF"); }
		else if (c == '\n') {
			vs_check(i > 0 && out[i - 1] == '\r', "an LF follows a CR");
			if (i + 1 == out.size() || !(out[i + 1] == ' ' || out[i + 1] == '\t')) fields++;
		}
	}
	vs_check(fields == 2, "the header block has exactly the lines of the fields set");
	header r; r.parse(out);
	vs_check(r.getFieldCount() == 2 && r.getFieldAt(0)->getName() == name && r.getFieldAt(1)->getName() == "X-End" && txt(*r.getFieldAt(1)) == "z", "the header read back has exactly the fields set");
	vs_reach("end");
}
