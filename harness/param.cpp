// Parameters: parameter, parameterizedHeaderField (RFC 2045, RFC 2231)
#include "common.hpp"
#include "gen.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
namespace stub { void install(); }
typedef shared_ptr<parameterizedHeaderField> PF;
static PF mkf(int disp) { auto F = headerFieldFactory::getInstance(); auto f = F->create(disp ? "Content-Disposition" : "Content-Type"); if (disp) f->setValue(contentDisposition("attachment")); else f->setValue(mediaType("text", "plain")); return dynamicCast<parameterizedHeaderField>(f); }
static PF parseField(const string& s, size_t at, size_t len) {
	parsingContext ctx; size_t np = 0; string name; auto f = headerField::parseNext(ctx, s, at, at + len, &np); vs_check(np <= at + len, "parsing stops inside the region"); return dynamicCast<parameterizedHeaderField>(f);
}
static const char* SPECIAL = "\"\\ \t()<>@,;:/[]?='*%.x";
static string valueOf(unsigned cls, size_t n) {
	if (cls == 9) return symStrIn(n, SPECIAL, strlen(SPECIAL));
	if (cls == 10) return symStrIn(n, range(0x20, 0x7e));
	if (cls == 11) return symStrIn(n, range(0x80, 0xff));
	if (cls == 12) return symStr(n);
	string s; for (size_t i = 0; i < n; i++) s += symChar(cls); return s;
}
static string fill(size_t n, unsigned kind) { if (kind == 7) { string s; for (size_t i = 0; i < n; i++) s += i % 5 == 4 ? "\"" : i % 5 == 2 ? " " : "x"; return s; } if (kind == 8) { string s; for (size_t i = 0; i < n; i++) s += i % 4 == 3 ? "%" : i % 4 == 1 ? ";" : "x"; return s; } return filler(n, kind); }
// C11: values survive
HARNESS h_param_rt() {
	stub::install();
	string name(P("name", 1) <= 1 ? "p" : P("name", 1) == 2 ? "filename" : "a-rather-long-parameter-name");
	unsigned ch = P("ch", 0); size_t mode = P("mode", 0);
	string v = fill(P("pre", 0), P("fill", 0)); v += valueOf(P("cls", 10), vs_choice(P("n", 2)) + 1 - P("empty", 0)); v += fill(P("post", 0), P("fill", 0));
	word w(v, charset(CHARSETS[ch])); if (P("lang", 0)) w.setLanguage("en");
	PF f = mkf(P("disp", 0)); size_t k = P("more", 0);
	f->appendParameter(make_shared<parameter>(name, w));
	for (size_t i = 0; i < k; i++) f->appendParameter(make_shared<parameter>(i ? "zz" : "b", word(i ? "v;w" : "v", charset("us-ascii"))));
	generationContext ctx; ctx.setMaxLineLength(P("mll", 76) ? P("mll", 76) : lineLengthLimits::infinite);
	if (mode) ctx.setEncodedParameterValueMode((generationContext::EncodedParameterValueModes)(mode - 1));
	string out; utility::outputStreamStringAdapter os(out); f->generate(ctx, os);
	observe("out", out);
	PF g = parseField(out + "\r\n", 0, out.size() + 2);
	vs_check(g != NULL, "the field is read back"); if (!g) return;
	vs_check(g->getParameterCount() == 1 + k, "as many parameters are read as were written");
	if (!g->hasParameter(name)) { vs_check(0, "the parameter is read back"); return; }
	auto q = g->findParameter(name); observe("back", q->getValue().getBuffer());
	checkEq(q->getValue().getBuffer(), v, "the value read is the value written");
	if (!v.empty() && ch != 2 && P("cls", 10) == 11) vs_check(q->getValue().getCharset() == w.getCharset(), "the charset read is the charset written");
	for (size_t i = 0; i < k; i++) { vs_check(g->hasParameter(i ? "zz" : "b"), "the other parameters are read back"); if (g->hasParameter(i ? "zz" : "b")) vs_check(g->findParameter(i ? "zz" : "b")->getValue().getBuffer() == (i ? "v;w" : "v"), "the other parameters keep their values"); }
	vs_reach("end");
}

// C11: what is generated is well formed
HARNESS h_param_wf() {
	stub::install();
	size_t mll = P("mll", 76), mode = P("mode", 0); unsigned ch = P("ch", 0);
	string v = fill(P("pre", 0), P("fill", 0)); v += valueOf(P("cls", 10), P("n", 2));
	PF f = mkf(P("disp", 0)); f->appendParameter(make_shared<parameter>("pp", word(v, charset(CHARSETS[ch]))));
	generationContext ctx; ctx.setMaxLineLength(mll); if (mode) ctx.setEncodedParameterValueMode((generationContext::EncodedParameterValueModes)(mode - 1));
	string out; utility::outputStreamStringAdapter os(out); f->generate(ctx, os); observe("out", out);
	static unsigned char tok[256], ext[256], qt[256]; // token, attribute (and a raw "*", as an existing test has it) and quoted-text characters
	for (int c = 0x21; c < 0x7f; c++) { tok[c] = !strchr("()<>@,;:\\\"/[]?=", c); ext[c] = tok[c] && c != '\''; }
	for (int c = 0; c < 0x80; c++) qt[c] = c != '"' && c != '\\';
	size_t i = out.find(';'); unsigned bad = 0;
	while (i < out.size()) {
		vs_check(out[i] == ';', "parameters are separated by ';'"); if (out[i] != ';') return; i++;
		while (i < out.size() && (out[i] == ' ' || out[i] == '\r' || out[i] == '\n')) i++;
		size_t a = i; while (i < out.size() && out[i] != '=') { bad |= !tok[(unsigned char)out[i]]; i++; }
		vs_check(i > a && i < out.size(), "a parameter has a name and a value"); if (i >= out.size()) return;
		bool enc = out[i - 1] == '*'; i++;
		if (i < out.size() && out[i] == '"') {
			vs_check(!enc, "an encoded value is not quoted"); i++;
			for (;;) { if (i >= out.size()) { vs_check(0, "a quoted string is closed"); return; } if (out[i] == '"') { i++; break; } if (out[i] == '\\') { i++; vs_check(i < out.size(), "a quoted pair is complete"); if (i >= out.size()) return; i++; } else { bad |= !(qt[(unsigned char)out[i]] || out[i] == '\r' || out[i] == '\n'); i++; } }
		} else if (enc) {
			if (out.compare(a, 4, "pp*=") == 0 || out.compare(a, 5, "pp*0*") == 0) { string cs(CHARSETS[ch]); cs += "''"; vs_check(out.compare(i, cs.size(), cs) == 0, "the first section names the charset"); i += cs.size(); }
			while (i < out.size() && out[i] != ';') {
				if (out[i] == '%') { vs_check(i + 2 < out.size() && isxdigit((unsigned char)out[i + 1]) && isxdigit((unsigned char)out[i + 2]), "a percent sign is followed by two digits"); i += 3; }
				else { bad |= !ext[(unsigned char)out[i]]; i++; }
			}
		} else { size_t b = i; while (i < out.size() && out[i] != ';') { bad |= !tok[(unsigned char)out[i]]; i++; } vs_check(i > b, "a token is not empty"); }
	}
	vs_check(!bad, "every character is allowed where it is");
	vs_reach("end");
}

// C11: any text parses inside its region; what surrounds it has no influence; what was understood is stable
static const char* PFX[] = { "", "; a", "; a=", "; a=\"", "; a=\"x\\", "; a*=", "; a*0*=utf-8''x; a*", "; a*=u'e'%4", "; a*1*=%41; a*0*=us-ascii''", "; a=\"=?utf-8?Q?", ";;", "; a*2=x; a*10=y; a*1=z; a", "; a=b; a*=''c; a=" };
HARNESS h_param_parse() {
	stub::install();
	string in = "Content-Type: text/plain"; in += PFX[P("pfx", 0)]; in += P("set", 1) ? symStrUpToIn(P("n", 3), "; =\"\\*%'0a\r\n?_") : symStrUpTo(P("n", 3));
	string big = "X: y\r\n" + in + (P("after", 0) ? "\"" : P("after", 0) == 2 ? ";z=1" : "*0=q");
	// end of region: no line break needed
	parsingContext ctx; size_t np = 0;
	auto f1 = dynamicCast<parameterizedHeaderField>(headerField::parseNext(ctx, big, 6, 6 + in.size(), &np));
	auto f2 = dynamicCast<parameterizedHeaderField>(headerField::parseNext(ctx, in, 0, in.size(), NULL));
	vs_check(f1 && f2, "the field is read"); if (!f1 || !f2) return;
	vs_check(np <= 6 + in.size(), "parsing stops inside the region");
	vs_check(f1->getParameterCount() == f2->getParameterCount(), "what surrounds the field does not change its parameters");
	for (size_t i = 0; i < f1->getParameterCount() && i < f2->getParameterCount(); i++) {
		auto a = f1->getParameterAt(i), b = f2->getParameterAt(i);
		checkEq(a->getName(), b->getName(), "what surrounds the field does not change its names");
		checkEq(a->getValue().getBuffer(), b->getValue().getBuffer(), "what surrounds the field does not change its values");
		vs_check(a->getParsedOffset() >= 6 && a->getParsedOffset() + a->getParsedLength() <= 6 + in.size(), "a parameter lies inside the field");
		if (i == 0) { observe("n", a->getName()); observe("v", a->getValue().getBuffer()); }
	}
	vs_reach("end");
}

// C11: every RFC 2231 representation of a value by another program is understood
HARNESS h_param_foreign() {
	stub::install();
	size_t k = P("k", 2), n = P("n", 1); string v; std::vector<string> sec; static const char HEX[] = "0123456789ABCDEF", hex[] = "0123456789abcdef";
	unsigned form = P("form", 0); // 0: sections, each encoded or quoted or a token; 1: one extended value; 2: a quoted string; 3: a token
	for (size_t i = 0; i < k; i++) {
		string s = form == 3 ? symStrIn(n, "!#$&+-.0Az^_`{|}~") : symStrIn(n, range(0x20, 0x7e)); int how = form == 0 ? vs_choice(3) : form == 1 ? 0 : form == 2 ? 1 : 2; string t, eq;
		if (how == 2 && form == 0) { s = symStrIn(n, "!#$&+-.0Az^_`{|}~"); }
		if (how == 0 && form == 1) s = symStr(n);
		if (how == 0) for (char c : s) { unsigned char b = c; if (vs_choice(2)) { t += '%'; if (vs_choice(2)) { t += HEX[b >> 4]; t += HEX[b & 15]; } else { t += hex[b >> 4]; t += hex[b & 15]; } } else { vs_assume(b > 0x20 && b < 0x7f && !strchr("()<>@,;:\\\"/[]?=*'%", b)); t += c; } }
		else if (how == 1) { t = "\""; for (char c : s) { if (vs_choice(2)) t += '\\'; else vs_assume(c != '"' && c != '\\'); t += c; } t += "\""; }
		else t = s;
		if (form == 0 || form == 1) { if (how == 0 && i == 0) t = "iso-8859-1'en'" + t; eq = form == 1 ? "*=" : string("*") + char('0' + i) + (how == 0 ? "*=" : "="); } else eq = "=";
		sec.push_back("nm" + eq + t); v += s; if (form != 0) break;
	}
	// what looks like an encoded word in an unencoded value is (deliberately) decoded
	vs_assume(v.find("=?") == string::npos);
	size_t first = P("order", 1) ? vs_choice(sec.size()) : 0;
	string in = "Content-Type: text/plain"; for (size_t i = 0; i < sec.size(); i++) { static const char* SEP[] = { "; ", ";", ";\r\n ", " ; " }; in += SEP[P("seps", 1) ? vs_choice(4) : 0]; in += sec[(i + first) % sec.size()]; }
	if (P("tail", 0)) in += "; zz=1";
	observe("in", in); observe("v", v);
	PF f = parseField(in + "\r\n", 0, in.size() + 2); if (!f) { vs_check(0, "the field is read"); return; }
	vs_check(f->getParameterCount() == 1 + P("tail", 0), "one parameter is read"); vs_check(f->hasParameter("NM"), "the parameter is found by its name whatever the case"); if (!f->hasParameter("nm")) return;
	observe("back", f->findParameter("nm")->getValue().getBuffer());
	checkEq(f->findParameter("nm")->getValue().getBuffer(), v, "the value is understood");
	vs_reach("end");
}

// C04: the size estimated for a parameterized field is an upper bound
HARNESS h_param_size() {
	stub::install();
	unsigned ch = P("ch", 0); size_t mode = P("mode", 0);
	string v = fill(P("pre", 0), P("fill", 0)); v += valueOf(P("cls", 9), P("n", 1)); v += fill(P("post", 0), P("fill", 0));
	static const char* NM[] = { "p", "filename", "a-rather-long-parameter-name", "a-parameter-name-that-is-so-long-that-nothing-else-can-stand-on-its-line-with-it" };
	PF f = mkf(P("disp", 0)); word w(v, charset(CHARSETS[ch])); if (P("lang", 0)) w.setLanguage("en"); f->appendParameter(make_shared<parameter>(NM[P("name", 0)], w));
	generationContext ctx; if (P("mll", 0)) ctx.setMaxLineLength(P("mll", 0)); if (mode) ctx.setEncodedParameterValueMode((generationContext::EncodedParameterValueModes)(mode - 1));
	string out; utility::outputStreamStringAdapter os(out); f->generate(ctx, os); observe("out", out);
	vs_observe_int("est", f->getGeneratedSize(ctx)); vs_observe_int("act", out.size());
	vs_check(f->getGeneratedSize(ctx) >= out.size(), "the size estimated for a field with parameters is not smaller than what is generated");
	string po; utility::outputStreamStringAdapter ps(po); f->getParameterAt(0)->generate(ctx, ps); vs_check(f->getParameterAt(0)->getGeneratedSize(ctx) >= po.size(), "the size estimated for a parameter is not smaller than what is generated");
	vs_reach("end");
}
