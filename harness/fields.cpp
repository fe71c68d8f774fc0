// Small structured field values (media types, dispositions, message ids, encodings, relays, paths, receipts), property sets
#include "common.hpp"
#include "gen.hpp"
#include "vmime/propertySet.hpp"
#include "vmime/disposition.hpp"
#include "vmime/path.hpp"
#include "vmime/relay.hpp"
namespace stub { void install(); }
static const string LOW = range('a', 'z') + range('0', '9') + "-+.";
static const string TOK = range('0', '9') + range('A', 'Z') + range('a', 'z') + "!#$%&'*+-.^_`{|}~";
static const char* NAME[] = { "Content-Type", "Content-Disposition", "Message-Id", "References", "Content-Transfer-Encoding", "Received", "Disposition", "Return-Path" };
typedef shared_ptr<headerFieldValue> HV;
static HV fresh(size_t k) {
	switch (k) {
	case 0: return make_shared<mediaType>(); case 1: return make_shared<contentDisposition>(); case 2: return make_shared<messageId>(); case 3: return make_shared<messageIdSequence>();
	case 4: return make_shared<encoding>(); case 5: return make_shared<relay>(); case 6: return make_shared<disposition>(); default: return make_shared<path>();
	}
}
// everything a value says, through its accessors
static string said(size_t k, const headerFieldValue& v) {
	string r; auto add = [&](const string& s) { r += s; r += '|'; };
	switch (k) {
	case 0: { auto& x = dynamic_cast<const mediaType&>(v); add(x.getType()); add(x.getSubType()); break; }
	case 1: add(dynamic_cast<const contentDisposition&>(v).getName()); break;
	case 2: { auto& x = dynamic_cast<const messageId&>(v); add(x.getLeft()); add(x.getRight()); break; }
	case 3: { auto& x = dynamic_cast<const messageIdSequence&>(v); for (size_t i = 0; i < x.getMessageIdCount(); i++) { add(x.getMessageIdAt(i)->getLeft()); add(x.getMessageIdAt(i)->getRight()); } break; }
	case 4: { auto& x = dynamic_cast<const encoding&>(v); add(x.getName()); add(x.getUsage() == encoding::USAGE_TEXT ? "t" : x.getUsage() == encoding::USAGE_BINARY_DATA ? "b" : "u"); break; }
	case 5: { auto& x = dynamic_cast<const relay&>(v); add(x.getFrom()); add(x.getBy()); add(x.getVia()); for (auto& w : x.getWithList()) add(w); r += '/'; add(x.getId()); add(x.getFor()); add(x.getDate().generate()); break; }
	case 6: { auto& x = dynamic_cast<const disposition&>(v); add(x.getActionMode()); add(x.getSendingMode()); add(x.getType()); for (auto& m : x.getModifierList()) add(m); break; }
	default: { auto& x = dynamic_cast<const path&>(v); add(x.getLocalPart()); add(x.getDomain()); }
	}
	return r;
}
static string tok(size_t n, const string& set) { string s(P("pre", 0), 'x'); s += symStrIn(n, set); return s; }
static const char* WITH[] = { "esmtp", "smtp (tls 1.2)" };
// a value of kind k built from symbolic tokens
static HV build(size_t k, size_t n) {
	switch (k) {
	case 0: { auto x = make_shared<mediaType>(); x->setType(tok(n, LOW)); x->setSubType(tok(n, LOW)); return x; }
	case 1: return make_shared<contentDisposition>(tok(n, LOW));
	case 2: { string l = tok(n, TOK), r = symStrIn(vs_choice(n + 1), TOK); return make_shared<messageId>(l, r); }
	case 3: { auto x = make_shared<messageIdSequence>(); size_t c = vs_choice(P("k", 3)); for (size_t i = 0; i < c; i++) { string l = tok(n, TOK), r = symStrIn(n, TOK); x->appendMessageId(make_shared<messageId>(l, r)); } return x; }
	case 4: return make_shared<encoding>(tok(n, LOW));
	case 5: { auto x = make_shared<relay>(); static const string W = range('a', 'z') + range('0', '9') + ".-["; unsigned m = P("mask", 63);
		auto val = [&]() { string s = tok(n, W); switch (vs_choice(P("forms", 2))) { case 1: s += " (c d)"; break; case 2: s += " e"; break; } static const char* KW[] = { "from", "by", "via", "with", "id", "for" }; for (auto w : KW) if (s.size() >= strlen(w) && s.compare(0, strlen(w), w) == 0 && (s.size() == strlen(w) || s[strlen(w)] == ' ')) vs_end(); return s; };
		if (m & 1) x->setFrom(val());
		if (m & 2) x->setBy(val());
		if (m & 4) x->setVia(val());
		if (m & 8) { size_t c = vs_choice(3); for (size_t i = 0; i < c; i++) x->getWithList().push_back(WITH[i]); }
		if (m & 16) x->setId(val());
		if (m & 32) x->setFor(val());
		x->setDate(datetime(2012, 1, 2, 10, 26, 40, 60)); return x; }
	case 6: { auto x = make_shared<disposition>(); static const string T = range('a', 'z') + range('A', 'Z') + "-"; string a = tok(n, T), b = symStrIn(n, T), c = symStrIn(n, T); x->setActionMode(a); x->setSendingMode(b); x->setType(c); size_t m = vs_choice(3); for (size_t i = 0; i < m; i++) { string d = symStrIn(n, T); x->addModifier(d); } return x; }
	default: { string l = tok(n, TOK), d = symStrIn(n, LOW); return make_shared<path>(l, d); }
	}
}
static HV valueOf(const headerField& f) { return constCast<headerFieldValue>(f.getValue()); }

// C35: what is generated in a header is read back; clones and copies are equal and independent
HARNESS h_fields_rt() {
	stub::install();
	size_t k = P("kind", 0); HV v = build(k, P("n", 2)); string want = said(k, *v);
	generationContext ctx; ctx.setMaxLineLength(P("mll", 76) ? P("mll", 76) : lineLengthLimits::infinite); if (P("wrapid", 0)) ctx.setWrapMessageId(false);
	auto f = headerFieldFactory::getInstance()->create(NAME[k]); f->setValue(v);
	string out; utility::outputStreamStringAdapter os(out); f->generate(ctx, os); observe("out", out);
	parsingContext pc; auto g = headerField::parseNext(pc, out + "\r\n", 0, out.size() + 2); vs_check(g != NULL, "the field is read back"); if (!g) return;
	string back = said(k, *valueOf(*g)); observe("back", back);
	checkEq(back, want, "the value read is the value written");
	auto c = dynamicCast<headerFieldValue>(v->clone()); checkEq(said(k, *c), want, "a clone is equal");
	HV d = build(k, 1); d->copyFrom(*v); checkEq(said(k, *d), want, "a copy is equal");
	HV o = fresh(k); v->copyFrom(*o); checkEq(said(k, *c), want, "a clone does not change with its original"); checkEq(said(k, *d), want, "a copy does not change with its original");
	vs_reach("end");
}
// C35: copies keep the usage and the language
HARNESS h_fields_copy() {
	stub::install();
	encoding e(encodingTypes::QUOTED_PRINTABLE, vs_choice(2) ? encoding::USAGE_TEXT : encoding::USAGE_BINARY_DATA);
	encoding a(e), b, c; b = e; c.copyFrom(e); auto d = vmime::clone(e);
	vs_check(a.getUsage() == e.getUsage() && b.getUsage() == e.getUsage() && c.getUsage() == e.getUsage() && d->getUsage() == e.getUsage(), "a copied encoding keeps its usage");
	word w(symStrIn(2, LOW), charset("utf-8"), symStrIn(2, LOW)); word x(w), y, z; y = w; z.copyFrom(w); auto u = vmime::clone(w);
	vs_check(x == w, "a copied word is equal"); vs_check(y == w, "an assigned word is equal"); vs_check(z == w, "copyFrom gives an equal word"); vs_check(*u == w, "a cloned word is equal");
	text t; t.appendWord(make_shared<word>(w)); text t2(t), t3; t3 = t; auto t4 = vmime::clone(t);
	vs_check(t2 == t && t3 == t && *t4 == t, "copied texts are equal"); vs_check(t4->getWordAt(0)->getLanguage() == w.getLanguage(), "a cloned text keeps the language of its words");
	vs_reach("end");
}
static const char* PFX[8][8] = {
	{ "", "a/", "a", " a / b" , "A/b c" }, { "", "inline", " Atta" , "\tx y", "\"" },
	{ "", "<", "<a@b>", "(c<d@e>) <", "(\\(", "a@b", "<a@", ") <a@b>" }, { "", "<a@b>", "<a@b> <c@", "(x y) <a@b>", "a@b <c@d>", "<a@b>\r\n <", "<a", "<a> " },
	{ "", "7bit", "\"base64\"", " \"", "BASE64 " }, { "", "from a by ", "from a (b c", "with x with y; Mon", "for", "by via (", "; 1 Jan 2000 ", "from x id " },
	{ "", "a", "a/b", "a/b;", "a/b;c/", "a/b; c/d,", ";", " / ; /" }, { "", "<", "<a@", "<\"a@b\"", "a@b", " < ", "<a@b> ", "@" } };
static const char SYN[8][20] = { "aB/ \t;\"", "aB \t;\"=", "<>@ab (\\) ", "<>@a \t(\\)", "aB\"7 \t\\", "afb ();1y", "aB/;, \t", "<>@ab\" \\" };
// C35: any text is read inside its bounds, alone of what surrounds it and of what the object held, and keeps its meaning when written
HARNESS h_fields_parse() {
	stub::install();
	size_t k = P("kind", 0); string s = PFX[k][P("pfx", 0)]; s += P("set", 1) ? symStrUpToIn(P("n", 2), SYN[k]) : symStrUpTo(P("n", 2));
	string all = "xy<z;"; size_t at = all.size(); all += s; static const char* AFTER[] = { "", "a@b>;/x", "\";1)\\" }; all += AFTER[P("after", 1)];
	observe("s", s);
	HV v = fresh(k), w = P("used", 1) ? build(k, 1) : fresh(k); if (k == 4 && P("used", 1)) dynamicCast<encoding>(w)->setUsage(encoding::USAGE_TEXT);
	size_t np = 0; parsingContext pc; v->parse(s); w->parse(pc, all, at, at + s.size(), &np);
	vs_check(np >= at && np <= at + s.size(), "parsing stops inside the text");
	vs_check(w->getParsedOffset() >= at && w->getParsedOffset() + w->getParsedLength() <= at + s.size(), "the bounds of the value lie inside the text");
	string a = said(k, *v), b = said(k, *w); observe("said", a); checkEq(a, b, "the value depends on the text alone");
	// written and read again
	unsigned char hi = 0; bool brk = false; for (unsigned char c : s) { hi |= c; brk |= c == '\r' || c == '\n' || c == 0; }
	if (hi < 0x80 && !brk) {
		string out = v->generate(); HV r = fresh(k); r->parse(out); string o2 = r->generate(); HV q = fresh(k); q->parse(o2);
		checkEq(said(k, *q), said(k, *r), "what is written keeps its meaning");
		if (k != 5 && k != 6 && !(k == 7 && a.find_first_of("<>") != string::npos)) checkEq(said(k, *r), a, "what was read is written");
	}
	vs_reach("end");
}
static string cfws(size_t c) { static const char* C[] = { "", " ", "(a <x@y> b) ", "\t(\\)) ", "(a(b)c)", "\r\n " }; return C[c]; }
// C35: well-formed values of other programs
HARNESS h_fields_foreign() {
	stub::install();
	size_t k = P("kind", 2), n = P("n", 1); string s, want; auto add = [&](const string& x) { want += x; want += '|'; };
	switch (k) {
	case 0: { string a = symStrIn(n, TOK), b = symStrIn(n, TOK); size_t c = vs_choice(2); if (c) s += " "; s += a + "/" + b; if (vs_choice(2)) s += " "; for (auto x : { &a, &b }) for (auto& ch : *x) if (ch >= 'A' && ch <= 'Z') ch += 32; add(a); add(b); break; }
	case 2: { string a = symStrIn(n, TOK), b = symStrIn(n, TOK); s += cfws(vs_choice(6)); s += "<" + a; if (vs_choice(2)) s += "@" + b; else b.clear(); s += ">"; s += cfws(vs_choice(6)); add(a); add(b); break; }
	case 3: { size_t c = P("k", 2); s += cfws(vs_choice(6)); for (size_t i = 0; i < c; i++) { string a = symStrIn(n, TOK), b = symStrIn(n, TOK); s += "<" + a + "@" + b + ">"; s += cfws(vs_choice(6)); add(a); add(b); } break; }
	case 5: { static const string W = range('a', 'z') + range('0', '9') + ".-"; string v[6]; for (size_t i = 0; i < 6; i++) { if (i < P("sym", 2)) { v[i] = symStrIn(n, W); if (P("x", 0)) v[i] += "x"; } else v[i] = "v" + string(1, '0' + i); if (v[i] == "by" || v[i] == "id") vs_end(); }
		size_t form = vs_choice(3); if (form == 1) { v[0] += " (helo by me [1.2.3.4])"; } if (form == 2) v[1] += "(for x)";
		unsigned m = P("mask", 63); static const char* KW[] = { "from", "by", "via", "with", "id", "for" }; for (size_t i = 0; i < 6; i++) if (m >> i & 1) { s += KW[i]; s += i % 2 ? " " : vs_choice(2) ? "\r\n\t" : "  "; s += v[i]; s += " "; } else v[i].clear();
		s += "; Mon, 2 Jan 2012 10:26:40 +0100"; add(v[0]); add(v[1]); add(v[2]); if (m & 8) add(v[3]); want += '/'; add(v[4]); add(v[5]); add(datetime(2012, 1, 2, 10, 26, 40, 60).generate()); break; }
	case 6: { string a = symStrIn(n, range('a', 'z')), b = symStrIn(n, range('a', 'z')), t = symStrIn(n, range('a', 'z')); s = a; bool sp = vs_choice(2); if (sp) s += " \t "; s += "/"; if (sp) s += " \t"; s += b; if (sp) s += "\t  "; s += ";"; if (sp) s += " \t"; s += t; if (sp) s += " \t "; add(a); add(b); add(t); size_t m = vs_choice(3); for (size_t i = 0; i < m; i++) { string d = symStrIn(n, TOK); s += i ? "," : "/"; if (sp) s += " "; s += d; if (sp) s += " "; add(d); } break; }
	default: { string a = symStrIn(n, TOK), b = symStrIn(n, LOW); bool q = vs_choice(2); if (q) a = "\"" + a + "@x\""; switch (vs_choice(3)) { case 0: s = "<" + a + "@" + b + ">"; break; case 1: s = " < " + a + "@" + b + " > "; break; case 2: s = " " + a + "@" + b + " "; break; } add(a); add(b); }
	}
	observe("s", s); HV v = fresh(k); v->parse(s); checkEq(said(k, *v), want, "the value read is the one written");
	vs_reach("end");
}
// C33: modifiers are a set of names of any case
HARNESS h_disp_mods() {
	stub::install();
	disposition d; if (vs_choice(2)) d.parse("a/b;displayed/Error,x"); std::vector<string> model = d.getModifierList(); for (auto& m : model) for (auto& c : m) if (c >= 'A' && c <= 'Z') c += 32;
	static const char* M[] = { "error", "ERROR", "Warning", "X", "x" };
	for (size_t i = 0; i < P("ops", 2); i++) { string m = M[vs_choice(5)], l = utility::stringUtils::toLower(m); auto it = std::find(model.begin(), model.end(), l);
		switch (vs_choice(3)) { case 0: d.addModifier(m); if (it == model.end()) model.push_back(l); break; case 1: d.removeModifier(m); if (it != model.end()) model.erase(it); break; case 2: d.removeAllModifiers(); model.clear(); break; } }
	for (auto m : M) { bool in = std::find(model.begin(), model.end(), utility::stringUtils::toLower(m)) != model.end(); vs_check(d.hasModifier(m) == in, "a modifier is there when it was added, whatever its case"); }
	vs_check(d.getModifierList().size() == model.size(), "as many modifiers as were added");
	disposition e; e.parse(d.generate()); vs_check(e.getModifierList() == d.getModifierList(), "modifiers are read back");
	vs_reach("end");
}

// C29: a property set is a map from names without case to values
static string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
HARNESS h_props_map() {
	stub::install();
	propertySet p; std::vector<std::pair<string, string>> m; auto find = [&](const string& n) { size_t i = 0; while (i < m.size() && lower(m[i].first) != lower(n)) i++; return i; };
	auto set = [&](const string& n, const string& v) { size_t i = find(n); if (i < m.size()) m[i].second = v; else m.push_back({ n, v }); };
	static const char* N[] = { "a.b", "A.B", "c", "A.b.c" };
	for (size_t i = 0; i < P("ops", 3); i++) {
		string n = N[vs_choice(4)];
		switch (vs_choice(7)) {
		case 0: { string v = symStr(P("n", 2)); p.setProperty<string>(n, v); set(n, v); break; }
		case 1: { bool b = vs_choice(2); p.setProperty<bool>(n, b); set(n, b ? "true" : "false"); break; }
		case 2: { string v = symStr(1); p[n] = v; set(n, v); break; }
		case 3: { p.removeProperty(n); size_t j = find(n); if (j < m.size()) m.erase(m.begin() + j); break; }
		case 4: { propertySet q(p); q.setProperty<string>(n, "other"); q.removeProperty("c"); break; }
		case 5: { propertySet q; q.setProperty<string>("zz", "1"); q = p; p.removeAllProperties(); vs_check(q.getPropertyList().size() == m.size(), "a copy is independent"); p = q; break; }
		case 6: { p.setFromString(n + "=v"); set(n, "v"); break; }
		}
	}
	auto l = p.getPropertyList(); vs_check(l.size() == m.size(), "there are as many properties as were set");
	for (size_t i = 0; i < l.size() && i < m.size(); i++) { vs_check(l[i]->getName() == m[i].first, "properties keep their order and names"); checkEq(l[i]->getValue(), m[i].second, "properties keep their values"); }
	for (auto n : N) { size_t i = find(n); vs_check(p.hasProperty(n) == (i < m.size()), "a property is there if it was set");
		checkEq(p.getProperty<string>(n, "dflt"), i < m.size() ? m[i].second : "dflt", "a property has the value last set, or the default");
		bool thrown = false; string v; try { v = p.getProperty<string>(n); } catch (exceptions::no_such_property&) { thrown = true; } vs_check(thrown == (i == m.size()), "a missing property is reported"); if (!thrown) checkEq(v, m[i].second, "a property has the value last set"); }
	vs_reach("end");
}
// C29: conversions
HARNESS h_props_conv() {
	stub::install();
	propertySet p;
	switch (P("kind", 0)) {
	case 0: { static const int B[] = { 0, -1, 2147483647, -2147483647 - 1, 100, -99, 10000 }; int v = B[vs_choice(7)]; int d = vs_range(0, 9); if (v < 0) v += d; else if (v != 2147483647) v += d; p.setProperty<int>("x", v); vs_check(p.getProperty<int>("x") == v, "an integer is read as written"); vs_check(p.getProperty<bool>("x") == (v != 0), "a number is true if it is not zero"); break; }
	case 1: { bool b = vs_choice(2); p.setProperty("x", b); vs_check(p.getProperty<bool>("x") == b, "a boolean is read as written"); break; }
	case 2: { string s = symStrIn(P("n", 4), "truefalTRUE"); p.setProperty<string>("x", s); vs_check(p.getProperty<bool>("x") == (lower(s) == "true"), "a word is true if it is \"true\""); break; }
	case 3: { size_t n = 1 + vs_choice(P("n", 3)); string s = symStrIn(n, "0123456789"); p.setProperty<string>("x", s); unsigned long v = 0; for (char c : s) v = v * 10 + (c - '0'); vs_check(p.getProperty<unsigned long>("x") == v, "digits are read as their number"); vs_check((unsigned long)p.getProperty<int>("x") == v, "digits are read as their number"); vs_check(p.getProperty<bool>("x") == (v != 0), "a number is true if it is not zero"); break; }
	case 4: { string s = symStrIn(P("n", 2), "xyz .,;"); p.setProperty<string>("x", s); bool t = false; try { p.getProperty<int>("x"); } catch (exceptions::invalid_property_type&) { t = true; } vs_check(t, "text that is no number is refused"); vs_check(!p.getProperty<bool>("x"), "text that is no number is false"); break; }
	case 5: { size_t v = vs_choice(2) ? (size_t)-1 : 70000; v -= vs_range(0, 9); p.setProperty<size_t>("x", v); vs_check(p.getProperty<size_t>("x") == v, "a size is read as written"); break; }
	}
	vs_reach("end");
}
// C29: a text lists properties
HARNESS h_props_parse() {
	stub::install();
	string s; std::vector<std::pair<string, string>> m; size_t k = P("k", 2), n = P("n", 1); static const string S = range(0x21, 0x3a) + range('<', '~') + "\xe9"; string SN, SV; for (char c : S) { if (c != '=' && c != '"' && c != '\'') SN += c; SV += c; }
	static const char* SP[] = { "", " ", " \t" };
	for (size_t i = 0; i < k; i++) {
		if (i) s += vs_choice(P("semis", 2)) ? ";;" : ";";
		size_t sp = vs_choice(P("blanks", 2)); s += SP[sp]; string name = i ? "q" : "p"; name += symStrIn(n, SN); s += name; s += SP[sp]; string v;
		switch (vs_choice(4)) {
		case 0: v = "1"; break; // name alone
		case 1: { v = P("first", 0) ? "b" : ""; v += symStrIn(n, P("first", 0) ? SV : SN); v += "z"; s += "="; s += SP[sp]; s += v; s += SP[sp]; break; }
		case 2: { char q = vs_choice(2) ? '"' : '\''; s += "="; s += SP[sp]; s += q; for (size_t j = 0; j < n + 1; j++) { string c = symStrIn(1, q == '"' ? "a ;='" : "a ;=\""); s += c; v += c; } s += q; s += SP[sp]; break; }
		case 3: { s += "=\""; string c = symStr(1); s += "\\" + c; v = c; s += "\""; break; }
		}
		m.push_back({ name, v });
	}
	if (P("semis", 2) > 1 && vs_choice(2)) s += ";";
	observe("s", s); propertySet p(s); auto l = p.getPropertyList(); vs_check(l.size() == m.size(), "as many properties are read as are listed");
	for (size_t i = 0; i < l.size() && i < m.size(); i++) { checkEq(l[i]->getName(), m[i].first, "the name is the one listed"); checkEq(l[i]->getValue(), m[i].second, "the value is the one listed"); }
	vs_reach("end");
}
// C29: any text is read safely
HARNESS h_props_any() {
	stub::install();
	static const char* PF[] = { "", "a=\"x\\", "a", "a=", "; ", "a='", "a=b;" }; string s = PF[P("pfx", 0)]; s += P("set", 1) ? symStrUpToIn(P("n", 3), "a=;\"'\\ \t") : symStrUpTo(P("n", 3));
	propertySet p(s); auto l = p.getPropertyList(); vs_check(l.size() <= s.size(), "no more properties than characters"); for (auto& x : l) { observe("n", x->getName()); observe("v", x->getValue()); vs_check(p.hasProperty(x->getName()), "a property read is found"); }
	vs_reach("end");
}
