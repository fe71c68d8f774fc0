// C25: IMAP commands and their arguments
#include "net.hpp"
#include "vmime/net/imap/IMAPCommand.hpp"
#include "vmime/net/imap/IMAPConnection.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
using namespace net::imap; using net::messageSet; using net::fetchAttributes;
static bool atomChar(char c) { return (unsigned char)c > 32 && (unsigned char)c < 127 && c != '(' && c != ')' && c != '{' && c != '%' && c != '*' && c != '"' && c != '\\'; }
// reads the text of a command as a server does (RFC 3501)
struct rd { const string& t; size_t p = 0; explicit rd(const string& x) : t(x) {}
	void lit(const char* s) { for (; *s; s++, p++) vs_check(p < t.size() && t[p] == *s, "a command has its form"); }
	string astring() { string r; if (p < t.size() && t[p] == '"') { p++; for (;;) { vs_check(p < t.size(), "a quoted string ends"); char c = t[p++]; if (c == '"') break; if (c == '\\') { vs_check(p < t.size() && (t[p] == '"' || t[p] == '\\'), "only quotes and backslashes are escaped"); c = t[p++]; } else vs_check(vs_and(vs_and(c != '\r', c != '\n'), c != 0), "a quoted string is on one line"); r += c; } return r; } size_t b = p; while (p < t.size() && atomChar(t[p])) r += t[p++]; vs_check(p > b, "an argument is there"); return r; }
	void arg(const string& want, const char* l = "an argument is read back as it was given") { string g = astring(); checkEq(g, want, l); }
	void end() { vs_check(p == t.size(), "a command ends with its last argument"); } };
static string sym(const char* l) { string s = P("set", 0) ? symStrIn(vs_choice(P("n", 2) + 1), string("\"\\ {}()*\r\na%]\0", 14)) : symStr(vs_choice(P("n", 2) + 1)); static const char* PRE[] = { "", "a", "\\", "{1}", " " }; s = PRE[P("pre", 0)] + s; observe(l, s); return s; }
static int oneLine(const string& s) { int bad = 0; for (char c : s) bad = vs_or(bad, vs_or(vs_or(c == '\r', c == '\n'), c == 0)); return !bad; }
HARNESS h_imap_cmd() {
	stub::install(); string a = sym("a"), b; shared_ptr<IMAPCommand> c; unsigned k = P("kind", 0); if (k == 0 || k == 1 || k == 7) b = sym("b"); std::vector<string> none, two = { "X", "Y" }; std::vector<string> par = P("par", 0) ? two : none;
	try { switch (k) { case 0: c = IMAPCommand::LOGIN(a, b); break; case 1: c = IMAPCommand::LIST(a, b); break; case 2: c = IMAPCommand::SELECT(P("ro", 0), a, par); break; case 3: c = IMAPCommand::STATUS(a, two); break; case 4: c = IMAPCommand::CREATE(a, par); break; case 5: c = IMAPCommand::DELETE(a); break; case 6: c = IMAPCommand::COPY(messageSet::byNumber(2, 4), a); break; case 7: c = IMAPCommand::RENAME(a, b); break; case 8: c = IMAPCommand::APPEND(a, par, NULL, 12); break;
		case 9: { std::vector<string> keys = { "ALL" }; vmime::charset cs(a); c = P("uid", 0) ? IMAPCommand::UIDSEARCH(keys, &cs) : IMAPCommand::SEARCH(keys, &cs); break; } }
	} catch (exceptions::invalid_argument&) { int ok = vs_and(oneLine(a), oneLine(b)); vs_check(!ok, "an argument of one line is accepted"); vs_reach("refused"); vs_end(); }
	string t = c->getText(); observe("t", t); vs_check(oneLine(t), "a command is one line"); rd r(t);
	switch (k) { case 0: r.lit("LOGIN "); r.arg(a); r.lit(" "); r.arg(b); vs_check(c->getTraceText() == "LOGIN {username} {password}", "a password is not traced"); break; case 1: r.lit("LIST "); r.arg(a); r.lit(" "); r.arg(b); break; case 2: r.lit(P("ro", 0) ? "EXAMINE " : "SELECT "); r.arg(a); if (par.size()) r.lit(" (X Y)"); break; case 3: r.lit("STATUS "); r.arg(a); r.lit(" (X Y)"); break; case 4: r.lit("CREATE "); r.arg(a); if (par.size()) r.lit(" (X Y)"); break; case 5: r.lit("DELETE "); r.arg(a); break; case 6: r.lit("COPY 2:4 "); r.arg(a); break; case 7: r.lit("RENAME "); r.arg(a); r.lit(" "); r.arg(b); break; case 8: r.lit("APPEND "); r.arg(a); if (par.size()) r.lit(" (X Y)"); r.lit(" {12}"); break; case 9: r.lit(P("uid", 0) ? "UID SEARCH CHARSET " : "SEARCH CHARSET "); r.arg(a); r.lit(" ALL"); break; }
	r.end(); vs_reach("end");
}
typedef IMAPSearchTokenPtr tok; typedef IMAPSearchTokenFactory F;
HARNESS h_imap_search() { // search keys
	stub::install(); IMAPSearchAttributes sa; unsigned k = P("kind", 0); string a; static const char* STR[] = { "BCC", "BODY", "CC", "FROM", "SUBJECT", "TEXT", "TO" }; string want; tok tk; uint32_t n = 0; std::string fld;
	if (k < 7) { a = sym("a"); tk = k == 0 ? F::BCC(a) : k == 1 ? F::BODY(a) : k == 2 ? F::CC(a) : k == 3 ? F::FROM(a) : k == 4 ? F::SUBJECT(a) : k == 5 ? F::TEXT(a) : F::TO(a); }
	else if (k == 7) { a = sym("a"); fld = sym("f"); for (char x : fld) vs_assume(x != 0); tk = F::HEADER(fld.c_str(), a); }
	else if (k == 8) { n = vs_u32(); vs_assume(n % 1000 == 7); unsigned sh = vs_choice(3); if (sh == 0) vs_assume(n < 100000); if (sh == 1) vs_assume(n >= 4294900000u); if (sh == 2) vs_assume(vs_and(n >= 2147480000u, n < 2147490000u)); n = (uint32_t)vs_concrete(n); tk = F::LARGER(n); }
	else if (k == 9) tk = F::UID(P("open", 0) ? messageSet::byUID("3", "*") : messageSet::byUID("3", "5")); else if (k == 10) tk = F::MESSAGESET(P("open", 0) ? messageSet::byNumber(3, -1) : messageSet::byNumber(3, 5));
	else if (k == 11) { a = sym("a"); tk = F::NOT(F::SUBJECT(a)); } else if (k == 12) { a = sym("a"); tk = F::OR(F::SEEN(), F::FROM(a)); } else if (k == 13) { a = sym("a"); tk = F::AND(std::vector<tok>{ F::FROM(a), F::UNSEEN() }); }
	else if (k == 14) { int y = 2000 + int(vs_choice(30)); int mo = 1 + int(vs_choice(12)); int da = 1 + int(vs_choice(28)); datetime d(y, mo, da, 1, 2, 3, 0); tk = F::BEFORE(d); static const char* M[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; want = "BEFORE " + std::to_string(d.getDay()) + "-" + M[d.getMonth() - 1] + "-" + std::to_string(d.getYear()); }
	sa.add(tk); sa.add(F::DELETED()); shared_ptr<IMAPCommand> c; try { c = IMAPCommand::SEARCH(sa.generate(), NULL); } catch (exceptions::invalid_argument&) { int ok = vs_and(oneLine(a), oneLine(fld)); vs_check(!ok, "an argument of one line is accepted"); vs_reach("refused"); vs_end(); }
	string t = c->getText(); observe("t", t); vs_check(oneLine(t), "a command is one line"); rd r(t); r.lit("SEARCH ");
	if (k < 7) { r.lit(STR[k]); r.lit(" "); r.arg(a); } else if (k == 7) { r.lit("HEADER "); r.arg(fld); r.lit(" "); r.arg(a); } else if (k == 8) { r.lit("LARGER "); r.lit(std::to_string(n).c_str()); } else if (k == 9) r.lit(P("open", 0) ? "UID 3:*" : "UID 3:5"); else if (k == 10) { bool par = r.p < t.size() && t[r.p] == '('; if (par) r.lit("("); r.lit(P("open", 0) ? "3:*" : "3:5"); if (par) r.lit(")"); }
	else if (k == 11) { r.lit("NOT "); bool par = r.p < t.size() && t[r.p] == '('; if (par) r.lit("("); r.lit("SUBJECT "); r.arg(a); if (par) r.lit(")"); } else if (k == 12) { r.lit("OR SEEN FROM "); r.arg(a); } else if (k == 13) { r.lit("(FROM "); r.arg(a); r.lit(" UNSEEN)"); } else r.lit(want.c_str());
	r.lit(" DELETED"); r.end(); vs_reach("end");
}
HARNESS h_imap_fetch() { // header names in FETCH
	stub::install(); string a = sym("a"); fetchAttributes at; at.add(a); if (P("peek", 0)) at.add(fetchAttributes::PEEK); if (P("imp", 0)) at.add(fetchAttributes::IMPORTANCE); shared_ptr<IMAPCommand> c; try { c = IMAPUtils::buildFetchCommand(null, messageSet::byNumber(7), at); } catch (exceptions::invalid_argument&) { int ok = oneLine(a); vs_check(!ok, "an argument of one line is accepted"); vs_reach("refused"); vs_end(); }
	string t = c->getText(); observe("t", t); vs_check(oneLine(t), "a command is one line"); rd r(t); r.lit(P("peek", 0) ? "FETCH 7 BODY.PEEK[HEADER.FIELDS (" : "FETCH 7 BODY[HEADER.FIELDS ("); if (P("imp", 0)) r.lit("IMPORTANCE X-PRIORITY "); string g = r.astring(); string w = a; for (char& x : w) if (x >= 'A' && x <= 'Z') x = char(x + 32); for (char& x : g) if (x >= 'A' && x <= 'Z') x = char(x + 32); checkEq(g, w, "a header name is read back as it was given"); r.lit(")]"); r.end(); vs_reach("end");
}
