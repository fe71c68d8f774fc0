// C18: URLs
#include "common.hpp"
#include "gen.hpp"
#include "vmime/utility/url.hpp"
#include "vmime/utility/urlUtils.hpp"
namespace stub { void install(); }
using utility::url; using utility::urlUtils;
static const char* TOK = "@:/?&=%#[]. a0";
static string val(size_t n, unsigned set) { return set == 0 ? symStr(n) : set == 1 ? symStrIn(n, string(TOK)) : symStrIn(n, string("0:f[]g./@")); }
static string comp(unsigned who) { static const char* FIX[] = { "u", "p", "host.org", "pa/th", "k", "v" }; return P("who", 0) == who ? string(P("cpre", 0) ? "ab" : "") + val(vs_choice(P("n", 2) + 1), P("set", 0)) + (P("cpost", 0) ? "ba" : "") : string(P("bare", 0) ? "" : FIX[who]); }
HARNESS h_url_rt() {
	stub::install();
	string user = comp(0), pass = comp(1), host = comp(2), path = comp(3), k = comp(4), v = comp(5); unsigned port = 80;
	if (host.empty()) { if (P("file", 0) == 0) host = "h"; } if (P("file", 0)) { user = pass = host = ""; }
	switch (P("port", 0)) { case 0: port = url::UNSPECIFIED_PORT; break; case 1: port = vs_u16(); vs_assume(vs_and(port != 0, port != url::UNSPECIFIED_PORT)); break; case 2: port = 143; break; }
	url a(P("file", 0) ? "file" : "imaps", host, (port_t)port, path, user, pass); if (!(k.empty() && v.empty())) a.getParams()[k] = v; if (P("second", 0)) a.getParams()["zz"] = "&=";
	string s = string(a); observe("s", s);
	url b("x://y:1/z?o=p"); b = s;
	vs_check(b.getProtocol() == a.getProtocol(), "the protocol is kept"); checkEq(b.getUsername(), user, "the user name is kept"); checkEq(b.getPassword(), pass, "the password is kept"); checkEq(b.getHost(), host, "the host is kept");
	vs_check(b.getPort() == (port_t)port, "the port is kept"); checkEq(b.getPath(), path, "the path is kept");
	vs_check(b.getParams().size() == a.getParams().size(), "as many parameters are read"); for (auto& q : a.getParams()) { auto i = b.getParams().find(q.first); vs_check(i != b.getParams().end(), "the name of a parameter is kept"); checkEq(i->second, q.second, "the value of a parameter is kept"); }
	checkEq(string(b), s, "the URL is built the same again");
	// what is between the protocol and the host of a URL is delimited by the first characters a browser would use
	if (P("file", 0) == 0) { size_t at = 0, i = 8; for (; i < s.size() && s[i] != '/'; i++) at += s[i] == '@'; vs_check(at == (user.empty() && pass.empty() ? 0u : 1u), "only the separator before the host is an '@'"); }
	vs_reach("end");
}
HARNESS h_url_codec() {
	string s = symStr(vs_choice(P("n", 2) + 1)) + (P("tail", 0) ? "%4" : ""); string e = urlUtils::encode(s), d = urlUtils::decode(e); observe("e", e);
	checkEq(d, s, "percent-encoded text is decoded to what it was"); int ok = 1; for (char c : e) { const unsigned char u = (unsigned char)c; ok = vs_and(ok, vs_and(u > 32, u < 127)); } vs_check(ok, "percent-encoded text is printable ASCII"); vs_check(e.find_first_of("/?@:&=#[]\"<> ") == string::npos, "percent-encoded text has no separator");
	vs_reach("end");
}
static const char* PRE[] = { "", "p:", "p://", "p://h", "p://h:", "p://u@", "p://u:", "p://h/", "p://h/?", "p://h/?a", "p://h/?a=", "file://", "file:///", "p://[::1", "p://[::1]", "p@", "P://h:8", "p://h/%", "p://%", "p://h/?%", "p://:x@", "p:// h ", "://" };
static const char* SUF[] = { "", "://h", "h/", "@h", "&b=c", "/x?y" };
HARNESS h_url_parse() {
	stub::install();
	string in = string(PRE[P("pfx", 0)]) + val(vs_choice(P("n", 2) + 1), P("set", 0)) + SUF[P("sfx", 0)]; observe("in", in);
	url a("q://r:2/s?t=u"), keep(a); bool ok = true;
	try { a = in; } catch (exceptions::malformed_url&) { ok = false; }
	if (!ok) { checkEq(string(a), string(keep), "a URL that could not be parsed leaves the object as it was"); vs_reach("end"); return; }
	string s = string(a); observe("s", s);
	vs_check(in.find("://") != string::npos && in.find("://") > 0, "a URL has a protocol"); vs_check(!a.getHost().empty() || a.getProtocol() == "file", "a URL has a host");
	url b("o://n"); b = s;
	checkEq(b.getProtocol(), a.getProtocol(), "the protocol is kept"); checkEq(b.getUsername(), a.getUsername(), "the user name is kept"); checkEq(b.getPassword(), a.getPassword(), "the password is kept"); checkEq(b.getHost(), a.getHost(), "the host is kept"); vs_check(b.getPort() == a.getPort(), "the port is kept"); checkEq(b.getPath(), a.getPath(), "the path is kept");
	string x, y; for (auto& q : a.getParams()) x += urlUtils::encode(q.first) + "=" + urlUtils::encode(q.second) + "&"; for (auto& q : b.getParams()) y += urlUtils::encode(q.first) + "=" + urlUtils::encode(q.second) + "&"; checkEq(x, y, "the parameters are kept");
	vs_reach("end");
}
// well-formed URLs, as others write them
static string pct(string& mean, const char* plain) { // a few characters: plain, or percent-encoded in either case
	string t; for (size_t i = 0, n = vs_choice(P("n", 2) + 1); i < n; i++) {
		if (vs_choice(2)) { string c = symStrIn(1, string(plain)); t += c; mean += c; }
		else { unsigned a = (unsigned)vs_range(0, 15), b = (unsigned)vs_range(0, 15); const char* H = vs_choice(2) ? "0123456789ABCDEF" : "0123456789abcdef"; t += '%'; t += H[a]; t += H[b]; mean += char(a * 16 + b); }
	}
	return t;
}
HARNESS h_url_forms() {
	stub::install();
	size_t f = P("form", 0); string u, w, h, p, k, v, s = P("upper", 0) ? "IMAPs://" : "imaps://"; unsigned port = url::UNSPECIFIED_PORT; bool params = false;
	static const char* PL = "az09-_.!*'()";
	if (f == 0) { s += pct(u, "az@.-"); s += "@h"; h = "h"; } // a raw '@' in the user name
	if (f == 1) { s += "u:"; u = "u"; s += pct(w, PL); s += "@h"; h = "h"; }
	if (f == 2) { s += "h"; h = "h"; s += pct(h, PL); }
	if (f == 3) { s += "h"; h = "h"; port = vs_u16(); vs_assume(vs_and(port >= 1, port < 65535)); s += ":"; char d[6]; int n = 0; unsigned q = port; do d[n++] = char('0' + q % 10); while (q /= 10); while (n) s += d[--n]; }
	if (f == 4) { s += "h/"; h = "h"; s += pct(p, "az/.:@"); }
	if (f == 5) { s += "h/?"; h = "h"; k = "k"; s += "k"; s += pct(k, PL); s += "="; s += pct(v, PL); params = true; }
	if (f == 6) { s += "h/p?"; h = "h"; p = "p"; k = "k"; s += "k"; s += pct(k, PL); v = k; params = true; }
	if (f == 7) { s += "[::"; h = "::"; string x = symStrIn(2, "0af:"); s += x; h += x; s += "]:993/x"; port = 993; p = "x"; }
	if (P("tail", 0) && params) s += "&zz=y"; observe("s", s);
	url a(s);
	checkEq(a.getProtocol(), "imaps", "the protocol of a URL"); checkEq(a.getUsername(), u, "the user name of a URL"); checkEq(a.getPassword(), w, "the password of a URL"); checkEq(a.getHost(), h, "the host of a URL"); vs_check(a.getPort() == port, "the port of a URL"); checkEq(a.getPath(), p, "the path of a URL");
	if (params) { auto i = a.getParams().find(k); vs_check(i != a.getParams().end(), "the name of a parameter of a URL"); checkEq(i->second, v, "the value of a parameter of a URL"); vs_check(a.getParams().size() == (P("tail", 0) ? 2u : 1u), "the parameters of a URL"); }
	vs_reach("end");
}
