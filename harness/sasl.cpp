// C38: SASL exchanges and security layers
#include "net.hpp"
#include "../stubs/gsasl.hpp"
#include <gsasl.h>
#include "vmime/security/sasl/SASLContext.hpp"
#include "vmime/security/sasl/SASLSession.hpp"
#include "vmime/security/sasl/SASLSocket.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/security/sasl/SASLMechanismFactory.hpp"
#include "vmime/security/sasl/XOAuth2SASLMechanism.hpp"
#include "vmime/security/sasl/XOAuth2SASLAuthenticator.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
#include "vmime/net/smtp/SMTPTransport.hpp"
#include "vmime/net/pop3/POP3Store.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
using namespace security::sasl;
static string b64(const string& s) {
	static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string r;
	for (size_t i = 0; i < s.size(); i += 3) { unsigned a = (unsigned char)s[i], b = i + 1 < s.size() ? (unsigned char)s[i + 1] : 0, c = i + 2 < s.size() ? (unsigned char)s[i + 2] : 0; r += T[a >> 2]; r += T[((a & 3) << 4) | (b >> 4)]; r += i + 1 < s.size() ? T[((b & 15) << 2) | (c >> 6)] : '='; r += i + 2 < s.size() ? T[c & 63] : '='; } return r; }
static bool starts(const string& s, const string& x) { return s.compare(0, x.size(), x) == 0; }
// A layer: 1 changes each byte, 2 sends two bytes for each, 3 sends half as many as there are, in pairs, 4 gives the bytes received a line at a time
struct layer { unsigned mode = 0; string in; explicit layer(unsigned m = 0) : mode(m) {}
	string enc(const string& s) { string r; if (mode == 0) return s; if (mode == 1) { for (char c : s) r += char(c ^ 0x55); return r; } if (mode == 2) { for (char c : s) { r += char(c ^ 3); r += char(c + 1); } return r; } for (char c : s) r += char(c ^ 0x2a); return r; }
	bool dec(const string& s, string& r) { r.clear(); if (mode == 0) { r = s; return true; } if (mode == 1) { for (char c : s) r += char(c ^ 0x55); return true; } if (mode == 2) { in += s; size_t i = 0; for (; i + 1 < in.size(); i += 2) r += char(in[i] ^ 3); in.erase(0, i); return true; } for (char c : s) { in += char(c ^ 0x2a); if (in.back() == '\n' || in.size() >= 6) { r += in; in.clear(); } } return true; } };
struct steps : stub::saslModel {
	layer l; bool layered = false; string challenge, expect; bool called = false, failed = false; int n = 0; unsigned errors = 1;
	int step(int, const string& in, string& out) override { checkEq(in, challenge, "the mechanism gets the challenge of the server"); called = true; unsigned k = vs_choice(errors ? 3 : 2); if (k == 2) { errors--; expect = "*"; return GSASL_AUTHENTICATION_ERROR; } out = symStr(vs_choice(P("n", 2) + 1)); expect = b64(out); return k ? GSASL_OK : GSASL_NEEDS_MORE; }
	bool encode(const string& i, string& o) override { o = layered ? l.enc(i) : i; return true; }
	bool decode(const string& i, string& o) override { if (!layered) { o = i; return true; } return l.dec(i, o); }
};
struct saslServer : server {
	unsigned proto = 0, budget = 2; steps* m = nullptr; layer lin, lout; bool layered = false, ok = false, fallbackOk = false; string tag, mech; int st = 0; unsigned bad = 0, noops = 0, auths = 0; string mechs = "X-STEPS PLAIN";
	saslServer() { lines = false; }
	void say(const string& s) { out += layered ? lout.enc(s) : s; }
	void onConnect() override { say(proto == 0 ? "220 ready\r\n" : proto == 1 ? "+OK ready\r\n" : "* OK ready\r\n"); }
	void onBytes(const string& s) override { string d = s; if (layered) lin.dec(s, d); for (char c : d) { if (c == '\n') { string l = line; line.clear(); if (!l.empty() && l.back() == '\r') l.pop_back(); else bad++; cmd(l); } else line += c; } }
	void challenge() { m->challenge = symStr(vs_choice(P("n", 2) + 1)); string c = b64(m->challenge); m->called = false; st = 1; say((proto == 0 ? "334 " : "+ ") + c + "\r\n"); }
	void refuse() { st = 0; say(proto == 0 ? "535 no\r\n" : proto == 1 ? "-ERR no\r\n" : tag + " NO no\r\n"); }
	void accept() { st = 0; ok = true; say(proto == 0 ? "235 in\r\n" : proto == 1 ? "+OK in\r\n" : tag + " OK in\r\n"); if (mech == "X-STEPS" && m->l.mode) { layered = true; m->layered = true; } }
	void next() { unsigned k = vs_choice(budget ? 3 : 2); if (k == 0) accept(); else if (k == 1) refuse(); else { budget--; challenge(); } }
	void cmd(const string& l0) {
		if (st == 1) { vs_check(m->called, "every challenge is given to the mechanism"); checkEq(l0, m->expect, "the response of the mechanism is sent, and nothing else"); m->challenge.clear(); if (m->expect == "*") refuse(); else next(); return; }
		if (st == 2) { checkEq(l0, b64(string("\0USER\0SECRET", 12)), "PLAIN sends the user and the password"); if (vs_choice(2)) refuse(); else accept(); return; }
		if (st == 3) { st = 0; vs_check(l0.empty() || l0 == "*" , "XOAUTH2"); refuse(); return; }
		string l = l0; if (proto == 2) { size_t p = l.find(' '); if (p == string::npos) { bad++; return; } tag = l.substr(0, p); l = l.substr(p + 1); }
		string name = proto == 2 ? "AUTHENTICATE " : "AUTH "; string t = tag + " OK done\r\n";
		if (starts(l, name)) { auths++; string a = l.substr(name.size()); size_t p = a.find(' '); mech = a.substr(0, p); if (mech == "X-STEPS" && p == string::npos) { m->expect.clear(); if (vs_choice(2)) refuse(); else challenge(); } else if (mech == "PLAIN" && p == string::npos) { st = 2; say(proto == 0 ? "334 \r\n" : "+ \r\n"); } else if (mech == "XOAUTH2" && p != string::npos) { checkEq(a.substr(p + 1), b64(string("user=USER\1auth=Bearer TOKEN\1\1")), "XOAUTH2 sends the user and the token"); if (vs_choice(2)) refuse(); else accept(); } else { bad++; refuse(); } }
		else if (l == "NOOP") { noops++; say(proto == 0 ? "250 ok\r\n" : proto == 1 ? "+OK\r\n" : t); }
		else if (proto == 0) { if (starts(l, "EHLO")) say("250-hello\r\n250 AUTH " + mechs + "\r\n"); else if (l == "QUIT") say("221 bye\r\n"); else { bad++; say("500 what\r\n"); } }
		else if (proto == 1) { if (l == "CAPA") say("+OK\r\nSASL " + mechs + "\r\n.\r\n"); else if (l == "QUIT") say("+OK bye\r\n"); else if (P("fallback", 0) && l == "USER USER") say("+OK\r\n"); else if (P("fallback", 0) && l == "PASS SECRET") { fallbackOk = true; say("+OK\r\n"); } else { bad++; say("-ERR what\r\n"); } }
		else { if (l == "CAPABILITY") { string c; size_t p = 0; while (p < mechs.size()) { size_t e = std::min(mechs.find(' ', p), mechs.size()); c += " AUTH=" + mechs.substr(p, e - p); p = e + 1; } say("* CAPABILITY IMAP4rev1" + c + "\r\n" + t); } else if (l == "LIST \"\" \"\"" || starts(l, "LIST")) say("* LIST () \".\" \"\"\r\n" + t); else if (l == "LOGOUT") say("* BYE bye\r\n" + t); else if (P("fallback", 0) && l == "LOGIN USER SECRET") { fallbackOk = true; say(t); } else { bad++; say(tag + " BAD what\r\n"); } }
	}
};
struct auth : defaultSASLAuthenticator { const string getUsername() const override { return "USER"; } const string getPassword() const override { return "SECRET"; } const string getAccessToken() const override { return "TOKEN"; } };
struct oauth : XOAuth2SASLAuthenticator { oauth(Mode m) : XOAuth2SASLAuthenticator(m) {} const string getUsername() const override { return "USER"; } const string getPassword() const override { return "SECRET"; } const string getAccessToken() const override { return "TOKEN"; } };
HARNESS h_sasl() {
	stub::install(); auto s = make_shared<saslServer>(); s->proto = P("proto", 0); s->budget = P("budget", 1); fragment(*s); steps m; m.l.mode = P("layer", 0); m.errors = P("errors", 1); s->lin.mode = s->lout.mode = P("layer", 0); s->m = &m; stub::sasl = &m; unsigned oa = P("oauth", 0); if (oa) { SASLMechanismFactory::getInstance()->registerMechanism<XOAuth2SASLMechanism>("XOAUTH2"); s->mechs = "X-STEPS xoauth2 PLAIN"; }
	if (P("unknown", 0)) s->mechs = "FOO " + s->mechs + " BAR"; propertySet p; static const char* PRE[] = { "transport.smtp", "store.pop3", "store.imap" }; string pre = PRE[s->proto]; p[pre + ".server.address"] = "server.example"; p[pre + ".options.sasl"] = true; p[pre + ".options.sasl.fallback"] = P("fallback", 0) != 0; if (s->proto == 0) p[pre + ".options.need-authentication"] = true; if (s->proto == 1) p[pre + ".options.apop"] = false;
	stub::sockets = make_shared<fakeFactory>(s); auto ses = net::session::create(p); shared_ptr<security::authenticator> a; if (oa) a = make_shared<oauth>(oa == 1 ? oauth::MODE_EXCLUSIVE : oauth::MODE_SUGGEST); else a = make_shared<auth>(); shared_ptr<net::service> sv; if (s->proto == 0) sv = make_shared<net::smtp::SMTPTransport>(ses, a); else if (s->proto == 1) sv = make_shared<net::pop3::POP3Store>(ses, a); else sv = make_shared<net::imap::IMAPStore>(ses, a);
	bool ok = false; try { sv->connect(); ok = true; } catch (exceptions::authentication_error&) {}
	vs_check(ok == (s->ok || s->fallbackOk), "the connection is authenticated when the server accepts"); vs_check(ok == sv->isConnected(), "a service is connected when it is authenticated"); vs_check(!s->fallbackOk || !s->ok, "nothing is sent after the server accepts"); if (!s->ok) vs_check(s->auths == (oa == 1 ? 1u : oa ? 3u : 2u), "every mechanism is tried"); if (oa == 1) vs_check(s->mech == "XOAUTH2" , "only the mechanism asked for is used");
	if (ok) { sv->noop(); vs_check(s->noops == 1, "commands pass through the security layer"); vs_check(s->out.empty(), "every reply is read"); sv->disconnect(); if (s->layered) vs_reach("layer"); }
	vs_check(s->bad == 0, "only commands of the protocol are sent"); sv = null; a = null; ses = null; stub::sockets = null; vs_check(stub::saslObjects <= 1, "the sessions of the SASL library are released"); vs_reach("end");
}
struct partialSocket : fakeSocket { using fakeSocket::fakeSocket; size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { size_t k = vs_choice(n + 1); sendRaw(b, k); return k; } };
struct rawServer : server { rawServer() { lines = false; } };
HARNESS h_sasl_socket() { // a security layer passes the bytes, all of them, in order
	stub::install(); auto s = make_shared<rawServer>(); fragment(*s); steps m; m.l.mode = P("layer", 1); m.layered = true; stub::sasl = &m; auto ctx = SASLContext::create(); auto a = make_shared<auth>(); auto sess = ctx->createSession("imap", a, ctx->createMechanism("X-STEPS")); sess->init(); auto w = make_shared<partialSocket>(s); w->up = true; auto k = sess->getSecuredSocket(w); layer lo(P("layer", 1)), li(P("layer", 1));
	string d = symStr(1 + vs_choice(P("n", 3))); static const char* PRE[] = { "", "abc", "ab\n", "abcdefghijkl" }; d = PRE[P("pre", 0)] + d; if (m.l.mode == 4) { d += "\n"; } observe("d", d);
	if (P("dir", 0) == 0) { s->out = lo.enc(d); string got; size_t cnt = P("count", 0); for (unsigned i = 0; got.size() < d.size(); i++) { vs_check(i < 200, "all the bytes are received"); if (cnt) { byte_t b[8]; size_t n = k->receiveRaw(b, cnt); vs_check(n <= cnt, "no more bytes than asked for are received"); got.append((const char*)b, n); } else { string x; k->receive(x); got += x; } } checkEq(got, d, "the bytes received are those sent"); }
	else { size_t i = 0; unsigned mode = P("mode", 0); while (i < d.size()) { size_t n = 1 + vs_choice(d.size() - i); if (mode == 0) { k->sendRaw((const byte_t*)d.data() + i, n); i += n; } else if (mode == 1) { k->send(d.substr(i, n)); i += n; } else { size_t r = k->sendRawNonBlocking((const byte_t*)d.data() + i, n); vs_check(r <= n, "no more bytes than given are sent"); if (r == 0) vs_end(); i += r; } } string got; li.dec(s->raw, got); if (m.l.mode != 4) checkEq(got, d, "the bytes sent are those given"); else checkEq(got + li.in, d, "the bytes sent are those given"); }
	vs_reach("end");
}
