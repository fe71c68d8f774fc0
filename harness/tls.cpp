// C30: TLS required
#include "net.hpp"
#include "../stubs/gsasl.hpp"
#include "vmime/security/sasl/SASLAuthenticator.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/net/smtp/SMTPTransport.hpp"
#include "vmime/net/smtp/SMTPSTransport.hpp"
#include "vmime/net/smtp/SMTPConnection.hpp"
#include "vmime/net/pop3/POP3Store.hpp"
#include "vmime/net/pop3/POP3SStore.hpp"
#include "vmime/net/pop3/POP3Connection.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPSStore.hpp"
#include "vmime/net/imap/IMAPConnection.hpp"
struct saslAuth : security::sasl::SASLAuthenticator {
	string user = "USER", pass = "SECRET"; const string getUsername() const override { return user; } const string getPassword() const override { return pass; } const string getHostname() const override { return "h"; } const string getAnonymousToken() const override { return "t"; } const string getServiceName() const override { return "s"; } const string getAccessToken() const override { return "TOKEN"; } void setService(const shared_ptr<net::service>&) override {}
	const std::vector<shared_ptr<security::sasl::SASLMechanism>> getAcceptableMechanisms(const std::vector<shared_ptr<security::sasl::SASLMechanism>>& a, const shared_ptr<security::sasl::SASLMechanism>&) const override { return a; } void setSASLMechanism(const shared_ptr<security::sasl::SASLMechanism>&) override {} void setSASLSession(const shared_ptr<security::sasl::SASLSession>&) override {} };
static const char* B64PLAIN = "AFVTRVIAU0VDUkVU"; // \0USER\0SECRET
static bool has(const string& s, const char* x) { return s.find(x) != string::npos; }
static bool starts(const string& s, const string& x) { return s.compare(0, x.size(), x) == 0; }
// In clear the server is anyone: it answers anything. Under TLS it is the real one, which accepts the user or not.
struct anyServer : server {
	bool implicit = false, closed = false, accept = true, accepted = false; unsigned proto = 0, hostile = 0; int stage = 0; bool leak = false;
	string greet() { return proto == 0 ? "220 ready\r\n" : proto == 1 ? "+OK ready\r\n" : "* OK ready\r\n"; }
	void onConnect() override { tls = false; stage = 0; accepted = false; line.clear(); out.clear(); if (!implicit) evil("", greet()); }
	void onTls() override { stage = 0; if (implicit) reply(greet()); }
	void evil(const string& tag, const string& usual) {
		if (hostile == 0) { reply(usual); return; }
		unsigned k = vs_choice(P("evil", 12)); if (k) hostile--;
		if (k == 1) { string x = symStr(P("sym", 2)); reply(x + usual); return; }
		static const char* SMTP[] = { "", "", "500 no\r\n", "250 ok\r\n", "220 ok\r\n250-s\r\n250 AUTH PLAIN\r\n", "220 ok\r\n250-s\r\n250 AUTH PLAIN\r\n235 ok\r\n", "334 \r\n", "235 ok\r\n", "250-s\r\n250 AUTH PLAIN\r\n", "220-a\r\n250 b\r\n", "\r\n", "220 ok\r\n235 ok\r\n" };
		static const char* POP3[] = { "", "", "-ERR no\r\n", "+OK\r\n+OK\r\n", "+ \r\n", "+OK\r\n+OK\r\n+OK\r\n+OK\r\n", "+OK\r\nSASL PLAIN\r\n.\r\n+OK\r\n", "-ERR\r\n+OK\r\n", "foo\r\n", "\r\n", "+OK <1.2@h>\r\n", "+OK a\n+OK b\n" };
		static const char* IMAP[] = { "", "", "T NO no\r\n", "T BAD what\r\n", "* OK x\r\nT OK x\r\n", "T OK x\r\na002 OK x\r\na003 OK x\r\na004 OK x\r\na005 OK x\r\n", "a001 OK x\r\na002 OK x\r\na003 OK x\r\na004 OK x\r\n", "* CAPABILITY IMAP4rev1 AUTH=PLAIN\r\nT OK x\r\n* CAPABILITY IMAP4rev1 AUTH=PLAIN\r\na002 OK x\r\n", "* BYE bye\r\n", "+ \r\n", "* PREAUTH hello\r\n", "a002 OK x\r\na003 OK x\r\nT OK [CAPABILITY IMAP4rev1 AUTH=PLAIN] go\r\n" };
		string r = proto == 0 ? SMTP[k] : proto == 1 ? POP3[k] : IMAP[k]; if (k == 0) r = usual; for (size_t p; (p = r.find("T ")) != string::npos && !tag.empty() && (p == 0 || r[p - 1] == '\n'); ) r.replace(p, 1, tag); reply(r);
	}
	void onLine(const string& l0) override {
		string tag, l = l0; if (proto == 2) { size_t p = l.find(' '); if (p != string::npos) { tag = l.substr(0, p); l = l.substr(p + 1); } }
		if (!tls) {
			for (const char* c : { "AUTH", "LOGIN", "USER", "PASS", "APOP" }) if (starts(l, c)) leak = true; for (const char* c : { "USER", "SECRET", "TOKEN", "VVNFUg", "U0VDUkVU", B64PLAIN }) if (has(l0, c)) leak = true;
			string u; if (proto == 0) u = starts(l, "EHLO") ? "250-hello\r\n250 STARTTLS\r\n" : l == "STARTTLS" ? "220 go\r\n" : l == "QUIT" ? "221 bye\r\n" : "250 ok\r\n"; else if (proto == 1) u = "+OK\r\n"; else u = tag + " OK done\r\n"; evil(tag, u); return; }
		if (proto == 0) {
			if (starts(l, "EHLO")) reply("250-hello\r\n250 AUTH PLAIN\r\n"); else if (starts(l, "AUTH PLAIN")) { stage = 1; reply("334 \r\n"); } else if (stage == 1) { stage = 0; accepted = accept && l == B64PLAIN; reply(accepted ? "235 welcome\r\n" : "535 no\r\n"); } else if (l == "QUIT") reply("221 bye\r\n"); else reply("500 what\r\n");
		} else if (proto == 1) {
			if (l == "CAPA") reply("+OK\r\nSASL PLAIN\r\nUSER\r\n.\r\n"); else if (l == "AUTH PLAIN") { stage = 1; reply("+ \r\n"); } else if (stage == 1) { stage = 0; accepted = accept && l == B64PLAIN; reply(accepted ? "+OK in\r\n" : "-ERR no\r\n"); } else if (l == "USER USER") reply("+OK\r\n"); else if (starts(l, "PASS")) { accepted = accept && l == "PASS SECRET"; reply(accepted ? "+OK in\r\n" : "-ERR no\r\n"); } else reply(l == "QUIT" ? "+OK bye\r\n" : "-ERR what\r\n");
		} else {
			if (stage == 1) { stage = 0; accepted = accept && l0 == B64PLAIN; reply(tagSave + (accepted ? " OK in\r\n" : " NO no\r\n")); } else if (l == "CAPABILITY") reply("* CAPABILITY IMAP4rev1 AUTH=PLAIN\r\n" + tag + " OK done\r\n"); else if (starts(l, "AUTHENTICATE PLAIN")) { stage = 1; tagSave = tag; reply("+ \r\n"); } else if (starts(l, "LOGIN")) { accepted = accept && l == "LOGIN USER SECRET"; reply(tag + (accepted ? " OK in\r\n" : " NO no\r\n")); } else if (starts(l, "LIST")) reply((accepted ? "* LIST () \".\" \"\"\r\n" + tag + " OK done\r\n" : tag + " NO no\r\n")); else reply(l == "LOGOUT" ? "* BYE bye\r\n" + tag + " OK done\r\n" : tag + " BAD bad\r\n");
		}
	}
	string tagSave;
};
HARNESS h_tls_required() {
	stub::install(); auto s = make_shared<anyServer>(); s->proto = P("proto", 0); s->implicit = P("implicit", 0); fragment(*s); propertySet p; static const char* PRE[] = { "transport.smtp", "store.pop3", "store.imap" }; static const char* PRES[] = { "transport.smtps", "store.pop3s", "store.imaps" }; string pre = s->implicit ? PRES[s->proto] : PRE[s->proto]; bool req = P("required", 1), sasl = s->proto == 0 || P("sasl", 0);
	p[pre + ".server.address"] = "server.example"; p[pre + ".connection.tls"] = true; p[pre + ".connection.tls.required"] = req; p[pre + ".options.sasl"] = sasl; if (s->proto == 0) p[pre + ".options.need-authentication"] = true; if (P("apop", 0)) p[pre + ".options.apop"] = true;
	stub::sockets = make_shared<fakeFactory>(s); auto ses = net::session::create(p); shared_ptr<security::authenticator> a; if (sasl) a = make_shared<saslAuth>(); else a = make_shared<userAuth>(); shared_ptr<net::service> sv;
	if (s->proto == 0) { if (s->implicit) sv = make_shared<net::smtp::SMTPSTransport>(ses, a); else sv = make_shared<net::smtp::SMTPTransport>(ses, a); } else if (s->proto == 1) { if (s->implicit) sv = make_shared<net::pop3::POP3SStore>(ses, a); else sv = make_shared<net::pop3::POP3Store>(ses, a); } else { if (s->implicit) sv = make_shared<net::imap::IMAPSStore>(ses, a); else sv = make_shared<net::imap::IMAPStore>(ses, a); }
	for (unsigned i = 0; i < P("conns", 1); i++) {
		s->hostile = P("hostile", 1); s->accept = vs_choice(2) == 0; tlsOutcome = P("tls", 3) == 3 ? (int)vs_choice(3) : (int)P("tls", 0); bool ok = false; size_t before = s->got.size();
		try { sv->connect(); ok = true; } catch (exception& e) { observe("ex", e.what()); }
		vs_check(ok == sv->isConnected(), "a service is connected when connecting succeeds");
		if (req || s->implicit) { vs_check(!s->leak, "no credentials travel in clear"); vs_check(!ok || s->tls, "a connection that requires TLS does not succeed without"); }
		if (ok) { vs_check(sv->isSecuredConnection() == s->tls, "a connection is said to be secured when it is"); }
		if (s->tls && ok) { vs_check(s->accepted, "the answer to the credentials is that of the server under TLS"); vs_check(s->out.empty(), "every reply is read"); vs_reach("secured"); }
		if (s->tls && s->accepted) vs_check(ok, "what came in clear has no effect on what comes under TLS");
		(void)before; if (ok) { sv->disconnect(); vs_check(!sv->isConnected(), "a service is disconnected"); }
	}
	sv = null; vs_reach("end");
}
