// C31: certificate verification; C39: TLS sockets (GnuTLS)
#define NET_REAL_TLS
#include "net.hpp"
#include "../stubs/gnutls.hpp"
#include <gnutls/gnutls.h>
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/certificateChain.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/cert/certificateExpiredException.hpp"
#include "vmime/security/cert/certificateNotYetValidException.hpp"
#include "vmime/security/cert/certificateNotTrustedException.hpp"
#include "vmime/security/cert/certificateIssuerVerificationException.hpp"
#include "vmime/security/cert/serverIdentityException.hpp"
#include "vmime/security/cert/unsupportedCertificateTypeException.hpp"
using namespace security::cert;
using namespace stub;
typedef unsigned char u8;
// the facts of a certificate: each is one of a few values
static string cert(unsigned who, bool dates) {
	string c(C_SIZE, 'D'); static const char THREE[] = { 1, 2, 3 };
	for (int f = C_ID; f < C_SIZE; f++) c[f] = 0;
	vs_bytes_in(&c[C_ID], 5, THREE, P("vals", 3)); vs_bytes_in(&c[C_FLAGS], 1, "\0\1\2", 3); if (dates) { vs_bytes_in(&c[C_FROM], 1, "\2\3\4", 3); vs_bytes_in(&c[C_TO], 1, "\2\3\4", 3); } else { c[C_FROM] = 0; c[C_TO] = 9; } vs_bytes_in(&c[C_HOST], 1, "hi", 2); vs_bytes_in(&c[C_MD5], 1, THREE, 2);
	observe("cert", c); return c; }
static int eq(const string& a, const string& b) { return memcmp(a.data(), b.data(), C_SIZE) == 0; }
static int valid(const string& c) { return vs_and((u8)c[C_FROM] <= 3, (u8)c[C_TO] >= 3); }
static int names(const string& c, const string& i) { return c[C_ISSUER] == i[C_SUBJECT]; }
static int ca(const string& i) { return vs_or(i[C_FLAGS] == 1, vs_and(i[C_FLAGS] == 2, names(i, i))); } // a version 1 certificate says nothing: one issued by itself is a CA
static int signedBy(const string& c, const string& i) { return vs_or(eq(c, i), vs_and(names(c, i), vs_and(c[C_SIGKEY] == i[C_KEY], ca(i)))); }
static shared_ptr<X509Certificate> load(const string& c) { return X509Certificate::import((const byte_t*)c.data(), c.size()); }
struct other : certificate { const byteArray getEncoded() const override { return byteArray(); } const string getType() const override { return "other"; } int getVersion() const override { return 1; } bool equals(const shared_ptr<const certificate>&) const override { return true; } void* getInternalData() override { return nullptr; } };
struct world { std::vector<string> chain, roots, trusted; shared_ptr<defaultCertificateVerifier> v; shared_ptr<certificateChain> c; };
static void build(world& w) {
	bool dates = P("dates", 1); tlsTime0 = stub::unixTime - 3; unsigned n = P("n", 2);
	for (unsigned i = 0; i < n; i++) w.chain.push_back(cert(i, dates)); for (unsigned i = 0; i < P("roots", 1); i++) w.roots.push_back(cert(4 + i, dates)); for (unsigned i = 0; i < P("trusted", 1); i++) w.trusted.push_back(cert(6 + i, dates));
	std::vector<shared_ptr<certificate>> cs; for (auto& c : w.chain) cs.push_back(load(c)); std::vector<shared_ptr<X509Certificate>> r, t; for (auto& c : w.roots) r.push_back(load(c)); for (auto& c : w.trusted) t.push_back(load(c));
	w.v = make_shared<defaultCertificateVerifier>(); w.v->setX509RootCAs(r); w.v->setX509TrustedCerts(t); w.c = make_shared<certificateChain>(cs);
}
static int acceptable(world& w, char host) {
	if (w.chain.empty()) return 0; int ok = w.chain[0][C_HOST] == host; for (auto& c : w.chain) ok = vs_and(ok, valid(c));
	for (size_t i = 0; i + 1 < w.chain.size(); i++) ok = vs_and(ok, vs_and(names(w.chain[i], w.chain[i + 1]), signedBy(w.chain[i], w.chain[i + 1])));
	int t = 0; for (auto& r : w.roots) t = vs_or(t, vs_and(signedBy(w.chain.back(), r), valid(r))); for (auto& c : w.trusted) t = vs_or(t, eq(w.chain[0], c)); return vs_and(ok, t); }
HARNESS h_cert_verify() {
	stub::install(); tlsNoMd5 = P("nomd5", 0); { world w; build(w); bool ok = false; int why = 0;
	try { w.v->verify(w.c, "h"); ok = true; } catch (certificateExpiredException&) { why = 1; } catch (certificateNotYetValidException&) { why = 2; } catch (certificateNotTrustedException&) { why = 3; } catch (certificateIssuerVerificationException&) { why = 4; } catch (serverIdentityException&) { why = 5; } catch (certificateException&) { why = 6; }
	vs_observe_int("why", why); int exp = acceptable(w, 'h'); if (ok) vs_check(exp, "a chain accepted is valid now, issued link by link, trusted, and for this host"); else vs_check(!exp, "a chain that is valid now, issued link by link, trusted and for this host is accepted");
	if (why == 5) vs_check(w.chain[0][C_HOST] != 'h', "the identity is refused when it does not match"); if (why == 1 || why == 2) { int a = 1; for (auto& c : w.chain) a = vs_and(a, valid(c)); vs_check(!a, "a date is refused when it is not in the period"); }
	if (ok) vs_reach("accepted"); } vs_check(tlsObjects == 0, "certificates are released"); vs_reach("end");
}
HARNESS h_cert_mixed() { // an element that is not an X.509 certificate
	stub::install(); world w; tlsTime0 = stub::unixTime - 3; unsigned n = P("n", 2), at = vs_choice(n); std::vector<shared_ptr<certificate>> cs; for (unsigned i = 0; i < n; i++) { if (i == at) cs.push_back(make_shared<other>()); else cs.push_back(load(cert(i, true))); }
	auto r = load(cert(4, true)); defaultCertificateVerifier v; v.setX509RootCAs({ r }); v.setX509TrustedCerts({ r }); bool ok = false; try { v.verify(make_shared<certificateChain>(cs), "h"); ok = true; } catch (certificateException&) {} vs_check(!ok, "a chain with a certificate of another type is refused"); vs_reach("end");
}
HARNESS h_cert_io() { // what is imported is what is exported, in either format
	stub::install(); { unsigned n = P("n", 1); string all; std::vector<string> cs; for (unsigned i = 0; i < n; i++) { string c = cert(i, true); if (P("pem", 0)) c[0] = 'P'; all += c; cs.push_back(c); } if (P("junk", 0)) all += "x"; if (P("empty", 0)) all.clear();
	std::vector<shared_ptr<X509Certificate>> got; if (P("list", 0)) { if (P("stream", 0)) { utility::inputStreamStringAdapter is(all); X509Certificate::import(is, got); } else X509Certificate::import((const byte_t*)all.data(), all.size(), got); } else { shared_ptr<X509Certificate> c; if (P("stream", 0)) { utility::inputStreamStringAdapter is(all); c = X509Certificate::import(is); } else c = X509Certificate::import((const byte_t*)all.data(), all.size()); if (c) got.push_back(c); }
	size_t exp = P("junk", 0) || P("empty", 0) ? 0 : P("pem", 0) ? (P("list", 0) ? n : n == 1) : n == 1; vs_check(got.size() == exp, "every certificate is imported, or none");
	for (size_t i = 0; i < got.size(); i++) { byteArray e = got[i]->getEncoded(); string s(e.begin(), e.end()), t = cs[i]; t[0] = 'D'; checkEq(s, t, "the encoded certificate is the one imported"); string o; utility::outputStreamStringAdapter os(o); got[i]->write(os, P("pem", 0) ? X509Certificate::FORMAT_PEM : X509Certificate::FORMAT_DER); checkEq(o, cs[i], "the certificate written is the one imported"); for (size_t j = 0; j < got.size(); j++) { bool q = got[i]->equals(got[j]); vs_check(vs_or(vs_and(q, eq(cs[i], cs[j])), vs_and(!q, !eq(cs[i], cs[j]))), "certificates are equal when they are the same"); }
		byteArray sn = got[i]->getSerialNumber(); vs_check(sn.size() == 1, "serial number"); vs_check((u8)sn[0] == (u8)cs[i][C_ID], "serial number"); } }
	vs_check(tlsObjects == 0, "certificates are released"); vs_reach("end");
}
// ---- TLS sockets
#include "vmime/net/tls/TLSSession.hpp"
#include "vmime/net/tls/TLSSocket.hpp"
#include "vmime/net/tls/TLSProperties.hpp"
#include "vmime/net/tls/TLSSecuredConnectionInfos.hpp"
struct peer : server { string app; bool closed = false; bool tlsHello = false; peer() { lines = false; }
	void onBytes(const string& s) override { line += s; for (;;) { if (!tlsHello) { if (line.size() < 3) return; vs_check(line.compare(0, 3, "\x01hi") == 0, "the handshake is sent"); line.erase(0, 3); tlsHello = true; out += "\x02ho"; continue; } if (line.empty()) return; size_t n = (u8)line[0]; if (line.size() < 1 + n) return; vs_check(!closed, "nothing is sent after closing"); if (n == 0) closed = true; for (size_t i = 0; i < n; i++) app += (char)(line[1 + i] ^ 0x55); line.erase(0, 1 + n); } }
	void record(const string& s) { out += (char)s.size(); for (char c : s) out += (char)(c ^ 0x55); } };
struct rough : fakeSocket { // sends a part, nothing, or fails
	using fakeSocket::fakeSocket; int stalls = 0, parts = 0, fails = 0, waits = 0; bool failed = false, stalled = false;
	void fail() { if (fails > 0) { if (vs_choice(2)) { fails = 0; failed = true; up = false; throw exceptions::socket_exception("lost"); } } }
	size_t receiveRaw(byte_t* b, const size_t n) override { fail(); if (!up) throw exceptions::socket_not_connected_exception(); return fakeSocket::receiveRaw(b, n); }
	bool waitForRead(const int) override { waits++; return true; } bool waitForWrite(const int) override { waits++; stalled = false; return true; }
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { fail(); if (stalls > 0) { if (vs_choice(2)) { stalls--; return 0; } } size_t k = n; if (parts > 0 && n > 1) { if (vs_choice(2)) { parts--; k = 1; } } sendRaw(b, k); return k; } };
struct verifier : certificateVerifier { std::vector<string> seen; string host; int calls = 0; bool refuse = false; peer* p = nullptr;
	void verify(const shared_ptr<certificateChain>& c, const string& h) override { calls++; host = h; for (size_t i = 0; i < c->getCount(); i++) { byteArray e = c->getAt(i)->getEncoded(); seen.push_back(string(e.begin(), e.end())); } vs_check(p->app.empty(), "nothing is sent before the certificates are verified"); if (refuse) throw certificateNotTrustedException(); } };
HARNESS h_tls_handshake() {
	stub::install(); tlsObjects = 0; { auto s = make_shared<peer>(); fragment(*s); auto w = make_shared<rough>(s); w->stalls = P("stalls", 1); w->parts = P("parts", 1); w->fails = P("fails", 0); tlsInterrupts = P("intr", 1); auto v = make_shared<verifier>(); v->p = s.get(); unsigned n = P("certs", 1), junk = P("junk", 0); tlsChain.clear(); for (unsigned i = 0; i < n; i++) tlsChain.push_back(cert(i, true)); if (junk) tlsChain[junk - 1] = "Djunk";
	static const int ERR[] = { 0, GNUTLS_E_FATAL_ALERT_RECEIVED, GNUTLS_E_DECRYPTION_FAILED, GNUTLS_E_PREMATURE_TERMINATION }; tlsHandshake = ERR[vs_choice(P("errs", 2))]; v->refuse = vs_choice(2); bool starttls = P("starttls", 0); auto ts = net::tls::TLSSession::create(v, make_shared<net::tls::TLSProperties>()); auto t = ts->getSocket(w); bool ok = false, cx = false, lost = false, tx = false; vs_check(!t->isConnected(), "a socket is not connected before the handshake");
	try { if (starttls) { w->connect("server.example", 25); t->handshake(); } else t->connect("server.example", 465); ok = true; } catch (certificateException&) { cx = true; } catch (exceptions::tls_exception&) { tx = true; } catch (exceptions::socket_exception&) { lost = true; }
	bool exp = !w->failed && tlsHandshake == 0 && n > 0 && !junk && !v->refuse; vs_check(ok == exp, "a connection is secured when the handshake succeeds and the certificates are accepted, and only then"); vs_check(ok == t->isConnected(), "a socket is connected when it is secured"); vs_check(lost == w->failed, "an error of the network is passed on"); vs_check(cx == (!w->failed && tlsHandshake == 0 && n > 0 && !junk && v->refuse), "the refusal of the certificates is passed on"); vs_check(v->calls <= 1 && (!ok || v->calls == 1), "the certificates are verified once");
	if (v->calls) { vs_check(v->seen.size() == n, "every certificate is given to the verifier"); for (unsigned i = 0; i < n; i++) checkEq(v->seen[i], tlsChain[i], "the certificates given to the verifier are those of the peer"); checkEq(v->host, "server.example", "the identity verified is the one of the server asked for"); } checkEq(tlsName, "server.example", "the server name is given"); vs_check(s->app.empty(), "nothing is sent during the handshake");
	if (ok) { auto c = t->getPeerCertificates(); vs_check(c && c->getCount() == n, "the certificates of the peer are available"); t->disconnect(); vs_check(!t->isConnected() && !w->isConnected(), "the connection is closed"); } } vs_check(tlsObjects == 0, "certificates and sessions are released"); vs_reach("end");
}
HARNESS h_tls_data() {
	stub::install(); tlsObjects = 0; tlsInterrupts = 0; { auto s = make_shared<peer>(); auto w = make_shared<rough>(s); auto v = make_shared<verifier>(); v->p = s.get(); tlsChain = { cert(0, true) }; auto ts = net::tls::TLSSession::create(v, make_shared<net::tls::TLSProperties>()); auto t = ts->getSocket(w); t->connect("server.example", 465); tlsRecord = P("record", 2); fragment(*s); w->stalls = P("stalls", 1); w->parts = P("parts", 1); w->fails = P("fails", 0); unsigned mode = P("mode", 0);
	string d = symStr(1 + vs_choice(P("n", 3))); d += P("pre", 0) ? "abcdef" : ""; string got; bool lost = false, closed = false; observe("d", d);
	if (P("dir", 0) == 0) { // the peer sends, in records, then closes
		for (size_t i = 0; i < d.size();) { size_t k = 1 + vs_choice(std::min(d.size() - i, (size_t)3)); s->record(d.substr(i, k)); i += k; } unsigned close = P("close", 0); if (close) s->record(""); size_t cnt = P("count", 0);
		try { for (unsigned i = 0; close || got.size() < d.size(); i++) { if (i > 100) { vs_check(0, "reading ends when the peer closes the connection"); } if (cnt) { byte_t b[8]; size_t k = t->receiveRaw(b, cnt); vs_check(k <= cnt, "no more bytes than asked for are received"); if (k == 0) vs_check(t->getStatus() & net::socket::STATUS_WANT_READ, "no data: waiting for the peer"); got.append((const char*)b, k); } else { string x; t->receive(x); got += x; } } } catch (exceptions::socket_exception&) { lost = true; closed = close != 0; }
		if (lost && !w->failed) vs_check(closed, "reading fails only when the connection is lost"); if (!w->failed) checkEq(got, d, "the bytes received are those sent"); else vs_check(got.size() <= d.size() && same(got, d.substr(0, got.size())), "the bytes received are the first of those sent"); }
	else { size_t i = 0; try { while (i < d.size()) { size_t n = 1 + vs_choice(d.size() - i); if (mode == 0) { t->sendRaw((const byte_t*)d.data() + i, n); i += n; } else if (mode == 1) { t->send(d.substr(i, n)); i += n; } else { size_t r = t->sendRawNonBlocking((const byte_t*)d.data() + i, n); vs_check(r <= n, "no more bytes than given are sent"); if (r == 0) vs_check(t->getStatus() & net::socket::STATUS_WANT_WRITE, "nothing sent: waiting to write"); i += r; while (r == 0) { r = t->sendRawNonBlocking((const byte_t*)d.data() + i, n); i += r; } } } } catch (exceptions::socket_exception&) { lost = true; } vs_check(lost == w->failed, "an error of the network is passed on"); if (!lost) checkEq(s->app, d, "the bytes sent are those given"); else vs_check(same(s->app, d.substr(0, s->app.size())), "the bytes sent are the first of those given"); }
	if (lost) vs_reach("lost"); } vs_check(tlsObjects == 0, "certificates and sessions are released"); vs_reach("end");
}
