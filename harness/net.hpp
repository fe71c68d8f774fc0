// A server in memory behind vmime's socket interface, and TLS sessions that only record what they cover.
#pragma once
#include "common.hpp"
#include "gen.hpp"
#include "../stubs/stub.hpp"
#include "vmime/net/socket.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/tls/TLSSession.hpp"
#include "vmime/net/tls/TLSSocket.hpp"
#include "vmime/net/tls/TLSProperties.hpp"
#include "vmime/security/authenticator.hpp"
#include "vmime/security/cert/certificateChain.hpp"
#include <time.h>
extern "C" time_t time(time_t* t) { if (t) *t = 1325500000; return 1325500000; }
struct server {
	string out;              // what the server sends, not yet received
	string raw, line;        // what it got; the line being received
	bool tls = false, open = false, plainBeforeTls = false, early = false; unsigned frag = 0; size_t cut = 0, sent = 0, recvs = 0; long dropAt = -1;
	std::vector<std::pair<string, bool>> got; // the lines got, and whether under TLS
	bool lines = true;
	virtual ~server() {}
	virtual void onConnect() {} virtual void onLine(const string&) {} virtual void onBytes(const string&) {} virtual void onTls() {}
	void reply(const string& s) { out += s; }
	void receive(const string& s) { raw += s; onBytes(s); if (!lines) return; for (char c : s) { if (c == '\n') { string l = line; line.clear(); if (!l.empty() && l.back() == '\r') l.pop_back(); got.push_back({ l, tls }); onLine(l); } else line += c; } }
	string take(size_t n) { // a piece of what is pending, as the network delivers it
		if (recvs++ > 100000) vs_fail("reading from the network ends");
		if (out.empty()) throw exceptions::socket_exception("Connection closed by foreign host.");
		size_t k = std::min(n, out.size()); if (frag == 1) k = 1; else if (frag == 2 && sent < cut) k = std::min(k, cut - sent); else if (frag == 3) { if (recvs % 2 == 0 && !early) { early = true; recvs--; return ""; } early = false; k = 1; }
		string r = out.substr(0, k); out.erase(0, k); sent += k; return r;
	}
};
struct fakeSocket : net::socket {
	shared_ptr<server> s; bool up = false; explicit fakeSocket(const shared_ptr<server>& x) : s(x) {}
	void connect(const string&, const port_t) override { up = true; s->open = true; s->onConnect(); }
	void disconnect() override { up = false; s->open = false; }
	bool isConnected() const override { return up; }
	bool waitForRead(const int) override { return true; } bool waitForWrite(const int) override { return true; }
	void receive(string& b) override { b = s->take(16384); }
	size_t receiveRaw(byte_t* b, const size_t n) override { string r = s->take(n); std::copy(r.begin(), r.end(), b); return r.size(); }
	void send(const string& b) override { if (!up) throw exceptions::socket_not_connected_exception(); s->receive(b); }
	void send(const char* b) override { send(string(b)); }
	void sendRaw(const byte_t* b, const size_t n) override { send(string((const char*)b, n)); }
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { sendRaw(b, n); return n; }
	size_t getBlockSize() const override { return 16384; } unsigned int getStatus() const override { return 0; }
	const string getPeerName() const override { return "server.example"; } const string getPeerAddress() const override { return "192.0.2.1"; }
	shared_ptr<net::timeoutHandler> getTimeoutHandler() override { return null; } void setTracer(const shared_ptr<net::tracer>&) override {} shared_ptr<net::tracer> getTracer() override { return null; }
};
struct fakeFactory : net::socketFactory { shared_ptr<server> s; explicit fakeFactory(const shared_ptr<server>& x) : s(x) {} shared_ptr<net::socket> create() override { return make_shared<fakeSocket>(s); } shared_ptr<net::socket> create(const shared_ptr<net::timeoutHandler>&) override { return create(); } };
// TLS: the handshake succeeds or not as the harness chooses; from then on the server is the trusted one
static int tlsOutcome = 0; // 0 succeeds, 1 fails, 2 the certificate is refused
struct fakeTLSSocket : net::tls::TLSSocket {
	shared_ptr<net::socket> w; explicit fakeTLSSocket(const shared_ptr<net::socket>& x) : w(x) {} server& srv() { return *dynamicCast<fakeSocket>(w)->s; }
	void handshake() override { server& s = srv(); if (!s.out.empty()) { s.out.clear(); throw exceptions::tls_exception("unexpected data"); } if (tlsOutcome == 1) throw exceptions::tls_exception("handshake"); if (tlsOutcome == 2) throw security::cert::certificateException(); s.tls = true; s.line.clear(); s.onTls(); }
	shared_ptr<security::cert::certificateChain> getPeerCertificates() override { return null; }
	void connect(const string& a, const port_t p) override { w->connect(a, p); handshake(); } void disconnect() override { w->disconnect(); } bool isConnected() const override { return w->isConnected(); }
	bool waitForRead(const int m) override { return w->waitForRead(m); } bool waitForWrite(const int m) override { return w->waitForWrite(m); } void receive(string& b) override { w->receive(b); } size_t receiveRaw(byte_t* b, const size_t n) override { return w->receiveRaw(b, n); }
	void send(const string& b) override { w->send(b); } void send(const char* b) override { w->send(b); } void sendRaw(const byte_t* b, const size_t n) override { w->sendRaw(b, n); } size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { return w->sendRawNonBlocking(b, n); }
	size_t getBlockSize() const override { return 16384; } unsigned int getStatus() const override { return 0; } const string getPeerName() const override { return w->getPeerName(); } const string getPeerAddress() const override { return w->getPeerAddress(); }
	shared_ptr<net::timeoutHandler> getTimeoutHandler() override { return null; } void setTracer(const shared_ptr<net::tracer>&) override {} shared_ptr<net::tracer> getTracer() override { return null; }
};
struct fakeTLS : net::tls::TLSSession { shared_ptr<security::cert::certificateVerifier> v; shared_ptr<net::tls::TLSSocket> getSocket(const shared_ptr<net::socket>& s) override { return make_shared<fakeTLSSocket>(s); } shared_ptr<security::cert::certificateVerifier> getCertificateVerifier() override { return v; } };
#ifndef NET_REAL_TLS
namespace vmime { namespace net { namespace tls { shared_ptr<TLSSession> TLSSession::create(const shared_ptr<security::cert::certificateVerifier>& cv, const shared_ptr<TLSProperties>&) { auto s = make_shared<fakeTLS>(); s->v = cv; return s; } } } }
#endif
struct userAuth : security::authenticator { string user = "USER", pass = "SECRET"; const string getUsername() const override { return user; } const string getPassword() const override { return pass; } const string getHostname() const override { return "h"; } const string getAnonymousToken() const override { return "t"; } const string getServiceName() const override { return "s"; } const string getAccessToken() const override { return "TOKEN"; } void setService(const shared_ptr<net::service>&) override {} };
static void fragment(server& s) { s.frag = P("frag", 0); if (s.frag == 2) s.cut = 1 + vs_choice(P("cuts", 30)); }
