// C28: POP3 replies and messages; C37: POP3 sessions
#include "net.hpp"
#include "vmime/net/pop3/POP3Connection.hpp"
#include "vmime/net/pop3/POP3Response.hpp"
#include "vmime/net/pop3/POP3Command.hpp"
#include "vmime/net/pop3/POP3Store.hpp"
#include "vmime/net/pop3/POP3Folder.hpp"
#include "vmime/net/pop3/POP3Message.hpp"
#include "vmime/net/pop3/POP3Utils.hpp"
#include "vmime/utility/outputStreamAdapter.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
using namespace net::pop3;
static bool digit(char c) { return c >= '0' && c <= '9'; }
static string rtrim(string t) { while (!t.empty() && blank(t[0])) t.erase(0, 1); while (!t.empty() && blank(t.back())) t.pop_back(); return t; }
static string dec(size_t n) { string r; do { r.insert(r.begin(), char('0' + n % 10)); n /= 10; } while (n); return r; }
static shared_ptr<POP3Store> mkStore(const shared_ptr<server>& s, propertySet p = propertySet(), const shared_ptr<userAuth>& a = make_shared<userAuth>()) { p["store.pop3.server.address"] = "server.example"; p["store.pop3.options.sasl"] = false; stub::sockets = make_shared<fakeFactory>(s); return make_shared<POP3Store>(net::session::create(p), a); }
struct testConn : POP3Connection { shared_ptr<net::socket> k; testConn(const shared_ptr<POP3Store>& st, const shared_ptr<net::socket>& x) : POP3Connection(st, make_shared<userAuth>()), k(x) {} bool isConnected() const override { return false; } shared_ptr<net::socket> getSocket() override { return k; } shared_ptr<net::timeoutHandler> getTimeoutHandler() override { return null; } shared_ptr<net::tracer> getTracer() override { return null; } };
static string stuffed(const string& l) { return !l.empty() && l[0] == '.' ? "." + l : l; }
// a line of n characters, none of them a line end
static string symLine(size_t n) { string s; if (P("set", 0)) s = symStrIn(n, P("set", 0) == 1 ? string(".a ") : string(".\ra\n", 3)); else { s = symStr(n); for (char c : s) vs_assume(vs_and(c != '\r', c != '\n')); } return s; }
struct status { const char* t; int code; };
static const status ST[] = { { "+OK", POP3Response::CODE_OK }, { "-ERR", POP3Response::CODE_ERR }, { "+Ok", POP3Response::CODE_OK }, { "+ok", POP3Response::CODE_OK }, { "+", POP3Response::CODE_READY }, { "+OX", POP3Response::CODE_ERR }, { "foo", POP3Response::CODE_ERR } };
HARNESS h_pop3_reply() {
	stub::install(); auto srv = make_shared<server>(); fragment(*srv); auto st = mkStore(srv); auto sok = make_shared<fakeSocket>(srv); sok->up = true; auto c = make_shared<testConn>(st, sok);
	string eol = P("lf", 0) ? "\n" : "\r\n"; const status& s = ST[P("st", 0)]; string text = symLine(vs_choice(P("tn", 1) + 1)); string first = string(s.t) + " " + text; bool multi = P("multi", 0); std::vector<string> lines; srv->out = first + eol; observe("text", text);
	if (multi && s.code == POP3Response::CODE_OK) { size_t k = vs_choice(P("lines", 2) + 1); for (size_t i = 0; i < k; i++) { string pre = i == 0 && P("lpre", 0) ? string(P("lpre", 0), '.') : string(); string l = pre + symLine(vs_choice(P("n", 2) + 1)); observe("l", l); lines.push_back(l); srv->out += stuffed(l) + eol; } srv->out += "." + eol; }
	shared_ptr<POP3Response> r; if (multi) r = POP3Response::readMultilineResponse(c); else r = POP3Response::readResponse(c);
	vs_check(srv->out.empty(), "a reply is read to its end"); vs_check(r->getCode() == s.code, "a reply has its status"); vs_check(r->isSuccess() == (s.code == POP3Response::CODE_OK), "success is +OK"); checkEq(rtrim(r->getFirstLine()), rtrim(first), "a reply has its first line"); checkEq(rtrim(r->getText()), rtrim(text), "a reply has its text");
	vs_check(r->getLineCount() == lines.size(), "a reply has its lines"); for (size_t i = 0; i < lines.size(); i++) checkEq(r->getLineAt(i), rtrim(lines[i]), "a line is the one sent");
	vs_reach("end");
}
struct sink : utility::outputStream { string d; void flush() override {} protected: void writeImpl(const byte_t* b, const size_t n) override { d.append((const char*)b, n); } };
HARNESS h_pop3_large() { // a message retrieved is the one sent, without the line end before the terminator
	stub::install(); auto srv = make_shared<server>(); fragment(*srv); auto st = mkStore(srv); auto sok = make_shared<fakeSocket>(srv); sok->up = true; auto c = make_shared<testConn>(st, sok);
	string eol = P("lf", 0) ? "\n" : "\r\n"; const status& s = ST[P("st", 0)]; string first = string(s.t) + " x"; srv->out = first + eol; string body; bool good = s.code == POP3Response::CODE_OK;
	if (good) { size_t k = vs_choice(P("lines", 2) + 1); if (P("fill", 0)) { string l(P("fill", 0) + vs_choice(5), 'f'); body = l + (k ? eol : ""); srv->out += l + eol; } for (size_t i = 0; i < k; i++) { string l; if (P("set", 0)) l = symStrIn(vs_choice(P("n", 2) + 1), string(".\ra")); else { l = symStr(vs_choice(P("n", 2) + 1)); for (char x : l) vs_assume(x != '\n'); } observe("l", l); body += (i ? eol : "") + l; srv->out += stuffed(l) + eol; } srv->out += "." + eol; }
	sink os; shared_ptr<POP3Response> r; try { r = POP3Response::readLargeResponse(c, os, NULL, 0); } catch (exceptions::command_error& e) { vs_check(!good, "a success is not an error"); checkEq(e.response(), first, "an error has its text"); vs_check(os.d.empty(), "an error has no data"); vs_reach("err"); vs_end(); }
	vs_check(good, "an error is reported"); vs_check(srv->out.empty(), "a message is read to its end"); checkEq(os.d, body, "the message is the one sent"); checkEq(r->getFirstLine(), first, "a message has its first line"); vs_check(r->isSuccess(), "success is +OK"); vs_reach("end");
}
HARNESS h_pop3_listing() { // LIST and UIDL
	stub::install(); auto srv = make_shared<server>(); auto st = mkStore(srv); auto sok = make_shared<fakeSocket>(srv); sok->up = true; auto c = make_shared<testConn>(st, sok);
	srv->out = "+OK\r\n"; std::map<size_t, string> want; size_t k = vs_choice(P("lines", 3) + 1); static const char* SEP[] = { " ", "  ", "\t", " \t " }; for (size_t i = 0; i < k; i++) { size_t n = size_t(vs_range(1, 3)) + (P("big", 0) ? 4294967290u : 0); n = vs_concrete(n); string u = symStr(1 + vs_choice(P("n", 2))); for (char x : u) vs_assume(vs_and(x > ' ', x < 127)); string l = dec(n) + SEP[vs_choice(4)] + u; if (!want.count(n)) want[n] = u; srv->out += l + "\r\n"; } srv->out += ".\r\n";
	auto r = POP3Response::readMultilineResponse(c); std::map<size_t, string> got; POP3Utils::parseMultiListOrUidlResponse(r, got); vs_check(got.size() == want.size(), "a listing names each message once"); for (auto& w : want) { vs_check(got.count(w.first) != 0, "a message of the listing is found"); checkEq(got[w.first], w.second, "a message has its UID"); }
	vs_reach("end");
}
HARNESS h_pop3_garbage() { // whatever a listing or a status contains
	stub::install(); auto srv = make_shared<server>(); auto st = mkStore(srv); auto sok = make_shared<fakeSocket>(srv); sok->up = true; auto c = make_shared<testConn>(st, sok); string g = P("set", 0) ? symStrIn(vs_choice(P("n", 4) + 1), string("+OK -.\r\n1a")) : symStr(vs_choice(P("n", 4) + 1)); static const char* PRE[] = { "", "+OK\r\n", "+OK\r\n1", "-ERR" }; srv->out = PRE[P("pre", 0)] + g + "\r\n.\r\n"; observe("out", srv->out);
	try { unsigned k = P("kind", 0); if (k == 0) { auto r = POP3Response::readResponse(c); (void)r->getText(); } else if (k == 1) { auto r = POP3Response::readMultilineResponse(c); std::map<size_t, string> got; POP3Utils::parseMultiListOrUidlResponse(r, got); vs_check(got.size() <= r->getLineCount(), "no message is made up"); } else { sink os; POP3Response::readLargeResponse(c, os, NULL, 0); } } catch (exceptions::socket_exception&) {} catch (exceptions::command_error&) {}
	vs_reach("end");
}
// ---- a model of a POP3 server (RFC 1939) ----
struct pmsg { string uid, text; bool del; };
struct pop3Server : server {
	std::vector<pmsg> box; int state = 0; bool apop = false, quit = false, apopOk = true; unsigned refusals = 0; string user; std::vector<string> unknown; string greeting = "+OK ready"; size_t removed = 0;
	bool refuse() { if (refusals == 0) return false; bool r = vs_choice(2) != 0; if (r) refusals--; return r; }
	void onConnect() override { reply(greeting + "\r\n"); state = 0; }
	static bool num(const string& s, size_t& n) { n = 0; if (s.empty()) return false; for (char c : s) { if (!digit(c)) return false; n = n * 10 + size_t(c - '0'); } return true; }
	bool have(size_t n) { return n >= 1 && n <= box.size() && !box[n - 1].del; }
	string dots(const string& t) { string r; bool sol = true; for (char c : t) { if (sol && c == '.') r += '.'; r += c; sol = c == '\n'; } return r + (t.size() >= 2 && t[t.size() - 1] == '\n' ? "" : "\r\n") + ".\r\n"; }
	void onLine(const string& l) override {
		size_t sp = l.find(' '); string c = l.substr(0, sp), a = sp == string::npos ? "" : l.substr(sp + 1); size_t n = 0;
		if (c == "QUIT" && sp == string::npos) { quit = true; if (state == 2) { std::vector<pmsg> k; for (auto& m : box) { if (!m.del) k.push_back(m); else removed++; } box = k; } reply("+OK bye\r\n"); state = 3; }
		else if (state == 0 && c == "CAPA") reply("-ERR no\r\n");
		else if (state == 0 && c == "USER") { user = a; if (refuse()) reply("-ERR who\r\n"); else { state = 1; reply("+OK\r\n"); } }
		else if (state == 1 && c == "PASS") { if (refuse()) { state = 0; reply("-ERR no\r\n"); } else { state = 2; reply("+OK in\r\n"); } }
		else if (state == 0 && c == "APOP") { if (apop && apopOk) { state = 2; reply("+OK in\r\n"); } else reply("-ERR no\r\n"); }
		else if (c == "NOOP" && sp == string::npos) reply(state == 2 ? "+OK\r\n" : "-ERR\r\n");
		else if (state != 2) { unknown.push_back(l); reply("-ERR state\r\n"); }
		else if (c == "STAT") { size_t k = 0, z = 0; for (auto& m : box) if (!m.del) { k++; z += m.text.size(); } reply("+OK " + dec(k) + " " + dec(z) + "\r\n"); }
		else if (c == "RSET") { for (auto& m : box) m.del = false; reply("+OK\r\n"); }
		else if ((c == "LIST" || c == "UIDL") && sp == string::npos) { if (refuse()) { reply("-ERR no\r\n"); return; } string r = "+OK\r\n"; for (size_t i = 0; i < box.size(); i++) if (!box[i].del) r += dec(i + 1) + " " + (c == "LIST" ? dec(box[i].text.size()) : box[i].uid) + "\r\n"; reply(r + ".\r\n"); }
		else if ((c == "LIST" || c == "UIDL") && num(a, n)) { if (!have(n) || refuse()) reply("-ERR no such message\r\n"); else reply("+OK " + dec(n) + " " + (c == "LIST" ? dec(box[n - 1].text.size()) : box[n - 1].uid) + "\r\n"); }
		else if (c == "DELE" && num(a, n)) { if (!have(n) || refuse()) reply("-ERR no such message\r\n"); else { box[n - 1].del = true; reply("+OK deleted\r\n"); } }
		else if (c == "RETR" && num(a, n)) { if (!have(n) || refuse()) reply("-ERR no such message\r\n"); else reply("+OK\r\n" + dots(box[n - 1].text)); }
		else if (c == "TOP" && a.find(' ') != string::npos && num(a.substr(0, a.find(' ')), n)) { if (!have(n) || refuse()) reply("-ERR no such message\r\n"); else { const string& t = box[n - 1].text; reply("+OK\r\n" + dots(t.substr(0, t.find("\r\n\r\n") + 4))); } }
		else { unknown.push_back(l); reply("-ERR what\r\n"); }
	}
};
static void fill(pop3Server& s, size_t n) { for (size_t i = 0; i < n; i++) { string b = P("n", 0) ? symStrIn(vs_choice(P("n", 0) + 1), string(".\r\na")) : string(i + 1, char('a' + i)); bool bare = false; for (size_t j = 0; j < b.size(); j++) if (vs_concrete(b[j] == '\n') && (j == 0 || vs_concrete(b[j - 1] != '\r'))) bare = true; if (bare) vs_end(); s.box.push_back({ string("uid") + char('1' + i), string("Subject: s") + char('1' + i) + "\r\n\r\n" + b, false }); } }
static string chop(string t) { if (t.size() >= 2 && t.compare(t.size() - 2, 2, "\r\n") == 0) t.resize(t.size() - 2); return t; }
static shared_ptr<net::message> msgOf(std::vector<shared_ptr<net::message>>& v, size_t i) { return v[i]; }
HARNESS h_pop3_session() { // every operation has the effect it reports, on the message it names
	stub::install(); auto s = make_shared<pop3Server>(); fragment(*s); fill(*s, P("msgs", 2)); auto st = mkStore(s); st->connect(); s->refusals = P("ref", 1); auto f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_WRITE); size_t N = s->box.size(); vs_check(f->getMessageCount() == N, "the folder has its messages");
	auto ms = f->getMessages(net::messageSet::byNumber(1, -1)); vs_check(ms.size() == N, "every message is listed"); std::vector<bool> del(N, false);
	for (size_t op = 0, ops = P("ops", 2); op < ops; op++) switch (op == 0 && P("first", 9) < 9 ? P("first", 9) : vs_choice(7)) {
	case 0: { unsigned k = vs_choice(2); net::fetchAttributes at; at.add(k ? net::fetchAttributes::UID : net::fetchAttributes::SIZE); f->fetchMessages(ms, at); break; }
	case 1: { net::fetchAttributes at; at.add(net::fetchAttributes::UID); at.add(net::fetchAttributes::SIZE); auto m = msgOf(ms, vs_choice(N)); f->fetchMessage(m, at); break; }
	case 2: { auto m = msgOf(ms, vs_choice(N)); net::fetchAttributes at; at.add(net::fetchAttributes::FULL_HEADER); bool ok = false; try { f->fetchMessage(m, at); ok = true; } catch (exceptions::command_error&) {} if (ok) { vs_check(!s->box[m->getNumber() - 1].del, "a header is fetched only when the server gives it"); checkEq(m->getHeader()->Subject()->getValue<text>()->getWholeBuffer(), string("s") + dec(m->getNumber()), "the header fetched is that of the message"); } break; }
	case 3: { auto m = msgOf(ms, vs_choice(N)); sink os; unsigned before = s->refusals; bool ok = false; try { m->extract(os); ok = true; } catch (exceptions::command_error&) {} if (ok) checkEq(os.d, chop(s->box[m->getNumber() - 1].text), "the message extracted is the one asked for"); else vs_check(s->box[m->getNumber() - 1].del || before != s->refusals, "a message is extracted when the server gives it"); break; }
	case 4: { auto m = msgOf(ms, vs_choice(N)); sink os; bool thrown = false; size_t a = vs_choice(2); size_t l = a ? (size_t)-1 : 1; size_t lines = s->got.size(); try { m->extract(os, NULL, a, l); } catch (exceptions::partial_fetch_not_supported&) { thrown = true; } vs_check(thrown && os.d.empty() && s->got.size() == lines, "a part of a message is refused"); break; }
	case 5: { size_t a = 1 + vs_choice(N), b = a + vs_choice(N - a + 1); try { f->deleteMessages(net::messageSet::byNumber(a, b)); for (size_t i = a; i <= b; i++) vs_check(s->box[i - 1].del, "a deletion that succeeds deletes all its messages"); } catch (exceptions::command_error&) {} break; }
	case 6: { bool ex = vs_choice(2); f->close(ex); if (!ex) for (auto& m : s->box) vs_check(!m.del, "closing without expunging keeps the messages"); f->open(net::folder::MODE_READ_WRITE); ms = f->getMessages(net::messageSet::byNumber(1, -1)); if (ms.size() != N) vs_end(); break; }
	}
	for (size_t i = 0; i < N; i++) { auto m = ms[i]; vs_check(m->getNumber() == i + 1, "a message has its number"); vs_check(!(m->getFlags() & net::message::FLAG_DELETED) || s->box[i].del, "a message marked as deleted is"); string u = m->getUID(); vs_check(u.empty() || u == s->box[i].uid, "a UID is that of the message"); try { size_t z = m->getSize(); vs_check(z == s->box[i].text.size(), "a size is that of the message"); } catch (exceptions::unfetched_object&) {} }
	if (std::count_if(s->got.begin(), s->got.end(), [](const std::pair<string, bool>& g) { return g.first == "STAT"; }) == 1) for (size_t i = 0; i < N; i++) vs_check(bool(ms[i]->getFlags() & net::message::FLAG_DELETED) == s->box[i].del, "a message the server deletes is marked as deleted");
	size_t del2 = 0; for (auto& m : s->box) del2 += m.del; vs_check(s->out.empty(), "every reply is read"); st->disconnect(); vs_check(s->quit && s->removed == del2, "ending the session removes the deleted messages"); vs_check(s->unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
HARNESS h_pop3_auth() { // credentials are sent as they are, each in one command, or refused
	stub::install(); auto s = make_shared<pop3Server>(); s->apop = P("apop", 0); s->apopOk = P("apop", 0) == 1; s->refusals = P("ref", 1); if (P("apop", 0)) s->greeting = "+OK ready <1.2@h>"; auto a = make_shared<userAuth>(); a->user = symStr(vs_choice(P("n", 2) + 1)); a->pass = symStr(vs_choice(P("n", 2) + 1)); observe("user", a->user); observe("pass", a->pass);
	propertySet p; p["store.pop3.options.apop"] = P("useApop", 1) != 0; auto st = mkStore(s, p, a); int bad = 0; for (char c : a->user + a->pass) bad = vs_or(bad, vs_or(c == '\r', c == '\n')); bool ok = false; try { st->connect(); ok = true; } catch (exceptions::invalid_argument&) { vs_check(bad, "credentials of one line are accepted"); } catch (exceptions::authentication_error&) {}
	vs_check(ok == st->isConnected(), "a store that fails to connect is not connected"); vs_check(!ok || s->state == 2, "a store is connected when the server accepts"); string expect; size_t at = 0; auto next = [&]() { return at < s->got.size() ? s->got[at++].first : string("-"); };
	string l = next(); if (P("useApop", 1) && P("apop", 0) && s->got.size() && l.compare(0, 4, "APOP") == 0) { auto md = security::digest::messageDigestFactory::getInstance()->create("md5"); md->update("<1.2@h>" + a->pass); md->finalize(); checkEq(l, "APOP " + a->user + " " + md->getHexDigest(), "APOP has the user and the digest"); l = next(); if (l == "NOOP") l = next(); }
	if (l.compare(0, 4, "USER") == 0) { checkEq(l, "USER " + a->user, "USER has the user"); l = next(); } if (l.compare(0, 4, "PASS") == 0) { checkEq(l, "PASS " + a->pass, "PASS has the password"); l = next(); } vs_check(l == "-" || l == "QUIT", "nothing else is sent"); vs_check(at >= s->got.size(), "nothing is sent after the end"); vs_check(s->unknown.empty(), "only commands of the protocol are sent");
	vs_reach("end");
}
