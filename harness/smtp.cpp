// C26: SMTP replies; C27: message data; C36: the messages a server accepts
#include "net.hpp"
#include "vmime/net/smtp/SMTPResponse.hpp"
#include "vmime/net/smtp/SMTPTransport.hpp"
#include "vmime/net/smtp/SMTPConnection.hpp"
#include "vmime/net/smtp/SMTPCommand.hpp"
#include "vmime/net/smtp/SMTPChunkingOutputStreamAdapter.hpp"
#include "vmime/utility/outputStreamSocketAdapter.hpp"
using namespace net::smtp;
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool rblank(char c) { return c == ' ' || c == 9 || c == 10 || c == 13; }
struct rline { int code; bool more; string text; int enh[3]; };
static rline readLine(const string& l) {
	rline r; r.code = l.size() >= 3 && digit(l[0]) && digit(l[1]) && digit(l[2]) ? (l[0] - '0') * 100 + (l[1] - '0') * 10 + (l[2] - '0') : 0; r.more = l.size() >= 4 && l[3] == '-';
	string t = l.size() > 4 ? l.substr(4) : ""; while (!t.empty() && rblank(t[0])) t.erase(0, 1); while (!t.empty() && rblank(t.back())) t.pop_back(); r.text = t; r.enh[0] = r.enh[1] = r.enh[2] = 0;
	size_t p = 0; int e[3] = { 0, 0, 0 }; bool ok = true; for (int k = 0; k < 3 && ok; k++) { if (k) { if (p < t.size() && t[p] == '.') p++; else { ok = false; break; } } size_t b = p; while (p < t.size() && digit(t[p]) && p - b < 5) e[k] = e[k] * 10 + (t[p++] - '0'); if (p == b) ok = false; } if (ok) for (int k = 0; k < 3; k++) r.enh[k] = e[k];
	return r;
}
static const char* RPRE[] = { "", "250", "250-", "250 ", "250-a\r\n", "250-a\r\n250", "250 2.", "250 2.1.", "25", "250-\n2", "550 5.1.1 no\r\n", "250-a\r\n550-", "250 OK\r", "\r\n", "250-a\r\r\n250 b", "250-2.1.5 a\r\n250 2.1.", "250-a\r\n250-4.4.1 b\r\n250 " };
static const char* RPOST[] = { "", "\r\n", "\n", " x\r\n", "-y\r\n250 z\r\n", "0 OK\r\n354 go\r\n", ".7 t\r\n", "\r\r\n250 x\r\n" };
HARNESS h_smtp_reply() {
	stub::install(); string all = RPRE[P("pfx", 0)]; all += P("set", 0) == 1 ? symStrIn(vs_choice(P("n", 2) + 1), string("250-. \r\na")) : symStr(vs_choice(P("n", 2) + 1)); all += RPOST[P("sfx", 1)]; observe("all", all);
	auto srv = make_shared<server>(); fragment(*srv); srv->out = all; auto sok = make_shared<fakeSocket>(srv); sok->up = true;
	SMTPResponse::state st; size_t pos = 0; if (P("part", 0)) { size_t k = std::min(all.size(), (size_t)vs_choice(P("part", 0) + 1)); st.responseBuffer = all.substr(0, k); srv->out = all.substr(k); }
	for (int n = 0; n < 3; n++) {
		std::vector<rline> want; bool complete = false; size_t p = pos; while (!complete) { size_t e = all.find('\n', p); if (e == string::npos) break; string l = all.substr(p, e - p); if (!l.empty() && l.back() == '\r') l.pop_back(); p = e + 1; want.push_back(readLine(l)); if (!want.back().more) complete = true; }
		shared_ptr<SMTPResponse> r; try { r = SMTPResponse::readResponse(null, sok, null, st); } catch (exceptions::socket_exception&) { vs_check(!complete, "a complete reply is read"); break; }
		vs_check(complete, "a reply is read when it is complete"); pos = p; st = r->getCurrentState(); checkEq(st.responseBuffer + srv->out, all.substr(pos), "what follows a reply is kept");
		vs_check(r->getLineCount() == want.size(), "a reply has its lines"); int code = want[0].code; string text; for (size_t i = 0; i < want.size(); i++) { auto l = r->getLineAt(i); vs_check(l.getCode() == want[i].code, "a line has its code"); checkEq(l.getText(), want[i].text, "a line has its text"); auto e = l.getEnhancedCode(); vs_check(e.klass == want[i].enh[0] && e.subject == want[i].enh[1] && e.detail == want[i].enh[2], "a line has its enhanced code"); if (want[i].code != code) code = 0; text += (i ? "\n" : "") + want[i].text; }
		vs_check(r->getCode() == code, "a reply has the code of all its lines"); checkEq(r->getText(), text, "a reply has the text of its lines"); auto e = r->getEnhancedCode(); vs_check(e.klass == want.back().enh[0] && e.detail == want.back().enh[2], "a reply has the enhanced code of its last line");
	}
	vs_reach("end");
}
// ---- a model of an SMTP server (RFC 5321, 2920, 3030) whose replies are chosen ----
struct mail { string from; std::vector<string> to; string data; };
struct smtpServer : server {
	enum { CMD, DATA, BDAT } st = CMD; std::vector<mail> accepted; mail cur; bool mailOk = false; size_t bdatLeft = 0; bool bdatLast = false, bdatBad = false; string dataLine; unsigned choices = 0; bool pipelining = false, chunking = false, quit = false, sizeExt = false; std::vector<string> unknown; unsigned maxRefusals = 2; bool chunkRefusals = false, chunkRefused = false, lenient = false, lastRefused = false;
	smtpServer() { lines = false; }
	bool refuse() { if (maxRefusals == 0) return false; bool r = vs_choice(2) != 0; if (r) maxRefusals--; return r; }
	void onConnect() override { reply("220 ready\r\n"); }
	void onBytes(const string& s) override { size_t i = 0; while (i < s.size()) { if (st == BDAT && bdatLeft > 0) { size_t k = std::min(bdatLeft, s.size() - i); cur.data += s.substr(i, k); bdatLeft -= k; i += k; if (bdatLeft == 0) bdatEnd(); continue; } char c = s[i++]; line += c; if (c == '\n' && line.size() >= 2 && line[line.size() - 2] == '\r') { string l = line.substr(0, line.size() - 2); line.clear(); got.push_back({ l, tls }); if (st == DATA) dataLineGot(l); else command(l); } } }
	void bdatEnd() { st = CMD; if (bdatBad) { reply("503 bad\r\n"); if (bdatLast) { cur = mail(); mailOk = false; } return; } if (bdatLast) finish(); else if (chunkRefusals && refuse()) { chunkRefused = true; reply("552 full\r\n"); } else reply("250 ok\r\n"); }
	void finish() { if (refuse()) { lastRefused = true; reply("554 no\r\n"); } else { reply("250 accepted\r\n"); accepted.push_back(cur); } cur = mail(); mailOk = false; }
	void dataLineGot(const string& l) { if (same(l, ".")) { st = CMD; if (cur.data.size() >= 2) { } finish(); return; } string t = l; if (!t.empty() && t[0] == '.') t.erase(0, 1); cur.data += t + "\r\n"; }
	static string arg(const string& l) { size_t a = l.find('<'), b = l.rfind('>'); return a == string::npos || b == string::npos || b < a ? "" : l.substr(a + 1, b - a - 1); }
	void command(const string& l) {
		if (l.compare(0, 5, "EHLO ") == 0) { string r = "250-hello\r\n"; if (pipelining) r += "250-PIPELINING\r\n"; if (chunking) r += "250-CHUNKING\r\n"; if (sizeExt) r += "250-SIZE 1000000\r\n"; reply(r + "250 DSN\r\n"); }
		else if (l == "RSET") { cur = mail(); mailOk = false; reply("250 reset\r\n"); }
		else if (l == "NOOP") reply("250 ok\r\n");
		else if (l == "QUIT") { quit = true; reply("221 bye\r\n"); }
		else if (l.compare(0, 11, "MAIL FROM:<") == 0) { if (mailOk) reply("503 nested\r\n"); else if (refuse()) reply("550 no\r\n"); else { cur = mail(); cur.from = arg(l); mailOk = true; reply("250 ok\r\n"); } }
		else if (l.compare(0, 9, "RCPT TO:<") == 0) { if (!mailOk) reply("503 no mail\r\n"); else if (refuse()) reply("550 no such user\r\n"); else { cur.to.push_back(arg(l)); reply("250 ok\r\n"); } }
		else if (l == "DATA") { if (cur.to.empty()) reply("503 no recipients\r\n"); else if (refuse()) reply("451 later\r\n"); else { st = DATA; reply("354 go\r\n"); } }
		else if (l.compare(0, 5, "BDAT ") == 0) { size_t n = 0, i = 5; for (; i < l.size() && digit(l[i]); i++) n = n * 10 + size_t(l[i] - '0'); bdatLast = l.find("LAST", i) != string::npos; bdatLeft = n; bdatBad = cur.to.empty() || (chunkRefused && !lenient); st = BDAT; if (n == 0) bdatEnd(); }
		else { unknown.push_back(l); reply("500 what\r\n"); }
	}
};
static shared_ptr<SMTPTransport> transport(const shared_ptr<server>& s, bool auth = false) { propertySet p; p["transport.smtp.server.address"] = "server.example"; p["transport.smtp.options.need-authentication"] = auth; p["transport.smtp.options.pipelining"] = true; p["transport.smtp.options.chunking"] = true; stub::sockets = make_shared<fakeFactory>(s); auto t = make_shared<SMTPTransport>(net::session::create(p), make_shared<userAuth>()); return t; }
static string dataText() { static const char* PRE[] = { "", "a", ".", "a\r\n", "a\r\n.", "a\n", "\r\n", "a\r" }; string s = PRE[P("dpre", 0)]; s += P("dset", 1) ? symStrIn(vs_choice(P("n", 2) + 1), string(".\r\na")) : symStr(vs_choice(P("n", 2) + 1)); static const char* POST[] = { "", "b", ".", "\r\n", "\r\n.\r\nQUIT\r\n", ".b" }; s += POST[P("dpost", 0)]; return s; }
struct chunkStream : utility::inputStream { string d; size_t pos = 0, piece; chunkStream(const string& s, size_t k) : d(s), piece(k) {} bool eof() const override { return pos >= d.size(); } void reset() override { pos = 0; } size_t read(byte_t* b, size_t n) override { size_t k = std::min(std::min(n, piece), d.size() - pos); std::copy(d.begin() + pos, d.begin() + pos + k, b); pos += k; return k; } size_t skip(size_t n) override { size_t k = std::min(n, d.size() - pos); pos += k; return k; } };
HARNESS h_smtp_data() { // DATA: a server that removes the dots gets the message
	stub::install(); auto s = make_shared<smtpServer>(); s->maxRefusals = 0; s->pipelining = P("pipe", 0); auto t = transport(s); t->connect(); string d = dataText(); observe("d", d);
	mailbox from(emailAddress("a", "b")); mailboxList to; to.appendMailbox(make_shared<mailbox>(emailAddress("c", "d"))); chunkStream is(d, P("piece", 100)); t->send(from, to, is, d.size());
	vs_check(s->accepted.size() == 1, "one message is accepted"); vs_check(s->unknown.empty(), "no part of a message is a command");
	// bytes between DATA and the end, line ends apart
	size_t b = s->raw.find("DATA\r\n"); string w = s->raw.substr(b + 6); checkEq(s->raw.substr(s->raw.size() - 5), "\r\n.\r\n", "the data ends with its mark"); w.resize(w.size() - 3); string un; for (size_t i = 0; i < w.size(); i++) { if (w[i] == '.' && (i == 0 || w[i - 1] == '\n')) { vs_check(i + 1 < w.size() && w[i + 1] == '.', "a dot at the beginning of a line is doubled"); continue; } un += w[i]; }
	(void)un; string res; bool sol = true; for (size_t i = 0; i < w.size(); i++) { if (sol && w[i] == '.') { sol = false; continue; } res += w[i]; sol = w[i] == '\n'; } checkEq(res, d + "\r\n", "the message without the doubled dots is the one sent");
	t->disconnect(); vs_reach("end");
}
HARNESS h_smtp_bdat() { // BDAT: the chunks joined are the message
	stub::install(); auto s = make_shared<smtpServer>(); s->maxRefusals = 0; s->chunkRefusals = true; s->lenient = P("lenient", 0); s->chunking = true; s->pipelining = P("pipe", 0); bool threw = false; auto t = transport(s); t->connect(); s->command("MAIL FROM:<a@b>"); s->command("RCPT TO:<c@d>"); s->out.clear(); s->maxRefusals = P("ref", 0);
	string all; SMTPChunkingOutputStreamAdapter os(t->getConnection(), 0, NULL); size_t B = os.getBlockSize(); size_t k = 1 + vs_choice(P("writes", 2)); for (size_t i = 0; i < k; i++) { string x = symStr(vs_choice(3)); if (i == 0 && P("fill", 0)) { size_t f = B * P("fill", 0) - 2 + vs_choice(4) - x.size(); x = string(f, 'f') + x; } all += x; try { os.write(x.data(), x.size()); } catch (exceptions::command_error&) { threw = true; break; } } if (!threw) try { os.flush(); } catch (exceptions::command_error&) { threw = true; }
	if (P("ref", 0)) { bool bad = s->chunkRefused || s->lastRefused; vs_check(threw == bad, "a refused chunk is reported, and nothing else"); if (!s->lenient) vs_check(s->accepted.size() == (threw ? 0u : 1u), "a message is accepted if it is reported as sent"); vs_reach("end"); return; }
	vs_check(s->accepted.size() == 1, "one message is accepted"); if (s->accepted.size()) checkEq(s->accepted[0].data, all, "the chunks joined are the message"); vs_check(s->unknown.empty(), "no part of a message is a command"); vs_check(s->out.empty(), "every reply is read");
	t->disconnect(); vs_check(s->quit, "the session ends"); vs_reach("end");
}
static shared_ptr<vmime::message> makeMsg(const string& body) { auto m = make_shared<vmime::message>(); m->getHeader()->Subject()->setValue(text("x")); m->getBody()->setContents(make_shared<stringContentHandler>(body)); return m; }
HARNESS h_smtp_session() { // whatever the server answers, a message is accepted only for its recipients and whole, and send() knows
	stub::install(); auto s = make_shared<smtpServer>(); s->maxRefusals = P("ref", 2); s->pipelining = P("pipe", 0); s->chunking = P("chunk", 0); fragment(*s); auto t = transport(s); t->connect(); size_t msgs = P("msgs", 2); std::vector<mail> sent; std::vector<bool> ok;
	for (size_t i = 0; i < msgs; i++) {
		mail m; m.from = string("f") + char('0' + i) + "@h"; size_t nr = P("nr", 0) ? P("nr", 0) : 1 + vs_choice(2); mailboxList to; for (size_t j = 0; j < nr; j++) { string l = string("r") + char('0' + i) + char('0' + j); m.to.push_back(l + "@h"); to.appendMailbox(make_shared<mailbox>(emailAddress(l, "h"))); } m.data = string("body") + char('0' + i); sent.push_back(m);
		mailbox from(emailAddress(m.from)); bool good = false; try { if (!t->isConnected()) t->connect(); if (P("chunk", 0)) t->send(makeMsg(m.data), from, to); else { utility::inputStreamStringAdapter is(m.data); t->send(from, to, is, m.data.size()); } good = true; } catch (exceptions::no_recipient&) { throw; } catch (exception&) {} ok.push_back(good);
		if (!good && P("retry", 0)) { try { if (t->isConnected()) t->disconnect(); } catch (exception&) {} if (s->open) vs_fail("a session can be closed"); }
		if (!s->open) { s->st = smtpServer::CMD; s->cur = mail(); s->mailOk = false; s->out.clear(); s->line.clear(); s->bdatLeft = 0; }
	}
	vs_check(s->unknown.empty(), "no part of a message is a command");
	for (auto& a : s->accepted) { int which = -1; for (size_t i = 0; i < msgs; i++) if (a.from == sent[i].from) which = (int)i; vs_check(which >= 0, "an accepted message was sent"); const mail& m = sent[which]; vs_check(a.to.size() == m.to.size() && a.to == m.to, "a message is accepted for its recipients"); if (P("chunk", 0)) vs_check(a.data.size() > 10 && a.data.substr(a.data.size() - m.data.size()) == m.data && a.data.find("RCPT") == string::npos, "a message is accepted whole"); else checkEq(a.data, m.data + "\r\n", "a message is accepted whole"); vs_check(ok[which], "an accepted message is reported as sent"); }
	for (size_t i = 0; i < msgs; i++) if (ok[i]) { int n = 0; for (auto& a : s->accepted) if (a.from == sent[i].from) n++; vs_check(n == 1, "a message reported as sent was accepted once"); }
	vs_reach("end");
}
HARNESS h_smtp_addr() { // an address is never more than an argument
	stub::install(); auto s = make_shared<smtpServer>(); s->maxRefusals = 0; bool utf8 = P("utf8", 0); string l = "x", d = "y"; (P("dom", 0) ? d : l) = P("set", 0) ? symStrIn(1 + vs_choice(P("n", 2)), string("<> \r\n\"\\@.a,")) : symStr(1 + vs_choice(P("n", 2))); observe("l", l); observe("d", d); emailAddress e{ word(l, vmime::charset("utf-8")), word(d, vmime::charset("utf-8")) };
	mailbox m(e); shared_ptr<SMTPCommand> c; try { c = P("rcpt", 0) ? SMTPCommand::RCPT(m, utf8, null) : SMTPCommand::MAIL(m, utf8, P("size", 0), null); } catch (exceptions::invalid_argument&) { int plain = 1; for (char x : l + d) plain = vs_and(plain, vs_or(vs_and(x >= 'a', x <= 'z'), vs_or(x == '.', x == '+'))); vs_check(!plain, "an ordinary address is accepted"); vs_end(); }
	string t = c->getText(); string pre = P("rcpt", 0) ? "RCPT TO:<" : "MAIL FROM:<"; vs_check(t.compare(0, pre.size(), pre) == 0, "the command is the one asked for"); int ok = 1; for (char x : t) ok = vs_and(ok, vs_and(x != '\r', x != '\n')); vs_check(ok, "a command is one line"); 
	// the path ends where it should
	size_t i = pre.size(); bool q = false; for (; i < t.size(); i++) { if (q) { if (t[i] == '\\') i++; else if (t[i] == '"') q = false; } else if (t[i] == '"') q = true; else if (t[i] == '>') break; else vs_check(t[i] != ' ', "an address is one argument"); } vs_check(i < t.size(), "the address ends"); string rest = t.substr(i + 1); vs_check(rest == string(utf8 ? " SMTPUTF8" : "") + (P("size", 0) && !P("rcpt", 0) ? " SIZE=5" : "") || (P("rcpt", 0) && rest == ""), "the address is one argument");
	vs_reach("end");
}
