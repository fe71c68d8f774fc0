// C40: IMAP sessions
#include "net.hpp"
#include "vmime/net/events.hpp"
#include "vmime/net/imap/IMAPConnection.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPMessage.hpp"
#include "vmime/net/imap/IMAPMessagePart.hpp"
#include "vmime/net/imap/IMAPFolderStatus.hpp"
#include "vmime/utility/outputStreamAdapter.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
using namespace net::imap; using net::messageSet; using net::fetchAttributes; typedef net::message M;
static string dec(size_t n) { string r; do { r.insert(r.begin(), char('0' + n % 10)); n /= 10; } while (n); return r; }
static size_t num(const string& s, size_t& i) { size_t n = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') n = n * 10 + size_t(s[i++] - '0'); return n; }
struct sink : utility::outputStream { string d; void flush() override {} protected: void writeImpl(const byte_t* b, const size_t n) override { d.append((const char*)b, n); } };
// ---- messages as a tree of parts ----
struct part { string mime, text, type; std::vector<part> sub; // of a multipart
	string content() const { if (sub.empty()) return text; string r; for (auto& p : sub) r += "--b" + type + "\r\n" + p.mime + p.content() + "\r\n"; return r + "--b" + type + "--\r\n"; }
	string structure() const { if (!sub.empty()) { string r = "("; for (auto& p : sub) r += p.structure(); return r + " \"mixed\" (\"boundary\" \"b" + type + "\") NIL NIL)"; }
		if (type == "message") return "(\"message\" \"rfc822\" NIL NIL NIL \"7bit\" " + dec(text.size()) + " (NIL \"in\" NIL NIL NIL NIL NIL NIL NIL NIL) (\"text\" \"plain\" NIL NIL NIL \"7bit\" 1 1) 3 NIL NIL NIL)";
		if (type == "text") return "(\"text\" \"plain\" (\"charset\" \"us-ascii\") NIL NIL \"7bit\" " + dec(text.size()) + " 1 NIL NIL NIL)"; return "(\"application\" \"octet-stream\" (\"name\" \"f\") NIL NIL \"base64\" " + dec(text.size()) + " NIL (\"attachment\" NIL) NIL)"; } };
struct imsg { size_t uid; unsigned fl; string hdr; part root; string text() const { return hdr + root.content(); } };
static part leaf(const string& type, const string& text) { part p; p.type = type; p.text = text; p.mime = type == "text" ? "Content-Type: text/plain\r\n\r\n" : type == "app" ? "Content-Type: application/octet-stream\r\nContent-Transfer-Encoding: base64\r\n\r\n" : "Content-Type: message/rfc822\r\n\r\n"; return p; }
static part multi(const string& name, std::vector<part> sub) { part p; p.type = name; p.sub = sub; p.mime = "Content-Type: multipart/mixed; boundary=b" + name + "\r\n\r\n"; return p; }
static part shape(unsigned k, const string& t) { switch (k) { case 1: return multi("x", { leaf("text", t), leaf("app", "YWE=") }); case 2: return multi("x", { leaf("text", "one"), multi("y", { leaf("text", "two"), leaf("text", t) }) }); case 3: return multi("x", { leaf("message", "Subject: in\r\n\r\n" + t), leaf("text", "z") }); case 4: { std::vector<part> v; for (size_t i = 0; i < 12; i++) v.push_back(i == 10 ? multi("y", { leaf("text", "u"), leaf("text", t) }) : leaf(i % 2 ? "app" : "text", string(1, char('a' + i)))); return multi("x", v); } case 5: return multi("x", { multi("y", { multi("w", { leaf("text", "1"), leaf("text", t) }), leaf("text", "2") }), leaf("app", "3") }); default: return leaf("text", t); } }
static imsg mk(size_t uid, unsigned fl, const string& body, unsigned sh = 0) { imsg m; m.uid = uid; m.fl = fl; m.root = shape(sh, body); m.hdr = "Subject: s" + dec(uid) + "\r\nFrom: <a" + dec(uid) + "@h>\r\nX-Priority: 1\r\nMIME-Version: 1.0\r\n" + m.root.mime; return m; }
static string flagText(unsigned f) { string r; auto add = [&](unsigned b, const char* n) { if (f & b) { if (!r.empty()) r += ' '; r += n; } }; add(M::FLAG_SEEN, "\\Seen"); add(M::FLAG_REPLIED, "\\Answered"); add(M::FLAG_MARKED, "\\Flagged"); add(M::FLAG_DELETED, "\\Deleted"); add(M::FLAG_DRAFT, "\\Draft"); return r; }
static unsigned flagBits(const string& s, bool& ok) { unsigned r = 0; ok = s.size() >= 2 && s[0] == '(' && s.back() == ')'; if (!ok) return 0; size_t i = 1; while (i < s.size() - 1) { size_t e = s.find_first_of(" )", i); string f = s.substr(i, e - i); if (f == "\\Seen") r |= M::FLAG_SEEN; else if (f == "\\Answered") r |= M::FLAG_REPLIED; else if (f == "\\Flagged") r |= M::FLAG_MARKED; else if (f == "\\Deleted") r |= M::FLAG_DELETED; else if (f == "\\Draft") r |= M::FLAG_DRAFT; else ok = false; i = e + 1; } return r; }
// ---- a model of an IMAP server (RFC 3501, 4315, 4551) ----
struct conn;
struct world { std::vector<imsg> box; size_t uidNext = 1; std::vector<string> boxes, unknown; unsigned ev = 0, ref = 0; bool readOnly = false, condstore = false; int code = 0; std::vector<std::shared_ptr<conn>> conns; string lastMailbox, appended, lastCopy; unsigned appendFlags = 0; std::vector<size_t> copied; std::map<size_t, unsigned> touched; unsigned lit = 0; bool uidplus = true; size_t closed = 0, expunges = 0; string sep = "/"; std::vector<std::pair<string, string>> attrs; };
struct conn : server {
	world& w; int state = 0; bool ro = false; std::vector<size_t> view; std::map<size_t, unsigned> told; string tag, data, appendArgs; size_t need = 0; bool literal = false; conn(world& x) : w(x) { lines = false; }
	bool refuse() { if (w.ref == 0) return false; bool r = vs_choice(2) != 0; if (r) w.ref--; return r; }
	void onConnect() override { reply("* OK ready\r\n"); }
	void onBytes(const string& s) override { for (char c : s) { if (literal) { data += c; if (data.size() == need) { literal = false; appendData(); } } else if (c == '\n') { string l = line; line.clear(); if (!l.empty() && l.back() == '\r') l.pop_back(); got.push_back({ l, tls }); onLine(l); } else line += c; } }
	imsg* find(size_t uid) { for (auto& m : w.box) if (m.uid == uid) return &m; return nullptr; }
	size_t pos(size_t uid) { for (size_t i = 0; i < view.size(); i++) if (view[i] == uid) return i + 1; return 0; }
	string fetchFlags(size_t uid, bool withUid) { told[uid] = find(uid)->fl; return "* " + dec(pos(uid)) + " FETCH (" + (withUid ? "UID " + dec(uid) + " " : "") + "FLAGS (" + flagText(told[uid]) + "))\r\n"; }
	void removed(size_t uid) { size_t n = pos(uid); reply("* " + dec(n) + " EXPUNGE\r\n"); view.erase(view.begin() + long(n) - 1); }
	// what another client does meanwhile: done at once, told when the server can or wants
	std::vector<size_t> gone;
	void unsol(bool expungeOk) { while (w.ev && state == 2) { unsigned k = vs_choice(view.empty() ? 2 : 4); if (k == 0) break; w.ev--; switch (k) {
		case 1: { size_t u = w.uidNext++; w.box.push_back(mk(u, 0, "n")); pending.push_back(u); break; }
		case 2: { size_t u = view[vs_choice(view.size())]; imsg* m = find(u); if (!m) break; m->fl ^= M::FLAG_SEEN; w.touched[u] = m->fl; reply(fetchFlags(u, false)); break; }
		case 3: { size_t u = view[vs_choice(view.size())]; for (size_t i = 0; i < w.box.size(); i++) if (w.box[i].uid == u) { w.box.erase(w.box.begin() + long(i)); gone.push_back(u); break; } break; } } }
		tell(expungeOk); }
	std::vector<size_t> pending;
	void tell(bool expungeOk) { if (expungeOk) { for (size_t u : gone) if (pos(u)) removed(u); gone.clear(); } if (!pending.empty()) { for (size_t u : pending) view.push_back(u); pending.clear(); reply("* " + dec(view.size()) + " EXISTS\r\n"); if (P("recent", 0)) reply("* 1 RECENT\r\n"); } }
	void done(const string& s) { reply(tag + " " + s + (s.find(char(32)) == string::npos ? " done" : "") + "\r\n"); }
	std::vector<size_t> set(const string& s, bool uid, bool& ok) { std::vector<size_t> r; ok = !s.empty(); size_t i = 0; while (i < s.size()) { size_t last = uid ? (view.empty() ? 0 : view.back()) : view.size(); auto one = [&]() -> size_t { if (i < s.size() && s[i] == '*') { i++; return last; } if (i >= s.size() || s[i] < '1' || s[i] > '9') ok = false; return num(s, i); }; size_t a = one(), b = a; if (i < s.size() && s[i] == ':') { i++; b = one(); } if (i < s.size() && s[i] != ',') ok = false; i++; if (!ok) break; if (a > b) std::swap(a, b);
		if (uid) { for (size_t u : view) if (u >= a && u <= b) r.push_back(u); } else { if (a < 1 || b > view.size()) { ok = false; break; } for (size_t k = a; k <= b; k++) r.push_back(view[k - 1]); } } return r; }
	static string word(string& a) { size_t p = 0; if (!a.empty() && a[0] == '(') { int d = 0; for (; p < a.size(); p++) { if (a[p] == '(') d++; if (a[p] == ')' && --d == 0) { p++; break; } } } else if (!a.empty() && a[0] == '"') { p = 1; while (p < a.size() && a[p] != '"') p += a[p] == '\\' ? 2 : 1; p++; } else { int d = 0; for (; p < a.size() && (a[p] != ' ' || d); p++) { if (a[p] == '[') d++; if (a[p] == ']') d--; } } string r = a.substr(0, p); a.erase(0, std::min(p, a.size())); if (!a.empty() && a[0] == ' ') a.erase(0, 1); return r; }
	static string unq(const string& s) { if (s.size() < 2 || s[0] != '"') return s; string r; for (size_t i = 1; i + 1 < s.size(); i++) { if (s[i] == '\\') i++; r += s[i]; } return r; }
	string value(const string& s) { bool q = w.lit == 1 || (w.lit == 2 && s.empty()); if (q) for (char c : s) if (c == '\r' || c == '\n' || c == '"' || c == '\\' || (unsigned char)c > 126) q = false; if (q && w.lit == 2) return "NIL"; return q ? "\"" + s + "\"" : "{" + dec(s.size()) + "}\r\n" + s; }
	bool section(const imsg& m, const string& sec, string& out) { if (sec.empty()) { out = m.text(); return true; } if (sec == "HEADER") { out = m.hdr; return true; } if (sec == "TEXT") { out = m.root.content(); return true; } if (sec.compare(0, 13, "HEADER.FIELDS") == 0) { string n = sec.substr(13), r; for (const char* f : { "Subject", "From", "X-Priority" }) { string up; for (const char* c = f; *c; c++) up += *c >= 'a' && *c <= 'z' ? char(*c - 32) : *c; string upn; for (char c : n) upn += c >= 'a' && c <= 'z' ? char(c - 32) : c; if (upn.find("\"" + up + "\"") != string::npos) { size_t p = m.hdr.find(string(f) + ":"); r += m.hdr.substr(p, m.hdr.find('\n', p) + 1 - p); } } out = r + "\r\n"; return true; }
		const part* p = &m.root; size_t i = 0; bool first = true; while (i < sec.size() && sec[i] >= '0' && sec[i] <= '9') { size_t n = num(sec, i); if (p->sub.empty() ? n != 1 || !first : n < 1 || n > p->sub.size()) return false; if (!p->sub.empty()) p = &p->sub[n - 1]; first = false; if (i < sec.size() && sec[i] == '.') i++; } if (i == sec.size()) out = p->content(); else if (sec.substr(i) == "MIME") out = p->mime; else return false; return true; }
	bool fetchItem(imsg& m, string it, string& r, bool& seen) {
		if (it == "UID") r = "UID " + dec(m.uid); else if (it == "FLAGS") { told[m.uid] = m.fl; r = "FLAGS (" + flagText(m.fl) + ")"; } else if (it == "RFC822.SIZE") r = it + " " + dec(m.text().size()); else if (it == "RFC822.HEADER") r = it + " " + value(m.hdr); else if (it == "MODSEQ") r = "MODSEQ (7)"; else if (it == "BODYSTRUCTURE") r = it + " " + m.root.structure();
		else if (it == "ENVELOPE") r = it + " (NIL \"s" + dec(m.uid) + "\" ((NIL NIL \"a" + dec(m.uid) + "\" \"h\")) NIL NIL NIL NIL NIL NIL \"<i" + dec(m.uid) + "@h>\")";
		else if (it.compare(0, 4, "BODY") == 0) { bool peek = it.compare(4, 5, ".PEEK") == 0; size_t p = peek ? 9 : 4; if (p >= it.size() || it[p] != '[') return false; size_t e = it.find(']', p); if (e == string::npos) return false; string sec = it.substr(p + 1, e - p - 1), out; if (!section(m, sec, out)) return false; string range; if (e + 1 < it.size()) { size_t i = e + 1; if (it[i++] != '<') return false; size_t a = num(it, i); if (i >= it.size() || it[i++] != '.') return false; size_t l = num(it, i); if (i + 1 != it.size() || it[i] != '>' || l == 0) return false; out = a >= out.size() ? "" : out.substr(a, l); range = "<" + dec(a) + ">"; } r = "BODY[" + sec + "]" + range + " " + value(out); if (!peek && !ro && !(m.fl & M::FLAG_SEEN)) { seen = true; m.fl |= M::FLAG_SEEN; w.touched[m.uid] = m.fl; } }
		else return false; return true; }
	bool like(const string& p, size_t i, const string& b, size_t j) { for (; i < p.size(); i++, j++) { if (p[i] == '*' || p[i] == '%') { for (size_t k = j; k <= b.size(); k++) { if (like(p, i + 1, b, k)) return true; if (k < b.size() && p[i] == '%' && b[k] == w.sep[0]) break; } return false; } if (j >= b.size() || p[i] != b[j]) return false; } return j == b.size(); }
	bool hasBox(const string& n) { for (auto& b : w.boxes) if (b == n) return true; return false; }
	void select(const string& cmd, const string& a) { string args = a, mb = unq(word(args)); if (!hasBox(mb) || refuse()) { done("NO no such mailbox"); return; } state = 2; ro = cmd == "EXAMINE" || w.readOnly; view.clear(); for (auto& m : w.box) view.push_back(m.uid); reply("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n* " + dec(view.size()) + " EXISTS\r\n* 0 RECENT\r\n* OK [UIDVALIDITY 7] x\r\n* OK [UIDNEXT " + dec(w.uidNext) + "] x\r\n"); if (w.condstore) reply("* OK [HIGHESTMODSEQ 9] x\r\n"); done(w.code == 1 ? "OK done" : w.code == 2 ? "OK [UIDNOTSTICKY] done" : string("OK [READ-") + (ro ? "ONLY" : "WRITE") + "] done"); }
	void expungeAll(bool tell) { for (size_t i = 0; i < w.box.size();) if (w.box[i].fl & M::FLAG_DELETED) { size_t u = w.box[i].uid; w.box.erase(w.box.begin() + long(i)); if (tell) removed(u); } else i++; }
	void appendData() { if (refuse()) { unsol(true); done("NO full"); return; } w.appended = data; w.lastMailbox = unq(word(appendArgs)); w.appendFlags = 0; bool ok = true; if (!appendArgs.empty() && appendArgs[0] == '(') { string fl = word(appendArgs); w.appendFlags = flagBits(fl, ok); } if (!ok) w.unknown.push_back("APPEND flags"); size_t u = w.uidNext++; imsg m = mk(u, w.appendFlags, ""); m.hdr = data; m.root = part(); w.box.push_back(m); if (w.lastMailbox == "INBOX" && state == 2) { view.push_back(u); reply("* " + dec(view.size()) + " EXISTS\r\n"); } unsol(true); done(w.uidplus ? "OK [APPENDUID 7 " + dec(u) + "] done" : "OK done"); }
	void onLine(const string& l) {
		if (l.empty() && P("crlf", 1)) return; size_t sp = l.find(' '); tag = l.substr(0, sp); string a = sp == string::npos ? "" : l.substr(sp + 1); string c = word(a); bool uid = false; if (c == "UID") { uid = true; c = word(a); } bool ok = true;
		if (c == "CAPABILITY") { reply(string("* CAPABILITY IMAP4rev1 UIDPLUS") + (w.condstore ? " CONDSTORE" : "") + "\r\n"); done("OK"); }
		else if (c == "LOGIN" && state == 0) { state = 1; done("OK in"); }
		else if (c == "LOGOUT") { state = 3; reply("* BYE bye\r\n"); done("OK"); }
		else if (c == "NOOP") { unsol(true); if (refuse()) done("NO no"); else done("OK"); }
		else if (state == 0) { w.unknown.push_back(l); done("BAD state"); }
		else if (c == "LIST") { string r = unq(word(a)), p = unq(word(a)); if (p.empty()) reply("* LIST (\\Noselect) \"" + w.sep + "\" \"\"\r\n"); else for (auto& b : w.boxes) { bool m; if (p == "*" || p == "%") { m = b.compare(0, r.size(), r) == 0 && b.size() > r.size() && (p == "*" || b.find(w.sep, r.size()) == string::npos); } else m = like(r + p, 0, b, 0); if (m) { string at; for (auto& x : w.attrs) if (x.first == b) at = x.second; reply("* LIST (" + at + ") \"" + w.sep + "\" \"" + b + "\"\r\n"); } } if (!p.empty() && refuse()) done("NO no"); else done("OK"); }
		else if (c == "CREATE") { string b = unq(word(a)); if (b.size() && b.back() == w.sep[0]) b.pop_back(); if (hasBox(b) || refuse()) done("NO no"); else { w.boxes.push_back(b); w.attrs.push_back({ b, a }); done("OK"); } }
		else if (c == "DELETE") { string b = unq(word(a)); if (!hasBox(b) || refuse()) done("NO no"); else { for (size_t i = 0; i < w.boxes.size(); i++) if (w.boxes[i] == b) w.boxes.erase(w.boxes.begin() + long(i)); done("OK"); } }
		else if (c == "RENAME") { string b = unq(word(a)), n = unq(word(a)); if (!hasBox(b) || hasBox(n) || refuse()) done("NO no"); else { for (auto& x : w.boxes) if (x == b) x = n; else if (x.compare(0, b.size() + 1, b + w.sep) == 0) x = n + x.substr(b.size()); done("OK"); } }
		else if (c == "STATUS") { string b = unq(word(a)); if (!hasBox(b) || refuse()) { done("NO no"); return; } if (state == 2) unsol(true); size_t us = 0; for (auto& m : w.box) us += !(m.fl & M::FLAG_SEEN); reply("* STATUS \"" + b + "\" (MESSAGES " + dec(w.box.size()) + " UNSEEN " + dec(us) + " UIDNEXT " + dec(w.uidNext) + " UIDVALIDITY 7" + (w.condstore ? " HIGHESTMODSEQ 9" : "") + ")\r\n"); done("OK"); }
		else if ((c == "SELECT" || c == "EXAMINE") && state >= 1) select(c, a);
		else if (c == "APPEND") { size_t b = a.rfind('{'); if (b == string::npos || a.back() != '}') { w.unknown.push_back(l); done("BAD"); return; } if (refuse()) { unsol(true); done("NO no"); return; } size_t i = b + 1; need = num(a, i); appendArgs = a.substr(0, b); data.clear(); reply("+ go\r\n"); if (need) literal = true; else appendData(); }
		else if (state != 2) { w.unknown.push_back(l); done("BAD state"); }
		else if (c == "CLOSE") { if (!ro) expungeAll(false); state = 1; w.closed++; done("OK"); }
		else if (c == "EXPUNGE") { if (ro || refuse()) { unsol(true); done("NO no"); } else { if (P("pos", 0)) unsol(true); expungeAll(true); if (!P("pos", 0)) unsol(true); w.expunges++; done("OK"); } }
		else if (c == "FETCH") { string ss = word(a); auto us = set(ss, uid, ok); if (!ok) { if (!P("wild", 0)) w.unknown.push_back(l); done("BAD set"); return; } std::vector<string> items; if (!a.empty() && a[0] == '(') { string in = a.substr(1, a.size() - 2); while (!in.empty()) items.push_back(word(in)); } else { while (!a.empty()) items.push_back(word(a)); if (items.size() != 1) ok = false; } if (!ok || items.empty()) { w.unknown.push_back(l); done("BAD"); return; } if (P("pos", 0)) unsol(uid); if (refuse()) { done("NO no"); return; }
			for (size_t u : us) { imsg* m = find(u); if (!m || !pos(u)) continue; string r; bool seen = false; if (uid && std::find(items.begin(), items.end(), "UID") == items.end()) r = "UID " + dec(u); for (auto& it : items) { string x; if (!fetchItem(*m, it, x, seen)) { w.unknown.push_back(l); done("BAD item"); return; } r += (r.empty() ? "" : " ") + x; } if (seen) { told[u] = m->fl; r += " FLAGS (" + flagText(m->fl) + ")"; } reply("* " + dec(pos(u)) + " FETCH (" + r + ")\r\n"); } if (!P("pos", 0)) unsol(uid); done("OK"); }
		else if (c == "STORE") { string ss = word(a); auto us = set(ss, uid, ok); string mode = word(a); bool fok = true; unsigned f = flagBits(a, fok); if (!ok || !fok || (mode != "FLAGS" && mode != "+FLAGS" && mode != "-FLAGS")) { w.unknown.push_back(l); done("BAD"); return; } if (ro || refuse()) { unsol(uid); done("NO no"); return; } if (P("pos", 0)) unsol(uid); for (size_t u : us) { imsg* m = find(u); if (!m) continue; m->fl = mode == "FLAGS" ? f : mode[0] == '+' ? m->fl | f : m->fl & ~f; reply(fetchFlags(u, uid)); } if (!P("pos", 0)) unsol(uid); done("OK"); }
		else if (c == "COPY") { string ss = word(a); auto us = set(ss, uid, ok); string b = unq(word(a)); if (!ok) { w.unknown.push_back(l); done("BAD"); return; } if (!hasBox(b) || refuse()) { unsol(uid); done("NO no"); return; } w.lastCopy = b; w.copied = us; unsol(uid); string s; for (size_t u : us) s += (s.empty() ? "" : ",") + dec(u); done(w.uidplus && !us.empty() ? "OK [COPYUID 7 " + s + " 101" + (us.size() > 1 ? ":" + dec(100 + us.size()) : "") + "] done" : "OK done"); }
		else if (c == "SEARCH") { string k = word(a); if (k == "UID" && !a.empty()) { auto us = set(a, true, ok); if (!ok) { w.unknown.push_back(l); done("BAD"); return; } if (refuse()) { unsol(uid); done("NO no"); return; } if (P("pos", 0)) unsol(uid); string r; for (size_t u : us) if (pos(u)) r += " " + dec(uid ? u : pos(u)); reply("* SEARCH" + r + "\r\n"); if (!P("pos", 0)) unsol(uid); done("OK"); } else { w.unknown.push_back(l); done("BAD"); } }
		else { w.unknown.push_back(l); done("BAD what"); }
	}
};
struct imapFactory : net::socketFactory { world& w; explicit imapFactory(world& x) : w(x) {} shared_ptr<net::socket> create() override { auto c = std::make_shared<conn>(w); fragment(*c); w.conns.push_back(c); return make_shared<fakeSocket>(shared_ptr<server>(c)); } shared_ptr<net::socket> create(const shared_ptr<net::timeoutHandler>&) override { return create(); } };
static shared_ptr<IMAPStore> mkStore(world& w) { propertySet p; p["store.imap.server.address"] = "server.example"; p["store.imap.options.sasl"] = false; stub::sockets = make_shared<imapFactory>(w); return make_shared<IMAPStore>(net::session::create(p), make_shared<userAuth>()); }
// what the listeners of a folder have been told
struct mirror : net::events::messageCountListener, net::events::messageChangedListener, net::events::folderListener { std::vector<int> seen; size_t count = 0, flags = 0; bool bad = false; std::vector<std::pair<string, string>> folders;
	void messagesAdded(const shared_ptr<net::events::messageCountEvent>& e) override { for (size_t n : e->getNumbers()) { if (n != count + 1) bad = true; count++; } }
	void messagesRemoved(const shared_ptr<net::events::messageCountEvent>& e) override { for (size_t n : e->getNumbers()) { if (n < 1 || n > count) bad = true; count--; } }
	void messageChanged(const shared_ptr<net::events::messageChangedEvent>& e) override { for (size_t n : e->getNumbers()) { if (n < 1) bad = true; flags++; } }
	static string path(const net::folder::path& p) { string r; for (size_t i = 0; i < p.getSize(); i++) r += (i ? "/" : "") + p[i].getBuffer(); return r; }
	void tell(const char* k, const shared_ptr<net::events::folderEvent>& e) { folders.push_back({ k, path(const_cast<net::events::folderEvent&>(*e).getFolder()->getFullPath()) }); } void folderCreated(const shared_ptr<net::events::folderEvent>& e) override { tell("+", e); } void folderDeleted(const shared_ptr<net::events::folderEvent>& e) override { tell("-", e); } void folderRenamed(const shared_ptr<net::events::folderEvent>& e) override { tell("=", e); } };
struct known { shared_ptr<net::message> m; size_t uid; };
static void fill(world& w, size_t n, unsigned fl = 0) { for (size_t i = 0; i < n; i++) { size_t u = 10 * (i + 1); w.box.push_back(mk(u, i == 0 ? fl : 0, string(1, char('a' + i)))); } w.uidNext = 10 * n + 1; w.boxes = { "INBOX", "dest" }; }
static const unsigned FL[] = { M::FLAG_SEEN, M::FLAG_DELETED, M::FLAG_MARKED | M::FLAG_REPLIED };
static const int MODE[] = { M::FLAG_MODE_ADD, M::FLAG_MODE_REMOVE, M::FLAG_MODE_SET };
static unsigned applied(unsigned f, unsigned x, int mode) { return mode == M::FLAG_MODE_SET ? x : mode == M::FLAG_MODE_ADD ? f | x : f & ~x; }
static std::vector<size_t> expand(const messageSet& s) { struct E : net::messageSetEnumerator { std::vector<size_t> r; void enumerateNumberMessageRange(const net::numberMessageRange& x) override { for (size_t i = x.getFirst(); i <= x.getLast(); i++) r.push_back(i); } void enumerateUIDMessageRange(const net::UIDMessageRange& x) override { size_t i = 0, j = 0; string a = x.getFirst(), b = x.getLast(); size_t p = num(a, i), q = num(b, j); for (size_t k = p; k <= q; k++) r.push_back(k); } } e; s.enumerate(e); return e.r; }
HARNESS h_imap_session() { // every operation has the effect it reports, on the messages it names, whatever happens meanwhile
	stub::install(); world w; fill(w, P("msgs", 2), M::FLAG_DELETED); w.lit = P("lit", 0); w.condstore = P("cond", 0); auto st = mkStore(w); st->connect(); auto f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_WRITE); auto c = w.conns.back(); mirror mi; f->addMessageCountListener(&mi); f->addMessageChangedListener(&mi); mi.count = w.box.size();
	std::vector<known> ms; vs_check(f->getMessageCount() == c->view.size(), "the folder has its messages"); { auto v = f->getMessages(messageSet::byNumber(1, -1)); for (size_t i = 0; i < v.size(); i++) ms.push_back({ v[i], c->view[i] }); vs_check(v.size() == w.box.size(), "every message is listed"); }
	if (P("bynum", 0)) { ms.clear(); for (size_t i = 0; i < c->view.size(); i++) ms.push_back({ f->getMessage(i + 1), c->view[i] }); }
	w.ev = P("ev", 1); w.ref = P("ref", 1); bool closed = false;
	for (size_t op = 0, ops = P("ops", 2); op < ops && !closed; op++) {
		std::map<size_t, unsigned> exp; for (auto& m : w.box) exp[m.uid] = m.fl; w.touched.clear(); std::vector<size_t> before = c->view; size_t refs = w.ref; bool thrown = false; unsigned k = op == 0 && P("first", 99) < 99 ? P("first", 99) : op == 1 && P("second", 99) < 99 ? P("second", 99) : vs_choice(12); size_t N = c->view.size();
		auto pick = [&]() -> known& { return ms[vs_choice(ms.size())]; };
		try { switch (k) {
		case 0: { dynamicCast<IMAPFolder>(f)->noop(); break; }
		case 1: { unsigned how = vs_choice(3); if (N == 0) break; size_t a = 1 + vs_choice(N), b = how == 1 ? size_t(-1) : a + vs_choice(N - a + 1); messageSet s = how == 2 ? messageSet::byUID(dec(before[a - 1]), dec(before[b - 1])) : messageSet::byNumber(a, b); bool fetch = P("both", 0) && vs_choice(2); size_t last = how == 1 ? N : b; auto v = fetch ? f->getAndFetchMessages(s, fetchAttributes(fetchAttributes::FLAGS)) : f->getMessages(s); std::vector<size_t> want; for (size_t i = a; i <= last; i++) want.push_back(before[i - 1]); size_t j = 0; for (auto& m : v) { string u = m->getUID(); size_t i = 0, un = num(u, i); while (j < want.size() && want[j] != un) { vs_check(!c->find(want[j]), "a message of the set is listed"); j++; } vs_check(j < want.size(), "a message listed is one of the set"); j++; ms.push_back({ m, un }); } while (j < want.size()) { vs_check(!c->find(want[j]), "each message of the set is listed"); j++; } break; }
		case 2: { if (ms.empty()) break; std::vector<shared_ptr<net::message>> v; for (auto& x : ms) v.push_back(x.m); fetchAttributes at; unsigned j = vs_choice(2); if (j == 0) { at.add(fetchAttributes::FLAGS); at.add(fetchAttributes::UID); } else { at.add(fetchAttributes::SIZE); at.add(fetchAttributes::ENVELOPE); } f->fetchMessages(v, at); for (auto& x : ms) if (c->find(x.uid)) { try { if (j == 0) { vs_check(unsigned(x.m->getFlags()) == c->told[x.uid], "the flags fetched are those of the message"); checkEq(string(x.m->getUID()), dec(x.uid), "the UID fetched is that of the message"); } else { vs_check(x.m->getSize() == c->find(x.uid)->text().size(), "the size fetched is that of the message"); if (x.m->getHeader()->hasField(fields::SUBJECT)) checkEq(x.m->getHeader()->Subject()->getValue<text>()->getWholeBuffer(), "s" + dec(x.uid), "the subject fetched is that of the message"); } } catch (exceptions::unfetched_object&) { vs_fail("what is fetched is there"); } } break; }
		case 3: { if (ms.empty()) break; known& x = pick(); sink os; unsigned j = vs_choice(3); size_t a = j == 1 ? 3 : 0, l = j == 2 ? 5 : size_t(-1); bool peek = vs_choice(2) != 0; imsg* m = c->find(x.uid); bool was = m != nullptr; string t = m ? m->text() : ""; x.m->extract(os, NULL, a, l, peek); vs_check(was, "a message expunged is not extracted"); checkEq(os.d, t.substr(std::min(a, t.size()), l), "the message extracted is the one asked for"); if (!peek) exp[x.uid] |= M::FLAG_SEEN; break; }
		case 4: { if (ms.empty()) break; known& x = pick(); unsigned fl = FL[vs_choice(3)]; int mode = MODE[vs_choice(3)]; bool was = c->find(x.uid) != nullptr; try { x.m->setFlags(int(fl), mode); } catch (exceptions::message_not_found&) { vs_check(!was, "a message of the folder is found"); break; } if (was) { exp[x.uid] = applied(exp[x.uid], fl, mode); } break; }
		case 5: { if (N == 0) break; size_t a = 1 + vs_choice(N), b = a + vs_choice(N - a + 1); f->deleteMessages(messageSet::byNumber(a, b)); for (size_t i = a; i <= b; i++) exp[before[i - 1]] |= M::FLAG_DELETED; break; }
		case 6: { f->expunge(); for (auto& e : std::map<size_t, unsigned>(exp)) if (e.second & M::FLAG_DELETED) { vs_check(c->pos(e.first) == 0, "expunging removes the deleted messages"); exp.erase(e.first); } break; }
		case 7: { if (N == 0) break; size_t a = 1 + vs_choice(N), b = a + vs_choice(N - a + 1); unsigned j = vs_choice(2); messageSet s = j ? messageSet::byUID(dec(before[a - 1]), dec(before[b - 1])) : messageSet::byNumber(a, b); messageSet r = f->copyMessages(net::folder::path::component("dest"), s); checkEq(w.lastCopy, string("dest"), "messages are copied to the folder given"); std::vector<size_t> want(before.begin() + long(a) - 1, before.begin() + long(b)); vs_check(w.copied == want, "the messages copied are those of the set"); std::vector<size_t> e = expand(r); vs_check(e.size() == want.size() && e[0] == 101 && e.back() == 100 + want.size(), "the messages copied have their UIDs"); break; }
		case 8: { string d = string("Subject: ") + "new\r\n\r\nx" + (vs_choice(2) ? "\r\n" : ""); unsigned fl = vs_choice(2) ? M::FLAG_SEEN | M::FLAG_DRAFT : 0; utility::inputStreamStringAdapter is(d); size_t u = w.uidNext; messageSet r = f->addMessage(is, d.size(), fl ? int(fl) : -1); checkEq(w.appended, d, "the message added is the one given"); checkEq(w.lastMailbox, string("INBOX"), "a message is added to the folder"); vs_check(w.appendFlags == fl, "the message added has the flags given"); std::vector<size_t> e = expand(r); vs_check(e.size() == 1 && e[0] == u, "the message added has its UID"); exp[u] = fl; break; }
		case 9: { size_t a = vs_choice(2) ? 10 * (1 + vs_choice(3)) : 11; std::vector<size_t> r = f->getMessageNumbersStartingOnUID(dec(a)); std::vector<size_t> want; const std::vector<size_t>& v = P("pos", 0) ? c->view : before; for (size_t i = 0; i < v.size(); i++) if (v[i] >= a) want.push_back(i + 1); if (P("pos", 0)) vs_check(r.size() <= want.size(), "no other message is found"); else vs_check(r == want, "the messages found are those starting on the UID"); break; }
		case 10: { size_t n, u; f->status(n, u); size_t us = 0; for (auto& m : w.box) us += !(m.fl & M::FLAG_SEEN); vs_check(n == w.box.size() && u == us, "the status is that of the folder"); break; }
		case 11: { bool ex = vs_choice(2) != 0; f->close(ex); closed = true; if (ex) { for (auto& e : std::map<size_t, unsigned>(exp)) if (e.second & M::FLAG_DELETED) exp.erase(e.first); vs_check(w.closed == 1, "closing with expunging is done by the server"); } vs_check(!f->isOpen(), "a folder closed is closed"); for (auto& x : ms) { sink os; bool t = false; try { x.m->extract(os); } catch (exceptions::folder_not_found&) { t = true; } vs_check(t, "messages of a closed folder are not there"); } break; }
		} } catch (exceptions::command_error&) { thrown = true; } catch (exceptions::message_not_found&) { vs_check(k == 3 || k == 4, "messages are found"); }
		vs_check(!thrown || refs != w.ref, "an operation fails when the server refuses"); vs_check(thrown || refs == w.ref || k == 11, "an operation that is refused fails");
		if (thrown && k != 3) { exp.clear(); }
		for (auto& m : w.box) if (!thrown && exp.count(m.uid)) { unsigned e = exp[m.uid]; if (!w.touched.count(m.uid)) vs_check(m.fl == e, "the flags of a message are those it has been given"); } if (!thrown && !w.touched.size() && w.ev == P("ev", 1)) vs_check(w.box.size() == exp.size(), "no other message is added or removed");
		if (closed) break; vs_check(c->out.empty(), "every reply is read");
		if (P("sync", 1)) { vs_check(f->getMessageCount() == c->view.size(), "the folder has as many messages as the server"); vs_check(!mi.bad && mi.count == c->view.size(), "listeners are told of every change of the count"); for (auto& x : ms) { size_t p = c->pos(x.uid); vs_check(x.m->isExpunged() == (p == 0), "a message is expunged when the server says so"); if (p) { vs_check(x.m->getNumber() == p, "a message has its number"); string u = x.m->getUID(); vs_check(u.empty() || u == dec(x.uid), "a UID is that of the message"); int fl = -1; try { fl = x.m->getFlags(); } catch (exceptions::unfetched_object&) {} vs_check(fl == -1 || unsigned(fl) == c->told[x.uid], "the flags of a message are those the server has given"); } } }
	}
	ms.clear(); if (!closed && P("end", 1)) { std::vector<imsg> b = w.box; f->close(false); vs_check(b.size() == w.box.size(), "closing without expunging keeps the messages"); } st->disconnect(); for (auto& x : w.conns) vs_check(x->state == 3 || x->raw.empty(), "a connection is ended by a logout"); vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
static string symText(const char* l) { string s = P("set", 0) ? symStrIn(vs_choice(P("n", 2) + 1), string("\r\n{1}\")", 7)) : symStr(vs_choice(P("n", 2) + 1)); if (P("set", 0) == 0) for (char c : s) vs_assume(c != 0); observe(l, s); return s; }
static const part* at(const part& r, const std::vector<size_t>& ix) { const part* p = &r; for (size_t i : ix) p = &p->sub[i]; return p; }
static void walk(const shared_ptr<net::messageStructure>& s, std::vector<size_t> ix, std::vector<std::pair<shared_ptr<net::messagePart>, std::vector<size_t>>>& out) { for (size_t i = 0; i < s->getPartCount(); i++) { auto p = s->getPartAt(i); auto x = ix; x.push_back(i); out.push_back({ p, x }); walk(p->getStructure(), x, out); } }
HARNESS h_imap_parts() { // a part, or a range of it, is the one asked for, however the server writes it
	stub::install(); world w; w.lit = P("lit", 0); w.boxes = { "INBOX" }; w.box.push_back(mk(3, 0, "other", 1)); string t = symText("t"); w.box.push_back(mk(7, 0, t, P("shape", 1))); w.uidNext = 8; auto st = mkStore(w); st->connect(); auto f = st->getDefaultFolder(); f->open(P("ro", 0) ? net::folder::MODE_READ_ONLY : net::folder::MODE_READ_WRITE); imsg& b = w.box[1];
	auto m = P("byuid", 0) ? f->getMessages(messageSet::byUID("7"))[0] : f->getMessage(2); f->fetchMessage(m, fetchAttributes(fetchAttributes::STRUCTURE)); std::vector<std::pair<shared_ptr<net::messagePart>, std::vector<size_t>>> ps; walk(m->getStructure(), {}, ps); vs_check(m->getStructure()->getPartCount() == 1, "a message has one structure");
	auto& x = ps[vs_choice(ps.size())]; std::vector<size_t> ix(x.second.begin() + 1, x.second.end()); const part* p = at(b.root, ix); bool root = ix.empty(); string want = root ? b.text() : p->mime + p->content(); observe("want", want); sink os;
	switch (P("kind", 0)) {
	case 0: { bool peek = vs_choice(2) != 0; m->extractPart(x.first, os, NULL, 0, size_t(-1), peek); checkEq(os.d, want, "the part extracted is the one asked for"); vs_check(bool(b.fl & M::FLAG_SEEN) == (!peek && !P("ro", 0)), "extracting without peeking marks the message as seen"); break; }
	case 1: { size_t len = want.size(), a = P("edge", 0) ? len - std::min<size_t>(len, vs_choice(5)) + vs_choice(3) : vs_choice(4) ? p->mime.size() - 2 + vs_choice(5) : 0; static const size_t LEN[] = { 1, 3, 40, size_t(-1), size_t(-2) }; size_t l = LEN[vs_choice(5)]; m->extractPart(x.first, os, NULL, a, l); string e = a >= want.size() ? "" : want.substr(a, l); checkEq(os.d, e, "the range extracted is the one asked for"); break; }
	case 2: { m->fetchPartHeader(x.first); auto h = x.first->getHeader(); checkEq(h->ContentType()->getValue<mediaType>()->generate(), p->sub.size() ? string("multipart/mixed") : p->type == "text" ? string("text/plain") : p->type == "app" ? string("application/octet-stream") : string("message/rfc822"), "the header of a part is that of the part"); vs_check(!(b.fl & M::FLAG_SEEN), "fetching headers does not mark the message as seen"); break; }
	case 3: { auto ty = x.first->getType(); checkEq(ty.getType() + "/" + ty.getSubType(), p->sub.size() ? string("multipart/mixed") : p->type == "text" ? string("text/plain") : p->type == "app" ? string("application/octet-stream") : string("message/rfc822"), "a part has its type"); if (p->sub.empty()) vs_check(x.first->getSize() == p->text.size(), "a part has its size"); vs_check(x.first->getStructure()->getPartCount() == p->sub.size(), "a part has its parts"); if (p->type == "app") { checkEq(x.first->getName(), string("f"), "a part has its name"); checkEq(string(x.first->getDisposition().getName()), string("attachment"), "a part has its disposition"); } break; }
	}
	auto c = w.conns.back(); vs_check(c->out.empty(), "every reply is read"); vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_check(w.box[0].fl == 0, "no other message is touched"); vs_reach("end");
}
HARNESS h_imap_parsed() { // the message built from its parts is the message of the server
	stub::install(); world w; w.lit = P("lit", 0); w.boxes = { "INBOX" }; string t = "ab"; w.box.push_back(mk(7, 0, t, P("shape", 1))); w.uidNext = 8; auto st = mkStore(w); st->connect(); auto f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_WRITE); imsg& b = w.box[0]; auto m = f->getMessage(1); auto msg = m->getParsedMessage(); checkEq(msg->getHeader()->Subject()->getValue<vmime::text>()->getWholeBuffer(), string("s7"), "the header is that of the message");
	std::function<void(const shared_ptr<bodyPart>&, const part&)> cmp = [&](const shared_ptr<bodyPart>& x, const part& p) { vs_check(x->getBody()->getPartCount() == p.sub.size(), "a part has its parts"); for (size_t i = 0; i < p.sub.size(); i++) cmp(x->getBody()->getPartAt(i), p.sub[i]); if (p.sub.empty()) { sink o; x->getBody()->getContents()->extractRaw(o); checkEq(o.d, p.content(), "the raw content of a part is its body"); sink e; x->getBody()->getContents()->extract(e); if (p.type == "text") checkEq(e.d, p.content(), "the content of a part is its body"); sink g; x->getBody()->getContents()->generate(g, x->getBody()->getEncoding()); checkEq(g.d, p.content(), "a part is generated from its body"); } };
	cmp(msg, b.root); vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
HARNESS h_imap_open() { // a folder is open as the server lets it be
	stub::install(); world w; fill(w, 2, M::FLAG_DELETED); w.readOnly = vs_choice(2) != 0; w.code = int(vs_choice(3)); w.ref = P("ref", 1); auto st = mkStore(w); st->connect(); auto f = st->getDefaultFolder(); bool rw = vs_choice(2) != 0, fail = vs_choice(2) != 0, ok = false, refused = false, mode = false; std::vector<imsg> b = w.box;
	try { f->open(rw ? net::folder::MODE_READ_WRITE : net::folder::MODE_READ_ONLY, fail); ok = true; } catch (exceptions::command_error&) { refused = true; } catch (exceptions::operation_not_supported&) { mode = true; }
	vs_check(ok == f->isOpen(), "a folder is open when the server has accepted it"); vs_check(refused == (w.ref == 0 && P("ref", 1)), "a refused folder is not open"); vs_check(!mode || (fail && rw && w.readOnly && w.code == 0), "a mode that is available is accepted"); if (ok && fail && rw && w.readOnly && w.code == 0) vs_fail("a mode that is not available is refused when asked so");
	if (!ok) { w.ref = 0; bool t = false; try { f->getMessageCount(); } catch (exceptions::illegal_state&) { t = true; } vs_check(t, "a folder that is not open has no messages"); f->open(rw ? net::folder::MODE_READ_WRITE : net::folder::MODE_READ_ONLY, false); }
	auto c = w.conns.back(); vs_check(f->getMessageCount() == 2, "the folder has its messages"); bool m = f->getMode() == net::folder::MODE_READ_WRITE; vs_check(!m || rw, "a folder open for reading is not open for writing"); if (w.code == 0) vs_check(m == (rw && !w.readOnly), "the mode of a folder is the one given by the server"); w.ref = 0; auto msg = f->getMessages(messageSet::byNumber(1))[0];
	if (!m) { unsigned k = vs_choice(6); bool t = false; size_t n = c->got.size(); utility::inputStreamStringAdapter is("x"); try { switch (k) { case 0: f->deleteMessages(messageSet::byNumber(1)); break; case 1: f->expunge(); break; case 2: f->close(true); break; case 3: f->addMessage(is, 1, -1); break; case 4: f->setMessageFlags(messageSet::byNumber(1), M::FLAG_SEEN, M::FLAG_MODE_ADD); break; case 5: { sink o; msg->extract(o); t = true; break; } } } catch (exceptions::illegal_state&) { t = true; } catch (exceptions::operation_not_supported&) { t = true; } catch (exceptions::command_error&) { t = k == 4; } vs_check(t, "a folder open for reading is not changed"); if (k < 4) vs_check(c->got.size() == n, "what is refused is not sent"); }
	else { f->close(true); if (!w.readOnly) vs_check(w.box.size() == 1 && w.closed == 1, "closing with expunging removes the deleted messages"); vs_reach("rw"); }
	if (!m) { bool same = w.box.size() == b.size(); for (size_t i = 0; same && i < b.size(); i++) same = w.box[i].fl == b[i].fl; vs_check(same, "a folder open for reading keeps its messages as they are"); }
	vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
static net::folder::path pathOf(const string& s) { net::folder::path p; string c; for (char x : s + "/") if (x == '/') { if (!c.empty()) p /= net::folder::path::component(c); c.clear(); } else c += x; return p; }
static string slashed(const world& w, const string& s) { string r; for (char c : s) r += c == w.sep[0] ? '/' : c; return r; }
static string served(const world& w, const string& s) { string r; for (char c : s) r += c == '/' ? w.sep[0] : c; return r; }
HARNESS h_imap_folders() { // the folders are those of the server
	stub::install(); world w; fill(w, 1); if (P("sep", 0)) w.sep = "."; for (auto s : { "a", "a/b", "a/b/c", "ab", "a/bc" }) w.boxes.push_back(served(w, s)); w.ref = P("ref", 1); static const char* AT[] = { "\\Noselect \\HasChildren", "\\Sent", "\\HasNoChildren \\Trash", "" }; size_t ai = vs_choice(4); w.attrs.push_back({ served(w, "a/b"), AT[ai] }); auto st = mkStore(w); st->connect();
	static const char* NAME[] = { "a", "a/b", "ab", "", "z" }; auto root = st->getRootFolder(); auto sub = st->getFolder(pathOf("a/b/c")), other = st->getFolder(pathOf("a/bc")), ab = st->getFolder(pathOf("ab")); if (P("open", 0)) { st->getDefaultFolder(); }
	for (size_t op = 0, ops = P("ops", 2); op < ops; op++) { std::vector<string> before = w.boxes; size_t refs = w.ref; bool thrown = false; std::vector<string> e = before; string a = NAME[vs_choice(5)]; auto f = st->getFolder(pathOf(a)); mirror mi; f->addFolderListener(&mi); auto has = [&](const string& x) { return std::find(before.begin(), before.end(), served(w, x)) != before.end(); }; unsigned k = vs_choice(6); string told;
		try { switch (k) {
		case 0: { bool rec = vs_choice(2) != 0; auto v = f->getFolders(rec); std::vector<string> got, want; for (auto& x : v) { got.push_back(mirror::path(x->getFullPath())); vs_check(x->getFullPath().getLastComponent() == x->getName(), "a folder has its name"); if (got.back() == "a/b") { auto at = x->getAttributes(); vs_check(at.getSpecialUse() == (ai == 1 ? net::folderAttributes::SPECIALUSE_SENT : ai == 2 ? net::folderAttributes::SPECIALUSE_TRASH : net::folderAttributes::SPECIALUSE_NONE), "a folder has its use"); vs_check(bool(at.getFlags() & net::folderAttributes::FLAG_NO_OPEN) == (ai == 0), "a folder that can not be open is said so"); } } for (auto& b : w.boxes) { string s = slashed(w, b), pre = a.empty() ? "" : a + "/"; if (s.size() > pre.size() && s.compare(0, pre.size(), pre) == 0 && (rec || s.find('/', pre.size()) == string::npos)) want.push_back(s); } vs_check(got == want, "the folders listed are those of the server"); break; }
		case 1: { if (a.empty()) break; vs_check(f->exists() == has(a), "a folder exists when the server has it"); break; }
		case 2: { if (a.empty()) break; net::folderAttributes at; unsigned t = vs_choice(2); at.setType(t ? net::folderAttributes::TYPE_CONTAINS_MESSAGES : net::folderAttributes::TYPE_CONTAINS_FOLDERS); try { f->create(at); told = "+"; e.push_back(served(w, a)); } catch (exceptions::illegal_state&) { vs_check(has(a), "a folder that does not exist is created"); } break; }
		case 3: { if (a.empty()) break; f->destroy(); told = "-"; e.erase(std::find(e.begin(), e.end(), served(w, a))); break; }
		case 4: { string n = vs_choice(2) ? "y" : "y/z"; string ps = mirror::path(sub->getFullPath()), po = mirror::path(other->getFullPath()), pa = mirror::path(ab->getFullPath()); try { f->rename(pathOf(n)); told = "="; for (auto& x : e) { string s = slashed(w, x); if (s == a) x = served(w, n); else if (s.compare(0, a.size() + 1, a + "/") == 0) x = served(w, n + s.substr(a.size())); } checkEq(mirror::path(f->getFullPath()), n, "a folder renamed has its new path"); checkEq(string(f->getName().getBuffer()), n == "y" ? "y" : "z", "a folder renamed has its new name"); auto moved = [&](const string& s) { return s.compare(0, a.size() + 1, a + "/") == 0 ? n + s.substr(a.size()) : s; }; checkEq(mirror::path(sub->getFullPath()), moved(ps), "the folders in a folder renamed have their new path"); checkEq(mirror::path(other->getFullPath()), moved(po), "the folders in a folder renamed have their new path"); checkEq(mirror::path(ab->getFullPath()), moved(pa), "other folders keep their path"); } catch (exceptions::illegal_operation&) { vs_check(a.empty(), "a folder is renamed"); } break; }
		case 5: { if (a.empty()) break; size_t n, u; f->status(n, u); vs_check(n == 1 && u == 1, "the status is that of the folder"); break; }
		} } catch (exceptions::command_error&) { thrown = true; }
		if (thrown) { vs_check(refs != w.ref || !has(a) || k == 4, "an operation fails when the server refuses"); e = before; vs_check(mi.folders.empty(), "what is refused is not told to listeners"); } else { vs_check(refs == w.ref, "an operation that is refused fails"); if (!told.empty()) { bool one = mi.folders.size() == 1 && mi.folders[0].first == told; vs_check(one, "what is done is told to listeners"); } }
		vs_check(w.boxes == e, "the folders of the server are those asked for"); f->removeFolderListener(&mi); }
	vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_check(w.conns[0]->out.empty(), "every reply is read"); vs_reach("end");
}
HARNESS h_imap_attributes() { // opening a folder keeps what is known of it
	stub::install(); world w; fill(w, 1); static const char* NM[] = { "a", "a%", "*", "%b" }; string fn = NM[P("name", 0)]; if (P("name", 0)) for (auto x : { "ab", "axb" }) { w.boxes.push_back(x); w.attrs.push_back({ x, "\\Trash \\Noselect \\HasChildren" }); } w.boxes.push_back(fn); if (P("after", 0)) { w.boxes.push_back("aab"); w.attrs.push_back({ "aab", "\\Trash \\Noselect" }); } static const char* AT[] = { "\\HasNoChildren", "\\Sent \\HasNoChildren", "\\HasChildren" }; size_t ai = vs_choice(3); w.attrs.push_back({ fn, AT[ai] }); auto st = mkStore(w); st->connect(); if (P("name", 0)) { auto g = st->getFolder(pathOf(P("name", 0) == 3 ? "a%" : "%b")); vs_check(g->exists() == false, "a folder exists when the server has it"); vs_check(!st->getFolder(pathOf("a*b"))->exists(), "a folder exists when the server has it"); } shared_ptr<net::folder> f; if (vs_choice(2)) f = st->getFolder(pathOf(fn)); else for (auto& x : st->getRootFolder()->getFolders(false)) if (x->getName().getBuffer() == fn) f = x;
	auto same = [&]() { auto a = f->getAttributes(); vs_check(a.getSpecialUse() == (ai == 1 ? net::folderAttributes::SPECIALUSE_SENT : net::folderAttributes::SPECIALUSE_NONE), "a folder has its use"); vs_check(bool(a.getFlags() & net::folderAttributes::FLAG_HAS_CHILDREN) == (ai == 2), "a folder has children when the server says so"); vs_check(a.getType() & net::folderAttributes::TYPE_CONTAINS_MESSAGES, "a folder contains messages"); };
	for (size_t i = 0, n = P("ops", 3); i < n; i++) switch (vs_choice(6)) { case 0: same(); break; case 1: if (!f->isOpen()) f->open(net::folder::MODE_READ_WRITE); break; case 2: f->exists(); break; case 3: f->getFolders(true); break; case 4: { size_t c, u; f->status(c, u); break; } case 5: if (f->isOpen()) f->close(false); break; } same();
	vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
HARNESS h_imap_append() { // the message added is the one given
	stub::install(); world w; fill(w, 1); w.uidplus = P("plus", 1) != 0; auto st = mkStore(w); st->connect(); auto f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_WRITE); string t = symText("t"); string d = string(P("fill", 0), 'x') + t; utility::inputStreamStringAdapter is(d); static const int Z[] = { 0, 60, -330, 720, -90, -600 }; bool wd = P("date", 0); int dd = wd ? 1 + int(vs_choice(31)) : 1, mo = wd ? 1 + int(vs_choice(12)) : 1, z = wd ? Z[vs_choice(6)] : 0, hh = (dd * 7) % 24, mi = (mo * 11 + dd) % 60, se = (dd + 50) % 60; vmime::datetime date(2004, mo, dd, hh, mi, se, z); messageSet r = f->addMessage(is, d.size(), M::FLAG_SEEN | M::FLAG_MARKED, P("date", 0) ? &date : NULL);
	checkEq(w.appended, d, "the message added is the one given"); vs_check(w.appendFlags == (M::FLAG_SEEN | M::FLAG_MARKED), "the message added has the flags given"); vs_check(r.isEmpty() == !P("plus", 1), "the message added has its UID"); vs_check(f->getMessageCount() == 2, "the folder has one more message"); auto c = w.conns.back(); vs_check(c->out.empty() && c->line.empty(), "every reply is read"); if (P("date", 0)) { string l; for (auto& g : c->got) if (g.first.find("APPEND") != string::npos) l = g.first; static const char* MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; auto d2 = [](int n) { return (n < 10 ? "0" : "") + dec(size_t(n)); }; int az = z < 0 ? -z : z; string e = string("\"") + (dd < 10 ? " " : "") + dec(size_t(dd)) + "-" + MN[mo - 1] + "-2004 " + d2(hh) + ":" + d2(mi) + ":" + d2(se) + " " + (z < 0 ? "-" : "+") + d2(az / 60) + d2(az % 60) + "\""; vs_check(l.find(e) != string::npos, "the message added has the date given"); }
	auto ms = f->getMessages(messageSet::byNumber(2)); sink os; ms[0]->extract(os); checkEq(os.d, d, "the message is read back as it has been added"); vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
HARNESS h_imap_flags() { // any set of flags, in any mode, on any set of messages; only numbers that exist name messages
	stub::install(); world w; fill(w, 3, P("init", 0) ? M::FLAG_SEEN | M::FLAG_REPLIED | M::FLAG_MARKED | M::FLAG_DELETED | M::FLAG_DRAFT : 0); auto st = mkStore(w); st->connect(); auto f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_WRITE); auto c = w.conns.back(); size_t N = w.box.size();
	if (P("gone", 0)) { w.box[0].fl |= M::FLAG_DELETED; for (size_t i = 1; i < w.box.size(); i++) w.box[i].fl &= ~unsigned(M::FLAG_DELETED); f->expunge(); N--; vs_check(w.box.size() == N && f->getMessageCount() == N, "expunging removes the deleted message"); }
	static const unsigned BIT[] = { M::FLAG_SEEN, M::FLAG_REPLIED, M::FLAG_MARKED, M::FLAG_DELETED, M::FLAG_DRAFT }; unsigned fl = 0, pickd = unsigned(vs_choice(32)); for (unsigned i = 0; i < 5; i++) if (pickd >> i & 1) fl |= BIT[i]; int mode = MODE[vs_choice(3)]; if (!fl && mode != M::FLAG_MODE_SET) vs_end();
	std::map<size_t, unsigned> exp; for (auto& m : w.box) exp[m.uid] = m.fl; size_t a = 1 + vs_choice(N), b = a; unsigned how = unsigned(vs_choice(3)); std::vector<size_t> v = c->view;
	if (how == 0) f->getMessage(a)->setFlags(int(fl), mode); else { b = a + vs_choice(N - a + 1); if (how == 1) f->setMessageFlags(messageSet::byNumber(a, b), int(fl), mode); else f->setMessageFlags(messageSet::byUID(dec(v[a - 1]), dec(v[b - 1])), int(fl), mode); }
	for (size_t i = a; i <= b; i++) exp[v[i - 1]] = applied(exp[v[i - 1]], fl, mode);
	for (auto& m : w.box) vs_check(m.fl == exp[m.uid], "the flags of a message are those it has been given");
	for (size_t i = 0; i <= N + 2; i++) { size_t k = i == N + 2 ? size_t(-1) : i; bool t = false; try { auto m = f->getMessage(k); vs_check(m->getNumber() == k, "a message has its number"); } catch (exceptions::message_not_found&) { t = true; } vs_check(t == (k < 1 || k > N), "a message is found when the folder has one with its number"); }
	vs_check(w.unknown.empty(), "only commands of the protocol are sent"); vs_reach("end");
}
