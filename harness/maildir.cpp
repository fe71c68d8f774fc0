// C21: maildir names; C22: maildir delivery and operations
#include "vfs.hpp"
#include "gen.hpp"
#include "../stubs/stub.hpp"
#include "vmime/net/maildir/maildirStore.hpp"
#include "vmime/net/maildir/maildirFolder.hpp"
#include "vmime/net/maildir/maildirFormat.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
#include "vmime/net/maildir/maildirMessage.hpp"
#include "vmime/net/session.hpp"
#include "vmime/security/authenticator.hpp"
using net::maildir::maildirStore; using net::maildir::maildirFormat; using net::maildir::maildirUtils; typedef net::folder::path fpath; typedef fpath::component fcomp; typedef net::message M;
static const int RECENT = M::FLAG_RECENT;
struct noAuth : security::authenticator { const string getUsername() const override { return ""; } const string getPassword() const override { return ""; } const string getHostname() const override { return ""; } const string getAnonymousToken() const override { return ""; } const string getServiceName() const override { return ""; } const string getAccessToken() const override { return ""; } void setService(const shared_ptr<net::service>&) override {} };
static string flagText(int f) { string s = "2,"; static const int O[] = { M::FLAG_MARKED, M::FLAG_PASSED, M::FLAG_REPLIED, M::FLAG_SEEN, M::FLAG_DELETED, M::FLAG_DRAFT }; for (int i = 0; i < 6; i++) if (f & O[i]) s += "FPRSTD"[i]; return s; }
static int flagsOf(const string& n) { size_t k = n.rfind(":2,"); int f = 0; static const int O[] = { M::FLAG_MARKED, M::FLAG_PASSED, M::FLAG_REPLIED, M::FLAG_SEEN, M::FLAG_DELETED, M::FLAG_DRAFT }; if (k != string::npos) for (size_t i = k + 3; i < n.size(); i++) for (int j = 0; j < 6; j++) if (n[i] == "FPRSTD"[j]) f |= O[j]; return f; }
static string idOf(const string& n) { size_t k = n.rfind(":2,"); return k == string::npos ? n : n.substr(0, k); }
HARNESS h_md_flags() {
	stub::install(); static const char* PRE[] = { "", "1071577232.28549.m03-s", "1071577232.28549.my-host-2", "12-2," }; string id = PRE[P("pfx", 0)]; id += P("set", 0) ? symStrIn(vs_choice(P("n", 3) + 1), string("-2,STa.")) : symStr(vs_choice(P("n", 3) + 1)); observe("id", id);
	{ size_t k = id.rfind('-'); if (id.empty() || id.find(':') != string::npos || (k != string::npos && id.compare(k + 1, 2, "2,") == 0)) vs_end(); } // not an identifier
	int f = vs_range(0, 127), g = vs_range(0, 127); if (P("cf", 0)) { f = (int)vs_concrete(f); }
	utility::path::component c(id), n = maildirUtils::buildFilename(c, f); observe("n", n.getBuffer());
	checkEq(maildirUtils::extractId(c).getBuffer(), id, "a file name without flags is an identifier"); vs_check(maildirUtils::extractFlags(c) == 0, "a file name without flags has none");
	checkEq(maildirUtils::extractId(n).getBuffer(), id, "flags leave the identifier unchanged"); vs_check(maildirUtils::extractFlags(n) == (f & ~RECENT), "flags are read back from the file name"); checkEq(n.getBuffer(), f == RECENT ? id : id + ":" + flagText(f), "a file name is the identifier and the flags of maildir");
	utility::path::component m = maildirUtils::buildFilename(maildirUtils::extractId(n), g); checkEq(maildirUtils::extractId(m).getBuffer(), id, "changing flags leaves the identifier unchanged"); vs_check(maildirUtils::extractFlags(m) == (g & ~RECENT), "changed flags are read back");
	vs_check(maildirUtils::messageIdComparator(n)(m), "a message is found again with other flags");
	utility::path::component w(id + "-" + flagText(f)); checkEq(maildirUtils::extractId(w).getBuffer(), id, "names of other platforms are read"); vs_check(maildirUtils::extractFlags(w) == (f & ~RECENT), "flags of other platforms are read");
	vs_reach("end");
}
static const string ROOT = "/vfs/root";
static shared_ptr<maildirStore> openStore() {
	propertySet p; p["store.maildir.server.rootpath"] = ROOT; stub::files = make_shared<platforms::posix::posixFileSystemFactory>();
	auto s = make_shared<maildirStore>(net::session::create(p), make_shared<noAuth>()); s->connect(); return s;
}
static shared_ptr<maildirStore> setup(unsigned courier) { stub::install(); vfs::reset(); vfs::mkdirs(ROOT); if (courier) { vfs::mkdirs(ROOT + "/.q"); vfs::mk(ROOT + "/.q/maildirfolder", false, ""); } return openStore(); }
static const char SPECIAL[] = "./-&~a\\";
static string fname(unsigned k) {
	static const char* PRE[] = { "", "a", "..", "a.", "\xc3\xa9" }; string s = PRE[P("npre", 0)];
	switch (k) { case 0: return s + symStr(vs_choice(P("n", 2) + 1)); case 1: return s + symStrIn(vs_choice(P("n", 2) + 1), string(SPECIAL)); case 2: return s + symChar(2); case 3: return s + symChar(3); case 4: return s + symChar(4); case 5: return s + symStrIn(1, string("+~\\& '\"%")) + "b"; case 6: { string r = s; r += symChar(2); r += symStrIn(1, string("a+-&,/.~")); return r; } }
	return s;
}
static fpath fpathOf(const std::vector<string>& l) { fpath p; for (auto& c : l) p /= fcomp(c, charset("utf-8")); return p; }
static void destroy(const shared_ptr<maildirFormat>& f, const fpath& p) { try { f->destroyFolder(p); } catch (std::exception&) {} } // as maildirFolder::destroy()
static int inside(const fpath& p) { // the path designates something below the root of the store
	if (p.getSize() <= 2) return 0; if (p[0].getBuffer() != "vfs" || p[1].getBuffer() != "root") return 0;
	int ok = 1; for (size_t i = 2; i < p.getSize(); i++) { const string& b = p[i].getBuffer(); if (b.empty() || same(b, ".") || same(b, "..")) return 0; for (char c : b) ok = vs_and(ok, vs_and(c != '/', c != 0)); } return ok;
}
HARNESS h_md_path() {
	unsigned courier = P("courier", 0); auto s = setup(courier); size_t k = 1 + vs_choice(P("max", 2)); std::vector<string> l; for (size_t i = 0; i < k; i++) l.push_back(i == P("sympos", 0) || k == 1 ? fname(P("kind", 0)) : string("k")); for (auto& c : l) observe("c", c);
	if (courier) for (auto& c : l) if (!validUtf8(c)) vs_end();
	auto f = s->getFormat(); fpath p = fpathOf(l); bool refused = false;
	static const maildirFormat::DirectoryType T[] = { maildirFormat::ROOT_DIRECTORY, maildirFormat::NEW_DIRECTORY, maildirFormat::CUR_DIRECTORY, maildirFormat::TMP_DIRECTORY, maildirFormat::CONTAINER_DIRECTORY };
	for (auto t : T) { if (courier && t == maildirFormat::CONTAINER_DIRECTORY) continue; try { fpath r = f->folderPathToFileSystemPath(p, t); vs_check(inside(r), "a folder is a directory of the store"); } catch (exceptions::invalid_folder_name&) { refused = true; } }
	int plain = 1; for (auto& c : l) { if (c.empty() || (!courier && c[0] == '.')) plain = 0; if (!courier) for (char x : c) plain = vs_and(plain, vs_and(x != '/', x != 0)); } vs_check(vs_or(!plain, !refused), "an ordinary folder name is accepted");
	if (refused) vs_end();
	vfs::touched.clear(); bool made = false; try { f->createFolder(p); made = true; } catch (exceptions::invalid_folder_name&) {} catch (exceptions::filesystem_exception&) {}
	for (auto& t : vfs::touched) { int ok = t == "/" || t == "/vfs" || t == ROOT || same(t.substr(0, 10), "/vfs/root/"); vs_check(ok, "creating a folder only touches the store"); }
	if (!made) { if (P("kind", 0) == 0 || P("kind", 0) == 1) vs_end(); vs_fail("a folder can be created"); }
	vs_check(f->folderExists(p), "a created folder exists"); bool found = false; std::vector<fpath> all = f->listFolders(fpath(), true); for (auto& q : all) { if (q == p) found = true; } if (k == 1) vs_check(found, "a created folder is listed with its name"); { fpath par = p.getParent(); std::vector<fpath> sub = f->listFolders(par, false); found = false; for (auto& q : sub) { if (q.getSize() == p.getSize() && q.getParent() == par && same(q.getLastComponent().getBuffer(), l.back())) found = true; } vs_check(found, "a created folder is listed below its parent"); }
	destroy(f, p); vs_check(!f->folderExists(p), "a destroyed folder does not exist"); vs_check(vfs::isDir(ROOT), "the store is still there");
	vs_reach("end");
}
HARNESS h_md_distinct() { // different folders are kept in different directories
	unsigned courier = P("courier", 0); auto s = setup(courier); std::vector<string> a, b; size_t ka = 1 + vs_choice(P("max", 2)), kb = 1 + vs_choice(P("max", 2)); for (size_t i = 0; i < ka; i++) a.push_back(fname(P("kind", 1))); for (size_t i = 0; i < kb; i++) b.push_back(i == 0 ? fname(P("kind2", 1)) : string("k"));
	if (courier) { for (auto& c : a) if (!validUtf8(c)) vs_end(); for (auto& c : b) if (!validUtf8(c)) vs_end(); }
	auto f = s->getFormat(); fpath p = fpathOf(a), q = fpathOf(b); int eq = ka == kb; for (size_t i = 0; i < ka && i < kb; i++) eq = vs_and(eq, same(a[i], b[i]));
	auto native = [&](const fpath& x, maildirFormat::DirectoryType t) { return stub::files->pathToString(f->folderPathToFileSystemPath(x, t)); };
	try { string x = native(p, maildirFormat::CUR_DIRECTORY), y = native(q, maildirFormat::CUR_DIRECTORY); vs_check(same(x, y) == eq, "different folders are different directories"); x = native(p, maildirFormat::ROOT_DIRECTORY); y = native(q, maildirFormat::CUR_DIRECTORY); vs_check(!same(x, y), "a folder is not where another keeps its messages"); } catch (exceptions::invalid_folder_name&) { vs_end(); }
	vs_reach("end");
}
static void put(const shared_ptr<maildirFormat>& f, const std::vector<string>& l) { fpath p = fpathOf(l); f->createFolder(p); string d = stub::files->pathToString(f->folderPathToFileSystemPath(p, maildirFormat::CUR_DIRECTORY)); vfs::mk(d + "/m:2,", false, "x"); }
static bool has(const shared_ptr<maildirFormat>& f, const std::vector<string>& l) { fpath p = fpathOf(l); if (!f->folderExists(p)) return false; string d = stub::files->pathToString(f->folderPathToFileSystemPath(p, maildirFormat::CUR_DIRECTORY)); return vfs::find(d + "/m:2,") >= 0; }
HARNESS h_md_tree() { // destroying and renaming a folder concerns it and what is below it, nothing else
	unsigned courier = P("courier", 0); auto s = setup(courier); auto f = s->getFormat(); string x = fname(P("kind", 1)); observe("x", x); bool sub = vs_choice(2) != 0;
	if (courier && !validUtf8(x)) vs_end(); if (x.empty() || (!courier && (x[0] == '.' || x.find('/') != string::npos))) vs_end(); for (char c : x) if (c == 0 || (!courier && c == '*')) vs_end(); if (same(x, "a") || same(x, "z") || same(x, "q")) vs_end();
	put(f, { "a" }); if (sub) put(f, { "a", "s" }); put(f, { x }); put(f, { x, "s" }); if (sub) { put(f, { "a", "s", "t" }); }
	std::vector<fpath> under = f->listFolders(fpathOf({ "a" }), true); vs_check(under.size() == (sub ? 2u : 0u), "the folders below a folder are listed"); vs_check(f->folderHasSubfolders(fpathOf({ "a" })) == sub, "a folder has folders below it or not"); vs_check(f->folderHasSubfolders(fpathOf({ x })), "a folder has folders below it"); under = f->listFolders(fpathOf({ "a" }), false); vs_check(under.size() == (sub ? 1u : 0u), "the folders right below a folder are listed");
	unsigned op = vs_choice(2);
	if (op == 0) { destroy(f, fpathOf({ "a" })); vs_check(!f->folderExists(fpathOf({ "a" })) && !f->folderExists(fpathOf({ "a", "s" })), "a folder is destroyed with what is below it"); }
	else { f->renameFolder(fpathOf({ "a" }), fpathOf({ "z" })); vs_check(!f->folderExists(fpathOf({ "a" })) && !f->folderExists(fpathOf({ "a", "s" })), "a renamed folder has left"); vs_check(has(f, { "z" }), "a renamed folder keeps its messages"); if (sub) vs_check(has(f, { "z", "s" }) && has(f, { "z", "s", "t" }), "folders below a renamed folder keep their messages"); put(f, { "z", "n" }); vs_check(has(f, { "z", "n" }), "folders can be created below a renamed one"); }
	vs_check(has(f, { x }) && has(f, { x, "s" }), "other folders are left alone");
	vs_reach("end");
}

// ---- C22 ----
static string box(const string& f, const char* d) { return P("courier", 0) ? ROOT + "/." + f + "/" + d : ROOT + "/" + f + "/" + d; }
static void mkbox(const string& f) { for (auto d : { "cur", "new", "tmp" }) vfs::mkdirs(box(f, d)); if (P("courier", 0)) vfs::mk(ROOT + "/." + f + "/maildirfolder", false, ""); }
static const char* NAMES[] = { "1.a.h-s:2,S", "2.b.h-s:2,", "3.c.h-s:2,FT" }; static const char* TEXTS[] = { "one\r\n", "two", "three" };
static std::vector<string> inbox(const string& f) { std::vector<string> r; for (auto d : { "cur", "new" }) for (auto& x : vfs::files(box(f, d))) r.push_back(x.second); return r; }
// every message a reader of the folder sees is one of `ok`, whole; every one of `must` is seen
static void checkBox(const string& f, const std::vector<string>& ok, const std::vector<string>& must, bool once) {
	std::vector<string> r = inbox(f); for (auto& c : r) { int g = 0; for (auto& o : ok) g = vs_or(g, same(c, o)); vs_check(g, "every visible message is whole"); }
	for (auto& m : must) { size_t n = 0; for (auto& c : r) if (same(c, m)) n++; vs_check(n >= 1, "no message is lost"); if (once) vs_check(n == 1, "no message appears twice"); }
}
static shared_ptr<net::folder> openFolder(const shared_ptr<maildirStore>& s, const string& f) { auto r = s->getFolder(fpath(fcomp(f))); r->open(net::folder::MODE_READ_WRITE); return r; }
static const int F6 = M::FLAG_SEEN | M::FLAG_DELETED | M::FLAG_REPLIED | M::FLAG_MARKED | M::FLAG_PASSED | M::FLAG_DRAFT;
HARNESS h_md_fault() { // one call to the system fails, is cut short or is the last one
	stub::install(); vfs::reset(); vfs::mkdirs(ROOT); mkbox("in"); mkbox("out"); if (P("fresh", 0)) vfs::mk(box("in", "new") + "/9.n.h-s", false, "fresh");
	for (int i = 0; i < 3; i++) vfs::mk(box("in", "cur") + "/" + NAMES[i], false, TEXTS[i]); vfs::nolink = P("nolink", 0);
	std::vector<string> all; for (auto t : TEXTS) all.push_back(t); if (P("fresh", 0)) all.push_back("fresh");
	unsigned op = P("op", 0); string body = symStr(vs_choice(P("n", 2) + 1)); if (P("fill", 0)) body = string(P("fill", 0), 'x') + body; observe("body", body);
	vfs::mode = (int)P("mode", 1); vfs::countdown = 1 + vs_choice(P("max", 40)); bool armAll = P("arm", 0);
	auto s = openStore(); if (armAll) vfs::armed = true; bool threw = false, stop = false; int flags = 0; size_t before = 0; shared_ptr<net::folder> f;
	try {
		f = openFolder(s, "in"); before = f->getMessageCount(); vfs::armed = true;
		switch (op) {
		case 0: { flags = P("flags", 0) == 9 ? -1 : (int)P("flags", 0); utility::inputStreamStringAdapter is(body); f->addMessage(is, body.size(), flags); break; }
		case 1: f->copyMessages(fpath(fcomp("out")), net::messageSet::byNumber(1, std::max<size_t>(before, 1))); break;
		case 2: f->setMessageFlags(net::messageSet::byNumber(1, 3), (int)P("flags", 16), M::FLAG_MODE_ADD); break;
		case 3: f->expunge(); break;
		case 4: { size_t a, b; f->status(a, b); break; }
		}
	} catch (exception& e) { threw = true; }
	vfs::armed = false; bool crashed = vfs::frozen; stop = !vfs::fired; vfs::frozen = false; bool add = op == 0;
	std::vector<string> ok = all, must = all; if (add) ok.push_back(body);
	if (add && !threw && !crashed) must.push_back(body);
	if (op == 3) must.erase(must.begin() + 2); // the one marked as deleted
	bool once = !crashed || !(op == 2 || op == 4); if (crashed && vfs::nolink) once = true; if (op == 4 || op == 1) once = false; 
	checkBox("in", ok, must, false); if (!crashed && !armAll) { size_t n = inbox("in").size(); size_t want = 3 + (P("fresh", 0) ? 1 : 0); if (add && !threw) want++; if (op == 3) { vs_check(n == want || n == want - 1, "expunging removes the deleted message only"); } else vs_check(n == want, "no message appears or disappears"); }
	if (op == 1) { checkBox("out", all, threw || crashed ? std::vector<string>() : all, true); }
	// so does the session that met the failure
	if (!crashed && f && P("again", 1)) { size_t n = f->getMessageCount(), found = 0; std::vector<bool> seen(ok.size(), false);
		for (size_t i = 1; i <= n; i++) { auto m = f->getMessage(i); f->fetchMessage(m, net::fetchAttributes::SIZE); string o; utility::outputStreamStringAdapter os(o); m->extract(os); int g = 0; for (auto& k : ok) g = vs_or(g, same(o, k)); vs_check(g, "the session that met a failure reads whole messages"); }
		vs_check(n >= (op == 3 || armAll ? 0u : 3u), "the session that met a failure keeps its messages"); }
	// the next session finds them
	{ auto s2 = openStore(); auto f = openFolder(s2, "in"); size_t n = f->getMessageCount(); vs_check(n == inbox("in").size(), "the next session sees the messages of the folder"); std::vector<string> r; for (size_t i = 1; i <= n; i++) { auto m = f->getMessage(i); f->fetchMessage(m, net::fetchAttributes::SIZE); string o; utility::outputStreamStringAdapter os(o); m->extract(os); r.push_back(o); int g = 0; for (auto& k : ok) g = vs_or(g, same(o, k)); vs_check(g, "the next session reads whole messages"); } if (op != 3 && !armAll) for (int i = 0; i < 3; i++) { bool fl = false; for (auto& x : vfs::files(box("in", "cur"))) if (idOf(x.first) == idOf(NAMES[i])) { int want = flagsOf(NAMES[i]), got = flagsOf(x.first); fl = true; vs_check(got == want || (op == 2 && got == (want | (int)P("flags", 16))), "flags are the old ones or the new ones"); if (op == 2 && !threw && !crashed && stop) vs_check(got == (want | (int)P("flags", 16)), "flags are set"); } vs_check(fl, "messages keep their identifier"); } }
	vs_reach("end");
}
// any sequence of operations against a list of messages
struct Msg { string id, text; int flags; bool gone; bool del; };
static shared_ptr<net::folder> F; static std::vector<Msg> model; static std::vector<shared_ptr<net::message>> objs; static std::vector<string> objText;
static void checkModel() {
	vs_check(F->getMessageCount() == model.size(), "the folder has as many messages as were put into it");
	for (size_t i = 0; i < model.size(); i++) { auto m = F->getMessage(i + 1); F->fetchMessage(m, net::fetchAttributes::FLAGS | net::fetchAttributes::SIZE); vs_check(m->getFlags() == model[i].flags, "a message has the flags it was given"); string o; utility::outputStreamStringAdapter os(o); m->extract(os); checkEq(o, model[i].text, "a message number designates the same message"); }
	for (size_t i = 0; i < objs.size(); i++) { size_t at = model.size(); for (size_t j = 0; j < model.size(); j++) if (same(model[j].text, objText[i])) at = j; vs_check(objs[i]->isExpunged() == (at == model.size()), "a message is expunged if it was"); if (at < model.size()) vs_check(objs[i]->getNumber() == at + 1, "a message object follows its message"); }
	std::vector<string> r = inbox("in"); vs_check(r.size() == model.size(), "the directory holds the messages");
}
HARNESS h_md_history() {
	stub::install(); vfs::reset(); vfs::mkdirs(ROOT); mkbox("in"); mkbox("out"); model.clear(); objs.clear(); objText.clear(); F.reset();
	for (int i = 0; i < 3; i++) { vfs::mk(box("in", "cur") + "/" + NAMES[i], false, TEXTS[i]); model.push_back({ idOf(NAMES[i]), TEXTS[i], flagsOf(NAMES[i]), false, false }); } size_t outCount = 0; int added = 0;
	auto s = openStore(); F = openFolder(s, "in"); auto take = [&]() { objs.clear(); objText.clear(); for (size_t i = 0; i < model.size(); i++) { objs.push_back(F->getMessage(i + 1)); objText.push_back(model[i].text); } }; take();
	size_t ops = P("ops", 2); unsigned first = P("first", 99);
	for (size_t k = 0; k < ops; k++) {
		unsigned op = k == 0 && first < 99 ? first : vs_choice(8);
		if (op < 3) { if (model.empty()) continue; size_t a = vs_choice(model.size()), b = a + vs_choice(std::min((size_t)2, model.size() - a)); static const int FS[] = { M::FLAG_DELETED, M::FLAG_SEEN | M::FLAG_MARKED, M::FLAG_DELETED | M::FLAG_DRAFT, 0 }; int f = FS[vs_choice(3)]; static const int MODE[] = { M::FLAG_MODE_ADD, M::FLAG_MODE_REMOVE, M::FLAG_MODE_SET }; F->setMessageFlags(net::messageSet::byNumber(a + 1, b + 1), f, MODE[op]); for (size_t i = a; i <= b; i++) { int& x = model[i].flags; x = op == 0 ? x | f : op == 1 ? x & ~f : f; } }
		else if (op == 3) { F->expunge(); std::vector<Msg> keep; for (auto& m : model) if (!(m.flags & M::FLAG_DELETED)) keep.push_back(m); model = keep; }
		else if (op == 4) { string t = "new" + string(1, char('0' + added++)); utility::inputStreamStringAdapter is(t); static const int FL[] = { M::FLAG_SEEN, -1, M::FLAG_RECENT }; int fl = FL[vs_choice(3)]; F->addMessage(is, t.size(), fl); model.push_back({ "", t, fl == M::FLAG_SEEN ? fl : 0, false, false }); }
		else if (op == 5) { size_t n = 0, u = 0; if (vs_choice(2)) { string t = "out" + string(1, char('0' + added++)); vfs::mk(box("in", "new") + "/7." + t + ".h-s", false, t); model.push_back({ "", t, 0, false, false }); } F->status(n, u); size_t un = 0; for (auto& m : model) if (!(m.flags & M::FLAG_SEEN)) un++; vs_check(n == model.size(), "the status counts the messages"); vs_check(u == un, "the status counts the unseen messages"); }
		else if (op == 6) { F->close(false); for (auto& m : model) (void)m; objs.clear(); objText.clear(); F->open(net::folder::MODE_READ_WRITE); // the order may be that of the directory
			std::vector<Msg> m2; for (size_t i = 1; i <= F->getMessageCount(); i++) { auto g = F->getMessage(i); F->fetchMessage(g, net::fetchAttributes::SIZE); string o; utility::outputStreamStringAdapter os(o); g->extract(os); for (auto& m : model) if (same(m.text, o)) m2.push_back(m); } vs_check(m2.size() == model.size(), "reopening finds the messages"); model = m2; take(); }
		else { if (model.empty()) continue; size_t a = vs_choice(model.size()); F->copyMessages(fpath(fcomp("out")), net::messageSet::byNumber(a + 1)); outCount++; std::vector<string> r = inbox("out"); vs_check(r.size() == outCount, "a copy adds one message"); bool f = false; for (auto& x : vfs::files(box("out", "cur"))) if (same(x.second, model[a].text) && flagsOf(x.first) == model[a].flags) f = true; vs_check(f, "a copy has the text and flags of the message"); }
		checkModel();
	}
	bool refused = false; try { F->setMessageFlags(net::messageSet::byNumber(model.size() + 1), M::FLAG_SEEN, M::FLAG_MODE_ADD); } catch (exceptions::message_not_found&) { refused = true; } vs_check(refused, "a message that does not exist is refused"); refused = false; try { F->copyMessages(fpath(fcomp("out")), net::messageSet::byNumber(model.size() + 1)); } catch (exception&) { refused = true; } vs_check(refused, "a message that does not exist is not copied");
	F->close(false); F.reset(); objs.clear();
	vs_reach("end");
}
HARNESS h_md_renamed() { // folder objects follow a renamed folder
	unsigned courier = P("courier", 0); auto s = setup(courier); auto f = s->getFormat(); put(f, { "a" }); put(f, { "a", "s" }); put(f, { "a", "s", "t" }); put(f, { "b" });
	auto fa = s->getFolder(fpathOf({ "a" })), fa2 = s->getFolder(fpathOf({ "a" })), fs = s->getFolder(fpathOf({ "a", "s" })), ft = s->getFolder(fpathOf({ "a", "s", "t" })), fb = s->getFolder(fpathOf({ "b" }));
	fa->rename(fpathOf({ "z" })); vs_check(fa->getFullPath() == fpathOf({ "z" }) && fa2->getFullPath() == fpathOf({ "z" }), "the objects of a renamed folder have its new path"); vs_check(fs->getFullPath() == fpathOf({ "z", "s" }) && ft->getFullPath() == fpathOf({ "z", "s", "t" }), "the objects of folders below a renamed one have their new path"); vs_check(fb->getFullPath() == fpathOf({ "b" }), "the objects of other folders keep their path"); vs_check(fa->exists() && fs->exists() && ft->exists() && fb->exists(), "the folders are there"); vs_check(fs->getName() == fcomp("s") && fa2->getName() == fcomp("z"), "names follow paths");
	vs_reach("end");
}
// what is read of a message, of its parts, or of a range of either, is what is in its file
struct MPart { string hdr, body; std::vector<MPart> sub; size_t at, bat, end; };
static void lay(MPart& p, string& out, const string& b) { p.at = out.size(); out += p.hdr; p.bat = out.size(); if (p.sub.empty()) out += p.body; else { for (auto& s : p.sub) { out += "--" + b + "\r\n"; lay(s, out, b + "x"); out += "\r\n"; } out += "--" + b + "--\r\n"; } p.end = out.size(); }
HARNESS h_md_read() {
	stub::install(); vfs::reset(); vfs::mkdirs(ROOT); mkbox("in"); string t = P("set", 0) ? symStrIn(vs_choice(P("n", 2) + 1), string("\r\n-x")) : symStr(vs_choice(P("n", 2) + 1)); if (P("fill", 0)) t = string(P("fill", 0), 'f') + t; if (P("shape", 0) && (t.find("--") != string::npos)) vs_end(); observe("t", t);
	MPart m; string end = P("shape", 0) ? "" : t; string H = "Subject: s\r\nX-Priority: 1\r\n"; if (P("hfill", 0)) { H += "X-Fill: "; H += string(P("hfill", 0) + vs_choice(9), 'h'); H += "\r\n"; }
	MPart leaf1{ "Content-Type: text/plain\r\n\r\n", "one " + t, {}, 0, 0, 0 }, leaf2{ "Content-Type: application/octet-stream; name=f\r\nContent-Disposition: attachment\r\nContent-Transfer-Encoding: base64\r\n\r\n", "YWE=", {}, 0, 0, 0 };
	switch (P("shape", 0)) { case 0: m = MPart{ H + "Content-Type: text/plain\r\n\r\n", t, {}, 0, 0, 0 }; break; case 1: m = MPart{ H + "Content-Type: multipart/mixed; boundary=b\r\n\r\n", "", { leaf1, leaf2 }, 0, 0, 0 }; break; default: m = MPart{ H + "Content-Type: multipart/mixed; boundary=b\r\n\r\n", "", { leaf2, MPart{ "Content-Type: multipart/alternative; boundary=bx\r\n\r\n", "", { leaf1, leaf1 }, 0, 0, 0 } }, 0, 0, 0 }; }
	string text; lay(m, text, "b"); vfs::mk(box("in", "cur") + "/1.a.h-s:2,S", false, "first"); vfs::mk(box("in", P("isnew", 0) ? "new" : "cur") + (P("isnew", 0) ? "/2.b.h-s" : "/2.b.h-s:2,F"), false, text); vfs::mk(box("in", "cur") + "/3.c.h-s:2,", false, "third");
	auto s = openStore(); auto f = openFolder(s, "in"); shared_ptr<net::message> g; for (size_t i = 1; i <= f->getMessageCount(); i++) { auto x = f->getMessage(i); f->fetchMessage(x, net::fetchAttributes::UID); if (string(x->getUID()) == "2.b.h-s") g = x; } vs_check(g != nullptr, "a message is found by its UID"); if (!g) return;
	auto range = [&](size_t len, size_t& a, size_t& l) { static const size_t LEN[] = { 0, 1, 5, size_t(-1), size_t(-2) }; unsigned k = vs_choice(6); a = k < 3 ? k : k == 3 ? len : k == 4 ? (len ? len - 1 : 0) : len + 1; l = LEN[vs_choice(5)]; };
	unsigned kind = P("kind", 0); if (kind != 3 && !P("nofetch", 0)) f->fetchMessage(g, net::fetchAttributes::SIZE | net::fetchAttributes::STRUCTURE);
	std::function<void(const shared_ptr<net::messageStructure>&, const std::vector<MPart>&, std::vector<std::pair<shared_ptr<net::messagePart>, const MPart*>>&)> walk = [&](const shared_ptr<net::messageStructure>& st, const std::vector<MPart>& v, std::vector<std::pair<shared_ptr<net::messagePart>, const MPart*>>& out) { size_t n = st->getPartCount(); vs_check(n == v.size(), "a part has its parts"); for (size_t i = 0; i < n && i < v.size(); i++) { out.push_back({ st->getPartAt(i), &v[i] }); vs_check(st->getPartAt(i)->getNumber() == i, "a part has its number"); walk(st->getPartAt(i)->getStructure(), v[i].sub, out); } };
	switch (kind) {
	case 0: { size_t a = 0, l = size_t(-1); if (P("range", 1)) range(text.size(), a, l); string o; utility::outputStreamStringAdapter os(o); g->extract(os, NULL, a, l); checkEq(o, a >= text.size() ? string() : text.substr(a, l), "the range read of a message is the one asked for"); if (!P("nofetch", 0)) vs_check(g->getSize() == text.size(), "a message has its size"); break; }
	case 1: case 2: { std::vector<std::pair<shared_ptr<net::messagePart>, const MPart*>> ps; std::vector<MPart> top{ m }; walk(g->getStructure(), top, ps); auto& x = ps[vs_choice(ps.size())]; const MPart& q = *x.second;
		if (kind == 1) { size_t a, l; range(q.end - q.bat, a, l); string o; utility::outputStreamStringAdapter os(o); g->extractPart(x.first, os, NULL, a, l); string b = text.substr(q.bat, q.end - q.bat); checkEq(o, a >= b.size() ? string() : b.substr(a, l), "the range read of a part is the one asked for"); }
		else { f->fetchMessage(g, net::fetchAttributes::FULL_HEADER); g->fetchPartHeader(x.first); auto h = x.first->getHeader(); auto mt = h->ContentType()->getValue<mediaType>(); checkEq(mt->generate(), q.hdr.find("text/plain") != string::npos ? string("text/plain") : q.hdr.find("octet") != string::npos ? string("application/octet-stream") : q.hdr.find("alternative") != string::npos ? string("multipart/alternative") : string("multipart/mixed"), "the header of a part is that of the part"); vs_check(h->hasField("Content-Disposition") == (q.hdr.find("attachment") != string::npos) && h->hasField("Subject") == (&q == ps[0].second), "a header has the fields of its part"); if (q.sub.empty()) vs_check(x.first->getSize() == q.end - q.bat, "a part has its size"); vs_check(x.first->getType() == *mt, "a part has its type"); } break; }
	case 3: { unsigned j = vs_choice(4); static const int AT[] = { net::fetchAttributes::ENVELOPE, net::fetchAttributes::FULL_HEADER, net::fetchAttributes::CONTENT_INFO, net::fetchAttributes::IMPORTANCE }; f->fetchMessage(g, AT[j]); checkEq(g->getHeader()->Subject()->getValue<vmime::text>()->getWholeBuffer(), string("s"), "the header is that of the message"); vs_check(g->getHeader()->hasField("X-Priority") && g->getHeader()->getFieldCount() == (P("hfill", 0) ? 4u : 3u), "the header has the fields of the message"); break; }
	case 4: { auto p = g->getParsedMessage(); string o = p->generate(lineLengthLimits::infinite); auto p2 = make_shared<vmime::message>(); p2->parse(text); checkEq(o, p2->generate(lineLengthLimits::infinite), "the message parsed is that of the file"); break; }
	}
	vs_reach("end");
}
