// Files attached to messages: fileAttachment and its information, fileContentHandler, over the real posixFile.cpp
#include "common.hpp"
#include "gen.hpp"
#include "vfs.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
#include "vmime/messageBuilder.hpp"
#include "vmime/messageParser.hpp"
#include "vmime/plainTextPart.hpp"
#include "vmime/fileAttachment.hpp"
#include "vmime/fileContentHandler.hpp"
#include "vmime/stringContentHandler.hpp"
#include "vmime/contentDispositionField.hpp"
namespace stub { extern shared_ptr<utility::fileSystemFactory> files; }
typedef utility::file::path fpath;
static void fs() { stub::install(); vfs::reset(); stub::files = make_shared<platforms::posix::posixFileSystemFactory>(); }
static string data(const shared_ptr<const contentHandler>& c) { string r; utility::outputStreamStringAdapter os(r); c->extract(os); return r; }
static string txt(const text& t) { return t.getConvertedText(charset("utf-8")); }
static string fill(size_t n) { string s; for (size_t i = 0; i < n; i++) s += i % 61 == 60 ? '\n' : i % 7 == 3 ? '\0' : char('a' + i % 26); return s; }
static datetime aDate(size_t k) { return datetime(2000 + (int)k, 1 + (int)k, 2 + (int)k, 3, 4, 5 + (int)k, k == 1 ? 60 : k == 2 ? -90 : 0); }
typedef fileAttachment::fileInfo finfo;
static void setDate(finfo& i, size_t k) { if (k == 0) i.setCreationDate(aDate(0)); else if (k == 1) i.setModificationDate(aDate(1)); else i.setReadDate(aDate(2)); }
static bool hasDate(const finfo& i, size_t k) { return k == 0 ? i.hasCreationDate() : k == 1 ? i.hasModificationDate() : i.hasReadDate(); }
static const datetime& getDate(const finfo& i, size_t k) { return k == 0 ? i.getCreationDate() : k == 1 ? i.getModificationDate() : i.getReadDate(); }
static bool hasDate(const contentDispositionField& i, size_t k) { return k == 0 ? i.hasCreationDate() : k == 1 ? i.hasModificationDate() : i.hasReadDate(); }
static datetime getDate(const contentDispositionField& i, size_t k) { return k == 0 ? i.getCreationDate() : k == 1 ? i.getModificationDate() : i.getReadDate(); }
static encoding encOf(size_t k) { return encoding(k == 1 ? "base64" : k == 2 ? "quoted-printable" : k == 3 ? "uuencode" : "binary"); }
// C44: a file attached is found as it was: its data, its name, its size, its dates, its type and its description
HARNESS h_file_attach() {
	fs(); vfs::mkdirs("/vfs/d"); size_t n = P("n", 2), src = P("src", 0), e = P("enc", 0);
	string d = fill(P("pre", 0)); d += symStr(n); d += fill(P("post", 0));
	string nm = "f"; nm += symText(P("name", 0), P("mask", 5)); string ds = P("desc", 0) ? "D" : ""; if (P("desc", 0)) ds += symText(1, 5);
	string given = nm; if (src == 0) for (char c : nm) if (c == '/') vs_end();
	text desc; if (!ds.empty()) desc.createFromString(ds, charset("utf-8")); mediaType type("application/x-y"); shared_ptr<fileAttachment> a;
	string path = "/vfs/d/"; path += nm; vfs::mk(path, false, d);
	if (src == 0) { try { if (e) a = make_shared<fileAttachment>(path, type, desc, encOf(e)); else if (!ds.empty()) a = make_shared<fileAttachment>(path, type, desc); else a = make_shared<fileAttachment>(path, type); } catch (exceptions::open_file_error&) { vs_check(false, "a file is attached"); return; } }
	else {
		shared_ptr<contentHandler> c; if (src == 1) c = make_shared<stringContentHandler>(d); else { auto f = stub::files->create(stub::files->stringToPath(path)); c = make_shared<fileContentHandler>(f); if (src == 3) { auto k = c->clone(); vs_check(k->getLength() == d.size() && !k->isEncoded(), "the copy of a content is that content"); if (vs_choice(2)) { checkEq(data(c), d, "the content of a file is its data"); } c = k; } }
		word w(nm, charset("utf-8")); if (e) a = make_shared<fileAttachment>(c, w, type, desc, encOf(e)); else if (!ds.empty()) a = make_shared<fileAttachment>(c, w, type, desc); else a = make_shared<fileAttachment>(c, w, type);
	}
	unsigned dates = (unsigned)vs_choice(P("dates", 0) ? 8 : 1); for (size_t k = 0; k < 3; k++) if (dates >> k & 1) setDate(a->getFileInfo(), k);
	{ const fileAttachment& ca = *a; auto& i = ca.getFileInfo(); vs_check(i.hasFilename(), "a file has the name given"); if (i.hasFilename()) checkEq(i.getFilename().getBuffer(), given, "a file has the name given"); vs_check(i.hasSize() && i.getSize() == d.size(), "a file has its size"); for (size_t k = 0; k < 3; k++) vs_check(hasDate(i, k) == ((dates >> k & 1) != 0), "a file has the dates given"); }
	if (e) vs_check(a->getEncoding() == encOf(e), "a file is encoded as asked"); vs_check(a->getType() == type, "an attachment keeps its type");
	if (P("twice", 0)) checkEq(data(a->getData()), d, "an attachment keeps its data");
	messageBuilder mb; mb.setExpeditor(mailbox(emailAddress("from", "x.org"))); { addressList l; l.appendAddress(make_shared<mailbox>(emailAddress("to", "x.org"))); mb.setRecipients(l); } dynamicCast<plainTextPart>(mb.getTextPart())->setText(make_shared<stringContentHandler>("p"));
	mb.appendAttachment(a); vs_check(mb.getAttachmentCount() == 1 && mb.getAttachmentAt(0) == a, "an attachment is kept by the builder"); auto m = mb.construct(); string s = m->generate(); observe("s", s);
	if (P("twice", 0)) { string s2 = m->generate(); checkEq(s2, s, "generating a message twice gives the same"); string s3 = mb.construct()->generate(); vs_check(s3.size() == s.size() || P("dates", 0) > 1, "generating a message twice gives the same"); }
	message r; r.parse(s); size_t found = 0;
	for (size_t i = 0; i < r.getBody()->getPartCount(); i++) {
		auto h = r.getBody()->getPartAt(i)->getHeader(); auto cd = h->findField<contentDispositionField>("Content-Disposition"); if (!cd || cd->getValue<contentDisposition>()->getName() != "attachment") continue; found++;
		vs_check(cd->hasFilename(), "a file has the name given"); if (cd->hasFilename()) checkEq(cd->getFilename().getConvertedText(charset("utf-8")), given, "a file has the name given");
		vs_check(cd->hasSize() && cd->getSize() == utility::stringUtils::toString(d.size()), "a file has its size");
		for (size_t k = 0; k < 3; k++) { vs_check(hasDate(*cd, k) == ((dates >> k & 1) != 0), "a file has the dates given"); if (hasDate(*cd, k)) vs_check(getDate(*cd, k) == aDate(k), "a file has the dates given"); }
		if (e) vs_check(h->findFieldValue<encoding>("Content-Transfer-Encoding") && *h->findFieldValue<encoding>("Content-Transfer-Encoding") == encOf(e), "a file is encoded as asked");
	}
	vs_check(found == 1, "the file is attached once");
	messageParser p(s); vs_check(p.getAttachmentCount() == 1, "the file is attached once");
	if (p.getAttachmentCount() == 1) { auto b = p.getAttachmentAt(0); checkEq(data(b->getData()), d, "an attachment keeps its data"); vs_check(b->getType() == type, "an attachment keeps its type"); checkEq(b->getName().getConvertedText(charset("utf-8")), given, "a file has the name given"); checkEq(txt(b->getDescription()), ds, "an attachment keeps its description"); }
	vs_reach("end");
}
// C44: what cannot be read is not attached
HARNESS h_file_missing() {
	fs(); vfs::mkdirs("/vfs/d/e"); vfs::mk("/vfs/d/f", false, "x"); static const char* PATHS[] = { "/vfs/d/g", "/vfs/d/e", "/vfs/d", "/vfs/z/f", "/vfs/d/f" }; size_t k = vs_choice(5); bool ok = true;
	try { fileAttachment a(PATHS[k], mediaType("text/plain")); checkEq(data(a.getData()), "x", "an attachment keeps its data"); } catch (exceptions::open_file_error&) { ok = false; } catch (exceptions::filesystem_exception&) { ok = false; }
	vs_check(ok == (k == 4), "what is not a file is not attached"); vs_reach("end");
}
// C44: the information about a file is a value: what is set is read, whatever is copied
struct Ref { bool name, size, date[3]; string n; size_t s; datetime d[3]; Ref() : name(false), size(false), s(0) { date[0] = date[1] = date[2] = false; } };
static void checkInfo(const finfo& i, const Ref& r) {
	vs_check(i.hasFilename() == r.name && i.hasSize() == r.size, "what is known of a file is what was set"); if (r.name && i.hasFilename()) checkEq(i.getFilename().getBuffer(), r.n, "what is known of a file is what was set"); if (r.size && i.hasSize()) vs_check(i.getSize() == r.s, "what is known of a file is what was set");
	for (size_t k = 0; k < 3; k++) { vs_check(hasDate(i, k) == r.date[k], "what is known of a file is what was set"); if (r.date[k] && hasDate(i, k)) vs_check(getDate(i, k) == r.d[k], "what is known of a file is what was set"); }
}
HARNESS h_file_info() {
	fs(); auto a = new finfo(), b = new finfo(); Ref ra, rb;
	for (size_t op = 0; op < P("ops", 3); op++) {
		bool w = vs_choice(2) != 0; finfo& x = w ? *b : *a; Ref& r = w ? rb : ra;
		switch (vs_choice(7)) {
		case 0: { string s = symStr(1); if (vs_choice(2)) x.setFilename(s); else x.setFilename(word(s, charset("utf-8"))); r.name = true; r.n = s; break; }
		case 1: { size_t s = vs_range(0, 255); x.setSize(s); r.size = true; r.s = s; break; }
		case 2: x.setCreationDate(aDate(op)); r.date[0] = true; r.d[0] = aDate(op); break;
		case 3: x.setModificationDate(aDate(op)); r.date[1] = true; r.d[1] = aDate(op); break;
		case 4: x.setReadDate(aDate(op)); r.date[2] = true; r.d[2] = aDate(op); break;
		case 5: x = w ? *a : *b; r = w ? ra : rb; break;
		case 6: { finfo c(x); checkInfo(c, r); if (vs_choice(2)) { c.setSize(1000); c.setFilename(string("other")); c.setReadDate(aDate(7)); } x = x; break; }
		}
		checkInfo(*a, ra); checkInfo(*b, rb);
	}
	delete a; checkInfo(*b, rb); delete b; vs_reach("end");
}
// C44: an attachment is a value too
HARNESS h_file_copy() {
	fs(); string d = symStr(2); auto a = make_shared<fileAttachment>(make_shared<stringContentHandler>(d), word("f"), mediaType("application/x-y")); a->getFileInfo().setReadDate(aDate(1));
	shared_ptr<fileAttachment> b; if (vs_choice(2)) b = make_shared<fileAttachment>(*a); else { b = make_shared<fileAttachment>(make_shared<stringContentHandler>("other"), word("g"), mediaType("text/plain")); *b = *a; }
	if (vs_choice(2)) { a->getFileInfo().setFilename(string("h")); a->getFileInfo().setReadDate(aDate(2)); a.reset(); }
	auto& i = b->getFileInfo(); vs_check(i.hasFilename() && i.getFilename().getBuffer() == "f" && i.hasSize() && i.getSize() == 2 && i.hasReadDate() && i.getReadDate() == aDate(1) && !i.hasCreationDate(), "what is known of a file is what was set");
	checkEq(data(b->getData()), d, "an attachment keeps its data"); vs_check(b->getType() == mediaType("application/x-y"), "an attachment keeps its type"); vs_reach("end");
}
// C44: a file as the contents of a body
HARNESS h_file_body() {
	fs(); vfs::mkdirs("/vfs/d"); size_t e = P("enc", 0); string d = fill(P("pre", 0)); d += symStr(P("n", 2)); d += fill(P("post", 0)); string f = d; if (P("coded", 0)) { utility::inputStreamStringAdapter in(d); utility::outputStreamStringAdapter os(f); f.clear(); encOf(P("coded", 0)).getEncoder()->encode(in, os); }
	vfs::mk("/vfs/d/f", false, f); auto file = stub::files->create(stub::files->stringToPath("/vfs/d/f")); auto c = make_shared<fileContentHandler>(); vs_check(c->isEmpty(), "no content is empty");
	if (vs_choice(2)) { c->setData(file, P("coded", 0) ? encOf(P("coded", 0)) : contentHandler::NO_ENCODING); } else { fileContentHandler o(file, P("coded", 0) ? encOf(P("coded", 0)) : contentHandler::NO_ENCODING); *c = o; }
	vs_check(c->getLength() == f.size() && c->isEmpty() == f.empty() && c->isEncoded() == (P("coded", 0) != 0), "the content of a file has its length"); if (P("coded", 0)) vs_check(c->getEncoding() == encOf(P("coded", 0)), "the content of a file has its encoding");
	checkEq(data(c), d, "the content of a file is its data"); { string raw; utility::outputStreamStringAdapter os(raw); c->extractRaw(os); checkEq(raw, f, "the content of a file is its data"); }
	if (vs_choice(2)) { auto k = c->clone(); c = nullptr; checkEq(data(k), d, "the content of a file is its data"); c = dynamicCast<fileContentHandler>(k); vs_check(c != nullptr, "the copy of a content is that content"); if (!c) return; }
	bodyPart p; if (e) p.getBody()->setContents(c, mediaType("application/x-y"), charset("utf-8"), encOf(e)); else p.getBody()->setContents(c, mediaType("application/x-y")); for (size_t k = 0; k < 2; k++) { string s = p.generate(); if (k == 0) observe("s", s); bodyPart q; q.parse(s); checkEq(data(q.getBody()->getContents()), d, "a body that is a file has its data"); if (e) vs_check(q.getBody()->getEncoding() == encOf(e), "a body is encoded as asked"); }
	vs_reach("end");
}
// C44: a file that cannot be read is not a shorter file
HARNESS h_file_fault() {
	fs(); vfs::mkdirs("/vfs/d"); string d = fill(P("pre", 0)); d += symStr(2); vfs::mk("/vfs/d/f", false, d); size_t md = vs_choice(2) ? vfs::FAIL : vfs::SHORT; vfs::armed = true; vfs::mode = (int)md; vfs::countdown = (long)vs_range(1, P("at", 6)); bool at = vs_choice(2) != 0;
	try {
		shared_ptr<contentHandler> c; shared_ptr<fileAttachment> a; if (at) { a = make_shared<fileAttachment>("/vfs/d/f", mediaType("text/plain")); c = constCast<contentHandler>(shared_ptr<const contentHandler>(a->getData())); } else { auto file = stub::files->create(stub::files->stringToPath("/vfs/d/f")); c = make_shared<fileContentHandler>(file); }
		string r = data(c); checkEq(r, d, "the content of a file is its data"); vs_check(c->getLength() == d.size(), "the content of a file has its length");
	} catch (vmime::exception&) { vs_check(md == vfs::FAIL && vfs::fired, "a file that can be read is read"); }
	vs_reach("end");
}
