// Messages built and read back: messageBuilder, messageParser, text parts, attachments, read receipts, importance
#include "common.hpp"
#include "gen.hpp"
#include "vmime/messageBuilder.hpp"
#include "vmime/messageParser.hpp"
#include "vmime/plainTextPart.hpp"
#include "vmime/htmlTextPart.hpp"
#include "vmime/attachmentHelper.hpp"
#include "vmime/defaultAttachment.hpp"
#include "vmime/fileAttachment.hpp"
#include "vmime/parsedMessageAttachment.hpp"
#include "vmime/generatedMessageAttachment.hpp"
#include "vmime/stringContentHandler.hpp"
#include "vmime/streamContentHandler.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/mdn/MDNHelper.hpp"
#include "vmime/misc/importanceHelper.hpp"
namespace stub { void install(); }
static string data(const shared_ptr<const contentHandler>& c) { string r; utility::outputStreamStringAdapter os(r); c->extract(os); return r; }
static shared_ptr<contentHandler> cts(const string& s, size_t src = 0) { if (src == 0) return make_shared<stringContentHandler>(s); auto is = make_shared<utility::inputStreamStringAdapter>(*new string(s)); return make_shared<streamContentHandler>(is, s.size()); }
static string enc(const string& s, const encoding& e) { utility::inputStreamStringAdapter in(s); string r; utility::outputStreamStringAdapter os(r); e.getEncoder()->encode(in, os); return r; }
static string lines(size_t n, size_t kind) { string s; for (size_t i = 0; i < n; i++) s += kind == 1 && i % 40 == 38 ? '\r' : kind == 1 && i % 40 == 39 ? '\n' : kind == 2 ? char(0xc3 - (i % 2) * 0x1a) : 'x'; return s; }
static string bytes(size_t n) { string s = lines(P("pre", 0), P("fill", 0)); s += P("set", 0) == 1 ? symStrIn(n, "-.=\r\n \t\xe9") : symStr(n); s += lines(P("post", 0), P("fill", 0)); return s; }
static string regen(const shared_ptr<message>& m) {
	string s; if (P("mll", 0)) { generationContext c; c.setMaxLineLength(P("mll", 0)); utility::outputStreamStringAdapter os(s); m->generate(c, os); } else s = m->generate();
	return s;
}
static void wire(const string& s) { unsigned char hi = 0; size_t l = 0, mx = 0; for (unsigned char c : s) { hi |= c; if (c == '\n') l = 0; else mx = std::max(mx, ++l); } vs_check(hi < 0x80, "the message is 7-bit"); vs_check(mx <= 999, "no line is longer than 998 characters"); }
// what every message has
static void top(const header& h) {
	auto v = h.findFieldValue<text>("Mime-Version"); vs_check(v && v->getWholeBuffer() == "1.0", "the message says it is MIME"); auto d = h.findFieldValue<datetime>("Date"); vs_check(d && *d == datetime(2012, 1, 2, 10, 26, 40, 0), "the message is dated");
	auto i = h.findFieldValue<messageId>("Message-Id"); vs_check(!i || (!i->getLeft().empty() && !i->getRight().empty()), "the message has a proper identifier"); auto f = h.findField("From"); vs_check(f != NULL, "the message says whom it is from");
	size_t n[4] = { 0, 0, 0, 0 }; for (auto& x : h.getFieldList()) { string k = x->getName(); n[0] += k == "Mime-Version"; n[1] += k == "Date"; n[2] += k == "From"; n[3] += k == "Subject"; } vs_check(n[0] == 1 && n[1] == 1 && n[2] == 1 && n[3] == 1, "these fields are there once");
}
struct Att { string type, data, name, desc; };
static bool nonSpace(const string& s) { bool b = false; for (char c : s) b |= c != ' '; return b; }
static string txt(const text& t) { return t.getConvertedText(charset("utf-8")); }
static void checkAtt(const shared_ptr<const attachment>& a, const Att& w) {
	checkEq(a->getType().generate(), w.type, "an attachment keeps its type"); checkEq(data(a->getData()), w.data, "an attachment keeps its data");
	checkEq(a->getName().getConvertedText(charset("utf-8")), w.name, "an attachment keeps its name"); checkEq(txt(a->getDescription()), w.desc, "an attachment keeps its description");
}
// C32: what the builder was given is what the parser finds
HARNESS h_build() {
	stub::install();
	messageBuilder mb; size_t n = P("n", 1); charset ch(P("ch", 0) == 1 ? "iso-8859-1" : "utf-8");
	string subj; if (P("subj", 0)) { subj = "S"; subj += symText(P("subj", 0), 5); subj += "e"; } else subj = "s";
	{ text t; t.createFromString(subj, charset("utf-8")); mb.setSubject(t); }
	string nm = P("names", 0) ? symText(1, 4) : "N";
	mb.setExpeditor(mailbox(text(word(nm, charset("utf-8"))), emailAddress("from", "x.org")));
	size_t to1 = P("to", 1), cc1 = P("cc", 0) == 1 || P("cc", 0) == 2, bcc1 = P("cc", 0) == 1 || P("cc", 0) == 3;
	if (to1) { addressList l; l.appendAddress(make_shared<mailbox>(text(word(nm, charset("utf-8"))), emailAddress("to", "x.org"))); if (P("names", 0)) { auto g = make_shared<mailboxGroup>(text(word("G"))); g->appendMailbox(make_shared<mailbox>(emailAddress("g", "y.org"))); l.appendAddress(g); } mb.setRecipients(l); }
	if (cc1) { addressList l; l.appendAddress(make_shared<mailbox>(emailAddress("cc", "x.org"))); mb.setCopyRecipients(l); }
	if (bcc1) { addressList b; b.appendAddress(make_shared<mailbox>(emailAddress("bcc", "x.org"))); mb.setBlindCopyRecipients(b); }
	size_t kind = P("kind", 0); string plain, html; std::vector<Att> objs; std::vector<string> ids;
	if (kind == 0) { plain = bytes(n); auto p = dynamicCast<plainTextPart>(mb.getTextPart()); p->setCharset(ch); p->setText(cts(plain, P("src", 0))); }
	else {
		mb.constructTextPart(mediaType("text", "html")); auto h = dynamicCast<htmlTextPart>(mb.getTextPart()); h->setCharset(ch);
		html = "<b>";
		for (size_t i = 0; i < P("objs", 0); i++) { Att o; o.type = i ? "image/png" : "text/css"; o.data = bytes(n); auto x = P("objenc", 0) ? h->addObject(cts(o.data), encoding(P("objenc", 0) == 1 ? "quoted-printable" : P("objenc", 0) == 2 ? "base64" : "binary"), mediaType(o.type)) : h->addObject(o.data, mediaType(o.type)); objs.push_back(o); ids.push_back(x->getId()); html += x->getReferenceId() + ">"; }
		html += bytes(n); h->setText(cts(html)); if (kind == 2) { plain = "p"; plain += bytes(n); h->setPlainText(cts(plain)); }
	}
	std::vector<Att> atts; std::vector<datetime> dates;
	for (size_t i = 0; i < P("atts", 0); i++) {
		Att a; a.type = i == 1 ? "text/plain" : "application/x-y"; a.data = bytes(n); a.name = P("named", 1) ? "f" : ""; if (P("named", 1) > 1) a.name += symText(P("named", 1) - 1, P("amask", 5)); a.desc = P("desc", 0) ? "D" : ""; if (P("desc", 0)) { a.desc += symText(1, P("amask", 5)); }
		text d; if (!a.desc.empty()) d.createFromString(a.desc, charset("utf-8")); word w(a.name, charset("utf-8"));
		switch (P("att", 0)) {
		case 0: mb.attach(make_shared<defaultAttachment>(cts(a.data, P("src", 0)), mediaType(a.type), d, w)); break;
		case 1: mb.attach(make_shared<defaultAttachment>(cts(a.data), encoding(P("aenc", 0) == 0 ? "quoted-printable" : P("aenc", 0) == 1 ? "base64" : "binary"), mediaType(a.type), d, w)); break;
		case 2: { auto f = make_shared<fileAttachment>(cts(a.data), w, mediaType(a.type), d); f->getFileInfo().setCreationDate(datetime(2012, 1, 2, 10, 26, 40, 60)); f->getFileInfo().setReadDate(datetime(2013, 1, 2, 10, 26, 41, 0)); mb.attach(f); break; }
		case 3: { string e = enc(a.data, encoding("base64")); mb.attach(make_shared<defaultAttachment>(make_shared<stringContentHandler>(e, encoding("base64")), mediaType(a.type), d, w)); break; } // data already encoded
		}
		atts.push_back(a);
	}
	if (P("drop", 0)) { size_t p = vs_choice(atts.size()); auto gone = mb.getAttachmentAt(p); mb.removeAttachment(p); atts.erase(atts.begin() + p); const messageBuilder& cb = mb; auto l = mb.getAttachmentList(); auto cl = cb.getAttachmentList(); vs_check(mb.getAttachmentCount() == atts.size() && l.size() == atts.size() && cl.size() == atts.size(), "a removed attachment is gone"); for (size_t i = 0; i < l.size() && i < cl.size() && i < mb.getAttachmentCount(); i++) vs_check(l[i] == mb.getAttachmentAt(i) && cl[i] == l[i] && l[i] != gone, "a removed attachment is gone"); }
	auto m = mb.construct(); string s = regen(m); observe("s", s); if (P("wire", 1)) wire(s);
	if (P("att", 0) == 2 && s.find("attachment") != string::npos) { message r; r.parse(s); for (size_t i = 0; i < r.getBody()->getPartCount(); i++) { auto cd = r.getBody()->getPartAt(i)->getHeader()->findField<contentDispositionField>("Content-Disposition"); if (!cd) continue; vs_check(cd->hasCreationDate() && cd->getCreationDate() == datetime(2012, 1, 2, 10, 26, 40, 60) && cd->hasReadDate() && cd->getReadDate() == datetime(2013, 1, 2, 10, 26, 41, 0) && !cd->hasModificationDate(), "the dates of a file are those given"); vs_check(cd->hasSize() && cd->getSize() == utility::stringUtils::toString(atts[0].data.size()), "the size of a file is announced"); } }
	{ message r; r.parse(s); top(*r.getHeader()); auto h = r.getHeader(); vs_check(h->hasField("Cc") == (cc1 > 0) && h->hasField("Bcc") == (bcc1 > 0) && h->hasField("To") == (to1 > 0), "the copies are those given"); if (cc1) { vs_check(h->Cc()->getValue<addressList>()->generate() == "cc@x.org", "the copies are those given"); } if (bcc1) { vs_check(h->Bcc()->getValue<addressList>()->generate() == "bcc@x.org", "the blind copies are those given"); } }
	messageParser p(s);
	checkEq(txt(p.getSubject()), subj, "the subject is the one given");
	checkEq(txt(p.getExpeditor().getName()), nm, "the sender is the one given"); checkEq(p.getExpeditor().getEmail().generate(), "from@x.org", "the sender is the one given");
	auto& to = p.getRecipients(); vs_check(to.getAddressCount() == (!to1 ? 0u : P("names", 0) ? 2u : 1u), "the recipients are those given");
	if (to.getAddressCount()) { auto x = dynamicCast<const mailbox>(to.getAddressAt(0)); vs_check(x != NULL && x->getEmail().generate() == "to@x.org", "the recipients are those given"); if (x) checkEq(txt(x->getName()), nm, "the recipients are those given"); }
	if (to.getAddressCount() > 1) { auto x = dynamicCast<const mailboxGroup>(to.getAddressAt(1)); vs_check(x != NULL && x->getMailboxCount() == 1 && x->getMailboxAt(0)->getEmail().generate() == "g@y.org", "the groups of recipients are those given"); }
	vs_check(p.getCopyRecipients().getAddressCount() == cc1 && p.getBlindCopyRecipients().getAddressCount() == bcc1, "the copies are those given");
	vs_check(p.getDate() == datetime(2012, 1, 2, 10, 26, 40, 0), "the date is the time of the construction");
	size_t nt = kind == 2 ? 2 : 1, k = 0; vs_check(p.getTextPartCount() == nt, "there are as many text parts as were given");
	if (p.getTextPartCount() == nt) {
		if (kind != 1) { auto t = dynamicCast<const plainTextPart>(p.getTextPartAt(k++)); vs_check(t != NULL, "the plain text comes first"); if (t) { checkEq(data(t->getText()), plain, "the plain text is the one given"); vs_check(t->getCharset() == ch, "the charset is the one given"); } }
		if (kind) { auto t = dynamicCast<const htmlTextPart>(p.getTextPartAt(k)); vs_check(t != NULL, "the HTML text is found"); if (t) {
			checkEq(data(t->getText()), html, "the HTML text is the one given"); checkEq(data(t->getPlainText()), plain, "the alternative text is the one given"); vs_check(t->getCharset() == ch, "the charset is the one given");
			vs_check(t->getObjectCount() == objs.size(), "as many objects as were embedded");
			for (size_t i = 0; i < objs.size(); i++) { vs_check(t->hasObject(ids[i]) && t->hasObject("cid:" + ids[i]), "an embedded object is found by its identifier"); auto o = t->findObject(ids[i]); if (!o) continue; checkEq(data(o->getData()), objs[i].data, "an embedded object keeps its data"); vs_check(o->getType().generate() == objs[i].type, "an embedded object keeps its type"); }
		} }
	}
	{ auto al = p.getAttachmentList(); auto tl = p.getTextPartList(); vs_check(al.size() == p.getAttachmentCount() && tl.size() == p.getTextPartCount(), "the lists are those of the parts"); for (size_t i = 0; i < al.size() && i < p.getAttachmentCount(); i++) vs_check(al[i] == p.getAttachmentAt(i), "the lists are those of the parts"); for (size_t i = 0; i < tl.size() && i < p.getTextPartCount(); i++) vs_check(tl[i] == p.getTextPartAt(i), "the lists are those of the parts"); }
	vs_check(p.getAttachmentCount() == atts.size(), "there are as many attachments as were given");
	for (size_t i = 0; i < atts.size() && i < p.getAttachmentCount(); i++) checkAtt(p.getAttachmentAt(i), atts[i]);
	vs_reach("end");
}

// C32: adding an attachment to a message keeps what it has
static const char* MSG[] = {
	/*0*/ "Subject: s\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n%",
	/*1*/ "Content-Type: multipart/alternative; boundary=\"B\"\r\n\r\n--B\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n%\r\n--B\r\nContent-Type: text/html; charset=iso-8859-1\r\n\r\nh%\r\n--B--\r\n",
	/*2*/ "Content-Type: multipart/mixed; boundary=B\r\n\r\n--B\r\nContent-Type: text/plain\r\n\r\n%\r\n--B\r\nContent-Type: application/pdf\r\nContent-Disposition: attachment; filename=p.pdf\r\n\r\nPDF\r\n--B--\r\n",
	/*3*/ "Content-Type: application/pdf; name=n.pdf\r\nContent-Disposition: attachment; filename=p.pdf\r\nContent-Description: d\r\nSubject: s\r\n\r\n%",
	/*4*/ "Subject: s\r\n\r\n%",
	/*5*/ "Content-Type: multipart/related; boundary=B; type=\"text/html\"\r\n\r\n--B\r\nContent-Type: text/html\r\n\r\n<cid:i@j>%\r\n--B\r\nContent-Type: image/png\r\nContent-Id: <i@j>\r\n\r\nPNG\r\n--B--\r\n",
	/*6*/ "Content-Type: text/plain; charset=iso-8859-1\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n=41%",
	/*7*/ "Content-Type: multipart/alternative; boundary=B\r\n\r\n--B\r\nContent-Type: text/plain\r\n\r\n%\r\n--B\r\nContent-Type: multipart/mixed; boundary=C\r\n\r\n--C\r\nContent-Type: text/html\r\n\r\nh\r\n--C--\r\n\r\n--B--\r\n",
	/*8*/ "Content-Type: message/rfc822\r\n\r\nSubject: in\r\n\r\n%",
};
struct Seen { std::vector<string> texts; std::vector<Att> atts; };
static Seen see(const string& s) {
	Seen r; messageParser p(s);
	for (auto& t : p.getTextPartList()) { string x = t->getType().generate() + "|" + t->getCharset().getName() + "|" + data(t->getText()); if (auto h = dynamicCast<const htmlTextPart>(t)) { x += "|" + data(h->getPlainText()); for (size_t i = 0; i < h->getObjectCount(); i++) { auto o = h->getObjectAt(i); string id = o->getId(); if (id.size()) vs_check(h->hasObject(id) && h->hasObject("cid:" + id) && h->hasObject("CID:" + id) && h->findObject("cid:" + id)->getId() == id, "an embedded object is found by its identifier"); x += "|" + id + o->getType().generate() + data(o->getData()); } } r.texts.push_back(x); }
	for (auto& a : p.getAttachmentList()) { Att x; x.type = a->getType().generate(); x.data = data(a->getData()); x.name = a->getName().getBuffer(); x.desc = txt(a->getDescription()); r.atts.push_back(x); }
	return r;
}
HARNESS h_attach() {
	stub::install();
	string s = MSG[P("msg", 0)], v = symStrIn(P("n", 1), range('a', 'z') + " ."); for (size_t i; (i = s.find('%')) != string::npos; ) s.replace(i, 1, v);
	Seen before = see(s); auto m = make_shared<message>(); m->parse(s);
	for (size_t i = 0; i < P("k", 1); i++) {
		Att w; w.data = symStr(P("dn", 1)); w.type = "image/jpeg"; w.name = "";
		if (P("amsg", 0)) { auto a = make_shared<message>(); a->parse("Subject: q\r\n\r\n" + w.data); attachmentHelper::addAttachment(m, a); w.type = "message/rfc822"; w.data = a->generate(); }
		else attachmentHelper::addAttachment(m, make_shared<defaultAttachment>(make_shared<stringContentHandler>(w.data), mediaType(w.type)));
		if (P("between", 0)) { string t = m->generate(); m = make_shared<message>(); m->parse(t); }
		before.atts.push_back(w);
	}
	string out = regen(m); observe("out", out); Seen after = see(out);
	auto h = make_shared<message>(); h->parse(out); if (s.find("Subject: s") != string::npos && P("msg", 0) != 8) { auto f = h->getHeader()->findFieldValue<text>("Subject"); vs_check(f && f->getWholeBuffer() == "s", "the message keeps its other fields"); }
	vs_check(after.texts.size() == before.texts.size(), "the message keeps its texts"); for (size_t i = 0; i < after.texts.size() && i < before.texts.size(); i++) { observe("text", after.texts[i]); checkEq(after.texts[i], before.texts[i], "the texts keep their type, charset, contents and objects"); }
	vs_check(after.atts.size() == before.atts.size(), "the message has one attachment more");
	for (size_t i = 0; i < after.atts.size() && i < before.atts.size(); i++) { auto &a = after.atts[i], &b = before.atts[i]; vs_check(a.type == b.type, "attachments keep their type"); checkEq(a.data, b.data, "attachments keep their data"); checkEq(a.name, b.name, "attachments keep their name"); }
	vs_reach("end");
}
// C32: reading the texts and attachments of any message tells which parts they are
HARNESS h_msgparser_any() {
	stub::install();
	static const char* T[] = { "", "Content-Type: text/plain\r\n", "Content-Type: text/html\r\n", "Content-Type: text/calendar\r\n", "Content-Type: image/png\r\n", "Content-Type: message/rfc822\r\n", "Content-Type: multipart/mixed; boundary=C\r\n", "Content-Type: application/x; name=\"n\"\r\n" };
	static const char* D[] = { "", "Content-Disposition: inline\r\n", "Content-Disposition: attachment; filename=f\r\n", "Content-Id: <i@j>\r\n", "Content-Disposition: inline\r\nContent-Id: <i@j>\r\n", "Content-Disposition: other\r\n" };
	size_t k = P("k", 2); string s; std::vector<string> texts, untyped, atts; bool root = P("root", 0);
	auto one = [&](bool isRoot) {
		size_t t = vs_choice(8), d = vs_choice(6); s += T[t]; s += D[d]; s += "\r\n"; string v = symStrIn(P("n", 1), "a<>:"); s += v; if (t == 6) s += "\r\n--C\r\nContent-Type: image/gif\r\n\r\nG\r\n--C--";
		bool text = t == 1 || t == 2, att = d == 2 || d == 5 ? true : d == 1 ? !isRoot : d == 4 ? false : t == 0 ? !isRoot && d == 0 : text || t == 3 || t == 6 ? false : t == 7 || d == 0;
		if (t == 0) untyped.push_back(v); else if (text && (isRoot || (d != 2 && d != 5))) texts.push_back(v);
		if (att) atts.push_back(t == 6 ? "?" : v); else if (t == 6) atts.push_back("G");
	};
	if (root) one(true); else { s = "Content-Type: multipart/mixed; boundary=B\r\n\r\n"; for (size_t i = 0; i < k; i++) { s += "--B\r\n"; one(false); s += "\r\n"; } s += "--B--\r\n"; }
	observe("s", s); messageParser p(s);
	texts.insert(texts.begin(), untyped.begin(), untyped.end());
	vs_check(p.getTextPartCount() == texts.size(), "the text parts are the plain and HTML parts that are not attachments");
	for (size_t i = 0; i < texts.size() && i < p.getTextPartCount(); i++) checkEq(data(p.getTextPartAt(i)->getText()), texts[i], "the texts are those of the parts");
	vs_check(p.getAttachmentCount() == atts.size(), "the attachments are the parts marked or typed as such");
	for (size_t i = 0; i < atts.size() && i < p.getAttachmentCount(); i++) { string x = data(p.getAttachmentAt(i)->getData()); observe("a", x); if (atts[i] != "?") checkEq(x, atts[i], "the attachments are those of the parts"); }
	vs_reach("end");
}

// C33: a receipt built for a message says what it was given, and is read back
HARNESS h_mdn() {
	stub::install();
	auto orig = make_shared<message>(); auto h = orig->getHeader(); static const string TOK = range('0', '9') + range('a', 'z') + "!#$%&'*+-./=?^_`{|}~"; string l = symStrIn(P("n", 1), TOK), r = symStrIn(P("n", 1), range('a', 'z') + "-");
	bool mid = P("mid", 1); if (mid) h->MessageId()->setValue(messageId(l, r)); string os = "orig"; if (P("subj", 0)) os += symText(1, 4); { text t; t.createFromString(os, charset("utf-8")); h->Subject()->setValue(t); } h->From()->setValue(mailbox(emailAddress("sender", "x.org")));
	mailboxList dl; dl.appendMailbox(make_shared<mailbox>(emailAddress("notify", "x.org"))); if (P("two", 0)) dl.appendMailbox(make_shared<mailbox>(text(word("N")), emailAddress("other", "y.org"))); mdn::MDNHelper::attachMDNRequest(orig, dl);
	{ string s = orig->generate(); orig = make_shared<message>(); orig->parse(s); } // as received
	auto poss = mdn::MDNHelper::getPossibleMDNs(orig); vs_check(poss.size() == (P("two", 0) ? 2u : 1u), "a receipt may be sent to each address it was asked for"); if (poss.empty()) return;
	auto& info = poss.back(); checkEq(info.getRecipient().getEmail().generate(), P("two", 0) ? "other@y.org" : "notify@x.org", "a receipt goes to the address it was asked for");
	disposition d; static const string A = range('a', 'z') + "-"; string am = symStrIn(P("n", 1), A), sm = symStrIn(P("n", 1), A), ty = symStrIn(P("n", 1), A); d.setActionMode(am); d.setSendingMode(sm); d.setType(ty); size_t mods = vs_choice(3); for (size_t i = 0; i < mods; i++) d.addModifier(i ? "error" : "warning");
	string t = lines(P("pre", 0), P("fill", 0)); t += P("txt", 0) == 1 ? symStrIn(P("tn", 1), "-.=\r\n\xc3\xa9 ") : symStr(P("tn", 1)); string ua; if (P("ua", 0)) { ua = "u"; ua += symStrIn(1, TOK); } std::vector<string> prod; for (size_t i = 0; i + 1 < P("ua", 0); i++) prod.push_back("prod/1.0");
	std::map<string, string> extra; if (P("extra", 0)) { extra["Error"] = "e1"; extra["Warning"] = "w1"; extra["Failure"] = "f1"; }
	auto m = mdn::MDNHelper::buildMDN(info, t, charset("utf-8"), mailbox(emailAddress("me", "z.org")), d, ua, prod, extra);
	string s = m->generate(); observe("s", s); wire(s); auto b = make_shared<message>(); b->parse(s);
	vs_check(mdn::MDNHelper::isMDN(b), "a receipt is recognised"); vs_check(!mdn::MDNHelper::isMDN(orig), "another message is not taken for a receipt"); if (!mdn::MDNHelper::isMDN(b)) return;
	{ bool thrown = false; try { mdn::MDNHelper::getReceivedMDN(orig); } catch (exceptions::invalid_argument&) { thrown = true; } vs_check(thrown, "another message is not read as a receipt"); }
	auto q = mdn::MDNHelper::getReceivedMDN(b); auto e = q.getDisposition();
	checkEq(q.getOriginalMessageId().getLeft(), mid ? l : "", "the receipt names the original message"); checkEq(q.getOriginalMessageId().getRight(), mid ? r : "", "the receipt names the original message");
	checkEq(e.getActionMode(), am, "the action mode is the one given"); checkEq(e.getSendingMode(), sm, "the sending mode is the one given"); checkEq(e.getType(), ty, "the disposition is the one given"); vs_check(e.getModifierList() == d.getModifierList(), "the modifiers are those given");
	{ auto h = b->getHeader(); top(*h); auto f = h->findFieldValue<mailbox>("From"); vs_check(f && f->getEmail().generate() == "me@z.org", "the receipt comes from the one who sends it"); auto to = h->findFieldValue<addressList>("To"); vs_check(to && to->getAddressCount() == 1 && dynamicCast<mailbox>(to->getAddressAt(0)) && dynamicCast<mailbox>(to->getAddressAt(0))->getEmail().generate() == info.getRecipient().getEmail().generate(), "the receipt goes to the one who asked for it"); auto ct = h->findField<contentTypeField>("Content-Type"); vs_check(ct && ct->hasReportType() && ct->getReportType() == "disposition-notification", "the report is a receipt"); }
	auto body = b->getBody(); vs_check(body->getPartCount() == 3, "a receipt has three parts"); if (body->getPartCount() != 3) return;
	checkEq(data(body->getPartAt(0)->getBody()->getContents()), t, "the text is the one given"); vs_check(body->getPartAt(0)->getBody()->getCharset() == charset("utf-8"), "the charset is the one given");
	header f; f.parse(data(body->getPartAt(1)->getBody()->getContents()));
	auto fr = f.findFieldValue<text>("Final-Recipient"); vs_check(fr && fr->getWholeBuffer() == (P("two", 0) ? "rfc822; other@y.org" : "rfc822; notify@x.org"), "the final recipient is named");
	if (!ua.empty()) { auto x = f.findFieldValue<text>("Reporting-UA"); string w = ua; for (size_t i = 0; i < prod.size(); i++) w += (i ? ", " : "; ") + prod[i]; vs_check(x != NULL, "the agent is named"); if (x) checkEq(x->getConvertedText(charset("utf-8")), w, "the agent is the one given"); }
	for (auto& x : extra) { auto v = f.findFieldValue<text>(x.first); vs_check(v && v->getWholeBuffer() == x.second, "the additional fields are those given"); }
	header o; o.parse(data(body->getPartAt(2)->getBody()->getContents())); auto os2 = o.findFieldValue<text>("Subject"); vs_check(os2 != NULL, "the receipt holds the header of the message"); if (os2) checkEq(os2->getConvertedText(charset("utf-8")), os, "the receipt holds the header of the message"); if (mid) { auto om = o.findFieldValue<messageId>("Message-Id"); vs_check(om && om->getLeft() == l && om->getRight() == r, "the receipt holds the header of the message"); }
	vs_reach("end");
}
// C33: confirmation is needed unless the receipt goes to the return path alone
HARNESS h_mdn_confirm() {
	stub::install();
	auto m = make_shared<message>(); string s; string rl = symStrIn(1, "ab"), rd = symStrIn(1, "xy"), nl = symStrIn(1, "ab"), nd = symStrIn(1, "xy"); bool rp = vs_choice(2); size_t n = vs_choice(3); bool nul = rp && vs_choice(2);
	if (rp) s += nul ? "Return-Path: <>\r\n" : "Return-Path: <" + rl + "@" + rd + ">\r\n"; if (n) { s += "Disposition-Notification-To: N <" + nl + "@" + nd + ">"; if (n > 1) s += ", c@d"; s += "\r\n"; } s += "\r\nb";
	m->parse(s); observe("s", s); bool need = mdn::MDNHelper::needConfirmation(m); bool eq = same(rl, nl) && same(rd, nd);
	bool want = !rp || n > 1 || (n == 1 && (nul || !eq)); vs_check(need == want, "confirmation is needed unless the receipt goes to the return path alone");
	vs_reach("end");
}
// C35: importance
HARNESS h_importance() {
	stub::install();
	auto m = make_shared<message>(); if (P("kind", 0) == 0) {
		auto I = (misc::importanceHelper::Importance)vs_choice(5); if (vs_choice(2)) misc::importanceHelper::setImportance(m, (misc::importanceHelper::Importance)vs_choice(5)); misc::importanceHelper::setImportance(m, I); vs_check(misc::importanceHelper::getImportance(m) == I, "the importance is the one set");
		auto r = make_shared<message>(); r->parse(m->generate()); vs_check(misc::importanceHelper::getImportance(r) == I, "the importance is read back");
		misc::importanceHelper::resetImportance(r); vs_check(misc::importanceHelper::getImportance(r) == misc::importanceHelper::IMPORTANCE_NORMAL && !r->getHeader()->hasField("X-Priority") && !r->getHeader()->hasField("Importance"), "the importance is reset");
	} else { string v = symStrUpToIn(P("n", 2), P("set", 0) ? "hHiIgGlLoOwW " : "0123456 x"); m->parse(string(P("set", 0) ? "Importance: " : "X-Priority: ") + v + "\r\n\r\n"); observe("v", v); auto i = misc::importanceHelper::getImportance(m);
		if (P("set", 0)) { string t = utility::stringUtils::toLower(utility::stringUtils::trim(v)); vs_check(i == (t == "low" ? misc::importanceHelper::IMPORTANCE_LOWEST : t == "high" ? misc::importanceHelper::IMPORTANCE_HIGHEST : misc::importanceHelper::IMPORTANCE_NORMAL), "importance words"); }
		else { size_t a = 0; while (a < v.size() && v[a] == ' ') a++; size_t b = a; long x = 0; while (b < v.size() && v[b] >= '0' && v[b] <= '9') x = x * 10 + v[b++] - '0'; if (b == a) x = 3; vs_check((long)i == (x >= 1 && x <= 5 ? x - 1 : 2), "priority numbers"); } }
	vs_reach("end");
}
// C41: parts stay where they were put
struct PNode { shared_ptr<bodyPart> p; int parent; std::vector<int> kids; };
HARNESS h_parts() {
	stub::install();
	size_t roots = P("roots", 2), leaves = P("leaves", 3), N = roots + leaves; std::vector<PNode> v(N);
	auto mk = [&](size_t i) { auto p = i < roots && P("msg", 0) ? std::static_pointer_cast<bodyPart>(make_shared<message>()) : make_shared<bodyPart>(); if (i < roots) p->getHeader()->ContentType()->setValue(mediaType("multipart", "mixed")); else { p->getBody()->setContents(make_shared<stringContentHandler>("L" + string(1, char('0' + i))), mediaType("text", "plain")); } return p; };
	for (size_t i = 0; i < N; i++) { v[i].parent = -1; v[i].p = mk(i); }
	if (P("parsed", 0)) { // the first root comes from a text with the first leaves
		v[0].p = make_shared<bodyPart>(); string s = "Content-Type: multipart/mixed; boundary=B\r\n\r\n"; for (size_t i = roots; i < roots + P("parsed", 0); i++) s += "--B\r\nContent-Type: text/plain\r\n\r\nL" + string(1, char('0' + i)) + "\r\n"; s += "--B--\r\n"; v[0].p->parse(s);
		for (size_t i = roots; i < roots + P("parsed", 0); i++) { v[i].p = v[0].p->getBody()->getPartAt(i - roots); v[i].parent = 0; v[0].kids.push_back(i); }
	}
	auto detach = [&](int x) { int q = v[x].parent; if (q >= 0) { auto& k = v[q].kids; k.erase(std::find(k.begin(), k.end(), x)); v[x].parent = -1; } };
	auto put = [&](int r, size_t pos, int x) { v[r].kids.insert(v[r].kids.begin() + pos, x); v[x].parent = r; };
	auto idx = [&](int r, int x) { auto& k = v[r].kids; return size_t(std::find(k.begin(), k.end(), x) - k.begin()); };
	for (size_t step = 0; step < P("ops", 2); step++) {
		size_t op = step < P("fixed", 0) ? P(step ? "op1" : "op0", 0) : vs_choice(P("kinds", 11)); int r = roots > 1 ? vs_choice(roots) : 0; if (!v[r].p) continue; auto b = v[r].p->getBody(); auto& k = v[r].kids;
		switch (op) {
		case 0: { int x = roots + vs_choice(leaves); b->appendPart(v[x].p); detach(x); put(r, k.size(), x); break; }
		case 1: case 2: { // before or after a part
			int x = roots + vs_choice(leaves), ref = roots + vs_choice(leaves); bool thrown = false, ok = v[ref].parent == r;
			try { if (op == 1) b->insertPartBefore(v[ref].p, v[x].p); else b->insertPartAfter(v[ref].p, v[x].p); } catch (exceptions::no_such_part&) { thrown = true; }
			vs_check(thrown == !ok, "inserting beside a part fails exactly when it is not there"); if (ok && x != ref) { detach(x); put(r, idx(r, ref) + (op == 2), x); } break; }
		case 3: case 4: { // before or after a position
			int x = roots + vs_choice(leaves); size_t lim = k.size() + (op == 3); if (!lim) break; size_t pos = vs_choice(lim); if (op == 3) b->insertPartBefore(pos, v[x].p); else b->insertPartAfter(pos, v[x].p);
			int ref = pos < k.size() ? k[pos] : -1; if (ref == x) break; detach(x); put(r, ref < 0 ? k.size() : idx(r, ref) + (op == 4), x); break; }
		case 5: { int x = roots + vs_choice(leaves); bool thrown = false, ok = v[x].parent == r; try { b->removePart(v[x].p); } catch (exceptions::no_such_part&) { thrown = true; } vs_check(thrown == !ok, "removing a part fails exactly when it is not there"); if (ok) detach(x); break; }
		case 6: if (!k.empty()) { size_t pos = vs_choice(k.size()); b->removePart(pos); detach(k[pos]); } break;
		case 7: b->removeAllParts(); while (!k.empty()) detach(k[0]); break;
		case 8: { int o = roots > 1 ? vs_choice(roots) : 0; if (!v[o].p) break; b = v[o].p->getBody(); v[r].p->setBody(b); if (o == r) break; auto moved = v[o].kids; while (!k.empty()) detach(k[0]); while (!v[o].kids.empty()) detach(v[o].kids[0]); for (int x : moved) put(r, k.size(), x); break; } // a body given to another part
		case 9: { // a copy holds copies, and changes nothing
			auto c = vmime::clone(v[r].p); vs_check(c->getBody()->getPartCount() == k.size() && c->getParentPart() == NULL, "a copy holds as many parts"); for (size_t i = 0; i < k.size() && i < c->getBody()->getPartCount(); i++) { auto q = c->getBody()->getPartAt(i); vs_check(q != v[k[i]].p && q->getParentPart() == c.get(), "a copy holds copies"); checkEq(data(q->getBody()->getContents()), data(v[k[i]].p->getBody()->getContents()), "a copy holds the same contents"); }
			if (vs_choice(2)) { auto bc = vmime::clone(b); vs_check(bc->getPartCount() == k.size(), "a copy of a body holds as many parts"); c->setBody(bc); vs_check(c->getBody() == bc && bc->getPartCount() == k.size(), "a body given to a part keeps its parts"); for (size_t i = 0; i < bc->getPartCount(); i++) vs_check(bc->getPartAt(i)->getParentPart() == c.get(), "the parts of a body given to a part know it"); }
			if (vs_choice(2) && !k.empty()) c->getBody()->removePart(size_t(0)); break; }
		case 10: { // the parts outlive what holds them
			auto keep = b; b = nullptr; v[r].p = nullptr; if (vs_choice(2)) { vs_check(keep->getPartCount() == k.size(), "a body that outlives its part keeps its parts"); } keep = nullptr; while (!k.empty()) detach(k[0]); break; }
		}
		for (size_t q = 0; q < N; q++) if (v[q].p) {
			auto bb = v[q].p->getBody(); vs_check(bb->getPartCount() == v[q].kids.size() && bb->isEmpty() == v[q].kids.empty(), "a part holds as many parts as were put there"); if (bb->getPartCount() != v[q].kids.size()) return;
			for (size_t i = 0; i < v[q].kids.size(); i++) vs_check(bb->getPartAt(i) == v[v[q].kids[i]].p, "parts are where they were put");
			vs_check(v[q].p->getParentPart() == (v[q].parent < 0 ? NULL : v[v[q].parent].p.get()), "a part knows where it is");
		}
	}
	for (size_t q = 0; q < roots; q++) if (v[q].p) { // and that is what the text says
		string s = v[q].p->generate(); observe("s", s); bodyPart c; c.parse(s); vs_check(c.getBody()->getPartCount() == v[q].kids.size(), "the text holds the same parts");
		for (size_t i = 0; i < v[q].kids.size() && i < c.getBody()->getPartCount(); i++) checkEq(data(c.getBody()->getPartAt(i)->getBody()->getContents()), "L" + string(1, char('0' + v[q].kids[i])), "the text holds the same parts"); }
	vs_reach("end");
}
