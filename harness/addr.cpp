// Addresses: emailAddress, mailbox, mailboxGroup, mailboxList, addressList
#include "common.hpp"
#include "gen.hpp"
namespace stub { void install(); }
static const char* SYN = "\"\\ ()<>@,;:[].=?'\t_x";
// 0..8 as in gen.hpp; 9 address syntax characters; 10 printable ASCII and blank
static string chars(unsigned cls, size_t n) { if (cls == 9) return symStrIn(n, SYN, strlen(SYN)); if (cls == 10) return symStrIn(n, range(0x20, 0x7e)); string s; for (size_t i = 0; i < n; i++) s += symChar(cls); return s; }
static string gen1(const component& c, size_t mll, size_t cur, bool intl) { generationContext ctx; ctx.setMaxLineLength(mll ? mll : lineLengthLimits::infinite); ctx.setInternationalizedEmailSupport(intl); string s; utility::outputStreamStringAdapter os(s); c.generate(ctx, os, cur, NULL); return s; }
static text nameOf(const string& s, unsigned ch) { if (P("how", 0)) return text(word(s, charset(CHARSETS[ch]))); text t; t.createFromString(s, charset(CHARSETS[ch])); return t; }
static string u8(const text& t) { return t.getConvertedText(charset("utf-8")); }
static string lit(unsigned k) { static const char* L[] = { "b.c", "x", "[1.2.3.4]", "[IPv6:::1]", "a-b.example.org", "\xc3\xa9.fr", "xn.\xe4\xb8\xad\xe6\x96\x87" }; return L[k]; }

// C12
HARNESS h_addr_rt() {
	stub::install();
	size_t kind = P("kind", 0), ch = P("ch", 0); bool intl = P("intl", 0);
	string nm = filler(P("pre", 0), P("fill", 1)); nm += chars(P("ncls", 10), P("nn", 2)); nm += filler(P("post", 0), P("fill", 1));
	string local = P("lpre", 0) ? "u" : ""; local += P("ln", 0) ? chars(P("lcls", 10), P("ln", 0)) : string("u.v"); local += filler(P("lpost", 0), 0); string dom = P("dn", 0) ? chars(P("dcls", 8), P("dn", 0)) : lit(P("dom", 0)); if (P("dn", 0)) dom += ".org";
	emailAddress e(word(local, charset("utf-8")), word(dom, charset("utf-8")));
	emailAddress e2("other", "host.net"); string in;
	size_t mll = P("mll", 76), cur = P("cur", 4);
	auto M = [](shared_ptr<address> a) { return dynamicCast<mailbox>(a); };
	auto chk = [&](const mailbox& m, const string& name, const char* what) { observe("name", u8(m.getName())); observe("local", m.getEmail().getLocalName().getBuffer()); observe("dom", m.getEmail().getDomainName().getBuffer()); checkEq(squeeze(u8(m.getName())), squeeze(toUtf8(name, ch)), what); checkEq(m.getEmail().getLocalName().getConvertedText(charset("utf-8")), local, "the local part read is the one written"); checkEq(m.getEmail().getDomainName().getConvertedText(charset("utf-8")), dom, "the domain read is the one written"); };
	auto chk2 = [&](const mailbox& m) { vs_check(u8(m.getName()) == "Other" && m.getEmail().toString() == "other@host.net", "the other mailbox is read back unchanged"); };
	parsingContext pctx; pctx.setInternationalizedEmailSupport(intl);
	auto parse = [&](component& c, const string& s) { observe("out", s); size_t np = 0; c.parse(pctx, s, 0, s.size(), &np); vs_check(np <= s.size(), "parsing stops inside the text"); };
	switch (kind) {
	case 0: { mailbox m(nameOf(nm, ch), e); mailbox r; parse(r, gen1(m, mll, cur, intl)); chk(r, nm, "the display name read is the one written"); break; }
	case 1: { mailbox m(e); mailbox r; parse(r, gen1(m, mll, cur, intl)); chk(r, "", "no display name is read"); break; }
	case 2: { emailAddress r; parse(r, gen1(e, mll, cur, intl)); mailbox m(r); chk(m, "", ""); break; }
	case 3: case 4: { mailboxList l; if (kind == 4) l.appendMailbox(make_shared<mailbox>(text("Other"), e2)); l.appendMailbox(make_shared<mailbox>(nameOf(nm, ch), e)); if (kind == 3) l.appendMailbox(make_shared<mailbox>(text("Other"), e2));
		mailboxList r; parse(r, gen1(l, mll, cur, intl)); vs_check(r.getMailboxCount() == 2, "a list has as many mailboxes"); if (r.getMailboxCount() != 2) return; chk(*r.getMailboxAt(kind == 4), nm, "the display name read is the one written"); chk2(*r.getMailboxAt(kind == 3)); break; }
	case 5: { addressList l; auto g = make_shared<mailboxGroup>(nameOf(nm, ch)); g->appendMailbox(make_shared<mailbox>(e)); g->appendMailbox(make_shared<mailbox>(text("Other"), e2)); l.appendAddress(g); l.appendAddress(make_shared<mailbox>(text("Other"), e2));
		addressList r; parse(r, gen1(l, mll, cur, intl)); vs_check(r.getAddressCount() == 2 && r.getAddressAt(0)->isGroup() && !r.getAddressAt(1)->isGroup(), "a group and a mailbox are read back"); if (r.getAddressCount() != 2 || !r.getAddressAt(0)->isGroup() || r.getAddressAt(1)->isGroup()) return;
		auto q = dynamicCast<mailboxGroup>(r.getAddressAt(0)); observe("gname", u8(q->getName())); checkEq(squeeze(u8(q->getName())), squeeze(toUtf8(nm, ch)), "the group name read is the one written"); vs_check(q->getMailboxCount() == 2, "the group has as many mailboxes"); if (q->getMailboxCount() != 2) return; chk(*q->getMailboxAt(0), "", "no display name is read"); chk2(*q->getMailboxAt(1)); chk2(*M(r.getAddressAt(1))); break; }
	case 6: { addressList l; auto g = make_shared<mailboxGroup>(text("Grp")); g->appendMailbox(make_shared<mailbox>(nameOf(nm, ch), e)); l.appendAddress(make_shared<mailbox>(text("Other"), e2)); l.appendAddress(g); l.appendAddress(make_shared<mailboxGroup>(text("Empty"))); l.appendAddress(make_shared<mailbox>(text("Other"), e2));
		addressList r; parse(r, gen1(l, mll, cur, intl)); vs_check(r.getAddressCount() == 4, "as many addresses are read back"); if (r.getAddressCount() != 4) return; bool ok = !r.getAddressAt(0)->isGroup() && r.getAddressAt(1)->isGroup() && r.getAddressAt(2)->isGroup() && !r.getAddressAt(3)->isGroup(); vs_check(ok, "groups and mailboxes are read back in order"); if (!ok) return;
		auto q = dynamicCast<mailboxGroup>(r.getAddressAt(1)); vs_check(u8(q->getName()) == "Grp" && q->getMailboxCount() == 1, "the group is read back"); if (q->getMailboxCount() != 1) return; chk(*q->getMailboxAt(0), nm, "the display name read is the one written"); vs_check(dynamicCast<mailboxGroup>(r.getAddressAt(2))->isEmpty(), "an empty group is read back"); chk2(*M(r.getAddressAt(0))); chk2(*M(r.getAddressAt(3))); break; }
	}
	vs_reach("end");
}

// C13
static const char* PFX[] = { "", "a@b, ", "\"a", "A <", "A <b@c", "g: a@b", "g: a@b; ", "(c", "a (b\\", "=?utf-8?Q?x", "=?utf-8?Q?x?= <", "<\"", "a@", "a@b (", "\"a\" b <c@d> " };
static string doms; static unsigned char DT[256];
static string show(const address& a) { if (a.isGroup()) { auto& g = dynamic_cast<const mailboxGroup&>(a); string s = "G" + u8(g.getName()) + "\x01"; for (size_t i = 0; i < g.getMailboxCount(); i++) s += show(*g.getMailboxAt(i)); return s; } auto& m = dynamic_cast<const mailbox&>(a); string s = "M"; s += squeeze(u8(m.getName())); s += "\x01"; s += m.getEmail().getLocalName().getBuffer(); s += "@"; s += m.getEmail().getDomainName().getBuffer(); s += "\x01"; if (m.getEmail().getDomainName().getBuffer().empty() || m.getEmail().getLocalName().getBuffer().empty()) doms += "("; doms += m.getEmail().getDomainName().getBuffer(); return s; }
static shared_ptr<component> mk(unsigned k) { switch (k) { case 0: return make_shared<mailbox>(); case 1: return make_shared<mailboxList>(); case 2: return make_shared<addressList>(); case 3: return make_shared<emailAddress>(); } return make_shared<mailboxGroup>(); }
static string shown(component& c, unsigned k) { string s; switch (k) { case 0: return show(dynamic_cast<mailbox&>(c)); case 1: { auto& l = dynamic_cast<mailboxList&>(c); for (size_t i = 0; i < l.getMailboxCount(); i++) s += show(*l.getMailboxAt(i)); return s; } case 2: { auto& l = dynamic_cast<addressList&>(c); for (size_t i = 0; i < l.getAddressCount(); i++) s += show(*l.getAddressAt(i)); return s; } case 3: return show(mailbox(dynamic_cast<emailAddress&>(c))); } return show(dynamic_cast<mailboxGroup&>(c)); }
HARNESS h_addr_parse() {
	stub::install(); doms.clear(); for (int c = 0; c < 256; c++) DT[c] = 0x80; for (char c : range('a', 'z') + range('A', 'Z') + range('0', '9') + "-.") DT[(unsigned char)c] = 0;
	unsigned k = P("kind", 0);
	string in = PFX[P("pfx", 0)]; in += P("set", 1) ? symStrUpToIn(P("n", 3), "\"\\ (<>@,;:=?x)") : symStrUpTo(P("n", 3));
	static const char* AFTER[] = { "\"", ">", "?=", ";", "@z" };
	string big = "To: "; big += in; big += AFTER[P("after", 0)];
	parsingContext ctx; auto a = mk(k), b = mk(k); size_t np = 0;
	a->parse(ctx, big, 4, 4 + in.size(), &np); vs_check(np >= 4 && np <= 4 + in.size(), "parsing stops inside the text");
	vs_check(a->getParsedOffset() >= 4 && a->getParsedOffset() <= 4 + in.size() && a->getParsedOffset() + a->getParsedLength() <= 4 + in.size(), "the parsed bounds are inside the text");
	b->parse(ctx, in, 0, in.size(), NULL);
	string sa = shown(*a, k), sb = shown(*b, k); observe("as", sa);
	checkEq(sa, sb, "what surrounds the text does not change what is read");
	// an object that was used before reads the same
	auto c = mk(k); c->parse(ctx, "Old: old@old;", 0, 13, NULL); c->parse(ctx, in, 0, in.size(), NULL); checkEq(shown(*c, k), sb, "parsing again forgets what was there");
	// (domains with characters no domain can have are kept as they were found, and not judged here)
	unsigned char hi = 0; for (unsigned char x : in) hi |= x; for (unsigned char x : doms) hi |= DT[x];
	if (P("regen", 1) && hi < 0x80 && (k != 0 || !dynamic_cast<mailbox&>(*b).getEmail().isEmpty())) {
		string out = gen1(*b, 0, 0, false); observe("out", out); auto r = mk(k); r->parse(ctx, out, 0, out.size(), NULL);
		string s2 = shown(*r, k); observe("again", s2); checkEq(s2, sb, "what was understood is read again from what is generated");
	}
	vs_reach("end");
}

// the forms of RFC 5322 another program may write: a comment in any place it may stand in, quoted pairs, lists and groups
HARNESS h_addr_forms() {
	stub::install();
	static const char* PART[][12] = {
		{ "^", "u.v", "^", "@", "^", "b.c", "^", 0 },                                   // addr-spec
		{ "^", "Na", "^", " Me", "^", " <", "^", "u.v", "^", "@", "", 0 },                // name-addr (domain added below)
		{ "^", "\"Na Me\"", "^", " <", "^", "u.v", "^", "@", "", 0 },
		{ "^", "Na \"Me\"", "^", "<", "^", "u.v", "^", "@", "", 0 },
		{ "^", "<", "^", "u.v", "^", "@", "", 0 },
		{ "^", "=?utf-8?Q?Na_Me?=", "^", " <", "^", "u.v", "^", "@", "", 0 },
	};
	unsigned form = P("form", 0), places = 0; string t[16]; unsigned nt = 0;
	for (unsigned i = 0; PART[form][i]; i++) if (*PART[form][i]) t[nt++] = PART[form][i];
	if (form) { t[nt++] = "^"; t[nt++] = "b.c"; t[nt++] = "^"; t[nt++] = ">"; t[nt++] = "^"; }
	for (unsigned i = 0; i < nt; i++) places += t[i] == "^";
	string local = "u.v"; if (P("long", 0)) local = filler(P("long", 0), 0);
	string lshown = local;
	if (P("ql", 0)) { string q = symStrIn(P("qn", 1), P("ql", 0) == 1 ? "ab ,;:<>()[]@." : "\"\\"); lshown = "\""; for (char c : q) { if (P("ql", 0) == 2) lshown += '\\'; lshown += c; } lshown += "\""; local = q; }
	string c = "("; switch (P("cst", 0)) { case 0: c += symStrIn(P("n", 1), "x <>@,;:[]\".=?"); break; case 1: c += "\\"; c += symStrIn(1, "()\\\"<>@,;x"); break; case 2: c += "a("; c += symStrIn(P("n", 1), "x <>@,;:\""); c += ")b"; break; default: c += "\\("; c += symStrIn(1, ",;<>@"); c += "(\\))"; }
	c += ")";
	unsigned at = P("at", -1u); if (at == -1u) at = vs_choice(places + 1);
	unsigned ws = form == 0 && at > 0 && at < 3 ? 0 : vs_choice(3); static const char* W[] = { "", " ", "\r\n\t" };
	string x; unsigned k = 0;
	for (unsigned i = 0; i < nt; i++) {
		if (t[i] == "^") { if (k++ == at) { if (i == 0) { x += c; x += W[ws]; } else { x += W[ws]; x += c; } } continue; }
		x += t[i] == "u.v" ? lshown : t[i];
	}
	string lst; unsigned inl = P("in", 0); static const char* SEP[] = { ", ", ",", " , ", ",\r\n " }; unsigned sep = inl ? vs_choice(4) : 0;
	switch (inl) { case 0: lst = x; break; case 1: lst = x; lst += SEP[sep]; lst += "Other <other@host.net>"; break; case 2: lst = "Other <other@host.net>"; lst += SEP[sep]; lst += x; break; default: lst = "Grp: "; lst += x; lst += SEP[sep]; lst += "other@host.net;"; lst += SEP[sep]; lst += "z@z.z"; }
	observe("in", lst);
	parsingContext ctx; addressList l; l.parse(ctx, lst, 0, lst.size(), NULL);
	std::vector<shared_ptr<mailbox>> mb; bool groups = false;
	for (size_t i = 0; i < l.getAddressCount(); i++) { auto a = l.getAddressAt(i); if (a->isGroup()) { groups = true; auto g = dynamicCast<mailboxGroup>(a); checkEq(u8(g->getName()), "Grp", "the name of the group"); for (size_t j = 0; j < g->getMailboxCount(); j++) mb.push_back(g->getMailboxAt(j)); } else mb.push_back(dynamicCast<mailbox>(a)); }
	vs_check(groups == (inl == 3) && (inl != 3 || l.getAddressCount() == 2), "groups are recognized");
	vs_check(mb.size() == (inl == 0 ? 1u : inl == 3 ? 3u : 2u), "separators in comments and quotes do not divide addresses");
	if (mb.size() != (inl == 0 ? 1u : inl == 3 ? 3u : 2u)) return;
	auto m = mb[inl == 2];
	observe("name", u8(m->getName())); observe("local", m->getEmail().getLocalName().getBuffer()); observe("dom", m->getEmail().getDomainName().getBuffer());
	string nm; for (char ch : u8(m->getName())) if (form != 3 || ch != '"') nm += ch;   // a quoted string after an atom keeps its quotes
	checkEq(squeeze(nm), form == 0 || form == 4 ? "" : "Na Me", "comments are not part of the name");
	checkEq(m->getEmail().getLocalName().getBuffer(), local, "comments are not part of the local part");
	checkEq(m->getEmail().getDomainName().getBuffer(), "b.c", "comments are not part of the domain");
	if (inl) vs_check(mb[inl != 2]->getEmail().toString() == "other@host.net", "the other address is read");
	vs_reach("end");
}
