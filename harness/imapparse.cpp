// C24: IMAP responses
#include "net.hpp"
#include "vmime/net/imap/IMAPConnection.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPTag.hpp"
#include "vmime/net/imap/IMAPParser.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPFolderStatus.hpp"
#include "vmime/net/imap/IMAPMessageStructure.hpp"
using namespace net::imap; typedef IMAPParser I;
// --- what a response says, as text
struct dump { string o;
	void s(const string& x) { o += '<'; o += x; o += '>'; }
	void w(const char* x) { o += x; }
	void n(unsigned long x) { char b[24]; int k = 24; do { b[--k] = char('0' + x % 10); x /= 10; } while (x); o.append(b + k, 24 - k); } // digits without branches
	void sep() { o += ' '; }
	void ns(const I::xstring* x, bool nil = true) { if (!x) w("?"); else if (nil && x->isNIL) w("-"); else s(x->value); }
	void ad(const I::address_list* l) { if (!l) { w("?"); return; } w("{"); for (auto& a : l->addresses) { w("("); ns(a->addr_name.get()); ns(a->addr_adl.get()); ns(a->addr_mailbox.get()); ns(a->addr_host.get()); w(")"); } w("}"); }
	void env(const I::envelope& e) { w("E"); ns(e.env_date.get()); ns(e.env_subject.get()); ad(e.env_from.get()); ad(e.env_sender.get()); ad(e.env_reply_to.get()); ad(e.env_to.get()); ad(e.env_cc.get()); ad(e.env_bcc.get()); ns(e.env_in_reply_to.get()); ns(e.env_message_id.get()); }
	void fl(const I::flag_list* l) { if (!l) { w("?"); return; } w("{"); for (auto& f : l->flags) { switch (f->type) { case I::flag::ANSWERED: w("A"); break; case I::flag::FLAGGED: w("F"); break; case I::flag::DELETED: w("D"); break; case I::flag::SEEN: w("S"); break; case I::flag::DRAFT: w("T"); break; case I::flag::STAR: w("*"); break; case I::flag::UNKNOWN: w("\\"); s(f->name); break; default: s(f->flag_keyword->value); break; } } w("}"); }
	void prm(const I::body_fld_param* p) { if (!p) { w("?"); return; } w("{"); for (auto& i : p->items) { ns(i->string1.get(), false); w("="); ns(i->string2.get(), false); } w("}"); }
	void fields(const I::body_fields& f) { prm(f.body_fld_param.get()); ns(f.body_fld_id.get()); ns(f.body_fld_desc.get()); ns(f.body_fld_enc.get()); n(f.body_fld_octets->value); }
	void dsp(const I::body_fld_dsp* d) { if (!d) { w("?"); return; } w("D"); if (d->str()) ns(d->str()); else w("-"); if (d->body_fld_param()) prm(d->body_fld_param()); }
	void lang(const I::body_fld_lang* l) { if (!l) { w("?"); return; } w("L"); for (auto& x : l->strings) ns(x.get()); }
	void ext(const I::body_extension& e) { if (e.nstring) ns(e.nstring.get()); else if (e.number) n(e.number->value); else { w("["); for (auto& x : e.body_extensions) ext(*x); w("]"); } }
	void body(const I::xbody& b) {
		if (b.body_type_mpart) { auto& m = *b.body_type_mpart; w("M("); for (auto& x : m.list) body(*x); w(")"); ns(m.media_subtype.get()); if (m.body_ext_mpart) { auto& e = *m.body_ext_mpart; w("+"); prm(e.body_fld_param.get()); dsp(e.body_fld_dsp.get()); lang(e.body_fld_lang.get()); for (auto& x : e.body_extensions) ext(*x); } return; }
		auto& p = *b.body_type_1part;
		if (p.body_type_text) { auto& t = *p.body_type_text; w("T"); ns(t.media_text->media_subtype.get()); fields(*t.body_fields); w("/"); n(t.body_fld_lines->value); }
		else if (p.body_type_msg) { auto& t = *p.body_type_msg; w("R"); ns(t.media_message->media_subtype.get()); fields(*t.body_fields); env(*t.envelope); body(*t.body); w("/"); n(t.body_fld_lines->value); }
		else { auto& t = *p.body_type_basic; w("B"); ns(t.media_basic->media_type.get()); ns(t.media_basic->media_subtype.get()); fields(*t.body_fields); }
		if (p.body_ext_1part) { auto& e = *p.body_ext_1part; w("+"); ns(e.body_fld_md5.get()); dsp(e.body_fld_dsp.get()); lang(e.body_fld_lang.get()); for (auto& x : e.body_extensions) ext(*x); }
	}
	void sec(const I::section& x) { w("["); if (x.section_text1) stext(*x.section_text1); for (unsigned k : x.nz_numbers) { n(k); w("."); } if (x.section_text2) stext(*x.section_text2); w("]"); }
	void stext(const I::section_text& t) { typedef I::section_text T; w(t.type == T::HEADER ? "H" : t.type == T::HEADER_FIELDS ? "HF" : t.type == T::HEADER_FIELDS_NOT ? "HN" : t.type == T::MIME ? "MI" : "TX"); if (t.header_list) for (auto& f : t.header_list->fld_names) s(f->value); }
	void item(const I::msg_att_item& i) { switch (i.type) {
		case I::msg_att_item::ENVELOPE: env(*i.envelope); break; case I::msg_att_item::FLAGS: w("F"); fl(i.flag_list.get()); break; case I::msg_att_item::INTERNALDATE: w("ID"); break; case I::msg_att_item::RFC822: w("822"); ns(i.nstring.get()); break; case I::msg_att_item::RFC822_SIZE: w("SZ"); n(i.number->value); break;
		case I::msg_att_item::RFC822_HEADER: w("HD"); ns(i.nstring.get()); break; case I::msg_att_item::RFC822_TEXT: w("TX"); ns(i.nstring.get()); break; case I::msg_att_item::BODY: w("BO"); body(*i.body); break; case I::msg_att_item::BODY_SECTION: w("SE"); sec(*i.section); if (i.number) { w("<"); n(i.number->value); w(">"); } ns(i.nstring.get()); break;
		case I::msg_att_item::BODY_STRUCTURE: w("BS"); body(*i.body); break; case I::msg_att_item::UID: w("U"); n(i.uniqueid->value); break; case I::msg_att_item::MODSEQ: w("MS"); n(i.mod_sequence_value->value); break; } }
	void uset(const I::uid_set* u) { for (; u; u = u->next_uid_set.get()) { if (u->uid_range) { n(u->uid_range->uniqueid1->value); w(":"); n(u->uid_range->uniqueid2->value); } else n(u->uniqueid->value); w(","); } }
	void snum(const I::seq_number& x) { if (x.star) w("*"); else n(x.number->value); }
	void sset(const I::sequence_set* u) { for (; u; u = u->nextSet.get()) { if (u->range) { snum(*u->range->first); w(":"); snum(*u->range->last); } else snum(*u->number); w(","); } }
	void cap(const I::capability_data& c) { for (auto& x : c.capabilities) { if (x->auth_type) { w("A="); s(x->auth_type->name); } else s(x->atom->value); } }
	void text(const I::resp_text* t) { if (!t) { w("?"); return; } if (t->resp_text_code) { auto& c = *t->resp_text_code; w("["); w(RC(c.type)); if (c.nz_number) { w("n"); n(c.nz_number->value); } if (c.atom) s(c.atom->value); if (c.flag_list) fl(c.flag_list.get()); if (c.text) s(c.text->value); if (c.mod_sequence_value) { w("q"); n(c.mod_sequence_value->value); } if (c.sequence_set) { w("s"); sset(c.sequence_set.get()); } if (c.capability_data) cap(*c.capability_data); if (c.uid_set) { w("u"); uset(c.uid_set.get()); } if (c.uid_set2) { w("u"); uset(c.uid_set2.get()); } w("]"); } s(t->text); }
	void mfl(const I::mailbox_flag_list* l) { if (!l) { w("?"); return; } w("{"); for (auto& f : l->flags) { if (f->type == I::mailbox_flag::UNKNOWN) s(f->name); else { w(MF(f->type)); w(","); } } w("}"); }
	static const char* MF(int t) { typedef I::mailbox_flag M; switch (t) { case M::HASCHILDREN: return "hc"; case M::HASNOCHILDREN: return "hn"; case M::SPECIALUSE_ALL: return "all"; case M::SPECIALUSE_ARCHIVE: return "arc"; case M::SPECIALUSE_DRAFTS: return "dra"; case M::SPECIALUSE_FLAGGED: return "fla"; case M::SPECIALUSE_JUNK: return "jun"; case M::SPECIALUSE_SENT: return "sen"; case M::SPECIALUSE_TRASH: return "tra"; case M::SPECIALUSE_IMPORTANT: return "imp"; case M::MARKED: return "mar"; case M::NOINFERIORS: return "noi"; case M::NOSELECT: return "nos"; case M::UNMARKED: return "unm"; } return "?"; }
	static const char* RC(int t) { typedef I::resp_text_code C; switch (t) { case C::HIGHESTMODSEQ: return "HM"; case C::NOMODSEQ: return "NM"; case C::MODIFIED: return "MO"; case C::APPENDUID: return "AU"; case C::COPYUID: return "CU"; case C::UIDNOTSTICKY: return "NS"; case C::ALERT: return "AL"; case C::PARSE: return "PA"; case C::CAPABILITY: return "CA"; case C::PERMANENTFLAGS: return "PF"; case C::READ_ONLY: return "RO"; case C::READ_WRITE: return "RW"; case C::TRYCREATE: return "TC"; case C::UIDVALIDITY: return "UV"; case C::UIDNEXT: return "UN"; case C::UNSEEN: return "US"; case C::OTHER: return "OT"; } return "?"; }
	static const char* MD(int t) { typedef I::mailbox_data M; switch (t) { case M::FLAGS: return "FL"; case M::LIST: return "LI"; case M::LSUB: return "LS"; case M::MAILBOX: return "MB"; case M::SEARCH: return "SE"; case M::STATUS: return "ST"; case M::EXISTS: return "EX"; case M::RECENT: return "RE"; } return "?"; }
	static const char* SV(int t) { typedef I::status_att_val S; switch (t) { case S::HIGHESTMODSEQ: return "hm"; case S::MESSAGES: return "me"; case S::RECENT: return "re"; case S::UIDNEXT: return "un"; case S::UIDVALIDITY: return "uv"; case S::UNSEEN: return "us"; } return "?"; }
	static const char* SS(int t) { return t == I::resp_cond_state::OK ? "OK" : t == I::resp_cond_state::NO ? "NO" : "BAD"; }
	void box(const I::mailbox* m) { if (!m) { w("?"); return; } if (m->type == I::mailbox::INBOX) w("I"); s(m->name); }
	void mdata(const I::mailbox_data& d) { w(MD(d.type)); w(":"); switch (d.type) { case I::mailbox_data::FLAGS: mfl(d.mailbox_flag_list.get()); break; case I::mailbox_data::LIST: case I::mailbox_data::LSUB: mfl(d.mailbox_list->mailbox_flag_list.get()); if (d.mailbox_list->quoted_char) s(string(1, d.mailbox_list->quoted_char)); else w("-"); box(d.mailbox_list->mailbox.get()); break; case I::mailbox_data::MAILBOX: s(d.text->value); break;
		case I::mailbox_data::SEARCH: for (auto& x : d.search_nz_number_list) { n(x->value); w(","); } break; case I::mailbox_data::STATUS: box(d.mailbox.get()); if (d.status_att_list) for (auto& v : d.status_att_list->values) { w(SV(v->type)); w("="); if (v->value_as_number()) n(v->value_as_number()->value); if (v->value_as_mod_sequence_value()) n(v->value_as_mod_sequence_value()->value); w(","); } break; default: n(d.number->value); break; } }
	void data(const I::response_data& d) { if (d.resp_cond_state) { w("*"); w(SS(d.resp_cond_state->status)); text(d.resp_cond_state->resp_text.get()); } else if (d.resp_cond_bye) { w("*BYE"); text(d.resp_cond_bye->resp_text.get()); } else if (d.mailbox_data) { w("*"); mdata(*d.mailbox_data); } else if (d.message_data) { auto& m = *d.message_data; w("*"); n(m.number); if (m.type == I::message_data::EXPUNGE) w(" X"); else for (auto& i : m.msg_att->items) { w(" "); item(*i); } } else if (d.capability_data) { w("*CAP"); cap(*d.capability_data); } else w("*?"); w(";"); }
	void resp(const I::response& r) { for (auto& x : r.continue_req_or_response_data) { if (x->continue_req) { w("+"); text(x->continue_req->resp_text.get()); w(";"); } else data(*x->response_data); } if (r.response_done) { if (r.response_done->response_tagged) { auto& t = *r.response_done->response_tagged; w("="); s(t.tag->tagString); w(SS(t.resp_cond_state->status)); text(t.resp_cond_state->resp_text.get()); } else w("FATAL"); } else w("PART"); }
};
// --- what the library makes of a response
static void structure(const shared_ptr<const net::messageStructure>& s, size_t depth, string& o) { vs_check(depth < 50, "a structure ends"); for (size_t i = 0; i < s->getPartCount(); i++) { auto p = s->getPartAt(i); o += p->getType().getType(); o += '/'; o += p->getType().getSubType(); o += '='; o += p->getName(); o += p->getDisposition().getName(); p->getSize(); p->getNumber(); structure(p->getStructure(), depth + 1, o); } }
static void use(const I::response& r) {
	IMAPFolderStatus st; string o;
	for (auto& x : r.continue_req_or_response_data) { if (!x->response_data) continue; auto& d = *x->response_data;
		if (d.mailbox_data) { st.updateFromResponse(*d.mailbox_data); auto& m = *d.mailbox_data; if (m.type == I::mailbox_data::LIST) { string n = m.mailbox_list->mailbox->name; IMAPUtils::stringToPath(m.mailbox_list->quoted_char ? m.mailbox_list->quoted_char : '.', n); } }
		if (d.message_data) st.updateFromResponse(*d.message_data); if (d.message_data && d.message_data->msg_att) for (auto& i : d.message_data->msg_att->items) { if (i->flag_list) IMAPUtils::messageFlagsFromFlags(*i->flag_list); if (i->body) { auto s = make_shared<IMAPMessageStructure>(i->body.get()); structure(s, 0, o); } if (i->envelope) { mailboxList l; IMAPUtils::convertAddressList(*i->envelope->env_from, l); IMAPUtils::convertAddressList(*i->envelope->env_to, l); } }
		if (d.resp_cond_state && d.resp_cond_state->resp_text && d.resp_cond_state->resp_text->resp_text_code) { auto& c = *d.resp_cond_state->resp_text->resp_text_code; st.updateFromResponse(c); if (c.uid_set) IMAPUtils::buildMessageSet(*c.uid_set); } }
}
struct sink : I::literalHandler { string got; size_t n = 0; bool on = true; shared_ptr<target> targetFor(const I::component&, const int) override { n++; if (!on) return null; return make_shared<targetString>((utility::progressListener*)NULL, got); } };
// one parse of the bytes given; the outcome as text
static string parse(const string& bytes, size_t frag, size_t cut, bool strict, bool useIt, sink* sk, int what = 0) {
	auto srv = make_shared<server>(); srv->reply(bytes); srv->frag = unsigned(frag); srv->cut = cut; auto sok = make_shared<fakeSocket>(srv); sok->connect("h", 1); string o;
	I p; p.setSocket(sok); p.setStrict(strict); IMAPTag tag;
	for (int k = 0; k < 2; k++) { dump d; try { if (what == 1) { std::unique_ptr<I::greeting> g(p.readGreeting()); if (g->resp_cond_auth) { d.w("G"); d.w(g->resp_cond_auth->condition == I::resp_cond_auth::PREAUTH ? "P" : "O"); d.text(g->resp_cond_auth->resp_text.get()); } else if (g->resp_cond_bye) { d.w("GB"); d.text(g->resp_cond_bye->resp_text.get()); } else d.w("G?"); }
			else { std::unique_ptr<I::response> r(p.readResponse(tag, sk)); d.resp(*r); r->isBad(); if (useIt) use(*r); } o += d.o + "|"; if (what == 1) break; }
		catch (exceptions::invalid_response&) { o += "invalid|"; break; } catch (exceptions::socket_exception&) { o += "closed|"; break; } }
	return o;
}
static const char* const PFX[] = {
	/* 0*/ "", "* ", "+ ", "a001 ", "* OK [", "* 1", "* 2 FETCH (",
	/* 7*/ "* 2 FETCH (FLAGS (", "* 2 FETCH (BODY", "* 2 FETCH (BODY[", "* 2 FETCH (BODY[] {2", "* 2 FETCH (BODY[] {2}\r\n", "* 2 FETCH (UID ", "* 2 FETCH (INTERNALDATE \"",
	/*14*/ "* 2 FETCH (ENVELOPE (NIL \"s\" ((", "* 2 FETCH (ENVELOPE (NIL \"s\" ((NIL NIL \"m\" \"h\")) NIL NIL NIL NIL NIL NIL ",
	/*16*/ "* 2 FETCH (BODYSTRUCTURE (", "* 2 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" (\"A\" ", "* 2 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 3 1", "* 2 FETCH (BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 3)",
	/*20*/ "* 2 FETCH (BODYSTRUCTURE (\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 3 ", "* LIST (", "* LIST () ", "* LIST () \"/\" ", "* STATUS ", "* STATUS x (", "* SEARCH ", "* CAPABILITY ", "* FLAGS (", "* STATUS {2}\r\n", "* 2 FETCH (BODY[HEADER.FIELDS (", "* OK [MODIFIED ", "* OK [COPYUID ", "* OK =?", "* OK [PERMANENTFLAGS (\\", "a00", "* BYE", "* 2 FETCH (RFC822.HEADER ", "* 2 FETCH (BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 3 NIL (", "* 2 FETCH (BODYSTRUCTURE (\"MESSAGE\" \"X\" NIL {1}\r\n",
};
static const char* const TEXTS[][2] = { // responses without a value in them
	{ "* FLAGS (\\Answered \\Seen \\X y)", "*FL:{<\\answered><\\seen><\\x><y>};" }, { "* LIST (\\HasNoChildren \\All \\Archive \\Drafts \\Flagged \\Junk \\Sent \\Trash \\Important \\Marked \\Unmarked \\Noinferiors \\NOSELECT) \"\\\\\" iNBoX", "*LI:{hn,all,arc,dra,fla,jun,sen,tra,imp,mar,unm,noi,nos,}<\\>I<INBOX>;" },
	{ "* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft $Junk \\*)] Limited", "*OK[PF{AFDST<$Junk>*}]<Limited>;" }, { "* OK [READ-ONLY] a", "*OK[RO]<a>;" }, { "* OK [READ-WRITE] a", "*OK[RW]<a>;" }, { "* NO [TRYCREATE] a", "*NO[TC]<a>;" }, { "* OK [ALERT] a", "*OK[AL]<a>;" }, { "* BAD [PARSE] a b", "*BAD[PA]<a b>;" }, { "* OK [CAPABILITY IMAP4rev1 STARTTLS AUTH=PLAIN LITERAL+] a", "*OK[CA<IMAP4rev1><STARTTLS>A=<plain><LITERAL+>]<a>;" }, { "* CAPABILITY IMAP4rev1 AUTH=GSSAPI X", "*CAP<IMAP4rev1>A=<gssapi><X>;" },
	{ "* OK [NOMODSEQ] a", "*OK[NM]<a>;" }, { "* OK [UIDNOTSTICKY] a", "*OK[NS]<a>;" }, { "* OK [X-FOO bar (baz)] a", "*OK[OT<X-FOO><bar (baz)>]<a>;" }, { "* BYE see you", "*BYE<see you>;" }, { "* SEARCH", "*SE:;" }, { "* 4 FETCH (FLAGS (\\Recent \\Draft Foo \\Answered) INTERNALDATE \"17-Jul-1996 02:44:25 -0700\" UID 5)", "*4 F{\\<recent>T<Foo>A} ID U5;" }, { "* 4 FETCH (FLAGS () INTERNALDATE \" 7-Jul-1996 02:44:25 +0100\")", "*4 F{} ID;" }, { "* STATUS \"a b\" (UNSEEN 1 RECENT 0 UIDVALIDITY 9)", "*ST:<a b>us=1,re=0,uv=9,;" }, { "* STATUS inbox ()", "*ST:I<INBOX>;" }, { "* OK no code", "*OK<no code>;" },
};
static const char* const SFX[] = { "\r\n", ")\r\n", " \"a\")\r\n", "))\r\n", "\"))\r\n", "]\r\n" };
HARNESS h_imap_garbage() { // any bytes
	stub::install(); string b; static const string SETS[] = { string(), string("()\"\\{}[]1N a\r\n*", 16), string("01:,* ]\n", 8) }; size_t set = P("set", 1); b = set ? symStrIn(vs_choice(P("n", 2) + 1), SETS[set]) : symStr(vs_choice(P("n", 2) + 1)); observe("b", b);
	string all = string(PFX[P("pfx", 0)]) + b + SFX[P("sfx", 0)] + "a001 OK x\r\na001 NO y\r\n"; sink sk, sk2; sink *k1 = P("lh", 0) ? &sk : nullptr, *k2 = k1 ? &sk2 : nullptr; bool strict = P("strict", 0);
	string whole = parse(all, 0, 0, strict, true, k1, int(P("what", 0))); observe("w", whole); size_t f = P("frag", 1), cut = f == 2 ? 1 + vs_choice(all.size()) : 0; string parts = parse(all, f, cut, strict, false, k2, int(P("what", 0))); checkEq(parts, whole, "the result does not depend on how the bytes arrive"); checkEq(sk.got, sk2.got, "literals delivered do not depend on how the bytes arrive"); vs_reach("end");
}
// --- values: a response with a string in it
struct form { const char *wire, *want; }; // @ is the string
static const form FORMS[] = {
	/* 0*/ { "* 2 FETCH (ENVELOPE (\"d\" @ ((\"n\" NIL \"m\" \"h\")) NIL NIL NIL NIL NIL NIL \"i\"))", "*2 E<d>@{(<n>-<m><h>)}{}{}{}{}{}-<i>;" },
	/* 1*/ { "* 2 FETCH (ENVELOPE (@ NIL NIL ((NIL NIL \"a\" \"b\")(NIL @ @ \"d\")) NIL ((NIL NIL \"G\" NIL)(NIL NIL \"x\" \"y\")(NIL NIL NIL NIL)) NIL NIL @ @))", "*2 E@-{}{(--<a><b>)(-@@<d>)}{}{(--<G>-)(--<x><y>)(----)}{}{}@@;" },
	/* 2*/ { "* 2 FETCH (UID 17 BODY[] @ FLAGS (\\Seen))", "*2 U17 SE[]@ F{S};" },
	/* 3*/ { "* 2 FETCH (BODY[1.2.MIME]<5> @ BODY[HEADER.FIELDS (A \"B c\")] @ BODY[3.HEADER.FIELDS.NOT (D)] @ BODY[TEXT] NIL)", "*2 SE[1.2.MI]<5>@ SE[HF<A><B c>]@ SE[3.HN<D>]@ SE[TX]-;" },
	/* 4*/ { "* 2 FETCH (RFC822.HEADER @ RFC822.TEXT @ RFC822 @ RFC822.SIZE 33)", "*2 HD@ TX@ 822@ SZ33;" },
	/* 5*/ { "* 2 FETCH (BODYSTRUCTURE (\"TEXT\" $ (\"A\" $ $ \"B\") @ @ $ 12 3 @ ($ NIL) ($ \"de\") @ 7 (1 (@))))", "*2 BST${<A>=$$=<B>}@@$12/3+@D${}L$<de>@7[1[@]];" },
	/* 6*/ { "* 2 FETCH (BODYSTRUCTURE ($ $ NIL NIL NIL \"7BIT\" 0))", "*2 BSB$${}--<7BIT>0;" },
	/* 7*/ { "* 2 FETCH (BODYSTRUCTURE (\"MESSAGE\" \"RFC822\" NIL @ NIL $ 9 (NIL @ NIL NIL NIL NIL NIL NIL NIL NIL) (\"TEXT\" \"HTML\" NIL NIL @ \"8BIT\" 2 1) 4 @))", "*2 BSR<RFC822>{}@-$9E-@{}{}{}{}{}{}--T<HTML>{}-@<8BIT>2/1/4+@??;" },
	/* 8*/ { "* 2 FETCH (BODY ((\"TEXT\" \"PLAIN\" (\"C\" $) NIL NIL \"7BIT\" 5 1)((\"IMAGE\" $ NIL @ NIL \"BASE64\" 6) \"ALTERNATIVE\") $ (\"BOUNDARY\" $) NIL $))", "*2 BOM(T<PLAIN>{<C>=$}--<7BIT>5/1M(B<IMAGE>${}@-<BASE64>6)<ALTERNATIVE>)$+{<BOUNDARY>=$}D-L$;" },
	/* 9*/ { "* 2 FETCH (BODYSTRUCTURE ((\"MESSAGE\" \"DELIVERY-STATUS\" NIL @ @ \"7BIT\" 7)(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 5 1) \"REPORT\"))", "*2 BSM(B<MESSAGE><DELIVERY-STATUS>{}@@<7BIT>7T<PLAIN>{}--<7BIT>5/1)<REPORT>;" },
	/*10*/ { "* LIST (\\HasChildren \\Noselect X) \"/\" $", "*LI:{hc,nos,<x>}</>$;" },
	/*11*/ { "* LSUB () NIL $", "*LS:{}-$;" },
	/*12*/ { "* STATUS $ (MESSAGES 5 UIDNEXT 6 HIGHESTMODSEQ 78)", "*ST:$me=5,un=6,hm=78,;" },
	/*13*/ { "* 2 FETCH (BODYSTRUCTURE (\"MESSAGE\" \"X\" NIL @ @ \"7BIT\" 7 @ NIL @))", "*2 BSB<MESSAGE><X>{}@@<7BIT>7+@D-L@;" },
};
static string enc(const string& v, int f) { string r; if (f == 0) { r = "\""; for (char c : v) { if (vs_choice(2)) { vs_assume(vs_or(c == '"', c == '\\')); r += '\\'; } else vs_assume(vs_and(vs_and(c != '"', c != '\\'), vs_and(vs_and(c != '\r', c != '\n'), vs_and(c > 0, 1)))); r += c; } return r + "\""; } if (f == 1) { dump d; d.n(v.size()); return "{" + d.o + "}\r\n" + v; } return "NIL"; }
HARNESS h_imap_values() {
	stub::install(); const form& f = FORMS[P("form", 0)]; string v = string(P("pre", 0), 'p') + symStr(vs_choice(P("n", 2) + 1)); observe("v", v); unsigned slots = 0; for (const char* p = f.wire; *p; p++) slots += *p == '@' || *p == '$'; unsigned at = vs_choice(slots), other = P("other", 0); int how = int(vs_choice(f.wire[0] ? 3 : 1));
	string bytes, w, tail = P("two", 0) ? "* 7 EXISTS\r\n" : ""; unsigned k = 0; bool nstr = false; for (const char* p = f.wire; *p; p++) { if (*p != '@' && *p != '$') { bytes += *p; continue; } if (k++ == at) { nstr = *p == '@'; if (how == 2 && !nstr) vs_end(); bytes += enc(v, how); } else bytes += other == 0 ? "\"q\"" : other == 1 ? "{3}\r\n)\r\n" : *p == '@' ? "NIL" : "\"q\""; }
	k = 0; for (const char* p = f.want; *p; p++) { if (*p != '@' && *p != '$') { w += *p; continue; } if (k++ == at) w += how == 2 ? string("-") : "<" + v + ">"; else w += other == 0 ? "<q>" : other == 1 ? "<)\r\n>" : *p == '@' ? "-" : "<q>"; }
	w += P("two", 0) ? "*EX:7;=<a001>OK<done>" : "=<a001>OK<done>"; string all = bytes + "\r\n" + tail + "a001 OK done\r\n"; observe("in", all);
	auto srv = make_shared<server>(); srv->reply(all); fragment(*srv); auto sok = make_shared<fakeSocket>(srv); sok->connect("h", 1); I p; p.setSocket(sok); p.setStrict(P("strict", 0)); IMAPTag tag; dump d; std::unique_ptr<I::response> r; try { r.reset(p.readResponse(tag)); } catch (exceptions::invalid_response&) { vs_fail("a response is understood"); } d.resp(*r); observe("d", d.o); checkEq(d.o, w, "strings are delivered as sent"); vs_reach("end");
}
HARNESS h_imap_literal() { // literals handed to the caller while they arrive
	stub::install(); string v = string(P("pre", 0), 'p') + symStr(vs_choice(P("n", 3) + 1)); observe("v", v); int how = int(vs_choice(2)); static const char* W[] = { "* 2 FETCH (BODY[] @ UID 8)", "* 2 FETCH (RFC822.TEXT @ UID 8)", "* 2 FETCH (FLAGS (\\Seen) BODY[1]<0> @ UID 8)" }; string t = W[P("form", 0)]; string b = t.substr(0, t.find('@')) + enc(v, how) + t.substr(t.find('@') + 1) + "\r\na001 OK done\r\n";
	auto srv = make_shared<server>(); srv->reply(b); fragment(*srv); auto sok = make_shared<fakeSocket>(srv); sok->connect("h", 1); I p; p.setSocket(sok); IMAPTag tag; sink sk; std::unique_ptr<I::response> r(p.readResponse(tag, &sk)); checkEq(sk.got, v, "a literal is delivered as sent"); vs_check(sk.n == 1, "a literal is delivered once"); vs_check(r->continue_req_or_response_data.size() == 1 && r->response_done, "the response goes on after a literal"); dump d; d.resp(*r); vs_check(d.o.find("U8;=<a001>OK<done>") != string::npos, "the response goes on after a literal"); vs_reach("end");
}
struct num { const char *wire, *want; };
static const num NUMS[] = { { "* # EXISTS", "*EX:#;" }, { "* # EXPUNGE", "*# X;" }, { "* # RECENT", "*RE:#;" }, { "* 1 FETCH (UID #)", "*1 U#;" }, { "* # FETCH (RFC822.SIZE #)", "*# SZ#;" }, { "* SEARCH # 4 #", "*SE:#,4,#,;" }, { "* OK [UIDVALIDITY #] t", "*OK[UVn#]<t>;" }, { "* OK [UIDNEXT #] t", "*OK[UNn#]<t>;" }, { "* OK [UNSEEN #] t", "*OK[USn#]<t>;" }, { "* OK [HIGHESTMODSEQ #] t", "*OK[HMq#]<t>;" }, { "* OK [APPENDUID 4 #] t", "*OK[AUn4u#,]<t>;" }, { "* OK [COPYUID # 2:#,4 #:6] t", "*OK[CUn#u2:#,4,u#:6,]<t>;" }, { "* NO [MODIFIED 2:#,#,9:*] t", "*NO[MOs2:#,#,9:*,]<t>;" }, { "* 1 FETCH (MODSEQ (#))", "*1 MS#;" }, { "* STATUS b (UIDVALIDITY # UNSEEN #)", "*ST:<b>uv=#,us=#,;" }, { "* 1 FETCH (BODY[#.2]<#> \"a\")", "*1 SE[#.2.]<#><a>;" }, { "* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"A\" NIL NIL NIL \"B\" # #))", "*1 BST<A>{}--<B>#/#;" } };
HARNESS h_imap_numbers() {
	stub::install(); const num& f = NUMS[P("form", 0)]; size_t n = 1 + vs_choice(P("n", 3)); static const char* PRE[] = { "", "42949672", "429496", "1000000" }; string v = PRE[P("pre", 0)] + symStrIn(n, "0123456789"); observe("v", v); vs_assume(v[0] != '0'); if (P("pre", 0) == 1) { vs_assume(v.size() <= 10); if (v.size() == 10) vs_assume(vs_or(v[8] < '9', vs_and(v[8] == '9', v[9] <= '5'))); }
	string bytes, w; for (const char* p = f.wire; *p; p++) { if (*p == '#') bytes += v; else bytes += *p; } for (const char* p = f.want; *p; p++) { if (*p == '#') w += v; else w += *p; } w += "=<a001>OK<done>"; auto srv = make_shared<server>(); srv->reply(bytes + "\r\na001 OK done\r\n"); fragment(*srv); auto sok = make_shared<fakeSocket>(srv); sok->connect("h", 1); I p; p.setSocket(sok); IMAPTag tag; dump d; std::unique_ptr<I::response> r(p.readResponse(tag)); d.resp(*r); observe("d", d.o); checkEq(d.o, w, "numbers are read as sent"); vs_reach("end");
}
HARNESS h_imap_texts() { // known responses, however they arrive, alone or one after the other
	stub::install(); size_t n = sizeof TEXTS / sizeof *TEXTS; unsigned k = 1 + unsigned(P("two", 0)); string b, w; for (unsigned i = 0; i < k; i++) { unsigned c = vs_choice(unsigned(n)); b += TEXTS[c][0]; w += TEXTS[c][1]; b += "\r\n"; } b += "a001 OK done\r\n"; w += "=<a001>OK<done>"; observe("b", b);
	auto srv = make_shared<server>(); srv->reply(b); fragment(*srv); auto sok = make_shared<fakeSocket>(srv); sok->connect("h", 1); I p; p.setSocket(sok); p.setStrict(P("strict", 0)); IMAPTag tag; dump d; std::unique_ptr<I::response> r(p.readResponse(tag)); d.resp(*r); observe("d", d.o); checkEq(d.o, w, "a response is read as sent"); vs_reach("end");
}
HARNESS h_imap_tags() { // responses to several commands, in any order
	stub::install(); string b; IMAPTag t[3]; ++t[1]; ++t[2]; ++t[2]; unsigned used = 0, order[3], cont = unsigned(vs_choice(2)); for (unsigned i = 0; i < 3; i++) { unsigned k; do k = vs_choice(3); while (0); vs_assume(!(used & (1u << k))); used |= 1u << k; order[i] = k; b += "* " + std::to_string(k + 3) + " EXISTS\r\n" + string(t[k]) + " OK r" + std::to_string(k) + "\r\n"; }
	if (cont) b += "+ go\r\n"; auto srv = make_shared<server>(); srv->reply(b); fragment(*srv); auto sok = make_shared<fakeSocket>(srv); sok->connect("h", 1); I p; p.setSocket(sok); for (unsigned i = 0; i < 3; i++) { dump d; std::unique_ptr<I::response> r(p.readResponse(t[i])); d.resp(*r); checkEq(d.o, "*EX:" + std::to_string(i + 3) + ";=<" + string(t[i]) + ">OK<r" + std::to_string(i) + ">", "a response is the one to the command"); }
	if (cont) { dump d; std::unique_ptr<I::response> r(p.readResponse(t[2])); d.resp(*r); checkEq(d.o, "+<go>;PART", "a continuation is reported at once"); } vs_reach("end");
}
