// Ordered lists of the object model (addresses, mailboxes, groups, identifiers, words, parameters) and comparisons of values
#include "common.hpp"
#include "gen.hpp"
#include <stdexcept>
namespace stub { void install(); }
template <class T> using sp = shared_ptr<T>;
static const char* NAMES[] = { "a", "b", "c", "d", "e", "f" };
// one kind of list: T holds shared pointers to E; Anch: insertion next to an element is offered; InsChk, RmChk: positions are checked
struct Addr { using T = addressList; using E = address; enum { anch = 1, ins = 1, rm = 1 };
	static sp<E> mk(size_t i) { if (i == 1) { auto g = make_shared<mailboxGroup>(text("g")); g->appendMailbox(make_shared<mailbox>(emailAddress(NAMES[i], "d"))); return g; } return make_shared<mailbox>(emailAddress(NAMES[i], "d")); }
	static string id(const E& e) { return e.isGroup() ? "g" : dynamic_cast<const mailbox&>(e).getEmail().getLocalName().getBuffer(); }
	static void add(T& l, sp<E> e) { l.appendAddress(e); } static void bef(T& l, size_t p, sp<E> e) { l.insertAddressBefore(p, e); } static void aft(T& l, size_t p, sp<E> e) { l.insertAddressAfter(p, e); } static void befE(T& l, sp<E> p, sp<E> e) { l.insertAddressBefore(p, e); } static void aftE(T& l, sp<E> p, sp<E> e) { l.insertAddressAfter(p, e); }
	static void del(T& l, size_t p) { l.removeAddress(p); } static void delE(T& l, sp<E> e) { l.removeAddress(e); } static void clear(T& l) { l.removeAllAddresses(); } static size_t n(const T& l) { return l.getAddressCount(); } static sp<E> at(T& l, size_t i) { return l.getAddressAt(i); } static sp<const E> cat(const T& l, size_t i) { return l.getAddressAt(i); } static std::vector<sp<E>> all(T& l) { return l.getAddressList(); } static std::vector<sp<const E>> call(const T& l) { return l.getAddressList(); } static bool empty(const T& l) { return l.isEmpty(); } };
struct Mbox { using T = mailboxList; using E = mailbox; enum { anch = 1, ins = 1, rm = 1 };
	static sp<E> mk(size_t i) { return make_shared<mailbox>(emailAddress(NAMES[i], "d")); } static string id(const E& e) { return e.getEmail().getLocalName().getBuffer(); }
	static void add(T& l, sp<E> e) { l.appendMailbox(e); } static void bef(T& l, size_t p, sp<E> e) { l.insertMailboxBefore(p, e); } static void aft(T& l, size_t p, sp<E> e) { l.insertMailboxAfter(p, e); } static void befE(T& l, sp<E> p, sp<E> e) { l.insertMailboxBefore(p, e); } static void aftE(T& l, sp<E> p, sp<E> e) { l.insertMailboxAfter(p, e); }
	static void del(T& l, size_t p) { l.removeMailbox(p); } static void delE(T& l, sp<E> e) { l.removeMailbox(e); } static void clear(T& l) { l.removeAllMailboxes(); } static size_t n(const T& l) { return l.getMailboxCount(); } static sp<E> at(T& l, size_t i) { return l.getMailboxAt(i); } static sp<const E> cat(const T& l, size_t i) { return l.getMailboxAt(i); } static std::vector<sp<E>> all(T& l) { return l.getMailboxList(); } static std::vector<sp<const E>> call(const T& l) { return l.getMailboxList(); } static bool empty(const T& l) { return l.isEmpty(); } };
struct Grp { using T = mailboxGroup; using E = mailbox; enum { anch = 1, ins = 1, rm = 1 };
	static sp<E> mk(size_t i) { return Mbox::mk(i); } static string id(const E& e) { return Mbox::id(e); }
	static void add(T& l, sp<E> e) { l.appendMailbox(e); } static void bef(T& l, size_t p, sp<E> e) { l.insertMailboxBefore(p, e); } static void aft(T& l, size_t p, sp<E> e) { l.insertMailboxAfter(p, e); } static void befE(T& l, sp<E> p, sp<E> e) { l.insertMailboxBefore(p, e); } static void aftE(T& l, sp<E> p, sp<E> e) { l.insertMailboxAfter(p, e); }
	static void del(T& l, size_t p) { l.removeMailbox(p); } static void delE(T& l, sp<E> e) { l.removeMailbox(e); } static void clear(T& l) { l.removeAllMailboxes(); } static size_t n(const T& l) { return l.getMailboxCount(); } static sp<E> at(T& l, size_t i) { return l.getMailboxAt(i); } static sp<const E> cat(const T& l, size_t i) { return l.getMailboxAt(i); } static std::vector<sp<E>> all(T& l) { return l.getMailboxList(); } static std::vector<sp<const E>> call(const T& l) { return l.getMailboxList(); } static bool empty(const T& l) { return l.isEmpty(); } };
struct Ids { using T = messageIdSequence; using E = messageId; enum { anch = 1, ins = 0, rm = 0 };
	static sp<E> mk(size_t i) { return make_shared<messageId>(NAMES[i], "d"); } static string id(const E& e) { return e.getLeft(); }
	static void add(T& l, sp<E> e) { l.appendMessageId(e); } static void bef(T& l, size_t p, sp<E> e) { l.insertMessageIdBefore(p, e); } static void aft(T& l, size_t p, sp<E> e) { l.insertMessageIdAfter(p, e); } static void befE(T& l, sp<E> p, sp<E> e) { l.insertMessageIdBefore(p, e); } static void aftE(T& l, sp<E> p, sp<E> e) { l.insertMessageIdAfter(p, e); }
	static void del(T& l, size_t p) { l.removeMessageId(p); } static void delE(T& l, sp<E> e) { l.removeMessageId(e); } static void clear(T& l) { l.removeAllMessageIds(); } static size_t n(const T& l) { return l.getMessageIdCount(); } static sp<E> at(T& l, size_t i) { return l.getMessageIdAt(i); } static sp<const E> cat(const T& l, size_t i) { return l.getMessageIdAt(i); } static std::vector<sp<E>> all(T& l) { return l.getMessageIdList(); } static std::vector<sp<const E>> call(const T& l) { return l.getMessageIdList(); } static bool empty(const T& l) { return l.isEmpty(); } };
struct Words { using T = text; using E = word; enum { anch = 0, ins = 0, rm = 0 };
	static sp<E> mk(size_t i) { return make_shared<word>(NAMES[i], charset("utf-8")); } static string id(const E& e) { return e.getBuffer(); }
	static void add(T& l, sp<E> e) { l.appendWord(e); } static void bef(T& l, size_t p, sp<E> e) { l.insertWordBefore(p, e); } static void aft(T& l, size_t p, sp<E> e) { l.insertWordAfter(p, e); } static void befE(T& l, sp<E>, sp<E>) {} static void aftE(T& l, sp<E>, sp<E>) {}
	static void del(T& l, size_t p) { l.removeWord(p); } static void delE(T&, sp<E>) {} static void clear(T& l) { l.removeAllWords(); } static size_t n(const T& l) { return l.getWordCount(); } static sp<E> at(T& l, size_t i) { return l.getWordAt(i); } static sp<const E> cat(const T& l, size_t i) { return l.getWordAt(i); } static std::vector<sp<E>> all(T& l) { return l.getWordList(); } static std::vector<sp<const E>> call(const T& l) { return l.getWordList(); } static bool empty(const T& l) { return l.isEmpty(); } };
struct Pars { using T = parameterizedHeaderField; using E = parameter; enum { anch = 1, ins = 1, rm = 0 };
	static sp<E> mk(size_t i) { return make_shared<parameter>(NAMES[i], string("v") + NAMES[i]); } static string id(const E& e) { return e.getName(); }
	static void add(T& l, sp<E> e) { l.appendParameter(e); } static void bef(T& l, size_t p, sp<E> e) { l.insertParameterBefore(p, e); } static void aft(T& l, size_t p, sp<E> e) { l.insertParameterAfter(p, e); } static void befE(T& l, sp<E> p, sp<E> e) { l.insertParameterBefore(p, e); } static void aftE(T& l, sp<E> p, sp<E> e) { l.insertParameterAfter(p, e); }
	static void del(T& l, size_t p) { l.removeParameter(p); } static void delE(T& l, sp<E> e) { l.removeParameter(e); } static void clear(T& l) { l.removeAllParameters(); } static size_t n(const T& l) { return l.getParameterCount(); } static sp<E> at(T& l, size_t i) { return l.getParameterAt(i); } static sp<const E> cat(const T& l, size_t i) { return l.getParameterAt(i); } static std::vector<sp<E>> all(T& l) { return l.getParameterList(); } static std::vector<sp<const E>> call(const T& l) { return l.getParameterList(); } static bool empty(const T& l) { return l.isEmpty(); } };
template <class K> static sp<typename K::T> newList() { return make_shared<typename K::T>(); }
template <> sp<parameterizedHeaderField> newList<Pars>() { return dynamicCast<parameterizedHeaderField>(headerFieldFactory::getInstance()->create("Content-Type")); }
template <> sp<mailboxGroup> newList<Grp>() { return make_shared<mailboxGroup>(text("grp")); }
template <class K> static sp<typename K::T> copyList(const typename K::T& l) { return make_shared<typename K::T>(l); }
template <> sp<parameterizedHeaderField> copyList<Pars>(const parameterizedHeaderField& l) { auto r = newList<Pars>(); *r = l; return r; }
template <class K> static void is(typename K::T& l, const std::vector<sp<typename K::E>>& m, const char* what) {
	const typename K::T& c = l; vs_check(K::n(l) == m.size(), what); if (K::n(l) != m.size()) return; vs_check(K::empty(l) == m.empty(), what);
	auto a = K::all(l); auto b = K::call(c); auto ch = l.getChildComponents(); vs_check(a.size() == m.size() && b.size() == m.size() && ch.size() >= m.size(), what); if (a.size() != m.size() || b.size() != m.size() || ch.size() < m.size()) return;
	size_t skip = ch.size() - m.size();
	for (size_t i = 0; i < m.size(); i++) { vs_check(K::at(l, i) == m[i], what); vs_check(K::cat(c, i) == m[i], what); vs_check(a[i] == m[i], what); vs_check(b[i] == m[i], what); vs_check(ch[skip + i] == m[i], what); }
}
template <class K> static string ids(typename K::T& l) { string r; for (size_t i = 0; i < K::n(l); i++) r += K::id(*K::at(l, i)); return r; }
template <class K> static void run() {
	using E = typename K::E; std::vector<sp<E>> pool, m; for (size_t i = 0; i < 5; i++) pool.push_back(K::mk(i)); auto l = newList<K>();
	for (size_t i = 0; i < P("init", 2); i++) { K::add(*l, pool[i]); m.push_back(pool[i]); }
	string log;
	for (size_t k = 0; k < P("ops", 2); k++) {
		size_t op = k == 0 && P("op0", 99) != 99 ? P("op0", 0) : vs_choice(11); sp<E> e = pool[(k + P("init", 2)) % 5]; if (op < 8 && vs_choice(2)) e = pool[0]; auto find = [&](sp<E> x) { return std::find(m.begin(), m.end(), x); };
		log += char('0' + op); bool thrown = false, want = false;
		try {
			if (op == 0) { K::add(*l, e); m.push_back(e); }
			else if (op == 1 || op == 2) { size_t p = vs_choice(m.size() + 2); if (p >= m.size()) { if (K::ins) want = true; else if (op == 1 && p == m.size()) {} else continue; } log += char('0' + p); if (op == 1) K::bef(*l, p, e); else K::aft(*l, p, e); if (!want) m.insert(m.begin() + p + (op == 2), e); }
			else if (op == 3 || op == 4) { if (!K::anch) continue; sp<E> a = pool[vs_choice(4)]; auto it = find(a); want = it == m.end(); if (op == 3) K::befE(*l, a, e); else K::aftE(*l, a, e); if (!want) m.insert(it + (op == 4), e); }
			else if (op == 5) { size_t p = vs_choice(m.size() + 1); if (p >= m.size()) { if (K::rm) want = true; else continue; } log += char('0' + p); K::del(*l, p); if (!want) m.erase(m.begin() + p); }
			else if (op == 6) { if (!K::anch) continue; auto it = find(e); want = it == m.end(); K::delE(*l, e); if (!want) m.erase(it); }
			else if (op == 7) { K::clear(*l); m.clear(); }
			else if (op == 8) { string s; for (auto& x : m) s += K::id(*x); auto c = copyList<K>(*l); auto d = newList<K>(); K::add(*d, K::mk(4)); d->copyFrom(*l); auto f = dynamicCast<typename K::T>(l->clone()); auto g = newList<K>(); K::add(*g, K::mk(4)); *g = *l;
				for (auto& x : { c, d, f, g }) { vs_check(ids<K>(*x) == s, "a copy has the same elements in the same order"); for (size_t i = 0; i < K::n(*x); i++) vs_check(K::at(*x, i) != m[i], "a copy has its own elements"); }
				K::add(*c, K::mk(4)); K::clear(*f); is<K>(*l, m, "a list does not change with its copies"); vs_check(ids<K>(*d) == s, "a copy does not change with another"); }
			else if (op == 9) { string s; for (auto& x : m) s += K::id(*x); typename K::T& self = *l; if (vs_choice(2)) *l = self; else l->copyFrom(self); vs_check(ids<K>(*l) == s, "assigning a list to itself changes nothing"); m = K::all(*l); if (ids<K>(*l) != s) return; for (size_t i = 0; i < 5; i++) for (auto& x : m) if (K::id(*x) == K::id(*pool[i])) pool[i] = x; }
			else { size_t p = vs_choice(m.size() + 1); if (p == m.size()) continue; auto c = copyList<K>(*l); K::del(*c, p); string s; for (size_t i = 0; i < m.size(); i++) if (i != p) s += K::id(*m[i]); vs_check(ids<K>(*c) == s, "an element removed from a copy"); }
		} catch (std::out_of_range&) { thrown = true; } catch (exceptions::no_such_message_id&) { thrown = true; }
		vs_check(thrown == want, "a place that does not exist is refused"); is<K>(*l, m, "the list is what a list is after these operations");
	}
	vs_observe("log", log.data(), log.size()); vs_reach("end");
}
// C42: lists are lists
HARNESS h_lists() { stub::install(); switch (P("kind", 0)) { case 0: run<Addr>(); break; case 1: run<Mbox>(); break; case 2: run<Grp>(); break; case 3: run<Ids>(); break; case 4: run<Words>(); break; default: run<Pars>(); } }
// C42: conversions between lists of addresses and of mailboxes
HARNESS h_lists_conv() {
	stub::install(); addressList a; string flat, top; size_t n = P("n", 3);
	for (size_t i = 0; i < n; i++) if (vs_choice(2)) { auto g = make_shared<mailboxGroup>(text("g")); size_t k = vs_choice(3); for (size_t j = 0; j < k; j++) { g->appendMailbox(Mbox::mk(i + j)); flat += NAMES[i + j]; } a.appendAddress(g); top += "G"; } else { a.appendAddress(Mbox::mk(i)); flat += NAMES[i]; top += NAMES[i]; }
	observe("flat", flat); auto m = a.toMailboxList(); vs_check(ids<Mbox>(*m) == flat, "the mailboxes of a list of addresses, those of its groups included, in order");
	for (auto& x : m->getMailboxList()) for (auto& y : a.getAddressList()) vs_check((void*)dynamic_cast<mailbox*>(y.get()) != (void*)x.get(), "the mailboxes are copies");
	auto b = m->toAddressList(); vs_check(ids<Addr>(*b) == flat, "a list of mailboxes as addresses"); addressList c; c.appendAddress(Mbox::mk(5)); c = *m; vs_check(ids<Addr>(c) == flat, "mailboxes assigned to a list of addresses");
	m->removeAllMailboxes(); vs_check(ids<Addr>(*b) == flat && ids<Addr>(c) == flat, "what was converted does not change"); vs_check(a.getAddressCount() == top.size(), "the list converted does not change"); vs_reach("end");
}
static string low(string s) { for (auto& c : s) c = char(c + ((c >= 'A' && c <= 'Z') ? 32 : 0)); return s; }
template <class T> static void cmp(const T& a, const T& b, bool eq) { vs_check((a == b) == eq, "values are equal exactly if all that makes them is"); vs_check((b == a) == eq, "equality is symmetric"); vs_check((a != b) == !eq, "values differ exactly if they are not equal"); vs_check(a == a && !(a != a), "a value equals itself"); T c(a), d(b); d = a; vs_check(c == a && d == a, "copies are equal"); T& self = d; d = self; vs_check(d == a, "a value assigned to itself is unchanged"); }
// C42: comparisons
HARNESS h_equal() {
	stub::install(); size_t n = P("n", 1); const char* S = "aA\xc3-"; string w = symStrIn(n, S), x = symStrIn(n, S), y = symStrIn(n, S), z = symStrIn(vs_choice(2) ? n : 0, S); charset u("utf-8"), v("us-ascii"), V("UTF-8"); observe("w", w); observe("x", x); observe("y", y); observe("z", z);
	switch (P("kind", 0)) {
	case 0: { mediaType a(w, x), b(y, z); cmp(a, b, low(w) == low(y) && low(x) == low(z)); string t = w + "/" + x; mediaType c(t); cmp(a, c, true); mediaType d("q", "r"); d = t; vs_check(d == c, "a media type assigned from text"); d.setFromString(t); vs_check(d == c, "a media type set from text"); break; }
	case 1: { encoding a(w), b(z); cmp(a, b, low(w) == low(z)); encoding c; c.setName(w); cmp(c, a, true); c = z; cmp(c, b, true); break; }
	case 2: { charset a(w), b(z); cmp(a, b, low(w) == low(z)); vs_check((a == z) == (low(w) == low(z)), "a charset compared with a name"); break; }
	case 3: { contentDisposition a(w), b(z); cmp(a, b, low(w) == low(z)); contentDisposition c; c.setName(w); cmp(c, a, true); c = w; cmp(c, a, true); break; }
	case 4: { messageId a(w, x), b(y, z); cmp(a, b, w == y && x == z); break; }
	case 5: { vmime::path a(w, x), b(y, z); cmp(a, b, w == y && x == z); break; }
	case 6: { size_t c1 = vs_choice(3), c2 = vs_choice(3); const charset* C[] = { &u, &v, &V }; string l1 = vs_choice(2) ? "l" : "", l2 = vs_choice(2) ? "l" : ""; word a(w, *C[c1], l1), b(z, *C[c2], l2); cmp(a, b, w == z && c1 % 2 == c2 % 2 && l1 == l2); break; }
	case 7: { emailAddress a(word(w, u), word(x, u)), b(word(y, u), word(z, u)); cmp(a, b, w == y && x == z); break; }
	case 8: { mailbox a(text(word(w, u)), emailAddress(word(x, u), word("d", u))), b(text(word(y, u)), emailAddress(word(z, u), word("d", u))); cmp(a, b, w == y && x == z); break; }
	case 9: { text a, b; a.appendWord(make_shared<word>(w, u)); if (vs_choice(2)) a.appendWord(make_shared<word>(x, u)); b.appendWord(make_shared<word>(y, u)); if (vs_choice(2)) b.appendWord(make_shared<word>(z, u)); bool eq = a.getWordCount() == b.getWordCount() && w == y && (a.getWordCount() == 1 || x == z); cmp(a, b, eq); break; }
	}
	vs_reach("end");
}
