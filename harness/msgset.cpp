// C23: message sets
#include "common.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/pop3/POP3Utils.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
#include "vmime/net/messageSet.hpp"
namespace stub { void install(); }
using namespace vmime::net; typedef net::message::uid muid; typedef std::pair<size_t, size_t> rng;
static const size_t INF = (size_t)-1;
struct En : messageSetEnumerator { std::vector<rng> n; std::vector<std::pair<string, string>> u; void enumerateNumberMessageRange(const numberMessageRange& r) override { n.push_back({ r.getFirst(), r.getLast() }); } void enumerateUIDMessageRange(const UIDMessageRange& r) override { u.push_back({ (string)r.getFirst(), (string)r.getLast() }); } };
static size_t num(const string& s) { size_t v = 0; for (char c : s) v = v * 10 + (size_t)(c - '0'); return v; }
static string dec(size_t v) { string r; do { r.insert(r.begin(), char('0' + v % 10)); v /= 10; } while (v); return r; }
static void checkRanges(const std::vector<rng>& r, const std::vector<size_t>& l, const char* label) {
	uint64_t x = vs_u64(); vs_assume(x >= 1); int in = 0, want = 0, ok = 1; for (auto& a : r) { in = vs_or(in, vs_and(a.first <= x, x <= a.second)); ok = vs_and(ok, a.first <= a.second); } for (size_t v : l) want = vs_or(want, v == x);
	vs_check(in == want, label); vs_check(ok, "ranges go upwards"); for (size_t i = 1; i < r.size(); i++) vs_check(r[i - 1].second + 1 < r[i].first, "ranges of a set are in order, apart and merged");
}
HARNESS h_mset_num() {
	stub::install(); std::vector<size_t> l; size_t n = vs_choice(P("n", 3) + 1); unsigned wide = P("wide", 0); for (size_t i = 0; i < n; i++) { size_t v = wide == 1 ? vs_u64() : wide == 2 ? 0xfffffffdu + (size_t)vs_range(0, 4) : (size_t)vs_range(1, 200); vs_assume(v >= 1 && v != INF); l.push_back(v); }
	messageSet s = messageSet::byNumber(l); En e; s.enumerate(e);
	checkRanges(e.n, l, "a set of numbers holds the numbers given and no other"); vs_check(e.u.empty(), "a set of numbers holds no UID"); vs_check(s.isEmpty() == l.empty(), "a set is empty if and only if nothing was given"); vs_check(s.isNumberSet() == !l.empty() && !s.isUIDSet(), "a set of numbers is told from a set of UIDs"); vs_check(s.getRangeCount() == e.n.size(), "the ranges are counted");
	vs_reach("end");
}
static string uidText(unsigned k) {
	switch (k) {
	case 0: { string s = symStrIn(1, "123456789", 9); s += symStrIn(vs_choice(2), "0123456789", 10); return s; }
	case 1: { string s = "42949672"; s += symStrIn(2, "0123456789", 10); return s; }
	case 2: { string s = vs_choice(2) ? "0" : ""; s += symStrIn(vs_choice(2), "0123456789", 10); return s; }
	case 3: return symStr(1);
	case 4: { string s = "1"; s += "0"; s += symStr(1); return s; }
	case 5: { string s = "1844674407370955161"; s += symStrIn(1, "0123456789", 10); return s; }
	case 6: { string s = "9999999999999999999999"; s += symStrIn(1, "0123456789", 10); return s; }
	case 7: { string s = symStrIn(1, "23", 2); return s; }
	case 8: { string s = "429496729"; s += symStrIn(1, "56", 2); return s; }
	}
	return "";
}
HARNESS h_mset_uid() {
	stub::install(); std::vector<muid> l; std::vector<string> t; size_t n = P("n", 2), ks = P("ks", 0); for (size_t i = 0; i < n; i++, ks /= 10) { t.push_back(uidText(ks % 10)); l.push_back(muid(t.back())); observe("uid", t.back()); }
	messageSet s = messageSet::byUID(l); En e; s.enumerate(e); vs_check(e.n.empty(), "a set of UIDs holds no number"); vs_check(s.isUIDSet() == !l.empty() && !s.isNumberSet() && s.isEmpty() == l.empty(), "a set of UIDs is told from a set of numbers");
	bool numeric = true; std::vector<size_t> v; for (auto& u : t) { if (u.empty() || u.size() > 10 || u[0] == '0') numeric = false; for (char c : u) if (c < '0' || c > '9') numeric = false; if (numeric) { v.push_back(num(u)); if (v.back() > 0xffffffffu) numeric = false; } }
	if (numeric) { std::vector<rng> r; for (auto& a : e.u) { for (auto* z : { &a.first, &a.second }) vs_check(!z->empty() && (*z)[0] != '0', "a UID of a set is a number"); r.push_back({ num(a.first), num(a.second) }); } checkRanges(r, v, "a set of UIDs holds the UIDs given and no other"); }
	else { for (auto& u : t) { bool f = false; for (auto& a : e.u) if (same(a.first, u) && same(a.second, u)) f = true; vs_check(f, "a set of UIDs that are not all numbers holds every one"); } for (auto& a : e.u) { vs_check(same(a.first, a.second), "UIDs that are not all numbers are not merged"); bool f = false; for (auto& u : t) if (same(a.first, u)) f = true; vs_check(f, "a set of UIDs that are not all numbers holds no other"); } }
	vs_reach("end");
}
// a set as histories of ranges, and its text
static size_t val(unsigned k) { static const size_t V[] = { 1, 2, 9, 10, 11, 99, 100, 4294967295u }; return V[k]; }
HARNESS h_mset_text() {
	stub::install(); unsigned uid = P("uid", 0); size_t n = 1 + vs_choice(P("n", 2)); messageSet s = messageSet::empty(); string want; std::vector<rng> rs;
	for (size_t i = 0; i < n; i++) {
		size_t a = val(vs_choice(P("vals", 8))), b = a; unsigned k = vs_choice(3); if (k == 1) b = INF; else if (k == 2) { b = val(vs_choice(P("vals", 8))); if (b < a) vs_end(); }
		if (uid) { if (k == 0) s.addRange(UIDMessageRange(muid(dec(a)))); else s.addRange(UIDMessageRange(muid(dec(a)), muid(b == INF ? string("*") : dec(b)))); } else if (k == 0) s.addRange(numberMessageRange(a)); else s.addRange(numberMessageRange(a, b));
		if (i) want += ","; want += dec(a); if (b != a) want += ":" + (b == INF ? string("*") : dec(b)); rs.push_back({ a, b });
	}
	checkEq(net::imap::IMAPUtils::messageSetToSequenceSet(s), want, "the text of a set is its sequence set");
	bool refused = false; try { if (uid) s.addRange(numberMessageRange(1)); else s.addRange(UIDMessageRange(muid("1"))); } catch (std::invalid_argument&) { refused = true; } vs_check(refused && s.getRangeCount() == n, "numbers and UIDs are not mixed");
	vs_reach("end");
}
HARNESS h_mset_list() {
	stub::install(); size_t n = vs_choice(P("n", 2) + 1), cnt = (size_t)vs_concrete(vs_range(0, 5)); messageSet s = messageSet::empty(); std::vector<size_t> want;
	for (size_t i = 0; i < n; i++) { size_t a = 1 + vs_choice(5), b = vs_choice(2) ? INF : a + vs_choice(3); s.addRange(numberMessageRange(a, b)); for (size_t j = a; j <= (b == INF ? cnt : b); j++) want.push_back(j); }
	vs_check(net::pop3::POP3Utils::messageSetToNumberList(s, cnt) == want, "the numbers of a set, for POP3"); vs_check(net::maildir::maildirUtils::messageSetToNumberList(s, cnt) == want, "the numbers of a set, for maildir");
	vs_reach("end");
}
static string show(const messageSet& s) { return net::imap::IMAPUtils::messageSetToSequenceSet(s); }
HARNESS h_mset_ops() { // copies are equal and independent
	stub::install(); std::vector<messageSet> v; std::vector<string> t; for (int i = 0; i < 3; i++) { v.push_back(messageSet::empty()); t.push_back(""); }
	for (size_t i = 0, n = P("ops", 3); i < n; i++) {
		size_t a = vs_choice(3), b = vs_choice(3);
		switch (vs_choice(4)) {
		case 0: v[a] = v[b]; t[a] = t[b]; break;
		case 1: { size_t x = 1 + i * 3; v[a].addRange(numberMessageRange(x)); t[a] += (t[a].empty() ? "" : ",") + dec(x); break; }
		case 2: { messageSet c(v[b]); v[a] = c; t[a] = t[b]; break; }
		case 3: v[a] = messageSet::byNumber(7, 9); t[a] = "7:9"; break;
		}
		for (int j = 0; j < 3; j++) checkEq(show(v[j]), t[j], "sets are copied whole and stay independent");
	}
	vs_reach("end");
}
HARNESS h_mset_bad() {
	stub::install(); uint64_t a = vs_u64(), b = vs_u64(); bool bad = false; try { messageSet s = messageSet::byNumber(a, b); En e; s.enumerate(e); vs_check(e.n.size() == 1 && e.n[0].first == a && e.n[0].second == b, "a range is kept"); } catch (std::invalid_argument&) { bad = true; }
	int want = a < 1 || a == INF || (b != INF && b < a); vs_check(bad == (want != 0), "a range that is none is refused");
	bad = false; try { messageSet::byNumber(a); } catch (std::invalid_argument&) { bad = true; } vs_check(bad == (a < 1) || a == INF, "zero is refused as a number");
	std::vector<size_t> l; l.push_back(a); l.push_back(b); bad = false; try { messageSet::byNumber(l); } catch (std::invalid_argument&) { bad = true; } vs_check(bad == (a < 1 || b < 1 || a == INF || b == INF), "a list with zero or no number is refused");
	vs_reach("end");
}
