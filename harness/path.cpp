// C19: paths
#include "common.hpp"
#include "gen.hpp"
#include "vmime/utility/path.hpp"
namespace stub { void install(); }
typedef utility::path upath; typedef upath::component comp; typedef std::vector<string> L;
// a component, and its meaning in UTF-8
static comp symComp(string& mean) {
	unsigned k = vs_choice(P("kinds", 3)); string v;
	if (k == 0) { v = symStrIn(1, string("ab")); mean = v; return comp(v, charset("utf-8")); }
	if (k == 1) { v = symStrIn(1, string("a\xe9", 2)); mean = toUtf8(v, 1); return comp(v, charset("iso-8859-1")); }
	if (k == 2) { v = "\xc3"; v += symStrIn(1, string("\xa9\xa8", 2)); mean = v; return comp(v, charset("utf-8")); }
	v = symStr(2); mean = v; return comp(v, charset("utf-8"));
}
static upath symPath(L& l, size_t max, size_t min = 0) { upath p; for (size_t n = min + vs_choice(max + 1 - min), i = 0; i < n; i++) { string m; comp c = symComp(m); p /= c; l.push_back(m); } return p; }
static int eq(const L& a, const L& b, size_t n) { int k = 1; for (size_t i = 0; i < n; i++) k = vs_and(k, same(a[i], b[i])); return k; }
static void is(const upath& p, const L& l, const char* label) { vs_check(p.getSize() == l.size(), label); for (size_t i = 0; i < l.size(); i++) checkEq(p.getComponentAt(i).getConvertedText(charset("utf-8")), l[i], label); vs_check(p.isEmpty() == l.empty() && p.isRoot() == l.empty(), label); }
HARNESS h_path_ops() {
	stub::install();
	L a, b; upath p = symPath(a, P("max", 2)), q = symPath(b, P("max", 2)); is(p, a, "a path has the components given");
	{ upath r = p / q; L c = a; c.insert(c.end(), b.begin(), b.end()); is(r, c, "appending a path"); is(p, a, "appending leaves the first path as it was"); upath s(p); s /= q; is(s, c, "appending in place"); vs_check(r == s && !(r != s), "equal paths are equal"); vs_check(p.isParentOf(r) == !b.empty(), "a path is the parent of its extensions"); vs_check(p.isDirectParentOf(r) == (b.size() == 1), "a path is the direct parent of its direct extensions"); if (b.size() == 1) vs_check(r.getParent() == p, "the parent of a child is the path"); }
	{ upath s(p); s /= s; L c = a; c.insert(c.end(), a.begin(), a.end()); is(s, c, "appending a path to itself"); s = s; is(s, c, "assigning a path to itself"); }
	{ L c = a; if (!c.empty()) c.pop_back(); is(p.getParent(), c, "the parent of a path"); if (!a.empty()) { checkEq(p.getLastComponent().getConvertedText(charset("utf-8")), a.back(), "the last component of a path"); vs_check(p.getParent().isDirectParentOf(p), "the parent of a path is its direct parent"); } }
	{ upath s; s = p; is(s, a, "assigning a path"); string m; comp c = symComp(m); s /= c; is(p, a, "a copy is independent"); s = c; is(s, L(1, m), "assigning a component"); is(upath(c), L(1, m), "a path of one component"); }
	int same_ = a.size() == b.size() ? eq(a, b, a.size()) : 0;
	vs_check((int)(p == q) == same_, "paths are equal when their components are"); vs_check((int)(p != q) == !same_, "paths differ when their components do");
	vs_check((int)p.isParentOf(q) == (a.size() < b.size() ? eq(a, b, a.size()) : 0), "a path is the parent of exactly its extensions");
	vs_check((int)p.isDirectParentOf(q) == (a.size() + 1 == b.size() ? eq(a, b, a.size()) : 0), "a path is the direct parent of exactly its direct extensions");
	vs_reach("end");
}
HARNESS h_path_rename() {
	stub::install();
	L a, o, n; upath p = symPath(a, P("max", 3), P("min", 0)), q = symPath(o, P("omax", 2)), r = symPath(n, P("nmax", 1));
	bool under = o.size() <= a.size() && !a.empty() && eq(a, o, o.size()); upath s(p); s.renameParent(q, r);
	L w = a; if (under) { w = n; w.insert(w.end(), a.begin() + o.size(), a.end()); }
	is(s, w, "renaming changes exactly the paths under the one renamed"); is(q, o, "renaming leaves the old path alone"); is(r, n, "renaming leaves the new path alone");
	vs_reach("end");
}
HARNESS h_path_text() {
	stub::install();
	static const char* SEP[] = { "/", ".", "::", "\\" }; string sep = SEP[P("sep", 0)]; charset cs(P("latin", 0) ? "iso-8859-1" : "utf-8");
	if (P("kind", 0) == 0) { // any text
		string t = symStrIn(vs_choice(P("n", 4) + 1), sep + "ab:"); observe("t", t); upath p = upath::fromString(t, sep, cs); L l; string cur;
		for (size_t i = 0; i <= t.size(); ) { if (i == t.size() || t.compare(i, sep.size(), sep) == 0) { if (!cur.empty()) l.push_back(cur); cur = ""; i += i == t.size() ? 1 : sep.size(); } else cur += t[i++]; }
		is(p, l, "a text is divided at its separators"); string u = p.toString(sep, cs); observe("u", u); L v; upath q = upath::fromString(u, sep, cs); vs_check(p == q, "a path written and read back is the same");
	} else { L l; upath p; for (size_t n = vs_choice(3), i = 0; i < n; i++) { string m; comp c = symComp(m); vs_assume(m.find(sep) == string::npos); p /= c; l.push_back(m); }
		string t = p.toString(sep, cs); observe("t", t); upath q = upath::fromString(t, sep, cs); vs_check(p == q, "a path written and read back is the same"); is(q, l, "a path written and read back has the same components"); }
	vs_reach("end");
}
