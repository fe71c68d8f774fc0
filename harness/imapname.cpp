// C20: names of IMAP mailboxes; C23: message sets
#include "common.hpp"
#include "gen.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/messageSet.hpp"
namespace stub { void install(); }
using net::imap::IMAPUtils; typedef net::folder::path fpath; typedef fpath::component fcomp;
static const char SEPS[] = "/.^|\\";
static void cpUtf8(string& o, unsigned c) { if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
// reads modified UTF-7 as RFC 3501 5.1.3 defines it; false if the text is not the one form it allows
static int strictDecode(const string& t, string& out) {
	static const char* B = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
	int ok = 1; size_t i = 0;
	while (i < t.size()) {
		unsigned char c = t[i++];
		if (c != '&') { ok = vs_and(ok, vs_and(c >= 0x20, c < 0x7f)); out += char(c); continue; }
		if (i < t.size() && t[i] == '-') { out += '&'; i++; continue; }
		size_t e = t.find('-', i); if (e == string::npos) return 0;
		unsigned long acc = 0; int nb = 0; unsigned hi = 0;
		for (; i < e; i++) {
			unsigned v = 64; { unsigned char d = t[i]; static unsigned char T[256]; if (!T['B']) for (int k = 0; k < 64; k++) T[(unsigned char)B[k]] = (unsigned char)(k + 1); v = T[d]; ok = vs_and(ok, v != 0); v = (v - 1) & 63; }
			acc = acc << 6 | v; nb += 6;
			if (nb >= 16) { nb -= 16; unsigned u = acc >> nb & 0xffff; if (hi) { ok = vs_and(ok, (u & 0xfc00) == 0xdc00); cpUtf8(out, 0x10000 + ((hi - 0xd800) << 10) + (u - 0xdc00)); hi = 0; } else if ((u & 0xfc00) == 0xd800) hi = u; else { ok = vs_and(ok, (u & 0xfc00) != 0xdc00); cpUtf8(out, u); } }
		}
		if (hi || nb >= 6) return 0; ok = vs_and(ok, (acc & ((1u << nb) - 1)) == 0); i++;
	}
	return ok;
}
// characters of a name
static string nameChar(unsigned k, char sep) {
	switch (k) {
	case 0: return symStrIn(1, string("a&-+~\\") + sep);
	case 1: return symChar(2); case 2: return symChar(3); case 3: return symChar(4); case 4: return symStrIn(1, range(0x20, 0x7e)); case 5: return symStrIn(1, range(1, 31) + "\x7f");
	case 6: { string r = "\xEE"; r += symStrIn(2, range(0x80, 0xBF)); return r; } case 7: { string r = "\xF4"; r += symStrIn(1, range(0x80, 0x8F)); r += symStrIn(2, range(0x80, 0xBF)); return r; }
	}
	return "";
}
static string name(size_t n, char sep) { static const unsigned K[][3] = { { 0, 1, 2 }, { 0, 3, 7 }, { 4, 4, 5 }, { 1, 2, 3 }, { 0, 0, 6 }, { 0, 0, 0 } }; const unsigned* k = K[P("cls", 0)]; static const char* PRE[] = { "", "a", "\xc3\xa9", "\xe4\xb8\xad\xe6\x96\x87", "&", "\xf0\x9f\x98\x80" }; string s = PRE[P("npre", 0)]; for (size_t i = 0; i < n; i++) s += nameChar(k[k[0] == k[2] ? 0 : vs_choice(3)], sep); if (P("npost", 0)) s += PRE[P("npost", 0)]; return s; }
HARNESS h_utf7_rt() {
	stub::install(); char sep = SEPS[P("sep", 0)];
	string n = name(1 + vs_choice(P("n", 2)), sep); observe("n", n);
	if (n.find("+-") != string::npos) vs_known("K02");
	string t = IMAPUtils::toModifiedUTF7(sep, fcomp(n, charset("utf-8"))); observe("t", t);
	int p = 1; for (char c : t) { unsigned char u = (unsigned char)c; p = vs_and(p, vs_and(u >= 0x20, u < 0x7f)); } vs_check(p, "an encoded name is printable ASCII");
	vs_check(t.find(sep) == string::npos, "an encoded name does not hold the separator");
	string d; vs_check(strictDecode(t, d), "an encoded name is modified UTF-7"); checkEq(d, n, "an encoded name means the name to other programs");
	fcomp c = IMAPUtils::fromModifiedUTF7(t); checkEq(c.getBuffer(), n, "a name encoded and decoded is the same"); vs_check(c.getCharset() == charset("utf-8"), "a decoded name is in UTF-8");
	vs_reach("end");
}
HARNESS h_utf7_path() {
	stub::install(); char sep = SEPS[P("sep", 0)];
	fpath p; size_t k = 1 + vs_choice(2); std::vector<string> l; for (size_t i = 0; i < k; i++) { string n = name(1 + (i == 0 ? vs_choice(P("n", 1)) : 0), sep); if (n.find("+-") != string::npos) vs_known("K02"); l.push_back(n); bool lat = P("latin", 0) && i == 0; if (lat) { l.back() = toUtf8("\xe9" + n, 1); p /= fcomp("\xe9" + n, charset("iso-8859-1")); } else p /= fcomp(n, charset("utf-8")); }
	string t = IMAPUtils::pathToString(sep, p); observe("t", t); size_t c = 0; for (char x : t) c += x == sep; vs_check(c == k - 1, "a mailbox name holds the separator between components only");
	fpath q = IMAPUtils::stringToPath(sep, t); vs_check(q.getSize() == k, "a path has as many components after reading its mailbox name"); for (size_t i = 0; i < k; i++) checkEq(q[i].getBuffer(), l[i], "the components of a path are kept"); vs_check(q == p, "a path is the same after reading its mailbox name");
	vs_reach("end");
}
HARNESS h_utf7_foreign() { // any mailbox name a server may list
	stub::install(); static const char* PRE[] = { "", "a", "&AOk", "&AOk-", "&2D3", "&2D3eA", "&", "&2D0", "&3gA", "x&-" }; static const char* SUF[] = { "", "-", "A", "AB-z", "&AOk-" };
	string t = string(PRE[P("pfx", 0)]) + (P("set", 0) ? symStrIn(vs_choice(P("n", 2) + 1), string("&-+,A9z~\\")) : symStr(vs_choice(P("n", 2) + 1))) + SUF[P("sfx", 0)]; observe("t", t);
	fcomp c = IMAPUtils::fromModifiedUTF7(t); observe("c", c.getBuffer()); int asc = 1; for (char x : t) asc = vs_and(asc, (unsigned char)x < 0x80); if (asc) vs_check(validUtf8(c.getBuffer()), "a decoded name is valid UTF-8"); vs_check(c.getBuffer().size() <= 3 * t.size(), "a decoded name is not longer than can be");
	string d; if (strictDecode(t, d)) { if (t.find("+-") != string::npos) vs_known("K02"); checkEq(c.getBuffer(), d, "a name encoded by another program is decoded to what it means"); }
	vs_reach("end");
}
