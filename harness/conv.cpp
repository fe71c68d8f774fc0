// Charset conversion: strings, streams in pieces, filtered streams, validity, IDNA
#include "common.hpp"
#include "gen.hpp"
#include "vmime/charsetConverter.hpp"
#include "vmime/charset.hpp"
namespace stub { void install(); }
static const char* CSN[] = { "utf-8", "us-ascii", "iso-8859-1", "utf-16be", "iso-2022-jp", "UTF-8" };
struct Unit { uint32_t c; bool bad; size_t at, len; };
// what the standard of a charset says of some bytes: characters, and ill-formed pieces
static std::vector<Unit> decode(size_t cs, const string& s) {
	std::vector<Unit> r; size_t n = s.size();
	for (size_t i = 0; i < n; ) {
		unsigned b = (unsigned char)s[i]; Unit u { b, false, i, 1 };
		if (cs == 1) u.bad = b >= 128;
		else if (cs == 3) { if (i + 1 >= n) u.bad = true; else { u.c = b << 8 | (unsigned char)s[i + 1]; u.len = 2; if (u.c >= 0xdc00 && u.c < 0xe000) u.bad = true; else if (u.c >= 0xd800 && u.c < 0xdc00) { if (i + 3 < n) { unsigned d = (unsigned char)s[i + 2] << 8 | (unsigned char)s[i + 3]; if (d >= 0xdc00 && d < 0xe000) { u.c = 0x10000 + ((u.c & 0x3ff) << 10 | (d & 0x3ff)); u.len = 4; } else u.bad = true; } else { u.bad = true; u.len = n - i; } } } }
		else if (cs == 0 && b >= 128) {
			size_t len = b >= 0xf5 || b < 0xc2 ? 1 : b >= 0xf0 ? 4 : b >= 0xe0 ? 3 : 2; unsigned lo = b == 0xe0 ? 0xa0 : b == 0xf0 ? 0x90 : 0x80, hi = b == 0xed ? 0x9f : b == 0xf4 ? 0x8f : 0xbf; size_t k = 1;
			while (k < len && i + k < n) { unsigned t = (unsigned char)s[i + k]; if (t < lo || t > hi) break; lo = 0x80; hi = 0xbf; k++; }
			u.bad = len == 1 || k < len; u.len = k; if (!u.bad) { u.c = b & (0xff >> (len + 1)); for (size_t j = 1; j < len; j++) u.c = u.c << 6 | ((unsigned char)s[i + j] & 63); }
		}
		r.push_back(u); i += u.len;
	}
	return r;
}
static bool canHold(size_t cs, uint32_t c) { return cs == 1 ? c < 128 : cs == 2 ? c < 256 : cs == 4 ? c < 128 || (c >= 0x3041 && c <= 0x3093) : true; }
static void encode(size_t cs, uint32_t c, string& o, bool& jis) {
	if (cs == 1 || cs == 2) o += char(c);
	else if (cs == 3) { if (c >= 0x10000) { unsigned l = 0xd800 + ((c - 0x10000) >> 10), t = 0xdc00 + (c & 0x3ff); o += char(l >> 8); o += char(l); o += char(t >> 8); o += char(t); } else { o += char(c >> 8); o += char(c); } }
	else if (cs == 4) { if (c < 128) { if (jis) o += "\x1b(B"; jis = false; o += char(c); } else { if (!jis) o += "\x1b$B"; jis = true; o += char(0x24); o += char(0x21 + c - 0x3041); } }
	else if (c < 128) o += char(c); else if (c < 0x800) { o += char(0xc0 + (c >> 6)); o += char(0x80 + c % 64); } else if (c < 0x10000) { o += char(0xe0 + (c >> 12)); o += char(0x80 + (c >> 6) % 64); o += char(0x80 + c % 64); } else { o += char(0xf0 + (c >> 18)); o += char(0x80 + (c >> 12) % 64); o += char(0x80 + (c >> 6) % 64); o += char(0x80 + c % 64); }
}
static bool dropped(uint32_t c) { return c == 0xad || (c >= 0x200b && c <= 0x200f) || (c >= 0x202a && c <= 0x202e) || (c >= 0x2060 && c <= 0x206f) || c == 0x34f || c == 0x61c || c == 0x115f || c == 0x1160 || c == 0x17b4 || c == 0x17b5 || (c >= 0x180b && c <= 0x180f) || c == 0x3164 || (c >= 0xfe00 && c <= 0xfe0f) || c == 0xfeff || c == 0xffa0 || (c >= 0xfff0 && c <= 0xfff8) || (c >= 0x1bca0 && c <= 0x1bca3) || (c >= 0x1d173 && c <= 0x1d17a) || (c >= 0xe0000 && c <= 0xe0fff); } // invisible characters: left out when they cannot be written
static string input() {
	static const char* F[] = { "x", "\xc3\xa9", "\xe3\x81\x82", "\xff", "\xe3\x81\x82z" }; string s; size_t n = P("n", 3), from = P("from", 0); for (size_t i = 0; i < P("pre", 0); i++) { const char* f = F[P("fill", 0)]; s += f[i % strlen(f)]; }
	if (P("set", 0) == 1) s += symStrIn(n, "a\x80\x81\x82\xa0\xc3\xe3\xf0"); else if (P("set", 0) == 2) { for (size_t i = 0; i < n; i++) { if (vs_choice(2)) s += symStrIn(1, "az~"); else { string t = "\xe3\x81"; t += symStrIn(1, "\x81\x82\x8f\xbf"); s += t; } } } else s += symStr(n);
	s += string(P("post", 0), from == 3 ? 0 : 'y'); return s;
}
struct pieces : public utility::inputStream {
	string s; size_t at = 0; bool late; explicit pieces(const string& x, bool l) : s(x), late(l) {} bool done = false;
	bool eof() const override { return late ? done : at >= s.size(); } void reset() override { at = 0; done = false; }
	size_t read(byte_t* const d, const size_t n) override { size_t m = std::min(n, s.size() - at); if (m == 0) done = true; if (m > 1 && at >= P("pre", 0) && at < P("pre", 0) + 8) m = 1 + vs_choice(std::min(m, (size_t)3)); if (m > s.size() - at) m = s.size() - at; memcpy(d, s.data() + at, m); at += m; return m; }
	size_t skip(const size_t) override { return 0; }
};
// C34: the bytes of a text in one charset become those of the same text in another, however they come
HARNESS h_conv() {
	stub::install();
	size_t from = P("from", 0), to = P("to", 2); bool strict = P("strict", 0); string s = input(); observe("s", s);
	charsetConverterOptions o; o.silentlyReplaceInvalidSequences = !strict; string sub = "?"; if (P("sub", 0)) { sub = "<!>"; o.invalidSequence = sub; }
	auto U = decode(from == 5 ? 0 : from, s); string want; bool jis = false, failed = false; size_t firstBad = s.size(); bool unmapped = false; string strictOut; bool strictJis = false;
	for (auto& u : U) {
		if (to == 4) vs_assume(u.bad || u.c == 0 || (u.c >= 0x20 && u.c < 128) || (u.c >= 0x3041 && u.c <= 0x3093));
		bool hold = canHold(to == 5 ? 0 : to, u.bad ? 0xfffd : u.c);
		if (u.bad && !failed) { failed = true; firstBad = u.at; strictOut = want; strictJis = jis; } else if (!u.bad && !hold && !dropped(u.c) && !failed) { failed = unmapped = true; strictOut = want; }
		if (hold) encode(to == 5 ? 0 : to, u.bad ? 0xfffd : u.c, want, jis); else if (u.bad || !dropped(u.c)) for (char c : sub) encode(to, (unsigned char)c, want, jis);
	}
	if (to == 4 && jis) want += "\x1b(B"; failed = failed && strict;
	string out = "old"; bool thrown = false; charsetConverter::status st; st.inputBytesRead = 77;
	try {
		switch (P("way", 0)) {
		case 0: { auto c = charsetConverter::create(charset(CSN[from]), charset(CSN[to]), o); if (P("twice", 0)) { string x; try { c->convert("\xe3" "abc\xe3", x); } catch (exceptions::illegal_byte_sequence_for_charset&) {} } c->convert(s, out, &st); break; }
		case 1: { auto c = charsetConverter::create(charset(CSN[from]), charset(CSN[to]), o); pieces in(s, P("late", 0)); out.clear(); utility::outputStreamStringAdapter os(out); c->convert(in, os, &st); break; }
		case 2: { out.clear(); utility::outputStreamStringAdapter os(out); auto c = charsetConverter::create(charset(CSN[from]), charset(CSN[to]), o); auto f = c->getFilteredOutputStream(os, o); size_t i = 0; while (i < s.size()) { size_t m = i < P("pre", 0) && P("lump", 1) ? P("pre", 0) : i >= P("pre", 0) + 8 ? s.size() - i : i + 1 < s.size() ? 1 + vs_choice(std::min(s.size() - i, (size_t)3)) : 1; f->write(s.data() + i, m); i += m; if (P("zero", 0)) f->write(s.data(), 0); } f->flush(); break; }
		case 3: charset::convert(s, out, charset(CSN[from]), charset(CSN[to]), o); break;
		case 4: { pieces in(s, P("late", 0)); out.clear(); utility::outputStreamStringAdapter os(out); charset::convert(in, os, charset(CSN[from]), charset(CSN[to]), o); break; }
		}
	} catch (exceptions::illegal_byte_sequence_for_charset&) { thrown = true; }
	observe("out", out); if (P("way", 0) == 3 && from % 5 == to % 5) { checkEq(out, s, "a text in the charset asked for is not changed"); vs_reach("end"); return; }
	vs_check(thrown == failed, "illegal text is reported exactly when asked for");
	if (!thrown) { checkEq(out, want, "the text is the same in the other charset"); if (P("way", 0) < 2) { vs_check(st.inputBytesRead == s.size(), "all bytes are counted as read"); vs_check(st.outputBytesWritten == out.size(), "all bytes are counted as written"); } }
	else { if (P("way", 0) == 2) vs_check(strictOut.compare(0, out.size(), out) == 0, "what was written is of the text before the illegal bytes"); else if (!unmapped) { if (strictJis && out.size() > strictOut.size()) strictOut += "\x1b(B"; checkEq(out, strictOut, "the text before the illegal bytes is converted"); if (P("way", 0) < 2) vs_check(st.inputBytesRead == firstBad, "the place of the illegal bytes is told"); } if (P("way", 0) < 2) vs_check(st.outputBytesWritten == out.size(), "the bytes written are counted"); }
	vs_reach("end");
}
// C34: validity
HARNESS h_conv_valid() {
	stub::install();
	size_t from = P("from", 0); string s = input(); observe("s", s); size_t at = s.size(); for (auto& u : decode(from, s)) if (u.bad) { at = u.at; break; }
	string::size_type got = 99; bool v = charset(CSN[from]).isValidText(s, vs_choice(2) ? &got : NULL); vs_check(v == (at == s.size()), "a text is valid if all its bytes are"); if (got != 99) vs_check(got == at, "the first invalid byte is told");
	bool t = false; try { string o; charset::convert("a", o, charset("no-such-charset"), charset("utf-8")); } catch (exceptions::charset_conv_error&) { t = true; } vs_check(t, "an unknown charset is reported");
	vs_reach("end");
}
// C34: text of a charset with escape sequences, in pieces
HARNESS h_conv_jp() {
	stub::install(); string jp, utf; bool jis = false, d = false; size_t n = P("n", 3);
	for (size_t i = 0; i < P("pre", 0); i++) { encode(4, 'x', jp, jis); encode(0, 'x', utf, d); }
	for (size_t i = 0; i < n; i++) { uint32_t c = vs_choice(2) ? 0x3041 + vs_range(0, 0x52) : vs_range(0x20, 0x7e); encode(4, c, jp, jis); encode(0, c, utf, d); }
	if (jis) jp += "\x1b(B"; observe("jp", jp); string out; charsetConverterOptions o; auto c = charsetConverter::create(charset("iso-2022-jp"), charset("utf-8"), o);
	if (P("way", 0) == 0) c->convert(jp, out);
	else if (P("way", 0) == 1) { pieces in(jp, P("late", 0)); utility::outputStreamStringAdapter os(out); c->convert(in, os); }
	else { utility::outputStreamStringAdapter os(out); auto f = c->getFilteredOutputStream(os, o); for (size_t i = 0; i < jp.size(); ) { size_t m = i < P("pre", 0) ? P("pre", 0) : i + 1 < jp.size() ? 1 + vs_choice(2) : 1; f->write(jp.data() + i, m); i += m; } f->flush(); }
	checkEq(out, utf, "text with escape sequences is converted"); vs_reach("end");
}
static string puny(const std::vector<uint32_t>& in) { // RFC 3492
	string o; for (uint32_t c : in) if (c < 128) o += char(c); size_t b = o.size(), h = b; if (b) o += '-'; uint32_t n = 128, delta = 0, bias = 72;
	while (h < in.size()) {
		uint32_t m = 0xffffffff; for (uint32_t c : in) if (c >= n && c < m) m = c; delta += (m - n) * (h + 1); n = m;
		for (uint32_t c : in) { if (c < n) delta++; else if (c == n) { uint32_t q = delta; for (uint32_t k = 36;; k += 36) { uint32_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (q < t) break; uint32_t x = t + (q - t) % (36 - t); o += char(x + (x < 26 ? 'a' : '0' - 26)); q = (q - t) / (36 - t); } o += char(q + (q < 26 ? 'a' : '0' - 26));
			uint32_t e = h == b ? delta / 700 : delta / 2; e += e / (h + 1); uint32_t k = 0; while (e > 455) { e /= 35; k += 36; } bias = k + 36 * e / (e + 38); delta = 0; h++; } }
		delta++; n++;
	}
	return o;
}
// C34: internationalised domain labels
HARNESS h_idna() {
	stub::install(); std::vector<uint32_t> v; string u, x; bool d = false; size_t n = P("n", 2); uint32_t lo = P("lo", 0x80), hi = P("hi", 0x7ff);
	for (size_t i = 0; i < n; i++) { uint32_t c; if ((P("ascii", 0) >> i) & 1) c = (unsigned char)(P("pick", 0) ? "az3"[vs_choice(3)] : symStrIn(1, "a-z")[0]); else if (P("pick", 0)) { static const uint32_t X[] = { 0xe9, 0xdf, 0x80, 0x7ff, 0x3042, 0x5b57, 0x10ffff }; c = X[vs_choice(7)]; } else { string t = symStr(3); c = (unsigned char)t[0] | (unsigned char)t[1] << 8 | (unsigned char)t[2] << 16; vs_assume(c >= lo && c <= hi); vs_assume(c < 0xd800 || c > 0xdfff); } v.push_back(c); encode(0, c, u, d); }
	observe("u", u); charset::convert(u, x, charset("utf-8"), charset("idna")); observe("x", x); bool all = P("ascii", 0) == (1u << n) - 1;
	checkEq(x, all ? u : "xn--" + puny(v), "a label is written as RFC 3492 says"); string y; charset::convert(x, y, charset("idna"), charset("utf-8")); checkEq(y, u, "a label is read back"); vs_reach("end");
}
HARNESS h_idna_bad() {
	stub::install(); string s; if (!P("plain", 0)) s = "xn--"; if (P("pre", 0)) s += string("ab-").substr(0, P("pre", 0)); if (P("any", 0) == 2) { for (size_t i = 0; i < P("n", 3); i++) s += "a9Zk\x80"[vs_choice(5)]; } else s += P("any", 0) ? symStr(P("n", 3)) : symStrIn(P("n", 3), "a9Zz-b"); observe("s", s); string y; charset::convert(s, y, charset("idna"), charset("utf-8")); observe("y", y);
	bool bad = false; for (auto& u : decode(0, y)) if (u.bad) bad = true; if (bad) checkEq(y, s, "what is not a label is left as it is"); vs_check(!y.empty() || s.empty(), "no text vanishes");
	string z; charset::convert(y, z, charset("utf-8"), charset("idna")); vs_check(!z.empty() || s.empty(), "no text vanishes when written"); vs_reach("end");
}
