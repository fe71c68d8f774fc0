#pragma once
// generators of symbolic texts, shared by harnesses
#include "common.hpp"
[[maybe_unused]] static string range(int a, int b) { string s; for (int i = a; i <= b; i++) s.push_back(char(i)); return s; }
// one character of a class: 0 printable ASCII, 1 blank, 2/3/4 bytes of UTF-8, 5 any ASCII byte, 6 ISO-8859-1 byte, 7 characters RFC 2047 is about, 8 letter
[[maybe_unused]] static string symChar(unsigned cls) {
	switch (cls) {
	case 0: return symStrIn(1, range(0x21, 0x7e));
	case 1: return " ";
	case 2: { string r = symStrIn(1, range(0xC2, 0xDF)); r += symStrIn(1, range(0x80, 0xBF)); return r; }
	case 3: { string r = symStrIn(1, range(0xE1, 0xEC)); r += symStrIn(2, range(0x80, 0xBF)); return r; }
	case 4: { string r = "\xF0"; r += symStrIn(1, range(0x90, 0xBF)); r += symStrIn(2, range(0x80, 0xBF)); return r; }
	case 5: return symStrIn(1, range(0, 0x7f));
	case 6: return symStrIn(1, range(0xA0, 0xFF));
	case 7: return symStrIn(1, "=?_ \"\t");
	case 8: return symStrIn(1, range('a', 'z'));
	}
	return "";
}
[[maybe_unused]] static const char* CHARSETS[] = { "utf-8", "iso-8859-1", "us-ascii" };
// a text: filler of `pre` fixed characters, then n characters of classes from the bit mask
[[maybe_unused]] static string symText(size_t n, unsigned mask) {
	std::vector<unsigned> cl; for (unsigned i = 0; i < 9; i++) if (mask >> i & 1) cl.push_back(i);
	string s; for (size_t i = 0; i < n; i++) s += symChar(cl.size() == 1 ? cl[0] : cl[vs_choice(cl.size())]);
	return s;
}
[[maybe_unused]] static string filler(size_t n, unsigned kind) {
	string s; for (size_t i = 0; i < n; i++) switch (kind) { case 0: s += "x"; break; case 1: s += (i % 7 == 6 ? " " : "x"); break; case 2: s += "\xc3\xa9"; break; case 3: s += "\xe4\xb8\xad"; break; case 4: s += (i % 2 ? "\xc3\xa9" : "_"); break; case 5: s += "\xe9"; break; case 6: s += (i % 2 ? "x" : " "); break; }
	return s;
}
[[maybe_unused]] static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
// runs of blanks become one space; leading and trailing blanks are dropped
[[maybe_unused]] static string squeeze(const string& s) {
	string r; bool sp = false;
	for (char c : s) { if (blank(c)) sp = true; else { if (sp && !r.empty()) r.push_back(' '); sp = false; r.push_back(c); } }
	return r;
}
[[maybe_unused]] static string unblank(const string& s) { string r; for (char c : s) if (!blank(c)) r.push_back(c); return r; }
[[maybe_unused]] static string toUtf8(const string& s, unsigned ch) {
	if (ch != 1) return s;
	string r; for (char c : s) { unsigned char b = (unsigned char)c; if (b < 128) r.push_back(c); else { r.push_back(char(0xC0 | b >> 6)); r.push_back(char(0x80 | (b & 63))); } }
	return r;
}
[[maybe_unused]] static bool validUtf8(const string& s) {
	for (size_t i = 0; i < s.size(); ) {
		unsigned char b = s[i]; size_t k = b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0;
		if (!k || i + k > s.size()) return false;
		for (size_t j = 1; j < k; j++) if (((unsigned char)s[i + j] & 0xC0) != 0x80) return false;
		i += k;
	}
	return true;
}
