// Model of the ICU converter functions, used only in the symbolic build (the replay build uses the real library).
// Charsets: UTF-8, US-ASCII, ISO-8859-1, UTF-16BE, and ISO-2022-JP as far as US-ASCII and the hiragana U+3041..U+3093.
#include <unicode/ucnv.h>
#include <unicode/ucnv_err.h>
#include <unicode/ucnv_cb.h>
#include <unicode/unistr.h>
#include <string>
#include <cstring>
#include <vector>
namespace { enum CS { UTF8, ASCII, LATIN1, U16BE, JP, BAD };
CS kind(const char* n) {
	std::string m; for (; *n; n++) { char c = *n; if (c == '-' || c == '_' || c == ' ') continue; m.push_back(c >= 'A' && c <= 'Z' ? char(c + 32) : c); }
	if (m == "utf8") return UTF8; if (m == "usascii" || m == "ascii") return ASCII; if (m == "iso88591" || m == "latin1") return LATIN1; if (m == "utf16be") return U16BE; if (m == "iso2022jp") return JP; return BAD;
} }
struct UConverter {
	CS cs; bool stopTo = false, stopFrom = false; std::u16string sub;
	unsigned char pend[4]; int np = 0; std::u16string uover; // to Unicode
	char inv[8]; int ninv = 0; bool jis = false; char16_t lead = 0; std::string cover; bool jisOut = false;
};
extern "C" {
UConverter* ucnv_open(const char* n, UErrorCode* e) { if (U_FAILURE(*e)) return nullptr; CS k = kind(n); if (k == BAD) { *e = U_FILE_ACCESS_ERROR; return nullptr; } auto c = new UConverter; c->cs = k; c->sub = k == UTF8 || k == U16BE ? u"\xfffd" : k == JP ? u"\x3013" : u"\x1a"; return c; }
void ucnv_close(UConverter* c) { delete c; }
void ucnv_reset(UConverter* c) { c->np = 0; c->uover.clear(); c->ninv = 0; c->jis = false; c->lead = 0; c->cover.clear(); c->jisOut = false; }
int8_t ucnv_getMinCharSize(const UConverter* c) { return c->cs == U16BE ? 2 : 1; }
int8_t ucnv_getMaxCharSize(const UConverter* c) { return c->cs == UTF8 ? 3 : c->cs == U16BE ? 2 : c->cs == JP ? 6 : 1; }
const char* u_errorName(UErrorCode) { return "error"; }
void ucnv_setSubstString(UConverter* c, const UChar* s, int32_t n, UErrorCode* e) { if (U_FAILURE(*e)) return; c->sub = n < 0 ? std::u16string(s) : std::u16string(s, n); }
void ucnv_setToUCallBack(UConverter* c, UConverterToUCallback cb, const void*, UConverterToUCallback* o, const void** oc, UErrorCode* e) { if (U_FAILURE(*e)) return; c->stopTo = cb == UCNV_TO_U_CALLBACK_STOP; }
void ucnv_setFromUCallBack(UConverter* c, UConverterFromUCallback cb, const void*, UConverterFromUCallback* o, const void** oc, UErrorCode* e) { if (U_FAILURE(*e)) return; c->stopFrom = cb == UCNV_FROM_U_CALLBACK_STOP; }
void UCNV_TO_U_CALLBACK_STOP(const void*, UConverterToUnicodeArgs*, const char*, int32_t, UConverterCallbackReason, UErrorCode*) {}
void UCNV_FROM_U_CALLBACK_STOP(const void*, UConverterFromUnicodeArgs*, const UChar*, int32_t, UChar32, UConverterCallbackReason, UErrorCode*) {}
void ucnv_getInvalidChars(const UConverter* c, char* b, int8_t* len, UErrorCode* e) { if (U_FAILURE(*e)) return; if (*len < c->ninv) { *e = U_INDEX_OUTOFBOUNDS_ERROR; return; } memcpy(b, c->inv, c->ninv); *len = c->ninv; }

static void wrU(UConverter* c, UChar** t, const UChar* lim, char16_t u) { if (*t < lim && c->uover.empty()) *(*t)++ = u; else c->uover.push_back(u); }
static void wrCp(UConverter* c, UChar** t, const UChar* lim, uint32_t x) { if (x >= 0x10000) { wrU(c, t, lim, char16_t(0xd7c0 + (x >> 10))); wrU(c, t, lim, char16_t(0xdc00 | (x & 0x3ff))); } else wrU(c, t, lim, char16_t(x)); }
// the bytes held are no character; false to stop there
static bool illegal(UConverter* c, UChar** t, const UChar* lim, UErrorCode* e, UErrorCode what) { memcpy(c->inv, c->pend, c->np); c->ninv = c->np; c->np = 0; if (c->stopTo) { *e = what; return false; } wrU(c, t, lim, 0xfffd); return true; } // (the bytes stay remembered, as in ICU)
void ucnv_toUnicode(UConverter* c, UChar** t, const UChar* lim, const char** s, const char* end, int32_t*, UBool flush, UErrorCode* e) {
	if (U_FAILURE(*e)) return;
	{ std::u16string o; o.swap(c->uover); for (char16_t u : o) wrU(c, t, lim, u); if (!c->uover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; } }
	while (*s < end) {
		if (*t == lim) { *e = U_BUFFER_OVERFLOW_ERROR; return; }
		unsigned char b = (unsigned char)**s;
		switch (c->cs) {
		case LATIN1: (*s)++; wrU(c, t, lim, b); break;
		case ASCII: (*s)++; if (b < 128) wrU(c, t, lim, b); else { c->pend[0] = b; c->np = 1; if (!illegal(c, t, lim, e, U_ILLEGAL_CHAR_FOUND)) return; } break;
		case U16BE: { (*s)++; c->pend[c->np++] = b; if (c->np == 2) { unsigned u = c->pend[0] << 8 | c->pend[1]; if (u >= 0xd800 && u < 0xdc00) break; if (u >= 0xdc00 && u < 0xe000) { if (!illegal(c, t, lim, e, U_ILLEGAL_CHAR_FOUND)) return; break; } c->np = 0; wrU(c, t, lim, u); }
			else if (c->np == 4) { unsigned l = c->pend[0] << 8 | c->pend[1], u = c->pend[2] << 8 | c->pend[3]; if (u >= 0xdc00 && u < 0xe000) { c->np = 0; wrU(c, t, lim, l); wrU(c, t, lim, u); } else { unsigned char k[2] = { c->pend[2], c->pend[3] }; c->np = 2; if (!illegal(c, t, lim, e, U_ILLEGAL_CHAR_FOUND)) { c->np = 0; *s -= 2; return; } *s -= 2; (void)k; } } break; }
		case UTF8: {
			if (c->np) {
				bool ok = b >= 0x80 && b <= 0xBF;
				if (ok && c->np == 1) { unsigned char l = c->pend[0]; if (l == 0xE0) ok = b >= 0xA0; else if (l == 0xED) ok = b < 0xA0; else if (l == 0xF0) ok = b >= 0x90; else if (l == 0xF4) ok = b < 0x90; }
				if (!ok) { if (!illegal(c, t, lim, e, U_ILLEGAL_CHAR_FOUND)) return; break; }
				(*s)++; c->pend[c->np++] = b; int need = c->pend[0] < 0xE0 ? 2 : c->pend[0] < 0xF0 ? 3 : 4;
				if (c->np == need) { uint32_t x = need == 2 ? c->pend[0] & 31u : need == 3 ? c->pend[0] & 15u : c->pend[0] & 7u; for (int i = 1; i < need; i++) x = x << 6 | (c->pend[i] & 63u); c->np = 0; wrCp(c, t, lim, x); }
				break;
			}
			(*s)++; if (b < 128) { wrU(c, t, lim, b); break; }
			c->pend[0] = b; c->np = 1; if (b < 0xC2 || b > 0xF4) { if (!illegal(c, t, lim, e, U_ILLEGAL_CHAR_FOUND)) return; } break; }
		case JP: { // well-formed text only
			(*s)++; if (c->np || b == 0x1b) { c->pend[c->np++] = b; if (c->pend[0] == 0x1b) { if (c->np == 3) { c->jis = c->pend[1] == '$'; c->np = 0; } } else { unsigned l = c->pend[1]; c->np = 0; wrU(c, t, lim, char16_t(0x3041 + l - 0x21)); } break; }
			if (c->jis) { c->pend[0] = b; c->np = 1; } else wrU(c, t, lim, b); break; }
		default: break;
		}
		if (!c->uover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; }
	}
	if (flush) { if (c->np) { if (!illegal(c, t, lim, e, U_TRUNCATED_CHAR_FOUND)) return; if (!c->uover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; } } c->jis = false; c->ninv = 0; }
}
static void wrC(UConverter* c, char** t, const char* lim, char b) { if (*t < lim && c->cover.empty()) *(*t)++ = b; else c->cover.push_back(b); }
static bool put(UConverter* c, char** t, const char* lim, uint32_t x) {
	auto w = [&](unsigned b) { wrC(c, t, lim, char(b)); };
	switch (c->cs) {
	case ASCII: if (x >= 128) return false; w(x); return true;
	case LATIN1: if (x >= 256) return false; w(x); return true;
	case U16BE: if (x >= 0x10000) { unsigned l = 0xd7c0 + (x >> 10), r = 0xdc00 | (x & 0x3ff); w(l >> 8); w(l & 255); w(r >> 8); w(r & 255); } else { w(x >> 8); w(x & 255); } return true;
	case UTF8: if (x < 128) w(x); else if (x < 0x800) { w(0xC0 | x >> 6); w(0x80 | (x & 63)); } else if (x < 0x10000) { w(0xE0 | x >> 12); w(0x80 | (x >> 6 & 63)); w(0x80 | (x & 63)); } else { w(0xF0 | x >> 18); w(0x80 | (x >> 12 & 63)); w(0x80 | (x >> 6 & 63)); w(0x80 | (x & 63)); } return true;
	case JP: if (x < 128) { if (c->jisOut) { w(0x1b); w('('); w('B'); c->jisOut = false; } w(x); return true; } if (x >= 0x3041 && x <= 0x3093) { if (!c->jisOut) { w(0x1b); w('$'); w('B'); c->jisOut = true; } w(0x24); w(0x21 + x - 0x3041); return true; } return false;
	default: return false;
	}
}
static bool ignorable(uint32_t x) { return x == 0x00AD || x == 0x034F || x == 0x061C || x == 0x115F || x == 0x1160 || (0x17B4 <= x && x <= 0x17B5) || (0x180B <= x && x <= 0x180F) || (0x200B <= x && x <= 0x200F) || (0x202A <= x && x <= 0x202E) || (0x2060 <= x && x <= 0x206F) || x == 0x3164 || (0xFE00 <= x && x <= 0xFE0F) || x == 0xFEFF || x == 0xFFA0 || (0xFFF0 <= x && x <= 0xFFF8) || (0x1BCA0 <= x && x <= 0x1BCA3) || (0x1D173 <= x && x <= 0x1D17A) || (0xE0000 <= x && x <= 0xE0FFF); }
// false to stop there
static bool unmapped(UConverter* c, char** t, const char* lim, uint32_t x, UErrorCode* e, bool ill) {
	if (!ill && ignorable(x)) return true; // dropped by both ways of handling errors
	if (c->stopFrom) { *e = ill ? U_ILLEGAL_CHAR_FOUND : U_INVALID_CHAR_FOUND; return false; }
	for (size_t i = 0; i < c->sub.size(); i++) put(c, t, lim, c->sub[i]);
	return true;
}
void ucnv_fromUnicode(UConverter* c, char** t, const char* lim, const UChar** s, const UChar* end, int32_t*, UBool flush, UErrorCode* e) {
	if (U_FAILURE(*e)) return;
	{ std::string o; o.swap(c->cover); for (char b : o) wrC(c, t, lim, b); if (!c->cover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; } }
	while (*s < end) {
		if (*t == lim) { *e = U_BUFFER_OVERFLOW_ERROR; return; }
		char16_t u = **s; uint32_t x = u;
		if (c->lead) { char16_t l = c->lead; c->lead = 0; if (u >= 0xdc00 && u < 0xe000) { (*s)++; x = 0x10000u + ((uint32_t)(l - 0xd800) << 10) + (u - 0xdc00); } else { if (!unmapped(c, t, lim, l, e, true)) return; if (!c->cover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; } continue; } }
		else { (*s)++; if (u >= 0xd800 && u < 0xdc00) { c->lead = u; continue; } if (u >= 0xdc00 && u < 0xe000) { if (!unmapped(c, t, lim, u, e, true)) return; if (!c->cover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; } continue; } }
		if (!put(c, t, lim, x) && !unmapped(c, t, lim, x, e, false)) return;
		if (!c->cover.empty()) { *e = U_BUFFER_OVERFLOW_ERROR; return; }
	}
	if (flush) { if (c->lead) { char16_t l = c->lead; c->lead = 0; if (!unmapped(c, t, lim, l, e, true)) return; } if (c->jisOut) { c->jisOut = false; wrC(c, t, lim, 0x1b); wrC(c, t, lim, '('); wrC(c, t, lim, 'B'); } if (!c->cover.empty()) *e = U_BUFFER_OVERFLOW_ERROR; }
}
}
static char16_t subst[64];
icu::UnicodeString::UnicodeString(const char* s) { size_t i = 0; for (; s[i] && i < 63; i++) subst[i] = (unsigned char)s[i]; subst[i] = 0; }
icu::UnicodeString::~UnicodeString() {}
const char16_t* icu::UnicodeString::getTerminatedBuffer() { return subst; }
icu::Replaceable::~Replaceable() {}
icu::UObject::~UObject() {}
