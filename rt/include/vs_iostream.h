// Minimal stand-in for the iostream part of the C++ library, used only when the code is compiled
// for symbolic execution (the replay build uses the real library). Classic-locale semantics.
#pragma once
#include <string>
#include <iosfwd>
#include <cctype>
#include <cstring>
#include <climits>
#include <exception>
#include <stdexcept>
#include <bits/localefwd.h>
#include <bits/postypes.h>

namespace std {

class ctype_base { public: typedef unsigned short mask;
	static const mask upper = 1, lower = 2, alpha = 4, digit = 8, xdigit = 16, space = 32, print = 64, graph = 128, cntrl = 256, punct = 512, alnum = 12, blank = 1024; };
class locale {
public:
	typedef int category; static const category none = 0, ctype = 1, numeric = 2, collate = 4, time = 8, monetary = 16, messages = 32, all = 63;
	class facet {}; class id {};
	locale() {} explicit locale(const char*) {}
	static const locale& classic() { static const locale l; return l; }
	static locale global(const locale&) { return locale(); }
	string name() const { return "C"; }
	bool operator==(const locale&) const { return true; }
};
template <> class ctype<char> : public ctype_base { public:
	char toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
	char tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	const char* tolower(char* b, const char* e) const { for (; b != e; ++b) *b = tolower(*b); return e; }
	const char* toupper(char* b, const char* e) const { for (; b != e; ++b) *b = toupper(*b); return e; }
	bool is(mask m, char ch) const { unsigned char c = ch; 
		bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', sp = c == 32 || (c >= 9 && c <= 13);
		bool pr = c >= 32 && c < 127;
		return ((m & upper) && up) || ((m & lower) && lo) || ((m & alpha) && (up || lo)) || ((m & digit) && di) || ((m & space) && sp) || ((m & print) && pr) || ((m & graph) && pr && c != 32) || ((m & cntrl) && (c < 32 || c == 127)) || ((m & punct) && pr && c != 32 && !up && !lo && !di) || ((m & xdigit) && (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) || ((m & blank) && (c == 32 || c == 9)); }
};
template <typename F> const F& vs_facet() { static const F f = F(); return f; }
template <typename F> const F& use_facet(const locale&) { return vs_facet<F>(); }
template <typename C> inline C tolower(C c, const locale&) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
template <typename C> inline C toupper(C c, const locale&) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
template <typename C> inline bool isspace(C c, const locale&) { return vs_facet<ctype<char>>().is(ctype_base::space, c); }
template <typename C> inline bool isalnum(C c, const locale&) { return vs_facet<ctype<char>>().is(ctype_base::alnum, c); }
template <typename C> inline bool isdigit(C c, const locale&) { return vs_facet<ctype<char>>().is(ctype_base::digit, c); }
template <typename C> inline bool isalpha(C c, const locale&) { return vs_facet<ctype<char>>().is(ctype_base::alpha, c); }

class ios_base {
public:
	typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
	static const fmtflags dec = 1, hex = 2, oct = 4, skipws = 8, boolalpha = 16, uppercase = 32, fixed = 64, left = 128, right = 256, basefield = 7, adjustfield = 384, showbase = 512, scientific = 1024, internal = 2048, showpos = 4096, floatfield = 1088;
	static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
	static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
	static const seekdir beg = 0, cur = 1, end = 2;
	class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} };
	fmtflags flags() const { return fl_; }
	fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
	fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
	fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
	void unsetf(fmtflags m) { fl_ &= ~m; }
	streamsize width() const { return w_; } streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
	streamsize precision() const { return p_; } streamsize precision(streamsize p) { streamsize o = p_; p_ = p; return o; }
	locale imbue(const locale&) { return locale(); } locale getloc() const { return locale(); }
	virtual ~ios_base() {}
protected:
	fmtflags fl_ = dec | skipws; streamsize w_ = 0, p_ = 6;
};
template <> class basic_ios<char> : public ios_base {
public:
	typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streamoff pos_type; typedef streamoff off_type;
	iostate rdstate() const { return st_; }
	bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
	explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
	void clear(iostate s = goodbit) { st_ = s; if (st_ & ex_) throw failure("basic_ios::clear"); } void setstate(iostate s) { clear(st_ | s); }
	iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
	char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
	void copyfmt(const basic_ios& o) { fl_ = o.fl_; w_ = o.w_; p_ = o.p_; fill_ = o.fill_; }
protected:
	iostate st_ = 0, ex_ = 0; char fill_ = ' ';
};
template <> class basic_ostream<char> : virtual public basic_ios<char> {
public:
	virtual ~basic_ostream() {}
	virtual void vs_write(const char*, size_t) {}
	virtual long vs_tellp() { return -1; }
	basic_ostream& write(const char* p, streamsize n) { if (good()) vs_write(p, n); return *this; }
	basic_ostream& put(char c) { if (good()) vs_write(&c, 1); return *this; }
	basic_ostream& flush() { return *this; }
	pos_type tellp() { return vs_tellp(); }
	void vs_pad(const char* p, size_t n) {
		size_t w = w_ > 0 ? (size_t)w_ : 0; w_ = 0;
		if (!good()) return;
		if ((fl_ & adjustfield) != left) for (size_t i = n; i < w; i++) vs_write(&fill_, 1);
		vs_write(p, n);
		if ((fl_ & adjustfield) == left) for (size_t i = n; i < w; i++) vs_write(&fill_, 1);
	}
	void vs_unsigned(unsigned long long v, bool neg) {
		char b[72]; int i = 72; unsigned base = (fl_ & hex) ? 16 : (fl_ & oct) ? 8 : 10; const char* dg = (fl_ & uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
		if (v <= 0xffffffffull) { unsigned u = (unsigned)v; do { b[--i] = dg[u % base]; u /= base; } while (u); }
		else do { b[--i] = dg[v % base]; v /= base; } while (v);
		if (neg) b[--i] = '-';
		vs_pad(b + i, 72 - i);
	}
	template <typename T> void vs_signed(T v, unsigned long long asUnsigned) { if (v < 0 && !(fl_ & (hex | oct))) vs_unsigned(0ull - (unsigned long long)(long long)v, true); else vs_unsigned(asUnsigned, false); }
	basic_ostream& operator<<(int v) { vs_signed(v, (unsigned)v); return *this; }
	basic_ostream& operator<<(short v) { vs_signed(v, (unsigned short)v); return *this; }
	basic_ostream& operator<<(long v) { vs_signed(v, (unsigned long)v); return *this; }
	basic_ostream& operator<<(long long v) { vs_signed(v, (unsigned long long)v); return *this; }
	basic_ostream& operator<<(unsigned v) { vs_unsigned(v, false); return *this; }
	basic_ostream& operator<<(unsigned short v) { vs_unsigned(v, false); return *this; }
	basic_ostream& operator<<(unsigned long v) { vs_unsigned(v, false); return *this; }
	basic_ostream& operator<<(unsigned long long v) { vs_unsigned(v, false); return *this; }
	basic_ostream& operator<<(bool v) { if (fl_ & boolalpha) { if (v) vs_pad("true", 4); else vs_pad("false", 5); } else vs_unsigned(v, false); return *this; }
	basic_ostream& operator<<(double v) { char b[64]; int n = snprintf(b, 64, "%g", v); vs_pad(b, n); return *this; }
	basic_ostream& operator<<(float v) { return *this << (double)v; }
	basic_ostream& operator<<(const void* p) { char b[64]; int n = snprintf(b, 64, "0x%lx", (unsigned long)p); vs_pad(b, n); return *this; }
	basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
	basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
	static int snprintf(char* b, size_t n, const char* f, ...) = delete;
	template <typename... A> static int snprintf(char* b, size_t n, const char* f, A... a) { return ::snprintf(b, n, f, a...); }
};
inline ostream& operator<<(ostream& o, char c) { o.vs_pad(&c, 1); return o; }
inline ostream& operator<<(ostream& o, signed char c) { char d = c; o.vs_pad(&d, 1); return o; }
inline ostream& operator<<(ostream& o, unsigned char c) { char d = c; o.vs_pad(&d, 1); return o; }
inline ostream& operator<<(ostream& o, const char* s) { o.vs_pad(s, strlen(s)); return o; }
inline ostream& operator<<(ostream& o, const string& s) { o.vs_pad(s.data(), s.size()); return o; }
inline ostream& endl(ostream& o) { return o.put('\n'); }
inline ostream& ends(ostream& o) { return o.put('\0'); }
inline ostream& flush(ostream& o) { return o; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct vs_setw { int n; }; struct vs_setfill { char c; }; struct vs_setprec { int n; };
inline vs_setw setw(int n) { return {n}; } inline vs_setfill setfill(char c) { return {c}; } inline vs_setprec setprecision(int n) { return {n}; }
inline ostream& operator<<(ostream& o, vs_setw s) { o.width(s.n); return o; }
inline ostream& operator<<(ostream& o, vs_setfill s) { o.fill(s.c); return o; }
inline ostream& operator<<(ostream& o, vs_setprec s) { o.precision(s.n); return o; }

template <> class basic_istream<char> : virtual public basic_ios<char> {
public:
	virtual ~basic_istream() {}
	// the underlying sequence
	virtual int vs_peek() { return -1; }
	virtual int vs_get() { return -1; }
	virtual bool vs_seek(long, int) { return false; }
	virtual long vs_tell() { return -1; }
	virtual long vs_avail() { return 0; }
	streamsize gcount() const { return gc_; }
	int get() { gc_ = 0; if (!good()) { setstate(failbit); return -1; } int c = vs_get(); if (c < 0) setstate(eofbit | failbit); else gc_ = 1; return c; }
	basic_istream& get(char& o) { int c = get(); if (c >= 0) o = (char)c; return *this; }
	int peek() { gc_ = 0; if (!good()) return -1; int c = vs_peek(); if (c < 0) setstate(eofbit); return c; }
	basic_istream& unget() { clear(st_ & ~eofbit); if (!good()) { setstate(failbit); return *this; } if (!vs_seek(-1, 1)) setstate(badbit); gc_ = 0; return *this; }
	basic_istream& putback(char) { return unget(); }
	basic_istream& read(char* p, streamsize n) { gc_ = 0; if (!good()) { setstate(failbit); return *this; } while (gc_ < n) { int c = vs_get(); if (c < 0) { setstate(eofbit | failbit); break; } p[gc_++] = (char)c; } return *this; }
	streamsize readsome(char* p, streamsize n) { gc_ = 0; if (!good()) { setstate(failbit); return 0; } long a = vs_avail(); if (a < 0) { setstate(eofbit); return 0; } if (n > a) n = a; while (gc_ < n) p[gc_++] = (char)vs_get(); return gc_; }
	basic_istream& ignore(streamsize n = 1, int d = -1) { gc_ = 0; if (!good()) { setstate(failbit); return *this; } while (gc_ < n) { int c = vs_get(); if (c < 0) { setstate(eofbit); break; } gc_++; if (c == d) break; } return *this; }
	basic_istream& seekg(streamoff o, int dir) { clear(st_ & ~eofbit); if (!fail()) { if (!vs_seek(o, dir)) setstate(failbit); } return *this; }
	basic_istream& seekg(streamoff o) { return seekg(o, beg); }
	streamoff tellg() { if (fail()) return -1; return vs_tell(); }
	bool vs_prep(bool noskip = false) { if (!good()) { setstate(failbit); return false; } if (!noskip && (fl_ & skipws)) { for (;;) { int c = vs_peek(); if (c < 0) { setstate(eofbit | failbit); return false; } if (!(c == 32 || (c >= 9 && c <= 13))) break; vs_get(); } } return true; }
	bool vs_number(bool& neg, unsigned long long& v, bool& ovf) {
		neg = false; v = 0; ovf = false; int c = vs_peek(); unsigned base = (fl_ & hex) ? 16 : (fl_ & oct) ? 8 : 10; bool any = false;
		if (c == '+' || c == '-') { neg = c == '-'; vs_get(); c = vs_peek(); }
		if (base == 16 && c == '0') { vs_get(); any = true; c = vs_peek(); if (c == 'x' || c == 'X') { vs_get(); any = false; c = vs_peek(); } }
		for (;;) { int d = -1; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
			if (d < 0 || d >= (int)base) break;
			any = true; if (v > (ULLONG_MAX - d) / base) ovf = true; else v = v * base + d; vs_get(); c = vs_peek(); }
		if (c < 0) setstate(eofbit);
		return any;
	}
	template <typename T> basic_istream& vs_signed(T& o, long long mn, long long mx) { if (!vs_prep()) return *this; bool neg, ov; unsigned long long v; bool any = vs_number(neg, v, ov);
		if (!any) { o = 0; setstate(failbit); return *this; }
		if (neg) { unsigned long long lim = 0ull - (unsigned long long)mn; if (ov || v > lim) { o = (T)mn; setstate(failbit); } else o = (T)(0ull - v); }
		else { if (ov || v > (unsigned long long)mx) { o = (T)mx; setstate(failbit); } else o = (T)v; }
		return *this; }
	template <typename T> basic_istream& vs_unsig(T& o, unsigned long long mx) { if (!vs_prep()) return *this; bool neg, ov; unsigned long long v; bool any = vs_number(neg, v, ov);
		if (!any) { o = 0; setstate(failbit); return *this; }
		if (ov || v > mx) { o = (T)mx; setstate(failbit); } else o = neg ? (T)(0ull - v) : (T)v;
		return *this; }
	basic_istream& operator>>(int& v) { return vs_signed(v, INT_MIN, INT_MAX); }
	basic_istream& operator>>(short& v) { return vs_signed(v, SHRT_MIN, SHRT_MAX); }
	basic_istream& operator>>(long& v) { return vs_signed(v, LONG_MIN, LONG_MAX); }
	basic_istream& operator>>(long long& v) { return vs_signed(v, LLONG_MIN, LLONG_MAX); }
	basic_istream& operator>>(unsigned short& v) { return vs_unsig(v, USHRT_MAX); }
	basic_istream& operator>>(unsigned& v) { return vs_unsig(v, UINT_MAX); }
	basic_istream& operator>>(unsigned long& v) { return vs_unsig(v, ULONG_MAX); }
	basic_istream& operator>>(unsigned long long& v) { return vs_unsig(v, ULLONG_MAX); }
	basic_istream& operator>>(bool& b) { long v = 0; if (fl_ & boolalpha) { setstate(failbit); return *this; } *this >> v; if (fail() && v == 0) { b = false; return *this; } b = v != 0; if (v != 0 && v != 1) setstate(failbit); return *this; }
	basic_istream& operator>>(double& v) { string t; v = 0; if (!vs_prep()) return *this; for (;;) { int c = vs_peek(); if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) break; t += (char)vs_get(); } if (vs_peek() < 0) setstate(eofbit); if (t.empty()) setstate(failbit); else v = strtod(t.c_str(), nullptr); return *this; }
	basic_istream& operator>>(float& v) { double d; *this >> d; v = d; return *this; }
	basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
	basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
	streamsize gc_ = 0;
};
inline istream& operator>>(istream& i, char& o) { if (i.vs_prep()) { int c = i.vs_get(); if (c < 0) i.setstate(ios_base::eofbit | ios_base::failbit); else o = (char)c; } return i; }
inline istream& operator>>(istream& i, unsigned char& o) { return i >> (char&)o; }
inline istream& operator>>(istream& i, string& s) {
	if (i.vs_prep()) { s.clear(); long w = i.width(); i.width(0); long n = 0; for (;;) { if (w > 0 && n >= w) break; int c = i.vs_peek(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (c == 32 || (c >= 9 && c <= 13)) break; s += (char)i.vs_get(); n++; } if (!n) i.setstate(ios_base::failbit); }
	return i; }
inline istream& ws(istream& i) { for (;;) { int c = i.vs_peek(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (!(c == 32 || (c >= 9 && c <= 13))) break; i.vs_get(); } return i; }
inline istream& getline(istream& i, string& s, char d) {
	if (!i.good()) { i.setstate(ios_base::failbit); return i; }
	s.clear(); bool any = false;
	for (;;) { int c = i.vs_get(); if (c < 0) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if ((char)c == d) break; s += (char)c; }
	return i; }
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }

template <> class basic_iostream<char> : public basic_istream<char>, public basic_ostream<char> {};

#define VS_STRSEQ(name) \
	string name; size_t pos_ = 0; \
	int vs_peek() override { return pos_ < name.size() ? (unsigned char)name[pos_] : -1; } \
	int vs_get() override { return pos_ < name.size() ? (unsigned char)name[pos_++] : -1; } \
	long vs_tell() override { return (long)pos_; } \
	long vs_avail() override { return pos_ < name.size() ? (long)(name.size() - pos_) : -1; } \
	bool vs_seek(long o, int d) override { long b = d == 0 ? 0 : d == 1 ? (long)pos_ : (long)name.size(); long p = b + o; if (p < 0 || p > (long)name.size()) return false; pos_ = p; return true; }
template <> class basic_ostringstream<char> : public basic_ostream<char> {
	string s_;
public:
	explicit basic_ostringstream(openmode = out) {} explicit basic_ostringstream(const string& s, openmode = out) : s_(s) {}
	void vs_write(const char* p, size_t n) override { s_.append(p, n); }
	long vs_tellp() override { return (long)s_.size(); }
	string str() const { return s_; } void str(const string& s) { s_ = s; }
};
template <> class basic_istringstream<char> : public basic_istream<char> {
	VS_STRSEQ(s_)
public:
	explicit basic_istringstream(openmode = in) {} explicit basic_istringstream(const string& s, openmode = in) : s_(s) {}
	string str() const { return s_; } void str(const string& s) { s_ = s; pos_ = 0; }
};
template <> class basic_stringstream<char> : public basic_iostream<char> {
	VS_STRSEQ(s_)
public:
	explicit basic_stringstream(openmode = in | out) {} explicit basic_stringstream(const string& s, openmode = in | out) : s_(s) {}
	void vs_write(const char* p, size_t n) override { s_.append(p, n); }
	string str() const { return s_; } void str(const string& s) { s_ = s; pos_ = 0; }
};
template <> class basic_streambuf<char> { public: virtual ~basic_streambuf() {} };
template <typename T, typename C, typename Tr, typename D> class istream_iterator;
extern ostream cout, cerr, clog; extern istream cin;
}
