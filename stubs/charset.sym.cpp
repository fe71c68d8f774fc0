// Model of the ICU-backed converter, used only in the symbolic build (the replay build uses the real
// one). Charsets: UTF-8, US-ASCII, ISO-8859-1; anything else "cannot be initialised".
#include "vmime/charsetConverter.hpp"
#include "vmime/exception.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include <cstring>
using namespace vmime;
namespace {
enum CS { UTF8, ASCII, LATIN1, BAD };
CS kind(const string& n) {
	string m; for (char c : n) { if (c == '-' || c == '_' || c == ' ') continue; m.push_back(c >= 'A' && c <= 'Z' ? char(c + 32) : c); }
	if (m == "utf8") return UTF8;
	if (m == "usascii" || m == "ascii") return ASCII;
	if (m == "iso88591" || m == "latin1") return LATIN1;
	return BAD;
}
struct engine {
	CS from, to; bool repl; string sub;
	unsigned char pend[4]; unsigned np = 0;
	engine(const vmime::charset& a, const vmime::charset& b, const charsetConverterOptions& o) : from(kind(a.getName())), to(kind(b.getName())), repl(o.silentlyReplaceInvalidSequences), sub(o.invalidSequence) {
		if (from == BAD || to == BAD) throw exceptions::charset_conv_error("Cannot initialize ICU converter");
	}
	void bad(string& out) { if (!repl) throw exceptions::illegal_byte_sequence_for_charset(); if (to == UTF8) out += "\xEF\xBF\xBD"; else out += sub; }
	void cp(uint32_t c, string& out) {
		if (to == LATIN1 ? c < 256 : c < 128) { out.push_back(char(c)); return; }
		if (to != UTF8) { if (!repl) throw exceptions::illegal_byte_sequence_for_charset(); out += sub; return; }
		if (c < 0x800) { out.push_back(char(0xC0 | c >> 6)); out.push_back(char(0x80 | (c & 63))); }
		else if (c < 0x10000) { out.push_back(char(0xE0 | c >> 12)); out.push_back(char(0x80 | (c >> 6 & 63))); out.push_back(char(0x80 | (c & 63))); }
		else { out.push_back(char(0xF0 | c >> 18)); out.push_back(char(0x80 | (c >> 12 & 63))); out.push_back(char(0x80 | (c >> 6 & 63))); out.push_back(char(0x80 | (c & 63))); }
	}
	static unsigned need(unsigned char b) { return b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; }
	void byte(unsigned char b, string& out) {
		if (from == LATIN1) { cp(b, out); return; }
		if (from == ASCII) { if (b < 128) cp(b, out); else bad(out); return; }
		if (np) {
			bool ok = b >= 0x80 && b <= 0xBF;
			if (ok && np == 1) { unsigned char l = pend[0]; if (l == 0xE0) ok = b >= 0xA0; else if (l == 0xED) ok = b < 0xA0; else if (l == 0xF0) ok = b >= 0x90; else if (l == 0xF4) ok = b < 0x90; }
			if (!ok) { np = 0; bad(out); byte(b, out); return; }
			pend[np++] = b;
			if (np == need(pend[0])) {
				uint32_t c = np == 2 ? pend[0] & 31u : np == 3 ? pend[0] & 15u : pend[0] & 7u;
				for (unsigned i = 1; i < np; i++) c = c << 6 | (pend[i] & 63u);
				if (to == UTF8) out.append((const char*)pend, np); else cp(c, out);
				np = 0;
			}
			return;
		}
		if (b < 128) { out.push_back(char(b)); return; }
		if (b < 0xC2 || b > 0xF4) { bad(out); return; }
		pend[np++] = b;
	}
	void end(string& out) { if (np) { np = 0; bad(out); } }
};
struct filt : public utility::charsetFilteredOutputStream {
	utility::outputStream& os; engine e;
	filt(utility::outputStream& o, const vmime::charset& a, const vmime::charset& b, const charsetConverterOptions& op) : os(o), e(a, b, op) {}
	utility::outputStream& getNextOutputStream() override { return os; }
	void writeImpl(const byte_t* const d, const size_t n) override { string o; for (size_t i = 0; i < n; i++) e.byte(d[i], o); os.write(o.data(), o.size()); }
	void flush() override { string o; e.end(o); os.write(o.data(), o.size()); os.flush(); }
};
struct conv : public charsetConverter {
	vmime::charset a, b; charsetConverterOptions o;
	conv(const vmime::charset& x, const vmime::charset& y, const charsetConverterOptions& op) : a(x), b(y), o(op) { engine chk(a, b, o); }
	void convert(const string& in, string& out, status* st) override {
		if (st) *st = status();
		engine e(a, b, o); string r; size_t i = 0;
		try { for (; i < in.size(); i++) e.byte((unsigned char)in[i], r); e.end(r); }
		catch (...) { if (st) { st->inputBytesRead = i - (e.np ? e.np : 0); st->outputBytesWritten = r.size(); } out = r; throw; }
		if (st) { st->inputBytesRead = in.size(); st->outputBytesWritten = r.size(); }
		out = r;
	}
	void convert(utility::inputStream& in, utility::outputStream& out, status* st) override {
		string s, r; byte_t buf[64];
		while (!in.eof()) { size_t n = in.read(buf, sizeof buf); s.append((const char*)buf, n); }
		convert(s, r, st); out.write(r.data(), r.size());
	}
	shared_ptr<utility::charsetFilteredOutputStream> getFilteredOutputStream(utility::outputStream& os, const charsetConverterOptions& op) override { return make_shared<filt>(os, a, b, op); }
};
}
shared_ptr<charsetConverter> charsetConverter::createGenericConverter(const vmime::charset& s, const vmime::charset& d, const charsetConverterOptions& o) { return make_shared<conv>(s, d, o); }
