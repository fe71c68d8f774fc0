#pragma once
#include "vs.h"
#include "vmime/vmime.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
using std::string;
using namespace vmime;
#define HARNESS extern "C" void
#define P(name, def) ((size_t)vs_param(name, def))

static inline string symStr(size_t n) { string s(n, '\0'); if (n) vs_bytes(&s[0], n); return s; }
static inline string symStrIn(size_t n, const char* set, size_t sl) { string s(n, '\0'); if (n) vs_bytes_in(&s[0], n, set, sl); return s; }
static inline string symStrIn(size_t n, const string& set) { return symStrIn(n, set.data(), set.size()); }
// every length 0..max
static inline string symStrUpTo(size_t max) { return symStr(vs_choice(max + 1)); }
static inline string symStrUpToIn(size_t max, const string& set) { return symStrIn(vs_choice(max + 1), set); }
// equality without a branch per byte
static inline int same(const string& a, const string& b) { return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size()) == 0); }
static inline void checkEq(const string& a, const string& b, const char* label) { vs_check(same(a, b), label); }
static inline void observe(const char* l, const string& s) { vs_observe(l, s.data(), s.size()); }

// An input stream that hands out its content in arbitrary pieces: every partition into non-empty
// pieces is explored (one path each), as long as the content is not longer than `cuts` bytes from
// its end or start; beyond that, pieces are as large as asked for.
class ChunkIn : public utility::inputStream {
public:
	string data; size_t pos, from, to; bool cut;
	ChunkIn(const string& d, bool cut_ = true, size_t from_ = 0, size_t to_ = (size_t)-1) : data(d), pos(0), from(from_), to(to_), cut(cut_) {}
	bool eof() const override { return pos >= data.size(); }
	void reset() override { pos = 0; }
	size_t skip(const size_t n) override { size_t k = std::min(n, data.size() - pos); pos += k; return k; }
	size_t read(byte_t* const buf, const size_t count) override {
		size_t n = std::min(count, data.size() - pos);
		if (n == 0) return 0;
		size_t k = n;
		if (cut) {
			// stop after each byte of [from, to) or not, by choice
			for (k = 1; k < n; k++) { size_t at = pos + k; if (at > from && at <= to && vs_choice(2)) break; }
		}
		memcpy(buf, data.data() + pos, k); pos += k; return k;
	}
};
// writes `s` into os in every partition into non-empty pieces
static inline void writeChunks(utility::outputStream& os, const string& s, size_t from = 0, size_t to = (size_t)-1) {
	size_t p = 0;
	while (p < s.size()) {
		size_t k = 1; for (; p + k < s.size(); k++) { size_t at = p + k; if (at > from && at <= to && vs_choice(2)) break; }
		os.write(s.data() + p, k); p += k;
	}
}
