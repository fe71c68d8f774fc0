// Concrete counterpart of the harness API: feeds one recorded input to a harness that is linked
// against the real code, natively.
#include "include/vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) 0
#endif
static std::vector<unsigned char> in; static size_t pos; static std::map<std::string, long> params;
static void out(const std::string& s) { fputs((s + "\n").c_str(), stdout); fflush(stdout); }
static unsigned char nextb() { return pos < in.size() ? in[pos++] : 0; }
extern "C" {
void vs_bytes(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = nextb(); }
void vs_bytes_in(void* p, size_t n, const char* set, size_t sl) { vs_bytes(p, n); for (size_t i = 0; i < n; i++) if (!memchr(set, ((unsigned char*)p)[i], sl)) { out("VS_BADINPUT"); _exit(46); } }
uint8_t vs_u8() { return nextb(); }
uint16_t vs_u16() { uint16_t v = nextb(); return v | nextb() << 8; }
uint32_t vs_u32() { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)nextb() << (8 * i); return v; }
uint64_t vs_u64() { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)nextb() << (8 * i); return v; }
int vs_range(int lo, int hi) { int v = lo + nextb(); if (v > hi) { out("VS_BADINPUT"); _exit(46); } return v; }
unsigned vs_choice(unsigned n) { unsigned v = vs_u32(); if (v >= n) { out("VS_BADINPUT"); _exit(46); } return v; }
void vs_assume(int c) { if (!c) { out("VS_ASSUME"); _exit(43); } }
void vs_check(int c, const char* l) { if (!c) { out(std::string("VS_FAIL ") + l); _exit(42); } }
void vs_fail(const char* l) { out(std::string("VS_FAIL ") + l); _exit(42); }
void vs_reach(const char* l) { out(std::string("VS_REACH ") + l); }
void vs_end() { out("VS_ASSUME"); _exit(43); }
void vs_observe(const char* l, const void* p, size_t n) { if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { out("VS_UNINIT"); _exit(44); } std::string h; static const char* d = "0123456789abcdef"; for (size_t i = 0; i < n; i++) { unsigned char c = ((const unsigned char*)p)[i]; h += d[c >> 4]; h += d[c & 15]; } out(std::string("OBS ") + l + "=" + h); }
void vs_observe_int(const char* l, uint64_t v) { vs_observe(l, &v, 8); }
void vs_assert_init(const void* p, size_t n) { if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { out("VS_UNINIT"); _exit(44); } }
long vs_param(const char* n, long d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
int vs_symbolic() { return 0; }
uint64_t vs_concrete(uint64_t v) { return v; }
int vs_and(int a, int b) { return a && b; } int vs_or(int a, int b) { return a || b; }
int vs_is_symbolic(uint64_t) { return 0; }
void vs_known(const char* s) { out(std::string("VS_KNOWN ") + s); }
void vs_log(const char* s) { out(std::string("LOG ") + s); }
}
int main(int argc, char** argv) { // replay ENTRY HEXINPUT [k=v ...]
	if (argc < 3) return 2;
	const char* h = argv[2]; for (size_t i = 0; h[i] && h[i + 1]; i += 2) { char b[3] = {h[i], h[i + 1], 0}; in.push_back((unsigned char)strtol(b, nullptr, 16)); }
	for (int i = 3; i < argc; i++) { std::string a = argv[i]; auto q = a.find('='); params[a.substr(0, q)] = atol(a.c_str() + q + 1); }
	auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(stderr, "no entry\n"); return 2; }
	std::set_terminate([]() { out("VS_TERMINATE"); _exit(47); });
	f(); out("VS_END"); fflush(stdout); _exit(0);
}
