#include "common.hpp"
// the engine itself: one true and several false claims
HARNESS st_true() { uint32_t x = vs_u32(), y = vs_u32(); vs_check((x ^ y) + 2 * (x & y) == x + y, "true"); string s = symStr(3); string t(s.rbegin(), s.rend()); string u(t.rbegin(), t.rend()); checkEq(s, u, "true"); vs_reach("end"); }
HARNESS st_assert() { uint32_t x = vs_u32(); vs_check(x * 7 != 77777777u * 7, "false"); }
HARNESS st_oob() { char* b = new char[8]; memset(b, 0, 8); unsigned i = vs_u8(); if (i < 9) b[i] = 1; vs_observe("b", b, 8); delete[] b; }
HARNESS st_uninit() { char b[4]; unsigned i = vs_u8(); if (i < 3) b[i] = 1; vs_assert_init(b, 1); }
HARNESS st_throw() { string s = symStr(1); if (s[0] == 'x') throw std::runtime_error("x"); }
HARNESS st_hang() { volatile unsigned n = vs_u8(); while (n == 200) ; }
