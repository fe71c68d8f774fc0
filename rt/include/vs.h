// The harness API: symbolic inputs, assumptions, assertions, witnesses. Modelled by the engine
// (engine/builtins.cpp); in the replay build implemented by rt/replay.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vs_bytes(void* p, size_t n);                                    // n arbitrary bytes
void vs_bytes_in(void* p, size_t n, const char* set, size_t setLen); // n arbitrary bytes out of set
uint8_t vs_u8(); uint16_t vs_u16(); uint32_t vs_u32(); uint64_t vs_u64();
int vs_range(int lo, int hi);              // arbitrary in [lo, hi], hi - lo <= 255 (symbolic)
unsigned vs_choice(unsigned n);            // every value 0..n-1 (one path each)
void vs_assume(int c);
void vs_check(int c, const char* label);   // the property
[[noreturn]] void vs_fail(const char* label);
void vs_reach(const char* label);          // non-vacuity witness
[[noreturn]] void vs_end();                // abandon this path (outside the stated bounds)
void vs_observe(const char* label, const void* p, size_t n);
void vs_observe_int(const char* label, uint64_t v);
void vs_assert_init(const void* p, size_t n);
long vs_param(const char* name, long def);
int vs_symbolic();
uint64_t vs_concrete(uint64_t v);          // one path per value
int vs_and(int a, int b); int vs_or(int a, int b);  // without a branch
int vs_is_symbolic(uint64_t v);
void vs_log(const char*);
void vs_known(const char* id);              // from here on, a failure on this path is the recorded finding id
}
