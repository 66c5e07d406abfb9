// Harness interface; implemented by the engine and, for replay, by rt/symrt.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_range_(uint64_t lo, uint64_t hi, const char* name);
void sym_assume_(int c);
void sym_assert_(int c, const char* msg);
void sym_reach(const char* label);
void sym_observe(const char* name, uint64_t v);
uint64_t sym_concretize(uint64_t v);     // forks over the values
int sym_split(int c);                    // forks on the truth value
int sym_is_engine(void);
void sym_end(void);
int sym_eq(const void* a, const void* b, size_t n); // equality of bytes without forking
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
void sym_limit(uint64_t insts);          // the rest of the path must end within this many instructions
void sym_trace(const char* name, uint64_t v);
int sym_valid(const void* p, size_t n);
#ifdef __cplusplus
}
#define sym_assert(c, m) sym_assert_((int)(bool)(c), m)
#define sym_assume(c) sym_assume_((int)(bool)(c))
static inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char* n) { return sym_range_(lo, hi, n); }
static inline int64_t sym_irange(int64_t lo, int64_t hi, const char* n) { return (int64_t)sym_range_((uint64_t)lo, (uint64_t)hi, n); }
static inline unsigned sym_pick(unsigned n, const char* name) { return (unsigned)sym_concretize(sym_range_(0, n - 1, name)); }   // forks: 0..n-1
static inline bool sym_bool(const char* name) { return sym_range_(0, 1, name) != 0; }
#endif
