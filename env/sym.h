// Harness interface: symbolic under the engine (engine/engine.cpp), replayed natively by env/native.cpp.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void *p, size_t n, const char *name);   // n fresh symbolic bytes
void sym_assume(int c);
void sym_check(int c, const char *msg);                 // the property
void sym_fail(const char *msg) __attribute__((noreturn));
void sym_observe(const char *name, const void *p, size_t n); // compared between engine and native replay
int sym_case(void);                                     // harness case number (one engine run per case)
void sym_reach(const char *name);                       // reachability witness
uint64_t sym_concrete(uint64_t v);                      // fork over all values
int sym_engine(void);                                   // 1 in the engine, 0 natively
void sym_tag(const char *name);                         // label for errors found on this path from here on
void sym_end(void) __attribute__((noreturn));           // path ends here, property held
void sym_log(const char *s, uint64_t v);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);        // c ? a : b without forking
int sym_is_symbolic(uint64_t v);
int sym_thread_new(void (*f)(void *), void *arg);         // a thread that never returns from f; runs only when switched to
void sym_thread_switch(int id);                         // the first thread is 0
void harness_main(void);
#ifdef __cplusplus
}
static inline uint8_t sym_u8(const char *n) { uint8_t v; sym_bytes(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char *n) { uint16_t v; sym_bytes(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char *n) { uint32_t v; sym_bytes(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char *n) { uint64_t v; sym_bytes(&v, 8, n); return v; }
static inline int sym_int(const char *n) { int v; sym_bytes(&v, 4, n); return v; }
static inline long sym_long(const char *n) { long v; sym_bytes(&v, 8, n); return v; }
// symbolic value in [lo, hi]
static inline int sym_range(const char *n, int lo, int hi) {
  int v;
  if (lo >= 0 && hi <= 255) { v = sym_u8(n); sym_assume((v >= lo) & (v <= hi)); }
  else { v = sym_int(n); sym_assume((v >= lo) & (v <= hi)); }
  return v;
}
// as sym_range, but one path per value
static inline int sym_pick(const char *n, int lo, int hi) { return (int)sym_concrete((uint64_t)(int64_t)sym_range(n, lo, hi)); }
static inline bool sym_bool(const char *n) { return sym_range(n, 0, 1); }
#define SYM_CHECK(c) sym_check((c) ? 1 : 0, #c)
#endif
