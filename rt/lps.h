// Harness interface. Under the symbolic executor these are intrinsics; natively (replay) they read a recorded witness.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void lps_sym(void* p, size_t n, const char* name);                          // n arbitrary bytes
uint64_t lps_val(const char* name);                                         // an arbitrary 64-bit value
uint64_t lps_range(const char* name, uint64_t lo, uint64_t hi);             // an arbitrary value in [lo, hi]
uint64_t lps_choose(const char* name, uint64_t n);                          // an arbitrary value in [0, n), one path each
void lps_assume(bool c);
void lps_assert_(bool c, const char* msg);
void lps_fail(const char* msg);
uint64_t lps_concretize(uint64_t v);
void lps_cover(const char* name);                                           // reachability witness
void lps_obs(const char* name, uint64_t v);                                 // observation compared between executor and native run
void lps_obs_bytes(const char* name, const void* p, size_t n);
int64_t lps_param(const char* name, int64_t dflt);                          // bound of this configuration
void lps_progress(void);
uint64_t lps_live_heap(void);                                               // number of live heap blocks (symbolic executor only)
int lps_symbolic(void);
void lps_print(const char* s, uint64_t v);
void lps_main(void);
#ifdef __cplusplus
}
#endif
#define LPS_STR2(x) #x
#define LPS_STR(x) LPS_STR2(x)
#define lps_assert(c, msg) lps_assert_((c), msg)
