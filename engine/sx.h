// Harness API.  The same harness source is compiled twice: by clang + the Symx pass (symbolic
// execution) and by g++ with sanitizers (replay of a concrete assignment on the real code).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sx_u(const char*name, unsigned bits);                        // fresh symbolic bit-vector
uint64_t sx_range(const char*name, uint64_t lo, uint64_t hi);          // symbolic, lo<=v<=hi (unsigned)
uint64_t sx_choose(const char*name, uint64_t n);                       // 0..n-1, one path per value (shape choices)
uint64_t sx_concretize(uint64_t v);                                    // one path per feasible value
void sx_assume(bool c);
void sx_assert(bool c, const char*msg);
void sx_assert_kf(bool c, bool kf, const char*kfid, const char*msg);   // violation only if !c && !kf; !c && kf is known finding kfid
void sx_fail(const char*msg);
void sx_reach(const char*label);                                       // reachability witness
void sx_expect_reach(const char*label);                                // must be reached by some path
void sx_observe(const char*name, uint64_t v);                          // compared against the native replay
void sx_steps(uint64_t n, const char*what);                            // step budget from here on; exceeding it is reported as non-termination of `what`
bool sx_feasible(bool c);                                              // may c hold here? (native replay: c itself)
bool sx_symbolic(void);                                                // true in the symbolic build
int  sx_tier(void);                                                    // 0 quick 1 thorough
int  sx_param(const char*name);                                        // a bound given at run time (environment SX_P_name)
int  sx_case(void);                                                    // --case argument
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);
void sx_main(void);
}
