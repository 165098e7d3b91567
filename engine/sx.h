// Guest-side API of the symbolic executor.  The same harness source is compiled
//  (a) to LLVM bitcode and executed symbolically by sxrun, and
//  (b) natively together with replay_rt.cpp to replay a counterexample.
#pragma once
#include <stdint.h>
extern "C" {
uint64_t sx_sym(const char* name, int bits);            // fresh symbolic value
uint64_t sx_range_(const char* name, uint64_t lo, uint64_t hi);  // fresh symbolic value within signed bounds
void sx_assume(int cond);                               // prune
void sx_assert(int cond, const char* what);             // property assertion, decided by the solver
void sx_fail(const char* what);                         // reaching this is a violation
void sx_cover(const char* what);                        // reachability witness
uint64_t sx_choose(const char* name, uint64_t n);       // symbolic value in [0,n), one path per value
uint64_t sx_concretize(uint64_t v);                     // one path per feasible value
int sx_is_symbolic(uint64_t v);
void sx_limit(uint64_t steps);                           // the rest of this path ends within this many IR instructions (checked every 4 million)
void sx_stop();                                         // end this path (counts as completed)
void sx_note(const char* what, uint64_t v);             // debugging
void sx_sched(int mode, int preemptions);               // thread schedule exploration: 0 off, 1 at every sync operation
int sx_threads_running();
void sx_yield(const char* where);                       // explicit scheduling point

}
static inline int32_t sx_i32(const char* n) { return (int32_t)sx_sym(n, 32); }
static inline int64_t sx_i64(const char* n) { return (int64_t)sx_sym(n, 64); }
static inline uint8_t sx_u8(const char* n) { return (uint8_t)sx_sym(n, 8); }
static inline bool sx_bool(const char* n) { return sx_sym(n, 1) != 0; }
// value in [lo, hi] kept symbolic
static inline int64_t sx_range(const char* n, int64_t lo, int64_t hi) { return (int64_t)sx_range_(n, (uint64_t)lo, (uint64_t)hi); }
// value in [lo, hi], one path per value
static inline int64_t sx_pick(const char* n, int64_t lo, int64_t hi) { return lo + (int64_t)sx_choose(n, (uint64_t)(hi - lo + 1)); }

#define SX_ENTRY(name) extern "C" __attribute__((used, visibility("default"))) void sx_h_##name()
// prefix of a function standing in, in the engine only, for the library function with the mangled name that follows
#define SX_STUB extern "C" __attribute__((used, visibility("default")))
