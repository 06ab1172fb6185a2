// Harness interface of the symbolic engine. The same harness source is compiled
// twice: instrumented (values are symbolic) and for replay (values come from a file).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// symbolic integer of the given width in [lo,hi]
uint64_t vp_sym(const char* name, uint32_t bits, uint64_t lo, uint64_t hi, uint32_t isSigned);
// symbolic double: any 64-bit pattern
double vp_double(const char* name);
// concrete value enumerated by the solver (one path per feasible value)
uint64_t vp_conc(uint64_t v);
// does the value depend on symbolic inputs (never in the replay build)
int vp_is_symbolic(uint64_t v);
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_reach(const char* label);
// an exploration bound is hit: the path is abandoned and counted as cut
void vp_cut(const char* why);
// uninterpreted function of up to 4 arguments (bit patterns)
double vp_uf(uint64_t id, uint64_t n, double a, double b, double c, double d);
// harness parameter (tier-dependent bound), default if not given on the command line
long vp_param(const char* name, long dflt);
// true in the replay (ordinary) build
int vp_is_replay(void);
void vp_note(const char* msg);
void vp_reg_harness(const char* name, void (*fn)());
// known finding: message printed once, path abandoned without alarm when c holds
void vp_known(const char* id, bool c);
// from now on, numbers formatted into text belong to error messages: no case split on them
void vp_messages(int on);
// threads: run one at a time from now on, with arbitrary choices of the next one and at most this
// number of switches from a thread that could go on (engine/sched.cpp)
void vp_sched_enable(int maxPreempt);
void vp_sched_disable(void);
// record accesses, and decide whether two of them race
void vp_race_watch(void);
void vp_race_check(void);
// a symbolic integer that is the same whenever the key is
uint64_t vp_memo(const char* name, uint64_t key, uint64_t lo, uint64_t hi);
}
static inline uint64_t vp_u64(const char* n, uint64_t lo, uint64_t hi) { return vp_sym(n, 64, lo, hi, 0); }
static inline int32_t vp_i32(const char* n, int32_t lo, int32_t hi) { return (int32_t)vp_sym(n, 32, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi, 1); }
static inline bool vp_bool(const char* n) { return vp_sym(n, 8, 0, 1, 0) != 0; }
static inline uint64_t vp_pick(const char* n, uint64_t lo, uint64_t hi) { return vp_conc(vp_sym(n, 64, lo, hi, 0)); }
struct VpReg { VpReg(const char* n, void (*f)()) { vp_reg_harness(n, f); } };
#define HARNESS(name) \
    static void harness_##name(); \
    static VpReg reg_##name(#name, harness_##name); \
    static void harness_##name()
