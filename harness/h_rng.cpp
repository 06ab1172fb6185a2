// C19: random draws.
#include "hx.h"
#include "mutator/rng.h"

// An RNG whose next raw outputs are arbitrary: the first words of the state of its engine are symbolic.
struct Rng : Mutator::RNG {
    static constexpr size_t N = 312; // size of the state of mt19937_64
    Rng(uint64_t seed) : Mutator::RNG(seed) {}
    std::mt19937_64 raws() { return *(std::mt19937_64*)engine.get(); }
    void symbolic(size_t words)
    {
        engine->discard(1); // the state is now regenerated on use, and read from its start
        uint64_t* st = (uint64_t*)engine.get();
        static_assert(sizeof(std::mt19937_64) == (N + 1) * 8, "layout of the engine");
        st[N] = 0;
        for (size_t i = 0; i < words; i++) st[i] = vp_u64("state", 0, UINT64_MAX);
    }
};
// The value an unbiased draw of n values makes of raw numbers: those of the last, incomplete, interval are rejected.
template <class U> static bool unbiased(const uint64_t* raw, size_t words, U n, U& v)
{
    const U mask = (U)-1;
    for (size_t i = 0; i < words; i++) {
        U x = (U)raw[i];
        if (n == 0 || mask % n == n - 1 || x / n < mask / n) {
            v = n ? x % n : x;
            return true;
        }
    }
    return false;
}
static uint64_t width(size_t k)
{
    static const uint64_t w[] = {0, 1, 2, 4, 255, UINT32_MAX, UINT64_MAX, UINT64_MAX - 1, 1000, (1ull << 40) + 1, 6, 1ull << 63};
    return w[k];
}
HARNESS(drawu64)
{
    Rng r(3);
    r.symbolic(vp_param("words", 2));
    size_t k = vp_pick("range", vp_param("first", 0), vp_param("last", 11));
    uint64_t w = width(k), lo = vp_u64("min", 0, UINT64_MAX - w), hi = lo + w;
    std::mt19937_64 e = r.raws();
    uint64_t raw[2], x;
    for (auto& q : raw) q = e();
    uint64_t v = r.getUnsignedInt64(lo, hi);
    vp_assert(lo <= v && v <= hi, "an integer is drawn within the bounds");
    if (unbiased<uint64_t>(raw, 2, w + 1, x)) vp_assert(v == lo + x, "every value of the range is equally likely");
    else vp_reach("rejected twice");
    if (w == 0) vp_assert(v == lo, "a single value range gives this value");
    if (w && w <= 6) {
        static const char* name[] = {"1", "2", "3", "4", "5", "6", "7"};
        uint64_t o = vp_conc(v - lo);
        static char lab[64];
        snprintf(lab, sizeof lab, "width %d value %s", (int)w, name[o]);
        vp_reach(strdup(lab));
    }
    else if (w && k != 11) {
        if (v == lo) vp_reach("large range: first value");
        else if (v == hi) vp_reach("large range: last value");
    }
}
HARNESS(drawi32)
{
    Rng r(3);
    r.symbolic(vp_param("words", 2));
    static const uint32_t ws[] = {0, 1, 2, 200, 1u << 31, UINT32_MAX};
    uint32_t w = ws[vp_pick("range", 0, 5)];
    static const int32_t los[] = {INT32_MIN, -2, 0, 1, 1000000};
    size_t m = vp_pick("min", 0, 4);
    vp_assume((int64_t)los[m] + w <= INT32_MAX);
    int32_t lo = los[m], hi = (int32_t)((int64_t)lo + w);
    std::mt19937_64 e = r.raws();
    uint64_t raw[2];
    for (auto& q : raw) q = e();
    uint64_t x;
    int32_t v = r.getInt32(lo, hi);
    if (unbiased<uint64_t>(raw, 2, (uint64_t)w + 1, x)) vp_assert(v == (int32_t)((uint32_t)lo + x), "every value of the range is equally likely");
    vp_assert(lo <= v && v <= hi, "an integer is drawn within the bounds");
    if (v == lo) vp_reach("first value");
    else if (v == hi) vp_reach("last value");
    if (v < 0 && lo < 0 && hi > 0) vp_reach("negative");
}
HARNESS(drawdouble)
{
    Rng r(3);
    r.symbolic(1);
    static const double b[][2] = {{0, 1}, {-1, 1}, {0, 0}, {2.5, 2.5}, {-100, 0.125}, {0, 1e10}};
    size_t k = vp_pick("range", 0, 5);
    double v = r.getDouble(b[k][0], b[k][1]);
    vp_assert(v >= b[k][0] && v <= b[k][1], "a value is drawn within the bounds");
    double mid = b[k][0] + (b[k][1] - b[k][0]) / 2;
    if (b[k][1] > b[k][0]) vp_reach(v < mid ? "lower half" : "upper half");
    else vp_reach("single value");
}
// The sequence depends on the seed only, and a copy continues the sequence on its own.
HARNESS(seeds)
{
    uint64_t seed = vp_u64("seed", 0, UINT64_MAX), s0 = vp_pick("first seed", 0, 2);
    Rng a(s0), b(vp_param("other", 5));
    size_t n = vp_pick("draws before", 0, 3);
    for (size_t i = 0; i < n; i++) {
        size_t k = vp_pick("kind", 0, 2);
        if (k == 0) a.getUnsignedInt64(0, 7);
        if (k == 1) a.getDouble(0, 1);
        if (k == 2) a.getInt32(-5, 1);
    }
    a.setSeed(seed);
    b.setSeed(seed);
    Rng c(a);
    uint64_t x = a.getUnsignedInt64(0, UINT64_MAX);
    vp_assert(x == b.getUnsignedInt64(0, UINT64_MAX), "equal seeds give equal sequences");
    b.getUnsignedInt64(0, UINT64_MAX);
    vp_assert(x == c.getUnsignedInt64(0, UINT64_MAX), "a copy continues the sequence on its own");
    a.setSeed(s0);
    Rng d(s0);
    for (int i = 0; i < 4; i++) {
        vp_assert(a.getInt32(-3, 100) == d.getInt32(-3, 100), "a seeded generator equals a new one");
        double u = a.getDouble(-1, 1), v = d.getDouble(-1, 1);
        vp_assert(u == v, "a seeded generator equals a new one");
        vp_assert(a.getUnsignedInt64(2, 9) == d.getUnsignedInt64(2, 9), "a seeded generator equals a new one");
    }
    vp_reach("end");
}
