// Random draws replaced by arbitrary values in the requested bounds.
// Included by exactly one harness source of an executable.
#pragma once
#include "hx.h"
#include "mutator/rng.h"
static long drawCount = 0;
// Optional override: return true and set v to impose a draw.
static bool (*intDrawHook)(uint64_t lo, uint64_t hi, uint64_t& v) = nullptr;
static bool (*dblDrawHook)(double lo, double hi, double& v) = nullptr;
static std::vector<uint64_t> seedLog;
namespace Mutator {
    void RNG::setSeed(uint64_t s) { seedLog.push_back(s); }
    uint64_t RNG::getUnsignedInt64(uint64_t min, uint64_t max)
    {
        drawCount++;
        vp_assert(min <= max, "an integer is drawn in a non-empty range");
        uint64_t v;
        if (intDrawHook && intDrawHook(min, max, v)) return v;
        return vp_u64("draw", min, max);
    }
    int32_t RNG::getInt32(int32_t min, int32_t max)
    {
        drawCount++;
        vp_assert(min <= max, "an integer is drawn in a non-empty range");
        return vp_i32("draw", min, max);
    }
    double RNG::getDouble(double min, double max)
    {
        drawCount++;
        vp_assert(min <= max, "a value is drawn in a non-empty range");
        double r;
        if (dblDrawHook && dblDrawHook(min, max, r)) return r;
        r = vp_double("drawd");
        vp_assume(r >= min && r <= max);
        return r;
    }
} // namespace Mutator
