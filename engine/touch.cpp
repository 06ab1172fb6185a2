// Makes the accesses of the C++ library to tree nodes visible to the replay build.
#include <cstdint>
extern "C" void vp_sched_touch(void* p, uint32_t n, uint32_t write)
{
    volatile uint64_t* q = (volatile uint64_t*)p;
    for (uint32_t i = 0; i < n / 8; i++) {
        uint64_t v = q[i];
        if (write) q[i] = v;
    }
}
