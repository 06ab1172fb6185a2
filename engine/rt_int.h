#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
enum { MAXVALS = 768, MAXDEC = 16384 };
struct Item {
    uint32_t n, bound;
    uint64_t hash;
    uint64_t val[MAXVALS];
    uint8_t imp[MAXDEC / 8]; // event was implied by the path condition (no constraint added)
};
struct Stat {
    uint64_t queries, sat, unsat, unknown, pushed, viol, incomplete, events;
    uint64_t asserts, assertsSym, assertsConc, decisions, vars, end, concs, known;
    double solver, maxq;
};
struct MsgHdr { uint32_t type, len; };
enum { M_ITEM = 1, M_VIOL, M_DONE, M_INCOMPLETE, M_REACH, M_SITES, M_SAMPLE, M_EXIT, M_KNOWN, M_NOTE, M_TRACE };
enum { E_OK = 0, E_ASSUME, E_CUT, E_VIOL, E_DIVERGE, E_DEPTH, E_REDIRECT, E_KNOWN };
[[gnu::visibility("hidden")]] void rt_memerr(const char* what, uint64_t a, uint64_t n);
[[gnu::visibility("hidden")]] const char* rt_symname(uint64_t a);
struct Ex;
extern "C" void vp_rt_memcpy(void* d, Ex* sd, const void* s, Ex* ss, uint64_t n, Ex* sn);
