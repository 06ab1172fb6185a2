// Ordinary (uninstrumented) execution of a harness on the values of a replay file.
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
static std::vector<uint64_t> V;
static size_t pos;
static std::map<std::string, long>& P() { static std::map<std::string, long> p; return p; }
static std::map<std::string, void (*)()>& H() { static std::map<std::string, void (*)()> h; return h; }
static std::string want;
static uint64_t next(uint64_t d) { return pos < V.size() ? V[pos++] : (pos++, d); }
extern "C" {
uint64_t vp_sym(const char* n, uint32_t bits, uint64_t lo, uint64_t hi, uint32_t sg)
{
    uint64_t v = next(lo);
    if (bits < 64) v = sg ? (uint64_t)((int64_t)(v << (64 - bits)) >> (64 - bits)) : v & ((1ULL << bits) - 1);
    bool in = sg ? ((int64_t)v >= (int64_t)lo && (int64_t)v <= (int64_t)hi) : (v >= lo && v <= hi);
    if (sg && bits < 64) {
        int64_t l = (int64_t)(lo << (64 - bits)) >> (64 - bits), h = (int64_t)(hi << (64 - bits)) >> (64 - bits);
        in = (int64_t)v >= l && (int64_t)v <= h;
    }
    if (!in) v = lo;
    if (getenv("VP_PRINT")) fprintf(stderr, "  %s = %lld\n", n, (long long)v);
    return v;
}
double vp_double(const char* n)
{
    uint64_t v = next(0);
    double d;
    memcpy(&d, &v, 8);
    if (getenv("VP_PRINT")) fprintf(stderr, "  %s = %g (0x%llx)\n", n, d, (unsigned long long)v);
    return d;
}
uint64_t vp_conc(uint64_t v) { return v; }
int vp_is_symbolic(uint64_t) { return 0; }
void vp_assume(bool c)
{
    if (!c) {
        fprintf(stderr, "replay: assumption does not hold\n");
        _exit(0);
    }
}
void vp_assert(bool c, const char* m)
{
    if (!c) {
        fprintf(stderr, "replay: ASSERTION VIOLATED: %s\n", m);
        _exit(1);
    }
}
void vp_reach(const char* l) { if (getenv("VP_PRINT")) fprintf(stderr, "  reached %s\n", l); }
void vp_cut(const char*) { _exit(0); }
double vp_uf(uint64_t id, uint64_t n, double a, double b, double c, double d)
{
    uint64_t v = next(0);
    double r;
    memcpy(&r, &v, 8);
    return r;
}
long vp_param(const char* n, long d)
{
    auto it = P().find(n);
    return it == P().end() ? d : it->second;
}
int vp_is_replay(void) { return 1; }
void vp_note(const char* m) { fprintf(stderr, "note: %s\n", m); }
void vp_reg_harness(const char* n, void (*f)()) { H()[n] = f; }
void vp_known(const char* id, bool c)
{
    if (c) {
        fprintf(stderr, "replay: known finding %s\n", id);
        _exit(0);
    }
}
void vp_messages(int) {}
uint32_t vp_sched_choose(uint32_t n) { return vp_sym("schedule", 64, 0, n - 1, 0); }
void vp_sched_event(uint32_t, uint32_t, uint64_t) {}
void vp_sched_deadlock(void)
{
    fprintf(stderr, "replay: every thread waits for another one\n");
    _exit(1);
}
void vp_race_watch(void) {}
void vp_race_check(void) {}
uint64_t vp_memo(const char* name, uint64_t key, uint64_t lo, uint64_t hi)
{
    static std::map<uint64_t, uint64_t> memo;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    return memo[key] = vp_sym(name, 64, lo, hi, 0);
}
}
int main(int argc, char** argv)
{
    std::ifstream f(argv[1]);
    std::string line, h;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "harness") s >> h;
        else if (k == "params") {
            std::string kv;
            while (s >> kv) P()[kv.substr(0, kv.find('='))] = atol(kv.substr(kv.find('=') + 1).c_str());
        }
        else if (k == "message") std::getline(s, want);
        else if (k == "values") {
            uint64_t v;
            while (s >> v) V.push_back(v);
        }
    }
    if (!H().count(h)) {
        fprintf(stderr, "replay: no harness %s\n", h.c_str());
        return 2;
    }
    alarm(want.find("did not end") != std::string::npos ? 20 : 120);
    try {
        H()[h]();
    }
    catch (std::exception& e) {
        fprintf(stderr, "replay: UNCAUGHT EXCEPTION: %s\n", e.what());
        _exit(1);
    }
    fprintf(stderr, "replay: harness completed without violation\n");
    fflush(stdout);
    _exit(0);
}
