// Symbolic runtime: shadow expressions, solver-driven path exploration, driver.
#include <atomic>
#include <algorithm>
#include <bitset>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>
#include "rt_int.h"

#define EXPORT extern "C" __attribute__((visibility("default")))

static const int MAXV = 768;
typedef std::bitset<MAXV> VS;

int vp_in_rt = 0; // >0 while in the runtime: allocations go to malloc
struct Rt {
    Rt() { vp_in_rt++; }
    ~Rt() { vp_in_rt--; }
};
static bool g_active = false; // exploring (in a path child)

// ---------------------------------------------------------------- arena
static const uint64_t ARENA = 0x100000000000ULL, ARENA_SZ = 4ULL << 30;
static uint8_t* g_gran; // per 16-byte granule: number of valid bytes
static uint64_t g_top;
static uint64_t g_liveSz = 0;
static void arenaInit()
{
    if (g_gran) return;
    void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) abort();
    g_gran = (uint8_t*)mmap(0, ARENA_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_top = ARENA + 4096;
}
static inline bool inArena(uint64_t a) { return a - ARENA < ARENA_SZ; }
static void* arenaNew(size_t n, size_t al = 16)
{
    arenaInit();
    g_top = (g_top + 31) & ~15ULL; // one granule of header + red zone
    if (al > 16) g_top = (g_top + al - 1) & ~(al - 1);
    uint64_t p = g_top;
    if (p + n + 64 > ARENA + ARENA_SZ) return nullptr;
    *(uint64_t*)(p - 16) = n;
    uint64_t g = (p - ARENA) >> 4, full = n / 16;
    memset(g_gran + g, 16, full);
    if (n % 16) g_gran[g + full] = n % 16;
    g_top = p + (n ? n : 1);
    return (void*)p;
}
static void arenaDel(void* q)
{
    uint64_t p = (uint64_t)q, n = *(uint64_t*)(p - 16), g = (p - ARENA) >> 4;
    if (n && !g_gran[g]) {
        rt_memerr("double or invalid free", p, 0);
        return;
    }
    memset(g_gran + g, 0, (n + 15) / 16);
}
static inline bool arenaOk(uint64_t a, uint64_t n)
{
    if (!n) return true;
    uint64_t o = a - ARENA, e = o + n - 1;
    uint64_t ge = e >> 4;
    if ((e & 15) >= g_gran[ge]) return false;
    for (uint64_t g = o >> 4; g < ge; g++)
        if (g_gran[g] != 16) return false;
    return true;
}
EXPORT void* _Znwm(size_t n)
{
    if (vp_in_rt) {
        void* p = malloc(n);
        if (!p) abort();
        return p;
    }
    void* p = n > (1ULL << 31) ? nullptr : arenaNew(n);
    if (!p) throw std::bad_alloc();
    return p;
}
EXPORT void* _Znam(size_t n) { return _Znwm(n); }
EXPORT void* _ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&)
{
    return vp_in_rt ? malloc(n) : n > (1ULL << 31) ? nullptr : arenaNew(n);
}
EXPORT void* _ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t& t) { return _ZnwmRKSt9nothrow_t(n, t); }
EXPORT void* _ZnwmSt11align_val_t(size_t n, std::align_val_t a)
{
    return vp_in_rt ? aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a) : arenaNew(n, (size_t)a);
}
EXPORT void _ZdlPv(void* p)
{
    if (!p) return;
    if (inArena((uint64_t)p)) arenaDel(p);
    else free(p);
}
EXPORT void _ZdlPvm(void* p, size_t) { _ZdlPv(p); }
EXPORT void _ZdaPv(void* p) { _ZdlPv(p); }
EXPORT void _ZdaPvm(void* p, size_t) { _ZdlPv(p); }
EXPORT void _ZdlPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { _ZdlPv(p); }
EXPORT void _ZdlPvSt11align_val_t(void* p, std::align_val_t) { _ZdlPv(p); }
EXPORT void _ZdlPvmSt11align_val_t(void* p, size_t, std::align_val_t) { _ZdlPv(p); }
EXPORT void* vp_rt_malloc(size_t n) { return n > (1ULL << 31) ? nullptr : arenaNew(n); }
EXPORT void* vp_rt_calloc(size_t a, size_t b) { void* p = vp_rt_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
EXPORT void vp_rt_free(void* p) { _ZdlPv(p); }
EXPORT void* vp_rt_realloc(void* p, size_t n)
{
    if (p && !inArena((uint64_t)p)) return realloc(p, n);
    void* q = vp_rt_malloc(n);
    if (p && q) {
        size_t o = *(uint64_t*)((uint64_t)p - 16);
        vp_rt_memcpy(q, nullptr, p, nullptr, o < n ? o : n, nullptr);
        memcpy(q, p, o < n ? o : n);
        arenaDel(p);
    }
    return q;
}

// ---------------------------------------------------------------- expressions
enum Kind : uint8_t { BV, FP, BL, TUP };
struct Ex {
    Kind k;
    uint32_t bits;
    Z3_ast bv = 0, fp = 0, bl = 0;
    VS vs;
    std::vector<Ex*> tup;
    uint64_t ub = ~0ULL; // upper bound of the value, read as unsigned
    Z3_ast iv = 0; // floating point: it equals iv * 2^-ivs, iv a signed integer of ivw bits, if known
    unsigned ivw = 0, ivs = 0;
};
static Z3_context Z;
static Z3_sort SD, SF, SB;
static Z3_ast RNE, RTZ;
EXPORT void* vp_ptag;
EXPORT Ex* vp_pe[64];
EXPORT uint64_t vp_pc[64];
EXPORT Ex* vp_ret;

void* vp_ptag;
Ex* vp_pe[64];
uint64_t vp_pc[64];
Ex* vp_ret;

static Z3_sort bvs(unsigned w)
{
    static Z3_sort t[129];
    if (!t[w]) t[w] = Z3_mk_bv_sort(Z, w);
    return t[w];
}
static Z3_ast num(uint64_t v, unsigned w)
{
    if (w < 64) v &= (1ULL << w) - 1;
    return Z3_mk_unsigned_int64(Z, v, bvs(w));
}
static Z3_ast ite(Z3_ast c, Z3_ast a, Z3_ast b) { return a == b ? a : Z3_mk_ite(Z, c, a, b); }
static Z3_ast getbv(Ex* e)
{
    if (e->bv) return e->bv;
    if (e->bl) return e->bv = ite(e->bl, num(1, e->bits), num(0, e->bits));
    return e->bv = Z3_mk_fpa_to_ieee_bv(Z, e->fp);
}
static Z3_ast getfp(Ex* e)
{
    if (e->fp) return e->fp;
    return e->fp = Z3_mk_fpa_to_fp_bv(Z, getbv(e), e->bits == 32 ? SF : SD);
}
static Z3_ast getbl(Ex* e)
{
    if (e->bl) return e->bl;
    return e->bl = Z3_mk_not(Z, Z3_mk_eq(Z, getbv(e), num(0, e->bits)));
}
static bool g_fpq = false;
static Ex* mk(Kind k, unsigned bits, Z3_ast a, const VS& vs)
{
    if (k == FP) g_fpq = true;
    Ex* e = new Ex;
    e->k = k;
    e->bits = bits;
    (k == BV ? e->bv : k == FP ? e->fp : e->bl) = a;
    e->vs = vs;
    return e;
}
static const VS NOVS;
static Z3_ast bvOf(Ex* e, uint64_t c, unsigned w) { return e ? getbv(e) : num(c, w); }
static Z3_ast simp(Z3_ast a)
{
    static Z3_params p;
    if (!p) {
        p = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, p);
        Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "sort_sums"), true);
    }
    return Z3_simplify_ex(Z, a, p);
}
static Z3_ast fpOf(Ex* e, uint64_t c, unsigned w)
{
    if (e) return getfp(e);
    return simp(Z3_mk_fpa_to_fp_bv(Z, num(c, w), w == 32 ? SF : SD));
}
static uint64_t maskOf(unsigned w) { return w < 64 ? (1ULL << w) - 1 : ~0ULL; }
static uint64_t ubOf(Ex* e, uint64_t c, unsigned w)
{
    uint64_t m = maskOf(w);
    if (!e) return c & m;
    if (e->k == BL) return 1;
    return e->ub < m ? e->ub : m;
}
static unsigned bitsFor(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 1; }
// e restricted to its low n bits (its value is known to fit)
static Z3_ast lowBits(Z3_ast a, unsigned w, unsigned n) { return n >= w ? a : Z3_mk_extract(Z, n - 1, 0, a); }
static Z3_ast zext(Z3_ast a, unsigned from, unsigned to) { return to > from ? Z3_mk_zero_ext(Z, to - from, a) : a; }
static VS vsOf(Ex* a, Ex* b) { return a ? (b ? a->vs | b->vs : a->vs) : b->vs; }

// ---------------------------------------------------------------- path state
struct Var {
    std::string name;
    unsigned bits;
    uint64_t val, lo, hi;
    bool sg, uf, dbl;
    int alias = -1; // repeated application of an uninterpreted function
    Z3_ast ast;
    Z3_ast dom;
};
struct Con {
    Z3_ast a;
    VS vs;
};
static std::vector<Var> g_vars;
static std::vector<Con> g_pc;
static Item g_item; // the item being run
static uint32_t g_dec = 0;
static uint64_t g_hash = 1469598103934665603ULL;
static Stat g_st;
static std::vector<std::string> g_reach;
static std::unordered_set<uint64_t> g_sites;
static int g_out = -1;
static uint64_t g_bound() { return g_item.bound; }
static const char* g_pathEnd = nullptr;

static void hashIn(uint64_t x)
{
    g_hash ^= x + 0x9e3779b97f4a7c15ULL + (g_hash << 6) + (g_hash >> 2);
    g_hash *= 1099511628211ULL;
}
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void wr(const void* p, size_t n)
{
    const char* c = (const char*)p;
    while (n) {
        ssize_t r = write(g_out, c, n);
        if (r < 0) {
            if (errno == EINTR) continue;
            _exit(9);
        }
        c += r;
        n -= r;
    }
}
static void msg(uint32_t type, const void* p, uint32_t n)
{
    MsgHdr h{type, n};
    std::string b((char*)&h, sizeof h);
    b.append((const char*)p, n);
    wr(b.data(), b.size());
}
static void fillValues(Item& it)
{
    it.n = g_vars.size();
    for (size_t i = 0; i < g_vars.size(); i++) it.val[i] = g_vars[i].val;
}
static void fixAlias(Item& it)
{
    for (size_t i = 0; i < g_vars.size(); i++)
        if (g_vars[i].alias >= 0) it.val[i] = it.val[g_vars[i].alias];
}
static void incomplete(const std::string& why)
{
    msg(M_INCOMPLETE, why.data(), why.size());
    g_st.incomplete++;
}
static std::string describe(const Item& it)
{
    std::string s;
    char b[64];
    for (size_t i = 0; i < it.n && i < g_vars.size(); i++) {
        snprintf(b, sizeof b, "=%lld", (long long)it.val[i]);
        s += g_vars[i].name + b + " ";
    }
    return s;
}
static void violation(const Item& it, const std::string& m)
{
    std::string b((char*)&it, sizeof it);
    b += m;
    b.push_back(0);
    b += describe(it);
    msg(M_VIOL, b.data(), b.size());
    g_st.viol++;
}
[[noreturn]] static void endPath(uint32_t how)
{
    g_st.end = how;
    g_st.decisions = g_dec;
    g_st.vars = g_vars.size();
    std::string r;
    for (auto& s : g_reach) r += s + "\n";
    msg(M_REACH, r.data(), r.size());
    std::vector<uint64_t> f(g_sites.begin(), g_sites.end());
    msg(M_SITES, f.data(), f.size() * 8);
    std::string d = describe([] { Item i; fillValues(i); return i; }());
    msg(M_SAMPLE, d.data(), d.size());
    msg(M_DONE, &g_st, sizeof g_st);
    _exit(0);
}
static void curViolation(const std::string& m)
{
    Item it{};
    fillValues(it);
    violation(it, m);
}
void rt_memerr(const char* what, uint64_t a, uint64_t n)
{
    if (!g_active) return;
    Rt r;
    char b[160];
    snprintf(b, sizeof b, "memory error: %s (size %llu)", what, (unsigned long long)n);
    curViolation(b);
    endPath(E_VIOL);
}
static inline void site(void* ra)
{
    if (g_item.bound == 0 || (g_st.queries & 15) == 0 || g_sites.size() < 4) g_sites.insert((uint64_t)ra);
}

// ---------------------------------------------------------------- solver
static unsigned g_timeout = 60000;
static Z3_params g_params;
static int solve(const std::vector<Z3_ast>& cs, Z3_model* mod)
{
    double t0 = now();
    Z3_solver s;
    static const char* kind = getenv("VP_SOLVER");
    if (kind && kind[0] == 's') s = Z3_mk_simple_solver(Z);
    else if (kind && kind[0] == 't') s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
    else if (g_fpq) s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
    else s = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, s);
    static unsigned to = 0;
    if (to != g_timeout) {
        g_params = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, g_params);
        Z3_params_set_uint(Z, g_params, Z3_mk_string_symbol(Z, "timeout"), g_timeout);
        to = g_timeout;
    }
    Z3_solver_set_params(Z, s, g_params);
    for (auto c : cs) Z3_solver_assert(Z, s, c);
    Z3_lbool r = Z3_solver_check(Z, s);
    double dt = now() - t0;
    g_st.queries++;
    g_st.solver += dt;
    if (dt > g_st.maxq) g_st.maxq = dt;
    if (dt > 1 && getenv("VP_SLOW")) {
        fprintf(stderr, "SLOW %.2f\n%s\n", dt, Z3_solver_to_string(Z, s));
    }
    if (getenv("VP_SMT")) {
        static int n;
        char b[200];
        snprintf(b, sizeof b, "%s/%d.%d.%d.smt2", getenv("VP_SMT"), getpid(), n++, (int)r);
        if (FILE* f = fopen(b, "w")) fputs(Z3_solver_to_string(Z, s), f), fclose(f);
    }
    if (r == Z3_L_TRUE) {
        g_st.sat++;
        if (mod) {
            *mod = Z3_solver_get_model(Z, s);
            Z3_model_inc_ref(Z, *mod);
        }
        Z3_solver_dec_ref(Z, s);
        return 1;
    }
    Z3_solver_dec_ref(Z, s);
    if (r == Z3_L_FALSE) {
        g_st.unsat++;
        return 0;
    }
    g_st.unknown++;
    incomplete("solver answered unknown");
    return -1;
}
// slice of the path condition relevant to vs (closure)
static VS slice(VS vs, std::vector<Z3_ast>& cs)
{
    std::vector<char> in(g_pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < g_pc.size(); i++)
            if (!in[i] && (g_pc[i].vs & vs).any()) {
                in[i] = 1;
                cs.push_back(g_pc[i].a);
                VS n = vs | g_pc[i].vs;
                if (n != vs) {
                    vs = n;
                    ch = true;
                }
            }
    }
    for (size_t i = 0; i < g_vars.size(); i++)
        if (vs[i] && g_vars[i].dom) cs.push_back(g_vars[i].dom);
    return vs;
}
static void readModel(Z3_model m, const VS& vs, Item& it)
{
    fillValues(it);
    for (size_t i = 0; i < g_vars.size(); i++) {
        if (!vs[i]) continue;
        Z3_ast r;
        if (Z3_model_eval(Z, m, g_vars[i].ast, true, &r)) {
            uint64_t v = 0;
            if (Z3_get_numeral_uint64(Z, r, &v)) {
                it.val[i] = v;
            }
        }
    }
    Z3_model_dec_ref(Z, m);
    fixAlias(it);
}
static int feasible(Z3_ast c, const VS& v0, Item* it)
{
    std::vector<Z3_ast> cs;
    VS vs = slice(v0, cs);
    cs.push_back(c);
    Z3_model m = 0;
    int r = solve(cs, it ? &m : nullptr);
    if (r == 1 && it) readModel(m, vs, *it);
    return r;
}
static void push(Item& it, uint64_t h)
{
    memcpy(it.imp, g_item.imp, sizeof it.imp);
    it.bound = g_dec + 1;
    it.hash = h;
    msg(M_ITEM, &it, sizeof it);
    g_st.pushed++;
}
static uint64_t peekHash(uint64_t tag)
{
    uint64_t s = g_hash;
    hashIn(tag);
    uint64_t h = g_hash;
    g_hash = s;
    return h;
}

static void setImp(uint32_t d) { g_item.imp[d >> 3] |= 1 << (d & 7); }
static void clrImp(uint32_t d) { g_item.imp[d >> 3] &= ~(1 << (d & 7)); }
static bool isImp(uint32_t d) { return g_item.imp[d >> 3] >> (d & 7) & 1; }
static bool g_traceDec = getenv("VP_TRACE") != nullptr;
static void tookDecision(uint64_t tag)
{
    hashIn(tag);
    g_dec++;
    g_st.events++;
    if (g_dec == g_item.bound && g_hash != g_item.hash) {
        if (g_traceDec) fprintf(stderr, "DIVERGED at decision %u tag %llu\n", g_dec, (unsigned long long)tag);
        incomplete("path divergence (engine)");
        endPath(E_DIVERGE);
    }
    if (g_dec >= MAXDEC - 1) {
        incomplete("too many symbolic decisions on one path");
        endPath(E_DEPTH);
    }
}
static int trivial(Z3_ast a)
{ // 1 true, 0 false, -1 symbolic
    Z3_lbool b = Z3_get_bool_value(Z, a);
    return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}

static void decide(Z3_ast taken, const VS& vs, bool val, void* ra)
{
    Z3_ast c = simp(taken);
    if (trivial(c) >= 0) return;
    site(ra);
    if (g_traceDec) fprintf(stderr, "DEC %u %s at %s: %s\n", g_dec, val ? "T" : "F", rt_symname((uint64_t)ra), Z3_ast_to_string(Z, c));
    if (g_dec >= g_bound()) {
        Item it{};
        int r = feasible(Z3_mk_not(Z, c), vs, &it);
        if (r == 0) setImp(g_dec);
        else {
            clrImp(g_dec);
            if (r == 1) push(it, peekHash(val ? 2 : 1));
            g_pc.push_back({c, vs});
        }
    }
    else if (!isImp(g_dec)) g_pc.push_back({c, vs});
    tookDecision(val ? 1 : 2);
}
// enumerate all feasible values of a bit-vector expression; the path continues with
// its concrete value, the other values become new work items.
static unsigned g_maxEnum = 300;
static uint64_t concretize(Ex* e, uint64_t cv, void* ra, const char* what)
{
    if (!e) return cv;
    Z3_ast a = simp(getbv(e));
    uint64_t u;
    if (Z3_is_numeral_ast(Z, a) && Z3_get_numeral_uint64(Z, a, &u)) return cv;
    if (e->k == FP) u = 0;
    site(ra);
    unsigned w = e->bits;
    Z3_ast eq = Z3_mk_eq(Z, a, num(cv, w));
    if (g_traceDec) fprintf(stderr, "CONC %u %lld at %s (%s): %s\n", g_dec, (long long)cv, rt_symname((uint64_t)ra), what, Z3_ast_to_string(Z, a));
    if (g_dec >= g_bound()) {
        g_st.concs++;
        std::vector<Z3_ast> excl{Z3_mk_not(Z, eq)};
        clrImp(g_dec);
        unsigned found = 1;
        for (;;) {
            Item it{};
            std::vector<Z3_ast> cs;
            VS vs = slice(e->vs, cs);
            for (auto x : excl) cs.push_back(x);
            Z3_model m = 0;
            int r = solve(cs, &m);
            if (r != 1) break;
            Z3_ast v;
            uint64_t nv = 0;
            Z3_model_eval(Z, m, a, true, &v);
            if (!Z3_get_numeral_uint64(Z, v, &nv)) {
                Z3_model_dec_ref(Z, m);
                incomplete("value of expression not numeral");
                break;
            }
            readModel(m, vs, it);
            push(it, peekHash(nv * 7 + 3));
            excl.push_back(Z3_mk_not(Z, Z3_mk_eq(Z, a, num(nv, w))));
            if (++found > g_maxEnum) {
                incomplete(std::string("too many values to enumerate: ") + what + " at " + rt_symname((uint64_t)ra));
                break;
            }
        }
    }
    g_pc.push_back({eq, e->vs});
    tookDecision((w < 64 ? cv & ((1ULL << w) - 1) : cv) * 7 + 3);
    return cv;
}

// ---------------------------------------------------------------- shadow memory
struct Cell {
    Ex* e;
    uint8_t idx, val, n;
};
static uint8_t* g_pf; // page flags
static std::unordered_map<uint64_t, Cell*> g_pages;
static uint64_t g_lastPage = ~0ULL;
static Cell* g_lastCells;
static const uint64_t PFSZ = 1ULL << 35;
static inline bool pageHot(uint64_t a) { return a < (1ULL << 47) && g_pf[a >> 12]; }
static Cell* cellsOf(uint64_t a, bool create)
{
    uint64_t p = a >> 12;
    if (p == g_lastPage) return g_lastCells;
    auto it = g_pages.find(p);
    Cell* c;
    if (it == g_pages.end()) {
        if (!create) return nullptr;
        c = (Cell*)calloc(4096, sizeof(Cell));
        g_pages[p] = c;
        g_pf[p] = 1;
    }
    else
        c = it->second;
    g_lastPage = p;
    g_lastCells = c;
    return c;
}
__attribute__((constructor)) static void pfInit()
{
    arenaInit();
    g_pf = (uint8_t*)mmap(0, PFSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_pf == MAP_FAILED) abort();
}
static inline bool hot(uint64_t a, uint64_t n) { return n && (pageHot(a) || pageHot(a + n - 1)); }
static void clearShadow(uint64_t a, uint64_t n)
{
    for (uint64_t x = a; x < a + n;) {
        uint64_t e = (x | 4095) + 1;
        if (e > a + n) e = a + n;
        if (pageHot(x)) {
            Cell* c = cellsOf(x, false);
            memset(c + (x & 4095), 0, (e - x) * sizeof(Cell));
        }
        x = e;
    }
}
static inline Cell* cellAt(uint64_t a)
{
    if (!pageHot(a)) return nullptr;
    Cell* c = cellsOf(a, false) + (a & 4095);
    if (!c->e) return nullptr;
    if (c->val != *(uint8_t*)a) { // overwritten by code that is not instrumented
        c->e = nullptr;
        return nullptr;
    }
    return c;
}
static Ex* extractByte(Ex* e, unsigned i)
{
    if (e->bits <= 8) {
        if (e->bits == 8) return e;
        Ex* r = mk(BV, 8, Z3_mk_zero_ext(Z, 8 - e->bits, getbv(e)), e->vs);
        return r;
    }
    return mk(BV, 8, Z3_mk_extract(Z, i * 8 + 7, i * 8, getbv(e)), e->vs);
}
static Ex* loadShadow(uint64_t a, unsigned size, unsigned bits)
{
    Cell* c[16];
    bool any = false;
    if (size > 16) return nullptr;
    for (unsigned i = 0; i < size; i++) {
        c[i] = cellAt(a + i);
        // cellAt may be invalidated by nothing here: cells live in stable arrays
        if (c[i]) any = true;
    }
    if (!any) return nullptr;
    Ex* e = c[0] ? c[0]->e : nullptr;
    if (e && c[0]->n == size) {
        bool same = true;
        for (unsigned i = 0; i < size; i++)
            if (!c[i] || c[i]->e != e || c[i]->idx != i) same = false;
        if (same) {
            if (e->bits == bits) return e;
            if (e->bits > bits) return mk(BV, bits, Z3_mk_extract(Z, bits - 1, 0, getbv(e)), e->vs);
            return mk(BV, bits, Z3_mk_zero_ext(Z, bits - e->bits, getbv(e)), e->vs);
        }
    }
    // part of one wider value?
    Z3_ast r = 0;
    VS vs;
    for (int i = size - 1; i >= 0; i--) {
        Z3_ast b = c[i] ? getbv(extractByte(c[i]->e, c[i]->idx)) : num(*(uint8_t*)(a + i), 8);
        if (c[i]) vs |= c[i]->e->vs;
        r = r ? Z3_mk_concat(Z, r, b) : b;
    }
    r = simp(r);
    if (size * 8 > bits) r = Z3_mk_extract(Z, bits - 1, 0, r);
    return mk(BV, bits, r, vs);
}
static void storeShadow(uint64_t a, unsigned size, Ex* e, uint64_t val)
{
    if (!e) {
        if (hot(a, size)) clearShadow(a, size);
        return;
    }
    for (unsigned i = 0; i < size; i++) {
        Cell* c = cellsOf(a + i, true) + ((a + i) & 4095);
        c->e = e;
        c->idx = i;
        c->n = size;
        c->val = i < 8 ? val >> (8 * i) : 0;
    }
}

// ---------------------------------------------------------------- instrumentation callbacks
#define RA __builtin_return_address(0)
static Ex* mkbl(Z3_ast a, const VS& vs, unsigned bits = 1) { return mk(BL, bits, a, vs); }
EXPORT Ex* vp_rt_bin(uint32_t op, uint32_t w, uint64_t a, Ex* sa, uint64_t b, Ex* sb)
{
    if (!sa && !sb) return nullptr;
    Rt r;
    site(RA);
    VS vs = vsOf(sa, sb);
    uint64_t m = w < 64 ? (1ULL << w) - 1 : ~0ULL;
    bool ba = sa ? sa->k == BL : (a & m) <= 1, bb = sb ? sb->k == BL : (b & m) <= 1;
    if (ba && bb && (op == 28 || op == 29 || op == 30)) {
        if (!sa || !sb) {
            Ex* s = sa ? sa : sb;
            bool c = (sa ? b : a) & 1;
            if (op == 28) return c ? s : nullptr;
            if (op == 29) return c ? nullptr : s;
            return c ? mkbl(Z3_mk_not(Z, getbl(s)), vs, w) : s;
        }
        Z3_ast x[2] = {getbl(sa), getbl(sb)};
        return mkbl(op == 28 ? Z3_mk_and(Z, 2, x) : op == 29 ? Z3_mk_or(Z, 2, x) : Z3_mk_xor(Z, x[0], x[1]), vs, w);
    }
    Z3_ast x = bvOf(sa, a, w), y = bvOf(sb, b, w), q;
    // operations whose result is known to be small are done on few bits
    uint64_t ua = ubOf(sa, a, w), ub = ubOf(sb, b, w), ur = ~0ULL;
    switch (op) {
    case 13: if (!__builtin_add_overflow(ua, ub, &ur)) break; ur = ~0ULL; break;
    case 17: if (!__builtin_mul_overflow(ua, ub, &ur)) break; ur = ~0ULL; break;
    case 19: if (!sb && ub) ur = ua / ub; break;
    case 22: if (!sb && ub) {
        if (ua < ub) return sa;
        ur = ub - 1;
        break;
    }
        break;
    case 26: if (!sb && ub < 64) ur = ua >> ub; break;
    case 25: if (!sb && ub < 64 && bitsFor(ua) + ub < 64) ur = ua << ub; break;
    case 28: ur = ua < ub ? ua : ub; break;
    case 29:
    case 30: ur = maskOf(bitsFor(ua | ub)); break;
    case 200: ur = ua < ub ? ua : ub; break;
    case 201: ur = ua < ub ? ub : ua; break;
    case 204: ur = ua; break;
    }
    if (ur > maskOf(w)) ur = ~0ULL;
    if (ur != ~0ULL && (op == 13 || op == 17 || op == 19 || op == 22 || op == 25)) {
        uint64_t big = std::max(std::max(ua, op == 25 ? ur : ub), ur);
        unsigned n = bitsFor(big);
        if (n < w && !(op == 25 && (1ULL << bitsFor(n)) <= ub)) {
            Z3_ast xs = lowBits(x, w, n), ys = lowBits(y, w, n), z;
            if (op == 25) ys = num(b, n);
            if (sa == nullptr) xs = num(a, n);
            if (sb == nullptr && op != 25) ys = num(b, n);
            if (op == 13 || op == 17) {
                xs = simp(xs), ys = simp(ys);
                if (Z3_get_ast_id(Z, xs) > Z3_get_ast_id(Z, ys)) std::swap(xs, ys);
            }
            z = op == 13 ? Z3_mk_bvadd(Z, xs, ys) : op == 17 ? Z3_mk_bvmul(Z, xs, ys) : op == 19 ? Z3_mk_bvudiv(Z, xs, ys) : op == 22 ? Z3_mk_bvurem(Z, xs, ys) : Z3_mk_bvshl(Z, xs, ys);
            if ((op == 19 || op == 22) && sb) z = nullptr;
            if (z) {
                Ex* e = mk(BV, w, zext(z, n, w), vs);
                e->ub = ur;
                return e;
            }
        }
    }
    switch (op) {
    case 13: q = Z3_mk_bvadd(Z, x, y); break;
    case 15: q = Z3_mk_bvsub(Z, x, y); break;
    case 17: q = Z3_mk_bvmul(Z, x, y); break;
    case 19:
    case 20:
    case 22:
    case 23:
        if (sb) decide((b & m) ? Z3_mk_not(Z, Z3_mk_eq(Z, y, num(0, w))) : Z3_mk_eq(Z, y, num(0, w)), sb->vs, (b & m) != 0, RA);
        q = op == 19 ? Z3_mk_bvudiv(Z, x, y) : op == 20 ? Z3_mk_bvsdiv(Z, x, y) : op == 22 ? Z3_mk_bvurem(Z, x, y) : Z3_mk_bvsrem(Z, x, y);
        break;
    case 25: q = Z3_mk_bvshl(Z, x, y); break;
    case 26: q = Z3_mk_bvlshr(Z, x, y); break;
    case 27: q = Z3_mk_bvashr(Z, x, y); break;
    case 28: q = Z3_mk_bvand(Z, x, y); break;
    case 29: q = Z3_mk_bvor(Z, x, y); break;
    case 30: q = Z3_mk_bvxor(Z, x, y); break;
    case 200: q = ite(Z3_mk_bvult(Z, x, y), x, y); break;
    case 201: q = ite(Z3_mk_bvugt(Z, x, y), x, y); break;
    case 202: q = ite(Z3_mk_bvslt(Z, x, y), x, y); break;
    case 203: q = ite(Z3_mk_bvsgt(Z, x, y), x, y); break;
    case 204: q = ite(Z3_mk_bvult(Z, x, y), num(0, w), Z3_mk_bvsub(Z, x, y)); break;
    case 205: q = ite(Z3_mk_bvult(Z, Z3_mk_bvadd(Z, x, y), x), num(~0ULL, w), Z3_mk_bvadd(Z, x, y)); break;
    default: incomplete("unsupported binary operator"); return nullptr;
    }
    Ex* res = mk(BV, w, q, vs);
    res->ub = ur;
    return res;
}
EXPORT Ex* vp_rt_icmp(uint32_t p, uint32_t w, uint64_t a, Ex* sa, uint64_t b, Ex* sb)
{
    if (!sa && !sb) return nullptr;
    Rt r;
    site(RA);
    VS vs = vsOf(sa, sb);
    uint64_t m = w < 64 ? (1ULL << w) - 1 : ~0ULL;
    if (p <= 33 && (!sa || !sb)) {
        Ex* s = sa ? sa : sb;
        uint64_t c = (sa ? b : a) & m;
        if (s->k == BL && c <= 1) {
            bool pos = (p == 32) == (c == 1);
            return mkbl(pos ? getbl(s) : Z3_mk_not(Z, getbl(s)), vs);
        }
    }
    Z3_ast x = bvOf(sa, a, w), y = bvOf(sb, b, w), q = 0;
    uint64_t ua = ubOf(sa, a, w), ub = ubOf(sb, b, w);
    if (ua < maskOf(w) >> 1 && ub < maskOf(w) >> 1) { // both small and non-negative
        // decided by the ranges alone?
        if (!sb) {
            if ((p == 36 || p == 40) && ua < ub) return nullptr;
            if ((p == 37 || p == 41) && ua <= ub) return nullptr;
            if ((p == 34 || p == 38) && ua <= ub) return nullptr;
            if ((p == 35 || p == 39) && ua < ub) return nullptr;
            if ((p == 32 || p == 33) && ua < ub) return nullptr;
        }
        unsigned n = bitsFor(std::max(ua, ub));
        if (n < w) {
            x = sa ? lowBits(x, w, n) : num(a, n);
            y = sb ? lowBits(y, w, n) : num(b, n);
            if (p >= 38) p -= 4;
        }
    }
    switch (p) {
    case 32: q = Z3_mk_eq(Z, x, y); break;
    case 33: q = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break;
    case 34: q = Z3_mk_bvugt(Z, x, y); break;
    case 35: q = Z3_mk_bvuge(Z, x, y); break;
    case 36: q = Z3_mk_bvult(Z, x, y); break;
    case 37: q = Z3_mk_bvule(Z, x, y); break;
    case 38: q = Z3_mk_bvsgt(Z, x, y); break;
    case 39: q = Z3_mk_bvsge(Z, x, y); break;
    case 40: q = Z3_mk_bvslt(Z, x, y); break;
    case 41: q = Z3_mk_bvsle(Z, x, y); break;
    }
    return mkbl(q, vs);
}
// The number v * 2^-sc, v a signed integer of n bits, a floating-point operand is known to equal.
struct Dy {
    Z3_ast v = 0;
    unsigned n = 0, sc = 0;
};
static bool dyOf(Ex* s, uint64_t c, uint32_t w, Dy& r)
{
    if (w != 64) return false;
    if (s) {
        r = {s->iv, s->ivw, s->ivs};
        return r.n != 0;
    }
    double d;
    memcpy(&d, &c, 8);
    if (!(std::fabs(d) < 1e12)) return false;
    for (r.sc = 0; r.sc < 16 && d != std::floor(d); r.sc++) d *= 2;
    if (d != std::floor(d) || !(std::fabs(d) < 1e12)) return false;
    int64_t v = (int64_t)d;
    unsigned n = 1;
    while ((v >> (n - 1)) != 0 && (v >> (n - 1)) != -1) n++;
    r.n = n + 1;
    r.v = num((uint64_t)v, r.n);
    return true;
}
static Z3_ast sext(Z3_ast x, unsigned from, unsigned to) { return to > from ? Z3_mk_sign_ext(Z, to - from, x) : x; }
// same scale and width; extra bits for the result
static bool dyAlign(Dy& a, Dy& b, unsigned extra)
{
    unsigned sc = std::max(a.sc, b.sc), n = 0;
    for (Dy* x : {&a, &b}) n = std::max(n, x->n + (sc - x->sc));
    n += extra;
    if (n > 53) return false;
    for (Dy* x : {&a, &b}) {
        x->v = sext(x->v, x->n, n);
        if (sc > x->sc) x->v = Z3_mk_bvshl(Z, x->v, num(sc - x->sc, n));
        x->n = n, x->sc = sc;
    }
    return true;
}
static void setDy(Ex* e, Z3_ast v, unsigned n, unsigned sc = 0)
{
    if (n > 53 || sc > 100) return;
    e->iv = simp(v), e->ivw = n, e->ivs = sc;
}
EXPORT Ex* vp_rt_fbin(uint32_t op, uint32_t w, uint64_t a, Ex* sa, uint64_t b, Ex* sb)
{
    if (!sa && !sb) return nullptr;
    Rt r;
    site(RA);
    Z3_ast x = fpOf(sa, a, w), y = fpOf(sb, b, w), q = 0;
    // canonical forms (exact identities of IEEE arithmetic, compilers use them too)
    auto dbl = [&](uint64_t u) {
        double d;
        memcpy(&d, &u, 8);
        return d;
    };
    auto cst = [&](uint64_t u) {
        Ex* none = nullptr;
        return fpOf(none, u, 64);
    };
    if (w == 64 && op == 21 && !sb) {
        int e;
        double d = dbl(b);
        if (std::isfinite(d) && std::fabs(std::frexp(d, &e)) == 0.5 && std::abs(e) < 1000) {
            double inv = 1 / d;
            memcpy(&b, &inv, 8);
            op = 18;
            y = cst(b);
        }
    }
    if (w == 64 && op == 16 && !sb) {
        b ^= 1ULL << 63;
        op = 14;
        y = cst(b);
    }
    if (w == 64 && op == 18) {
        for (Ex* o : {!sb && dbl(b) == 1 ? sa : nullptr, !sa && dbl(a) == 1 ? sb : nullptr})
            if (o) {
                Ex* e = mk(FP, w, getfp(o), o->vs);
                e->iv = o->iv, e->ivw = o->ivw, e->ivs = o->ivs;
                return e;
            }
    }
    Dy dx, dy;
    bool ints = op <= 18 && dyOf(sa, a, w, dx) && dyOf(sb, b, w, dy);
    x = simp(x), y = simp(y);
    if ((op == 14 || op == 18) && Z3_get_ast_id(Z, x) > Z3_get_ast_id(Z, y)) std::swap(x, y);
    switch (op) {
    case 14: q = Z3_mk_fpa_add(Z, RNE, x, y); break;
    case 16: q = Z3_mk_fpa_sub(Z, RNE, x, y); break;
    case 18: q = Z3_mk_fpa_mul(Z, RNE, x, y); break;
    case 21: q = Z3_mk_fpa_div(Z, RNE, x, y); break;
    case 300: q = Z3_mk_fpa_min(Z, x, y); break;
    case 301: q = Z3_mk_fpa_max(Z, x, y); break;
    default: incomplete("unsupported fp operator"); return nullptr;
    }
    Ex* res = mk(FP, w, q, vsOf(sa, sb));
    if (ints && op != 18 && dyAlign(dx, dy, 1)) setDy(res, op == 14 ? Z3_mk_bvadd(Z, dx.v, dy.v) : Z3_mk_bvsub(Z, dx.v, dy.v), dx.n, dx.sc);
    if (ints && op == 18) {
        double k = sb ? sa ? 0 : dbl(a) : dbl(b);
        int ex;
        if (k > 0 && k < 1 && std::frexp(k, &ex) == 0.5) { // k = 2^(ex-1)
            Dy& d = sb ? dy : dx;
            setDy(res, d.v, d.n, d.sc + 1 - ex);
        }
        else if (dx.n + dy.n <= 53) {
            unsigned n = dx.n + dy.n;
            setDy(res, Z3_mk_bvmul(Z, sext(dx.v, dx.n, n), sext(dy.v, dy.n, n)), n, dx.sc + dy.sc);
        }
    }
    return res;
}
// comparison of IEEE values on their bit patterns: no floating-point theory needed
static Z3_ast bits_nan(Z3_ast x, unsigned w)
{
    uint64_t inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL;
    return Z3_mk_bvugt(Z, Z3_mk_bvand(Z, x, num(w == 64 ? ~(1ULL << 63) : 0x7fffffff, w)), num(inf, w));
}
static Z3_ast bits_norm(Z3_ast x, unsigned w) { return ite(Z3_mk_eq(Z, x, num(1ULL << (w - 1), w)), num(0, w), x); }
static Z3_ast bits_key(Z3_ast x, unsigned w)
{
    Z3_ast n = bits_norm(x, w);
    return ite(Z3_mk_bvslt(Z, n, num(0, w)), Z3_mk_bvnot(Z, n), Z3_mk_bvor(Z, n, num(1ULL << (w - 1), w)));
}
EXPORT Ex* vp_rt_fcmp(uint32_t p, uint32_t w, uint64_t a, Ex* sa, uint64_t b, Ex* sb)
{
    if (!sa && !sb) return nullptr;
    Rt r;
    site(RA);
    if (p == 0 || p == 15) return nullptr;
    Dy dx, dy;
    bool okx = dyOf(sa, a, w, dx), oky = dyOf(sb, b, w, dy);
    // any other constant: an odd multiple of half a unit on the same side compares alike
    auto between = [](uint64_t c, const Dy& o, Dy& r) {
        double d;
        memcpy(&d, &c, 8);
        if (!(std::fabs(d) < 1e6) || o.sc > 20) return false;
        d = std::ldexp(d, (int)o.sc);
        if (d == std::floor(d)) return false;
        r.sc = o.sc + 1;
        r.n = 50;
        r.v = num((uint64_t)(2 * (int64_t)std::floor(d) + 1), 50);
        return true;
    };
    if (okx && !oky && !sb && w == 64) oky = between(b, dx, dy);
    else if (oky && !okx && !sa && w == 64) okx = between(a, dy, dx);
    if (okx && oky && dyAlign(dx, dy, 0)) {
        Z3_ast u = dx.v, v = dy.v, q = 0;
        switch (p & 7) { // never unordered
        case 0: return nullptr;
        case 1: q = Z3_mk_eq(Z, u, v); break;
        case 2: q = Z3_mk_bvsgt(Z, u, v); break;
        case 3: q = Z3_mk_bvsge(Z, u, v); break;
        case 4: q = Z3_mk_bvslt(Z, u, v); break;
        case 5: q = Z3_mk_bvsle(Z, u, v); break;
        case 6: q = Z3_mk_not(Z, Z3_mk_eq(Z, u, v)); break;
        case 7: return nullptr;
        }
        return mkbl(simp(q), vsOf(sa, sb));
    }
    if ((!sa || sa->k != FP) && (!sb || sb->k != FP)) {
        Z3_ast x = simp(bvOf(sa, a, w)), y = simp(bvOf(sb, b, w)), q = 0;
        Z3_ast nn[2] = {bits_nan(x, w), bits_nan(y, w)};
        Z3_ast uno = Z3_mk_or(Z, 2, nn), ord = Z3_mk_not(Z, uno);
        Z3_ast kx = bits_key(x, w), ky = bits_key(y, w);
        switch (p & 7) {
        case 1: q = Z3_mk_eq(Z, bits_norm(x, w), bits_norm(y, w)); break;
        case 2: q = Z3_mk_bvugt(Z, kx, ky); break;
        case 3: q = Z3_mk_bvuge(Z, kx, ky); break;
        case 4: q = Z3_mk_bvult(Z, kx, ky); break;
        case 5: q = Z3_mk_bvule(Z, kx, ky); break;
        case 6: q = Z3_mk_not(Z, Z3_mk_eq(Z, bits_norm(x, w), bits_norm(y, w))); break;
        case 7: q = Z3_mk_true(Z); break;
        }
        if (q) {
            Z3_ast c[2] = {ord, q};
            q = Z3_mk_and(Z, 2, c);
        }
        if (p & 8) {
            Z3_ast c[2] = {uno, q};
            q = q ? Z3_mk_or(Z, 2, c) : uno;
        }
        return mkbl(simp(q), vsOf(sa, sb));
    }
    g_fpq = true;
    Z3_ast x = fpOf(sa, a, w), y = fpOf(sb, b, w), q = 0;
    switch (p & 8 ? p ^ 15 : p) { // an unordered predicate is the negation of its inverse
    case 1: q = Z3_mk_fpa_eq(Z, x, y); break;
    case 2: q = Z3_mk_fpa_lt(Z, y, x); break;
    case 3: q = Z3_mk_fpa_leq(Z, y, x); break;
    case 4: q = Z3_mk_fpa_lt(Z, x, y); break;
    case 5: q = Z3_mk_fpa_leq(Z, x, y); break;
    case 6: { Z3_ast c[2] = {Z3_mk_fpa_lt(Z, x, y), Z3_mk_fpa_lt(Z, y, x)}; q = Z3_mk_or(Z, 2, c); break; }
    default: { Z3_ast nn[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)}; q = Z3_mk_not(Z, Z3_mk_or(Z, 2, nn)); break; }
    }
    if (p & 8) q = Z3_mk_not(Z, q);
    return mkbl(q, vsOf(sa, sb));
}
EXPORT Ex* vp_rt_fneg(uint32_t w, Ex* s)
{
    if (!s) return nullptr;
    Rt r;
    if (s->k != FP) return mk(BV, w, Z3_mk_bvxor(Z, getbv(s), num(1ULL << (w - 1), w)), s->vs);
    Ex* e = mk(FP, w, Z3_mk_fpa_neg(Z, getfp(s)), s->vs);
    if (s->ivw) setDy(e, Z3_mk_bvneg(Z, sext(s->iv, s->ivw, s->ivw + 1)), s->ivw + 1, s->ivs);
    return e;
}
EXPORT Ex* vp_rt_cast(uint32_t op, uint32_t f, uint32_t t, Ex* s)
{
    if (!s) return nullptr;
    Rt r;
    site(RA);
    switch (op) {
    case 38:
        if (s->k == BL) return t == s->bits ? s : mkbl(getbl(s), s->vs, t);
        {
            Ex* e = mk(BV, t, Z3_mk_extract(Z, t - 1, 0, getbv(s)), s->vs);
            if (s->ub <= maskOf(t)) e->ub = s->ub;
            return e;
        }
    case 39:
    case 47:
    case 48:
        if (t == f) return s;
        if (s->k == BL) return mkbl(getbl(s), s->vs, t);
        {
            Ex* e = mk(BV, t, t > f ? Z3_mk_zero_ext(Z, t - f, getbv(s)) : Z3_mk_extract(Z, t - 1, 0, getbv(s)), s->vs);
            uint64_t u = ubOf(s, 0, f);
            if (u <= maskOf(t)) e->ub = u;
            return e;
        }
    case 40:
        if (s->k != BL && s->k != FP && s->ub < (1ULL << (f - 1))) {
            Ex* e = mk(BV, t, Z3_mk_zero_ext(Z, t - f, getbv(s)), s->vs);
            e->ub = s->ub;
            return e;
        }
        if (s->k == BL && f == 1) return mk(BV, t, ite(getbl(s), num(~0ULL, t), num(0, t)), s->vs);
        return mk(BV, t, Z3_mk_sign_ext(Z, t - f, getbv(s)), s->vs);
    case 41: return mk(BV, t, Z3_mk_fpa_to_ubv(Z, RTZ, getfp(s), t), s->vs);
    case 42: return mk(BV, t, Z3_mk_fpa_to_sbv(Z, RTZ, getfp(s), t), s->vs);
    case 43:
    case 44: {
        Z3_ast x = getbv(s);
        Ex* e = mk(FP, t, op == 43 ? Z3_mk_fpa_to_fp_unsigned(Z, RNE, x, t == 32 ? SF : SD) : Z3_mk_fpa_to_fp_signed(Z, RNE, x, t == 32 ? SF : SD), s->vs);
        uint64_t u = s->k == BL ? 1 : ubOf(s, 0, f);
        if (t == 64 && u < (1ULL << 52) && (op == 43 || u < (1ULL << (f - 1)))) setDy(e, Z3_mk_zero_ext(Z, 1, lowBits(x, f, bitsFor(u))), bitsFor(u) + 1);
        else if (t == 64 && op == 44 && f <= 53) setDy(e, x, f);
        else if (t == 64 && op == 43 && f <= 52) setDy(e, Z3_mk_zero_ext(Z, 1, x), f + 1);
        return e;
    }
    case 45:
    case 46: return mk(FP, t, Z3_mk_fpa_to_fp_float(Z, RNE, getfp(s), t == 32 ? SF : SD), s->vs);
    case 100:
    case 101: return s;
    }
    incomplete("unsupported cast");
    return nullptr;
}
EXPORT Ex* vp_rt_select(Ex* sc, uint32_t raw, uint64_t a, Ex* sa, uint64_t b, Ex* sb, uint32_t w, uint32_t kind)
{
    bool c = raw & 1;
    if (!sc) return c ? sa : sb;
    Rt r;
    site(RA);
    if (kind >= 2 && (kind == 3 || sa || sb || a != b)) {
        // pointers and aggregates: split the path
        decide(c ? getbl(sc) : Z3_mk_not(Z, getbl(sc)), sc->vs, c, RA);
        return c ? sa : sb;
    }
    if (!sa && !sb && a == b) return nullptr;
    VS vs = sc->vs;
    if (sa) vs |= sa->vs;
    if (sb) vs |= sb->vs;
    if (kind == 1) {
        if ((sa && sa->k == FP) || (sb && sb->k == FP)) {
            Ex* e = mk(FP, w, ite(getbl(sc), fpOf(sa, a, w), fpOf(sb, b, w)), vs);
            Dy dx, dy;
            if (dyOf(sa, a, w, dx) && dyOf(sb, b, w, dy) && dyAlign(dx, dy, 0)) setDy(e, ite(getbl(sc), dx.v, dy.v), dx.n, dx.sc);
            return e;
        }
        return mk(BV, w, ite(getbl(sc), bvOf(sa, a, w), bvOf(sb, b, w)), vs);
    }
    bool ba = sa ? sa->k == BL : (a & (w < 64 ? (1ULL << w) - 1 : ~0ULL)) <= 1;
    bool bb = sb ? sb->k == BL : (b & (w < 64 ? (1ULL << w) - 1 : ~0ULL)) <= 1;
    if (ba && bb) {
        Z3_ast T = Z3_mk_true(Z), Fa = Z3_mk_false(Z);
        Z3_ast x = sa ? getbl(sa) : (a & 1 ? T : Fa), y = sb ? getbl(sb) : (b & 1 ? T : Fa);
        return mkbl(ite(getbl(sc), x, y), vs, w);
    }
    Ex* res = mk(BV, w, ite(getbl(sc), bvOf(sa, a, w), bvOf(sb, b, w)), vs);
    res->ub = std::max(ubOf(sa, a, w), ubOf(sb, b, w));
    return res;
}
static void checkAccess(uint64_t a, unsigned n, const char* what)
{
    if (inArena(a) && !arenaOk(a, n)) rt_memerr(what, a, n);
}
static long g_race = 0;
void rt_race_access(uint64_t a, unsigned n, bool w, void* ra);
static Ex* symLoad(uint64_t a, Ex* sa, unsigned size, unsigned bits, unsigned kind, void* ra)
{
    // enumerate the feasible addresses
    Z3_ast ad = simp(getbv(sa));
    uint64_t u;
    if (Z3_is_numeral_ast(Z, ad) && Z3_get_numeral_uint64(Z, ad, &u)) return loadShadow(a, size, bits);
    if (kind >= 2) {
        concretize(sa, a, ra, "address");
        return loadShadow(a, size, bits);
    }
    std::vector<uint64_t> addrs{a};
    std::vector<Z3_ast> excl{Z3_mk_not(Z, Z3_mk_eq(Z, ad, num(a, 64)))};
    std::vector<uint64_t> bad;
    bool query = true;
    // The enumeration is repeated in the prefix: it determines the expression.
    while (query) {
        std::vector<Z3_ast> cs;
        VS vs = slice(sa->vs, cs);
        for (auto x : excl) cs.push_back(x);
        Z3_model m = 0;
        if (solve(cs, &m) != 1) break;
        Z3_ast v;
        uint64_t nv = 0;
        Z3_model_eval(Z, m, ad, true, &v);
        Z3_get_numeral_uint64(Z, v, &nv);
        excl.push_back(Z3_mk_not(Z, Z3_mk_eq(Z, ad, num(nv, 64))));
        if ((inArena(nv) && !arenaOk(nv, size)) || (inArena(a) && !inArena(nv))) {
            if (g_dec >= g_bound()) {
                Item it{};
                readModel(m, vs, it);
                violation(it, "memory error: load through a symbolic address outside of any object");
                endPath(E_VIOL);
            }
        }
        else {
            Z3_model_dec_ref(Z, m);
            addrs.push_back(nv);
        }
        if (addrs.size() > g_maxEnum) {
            incomplete("too many feasible load addresses");
            break;
        }
    }
    std::sort(addrs.begin() + 1, addrs.end());
    VS vs = sa->vs;
    Ex* cur = nullptr;
    Z3_ast r = 0;
    bool fp = false;
    std::vector<std::pair<uint64_t, Ex*>> vals;
    for (uint64_t x : addrs) {
        Ex* e = loadShadow(x, size, bits);
        if (e && e->k == FP) fp = true;
        vals.push_back({x, e});
    }
    (void)cur;
    for (auto& p : vals) {
        uint64_t cv = 0;
        memcpy(&cv, (void*)p.first, size > 8 ? 8 : size);
        Z3_ast t = fp ? fpOf(p.second, cv, bits) : bvOf(p.second, cv, bits);
        if (p.second) vs |= p.second->vs;
        r = r ? ite(Z3_mk_eq(Z, ad, num(p.first, 64)), t, r) : t;
    }
    return mk(fp ? FP : BV, bits, r, vs);
}
EXPORT Ex* vp_rt_load(void* p, Ex* sa, uint32_t size, uint32_t bits, uint32_t kind)
{
    uint64_t a = (uint64_t)p;
    if (sa && g_active) {
        Rt r;
        site(RA);
        checkAccess(a, size, "load outside of any live heap object");
        return symLoad(a, sa, size, bits, kind, RA);
    }
    checkAccess(a, size, "load outside of any live heap object");
    if (g_race) rt_race_access(a, size, false, RA);
    if (!hot(a, size)) return nullptr;
    Rt r;
    if (kind == 2) {
        for (unsigned i = 0; i < size; i++)
            if (cellAt(a + i)) {
                incomplete("load of an unsupported type with symbolic content");
                break;
            }
        return nullptr;
    }
    return loadShadow(a, size, bits);
}
EXPORT void vp_rt_store(void* p, Ex* sa, uint64_t val, Ex* sv, uint32_t size, uint32_t bits)
{
    uint64_t a = (uint64_t)p;
    checkAccess(a, size, "store outside of any live heap object");
    if (g_race) rt_race_access(a, size, true, RA);
    if (sa && g_active) {
        Rt r;
        concretize(sa, a, RA, "store address");
    }
    if (!sv && !hot(a, size)) return;
    Rt r;
    storeShadow(a, size, sv, val);
}
EXPORT Ex* vp_rt_gepbase(void* tot, void* base, Ex* sb)
{
    if (!sb) return nullptr;
    Rt r;
    uint64_t d = (uint64_t)tot - (uint64_t)base;
    return d ? mk(BV, 64, Z3_mk_bvadd(Z, getbv(sb), num(d, 64)), sb->vs) : sb;
}
EXPORT Ex* vp_rt_gepidx(Ex* cur, void* tot, uint64_t idx, Ex* si, uint32_t w, uint64_t scale)
{
    if (!si) return cur;
    Rt r;
    Z3_ast x = getbv(si);
    if (w < 64) x = Z3_mk_sign_ext(Z, 64 - w, x);
    Z3_ast d = Z3_mk_bvmul(Z, Z3_mk_bvsub(Z, x, num(idx, 64)), num(scale, 64));
    return mk(BV, 64, Z3_mk_bvadd(Z, bvOf(cur, (uint64_t)tot, 64), d), vsOf(cur, si));
}
EXPORT void vp_rt_branch(Ex* s, uint32_t raw)
{
    bool c = raw & 1; // the upper bits of an i1 argument are not defined
    if (!s || !g_active) return;
    Rt r;
    decide(c ? getbl(s) : Z3_mk_not(Z, getbl(s)), s->vs, c, RA);
}
EXPORT void vp_rt_switch(Ex* s, uint64_t v, uint32_t w, uint32_t n, const uint64_t* cases)
{
    if (!s || !g_active) return;
    Rt r;
    uint64_t m = w < 64 ? (1ULL << w) - 1 : ~0ULL;
    v &= m;
    Z3_ast x = simp(getbv(s));
    uint64_t u;
    if (Z3_is_numeral_ast(Z, x) && Z3_get_numeral_uint64(Z, x, &u)) return;
    site(RA);
    auto cst = [&](int64_t i) { // constraint of branch i (n = default)
        if (i < (int64_t)n) return Z3_mk_eq(Z, x, num(cases[i], w));
        std::vector<Z3_ast> d;
        for (uint32_t k = 0; k < n; k++) d.push_back(Z3_mk_not(Z, Z3_mk_eq(Z, x, num(cases[k], w))));
        return Z3_mk_and(Z, d.size(), d.data());
    };
    int64_t mine = n;
    for (uint32_t i = 0; i < n; i++)
        if ((cases[i] & m) == v) mine = i;
    if (g_dec >= g_bound()) {
        bool other = false;
        for (int64_t i = 0; i <= (int64_t)n; i++) {
            if (i == mine) continue;
            Item it{};
            int f = feasible(cst(i), s->vs, &it);
            if (f == 1) push(it, peekHash(i + 100));
            if (f) other = true;
        }
        if (other) clrImp(g_dec);
        else setImp(g_dec);
        if (other) g_pc.push_back({cst(mine), s->vs});
    }
    else if (!isImp(g_dec)) g_pc.push_back({cst(mine), s->vs});
    tookDecision(mine + 100);
}
// functions known to the instrumentation
static std::map<uint64_t, const char*> g_funcs;
static std::unordered_set<uint64_t> g_fset;
EXPORT void vp_rt_register(void** t, uint64_t n)
{
    Rt r;
    for (uint64_t i = 0; i < n; i++) {
        g_funcs[(uint64_t)t[2 * i]] = (const char*)t[2 * i + 1];
        g_fset.insert((uint64_t)t[2 * i]);
    }
}
const char* rt_symname(uint64_t a)
{
    auto it = g_funcs.upper_bound(a);
    if (it == g_funcs.begin()) return "?";
    --it;
    if (a - it->first > 1 << 20) return "?";
    return it->second;
}
static bool g_messages = false;
EXPORT void vp_messages(int on) { g_messages = on; }
EXPORT void vp_rt_call(void* f, uint32_t n, const char* name)
{
    if (n > 64) n = 64;
    bool any = false;
    for (uint32_t i = 0; i < n; i++)
        if (vp_pe[i]) any = true;
    // the tag is also needed for by-value aggregates (the callee copies the shadow)
    if (!name) {
        vp_ptag = any ? f : nullptr;
        return;
    }
    if (!vp_in_rt && g_fset.count((uint64_t)f)) {
        vp_ptag = f;
        return;
    }
    vp_ptag = nullptr;
    if (!any || !g_active) return;
    Rt r;
    // text of error messages: only the value of this path is formatted
    if (g_messages && (strstr(name, "_M_insert") || strstr(name, "_fmtPKcz") || strstr(name, "_ZNSolsE"))) return;
    for (uint32_t i = 0; i < n; i++)
        if (vp_pe[i]) {
            if (vp_pe[i]->k == TUP) {
                incomplete("aggregate with symbolic parts passed to a library function");
                continue;
            }
            if (getenv("VP_EXTLOG")) fprintf(stderr, "EXT %s arg %u from %s\n", name, i, rt_symname((uint64_t)RA));
            concretize(vp_pe[i], vp_pc[i], RA, name);
        }
}
EXPORT void vp_rt_byval(uint32_t i, void* dst, uint64_t n, void* self)
{
    // the caller left the address of the original in vp_pc
    if (vp_ptag != self || i >= 64) return;
    vp_rt_memcpy(dst, nullptr, (void*)vp_pc[i], nullptr, n, nullptr);
}
EXPORT Ex* vp_rt_ret(Ex* s, void* f)
{
    if (!s) return nullptr;
    return g_fset.count((uint64_t)f) ? s : nullptr;
}
EXPORT void vp_rt_alloca(void* p, uint64_t n)
{
    if (hot((uint64_t)p, n)) {
        Rt r;
        clearShadow((uint64_t)p, n);
    }
}
EXPORT void vp_rt_memcpy(void* d, Ex* sd, const void* s, Ex* ss, uint64_t n, Ex* sn)
{
    if ((sd || ss || sn) && g_active) {
        Rt r;
        concretize(sn, n, RA, "memcpy size");
        concretize(sd, (uint64_t)d, RA, "memcpy destination");
        concretize(ss, (uint64_t)s, RA, "memcpy source");
    }
    if (!n) return;
    checkAccess((uint64_t)d, n, "memcpy destination outside of any live heap object");
    checkAccess((uint64_t)s, n, "memcpy source outside of any live heap object");
    if (g_race) {
        rt_race_access((uint64_t)s, n, false, RA);
        rt_race_access((uint64_t)d, n, true, RA);
    }
    uint64_t a = (uint64_t)s, b = (uint64_t)d;
    bool h = false;
    for (uint64_t x = a & ~4095ULL; x < a + n; x += 4096) h |= pageHot(x);
    Rt r;
    if (!h) {
        clearShadow(b, n);
        return;
    }
    std::vector<Cell> t(n);
    for (uint64_t i = 0; i < n; i++) {
        Cell* c = cellAt(a + i);
        if (c) t[i] = *c;
        else t[i].e = nullptr;
    }
    for (uint64_t i = 0; i < n; i++) {
        if (t[i].e) cellsOf(b + i, true)[(b + i) & 4095] = t[i];
        else if (pageHot(b + i)) cellsOf(b + i, false)[(b + i) & 4095].e = nullptr;
    }
}
EXPORT void vp_rt_memset(void* d, Ex* sd, uint64_t v, Ex* sv, uint64_t n, Ex* sn)
{
    if ((sd || sn) && g_active) {
        Rt r;
        concretize(sn, n, RA, "memset size");
        concretize(sd, (uint64_t)d, RA, "memset destination");
    }
    if (!n) return;
    checkAccess((uint64_t)d, n, "memset outside of any live heap object");
    if (g_race) rt_race_access((uint64_t)d, n, true, RA);
    Rt r;
    if (sv && g_active) concretize(sv, v, RA, "memset value");
    clearShadow((uint64_t)d, n);
}
EXPORT Ex* vp_rt_insert(Ex* agg, Ex* v, uint32_t i, uint32_t n)
{
    if (!agg && !v) return nullptr;
    Rt r;
    Ex* e = new Ex;
    e->k = TUP;
    e->bits = 0;
    if (agg) e->tup = agg->tup;
    e->tup.resize(n);
    e->tup[i] = v;
    bool any = false;
    for (auto* t : e->tup) any |= t != nullptr;
    return any ? e : nullptr;
}
EXPORT Ex* vp_rt_extract(Ex* agg, uint32_t i)
{
    if (!agg || agg->k != TUP || i >= agg->tup.size()) return nullptr;
    return agg->tup[i];
}
EXPORT Ex* vp_rt_ovf(uint32_t op, uint32_t w, uint64_t a, Ex* sa, uint64_t b, Ex* sb)
{
    if (!sa && !sb) return nullptr;
    Rt r;
    VS vs = vsOf(sa, sb);
    Z3_ast x = bvOf(sa, a, w), y = bvOf(sb, b, w), q, o;
    bool sg = op >= 3;
    auto ext = [&](Z3_ast e) { return sg ? Z3_mk_sign_ext(Z, w, e) : Z3_mk_zero_ext(Z, w, e); };
    switch (op % 3) {
    case 0: q = Z3_mk_bvadd(Z, x, y); o = Z3_mk_not(Z, Z3_mk_eq(Z, ext(q), Z3_mk_bvadd(Z, ext(x), ext(y)))); break;
    case 1: q = Z3_mk_bvsub(Z, x, y); o = Z3_mk_not(Z, Z3_mk_eq(Z, ext(q), Z3_mk_bvsub(Z, ext(x), ext(y)))); break;
    default: q = Z3_mk_bvmul(Z, x, y); o = Z3_mk_not(Z, Z3_mk_eq(Z, ext(q), Z3_mk_bvmul(Z, ext(x), ext(y)))); break;
    }
    Ex* e = new Ex;
    e->k = TUP;
    e->bits = 0;
    e->tup = {mk(BV, w, q, vs), mkbl(o, vs)};
    return e;
}
static Ex* fabsEx(uint32_t w, Ex* s)
{
    Ex* e = mk(FP, w, Z3_mk_fpa_abs(Z, getfp(s)), s->vs);
    if (s->ivw) {
        unsigned n = s->ivw + 1;
        Z3_ast x = sext(s->iv, s->ivw, n);
        setDy(e, ite(Z3_mk_bvslt(Z, x, num(0, n)), Z3_mk_bvneg(Z, x), x), n, s->ivs);
    }
    return e;
}
EXPORT Ex* vp_rt_un(uint32_t op, uint32_t w, uint64_t a, Ex* s, uint64_t x)
{
    if (!s) return nullptr;
    Rt r;
    site(RA);
    switch (op) {
    case 0: return mk(BV, w, ite(Z3_mk_bvslt(Z, getbv(s), num(0, w)), Z3_mk_bvneg(Z, getbv(s)), getbv(s)), s->vs);
    case 1:
        if (s->k != FP) return mk(BV, w, Z3_mk_bvand(Z, getbv(s), num(~(1ULL << (w - 1)), w)), s->vs);
        return fabsEx(w, s);
    case 2: {
        if (s->k != FP && ((x & 3) == 3 || !(x & 3))) {
            Z3_ast v = simp(getbv(s)), d[11];
            unsigned n = 0;
            uint64_t sm = w == 64 ? 0x7fffffffffffffffULL : 0x7fffffff, inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000, mn = w == 64 ? 1ULL << 52 : 1ULL << 23;
            Z3_ast mag = Z3_mk_bvand(Z, v, num(sm, w)), neg = Z3_mk_bvslt(Z, v, num(0, w)), pos = Z3_mk_not(Z, neg);
            Z3_ast isI = Z3_mk_eq(Z, mag, num(inf, w)), isZ = Z3_mk_eq(Z, mag, num(0, w));
            Z3_ast sub2[2] = {Z3_mk_bvult(Z, mag, num(mn, w)), Z3_mk_not(Z, isZ)}, nor2[2] = {Z3_mk_bvuge(Z, mag, num(mn, w)), Z3_mk_bvult(Z, mag, num(inf, w))};
            Z3_ast isS = Z3_mk_and(Z, 2, sub2), isN = Z3_mk_and(Z, 2, nor2);
            auto add = [&](Z3_ast c, Z3_ast g) {
                Z3_ast t[2] = {c, g};
                d[n++] = Z3_mk_and(Z, 2, t);
            };
            if (x & 3) d[n++] = bits_nan(v, w);
            if (x & 4) add(isI, neg);
            if (x & 8) add(isN, neg);
            if (x & 16) add(isS, neg);
            if (x & 32) add(isZ, neg);
            if (x & 64) add(isZ, pos);
            if (x & 128) add(isS, pos);
            if (x & 256) add(isN, pos);
            if (x & 512) add(isI, pos);
            return mkbl(Z3_mk_or(Z, n, d), s->vs);
        }
        g_fpq = true;
        std::vector<Z3_ast> d;
        Z3_ast f = getfp(s), neg = Z3_mk_fpa_is_negative(Z, f), pos = Z3_mk_fpa_is_positive(Z, f);
        auto add = [&](Z3_ast c, Z3_ast g) {
            Z3_ast t[2] = {c, g};
            d.push_back(g ? Z3_mk_and(Z, 2, t) : c);
        };
        if ((x & 3) == 3) add(Z3_mk_fpa_is_nan(Z, f), 0);
        else if (x & 3) incomplete("is_fpclass on signalling NaN only");
        if (x & 4) add(Z3_mk_fpa_is_infinite(Z, f), neg);
        if (x & 8) add(Z3_mk_fpa_is_normal(Z, f), neg);
        if (x & 16) add(Z3_mk_fpa_is_subnormal(Z, f), neg);
        if (x & 32) add(Z3_mk_fpa_is_zero(Z, f), neg);
        if (x & 64) add(Z3_mk_fpa_is_zero(Z, f), pos);
        if (x & 128) add(Z3_mk_fpa_is_subnormal(Z, f), pos);
        if (x & 256) add(Z3_mk_fpa_is_normal(Z, f), pos);
        if (x & 512) add(Z3_mk_fpa_is_infinite(Z, f), pos);
        return mkbl(Z3_mk_or(Z, d.size(), d.data()), s->vs);
    }
    case 3: return mk(FP, w, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), getfp(s)), s->vs);
    case 4: return mk(FP, w, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), getfp(s)), s->vs);
    case 5: return mk(FP, w, Z3_mk_fpa_round_to_integral(Z, RTZ, getfp(s)), s->vs);
    case 6: return mk(FP, w, Z3_mk_fpa_sqrt(Z, RNE, getfp(s)), s->vs);
    case 11: return mk(BV, w, Z3_mk_rotate_left(Z, x % w, getbv(s)), s->vs);
    case 12: return mk(BV, w, Z3_mk_rotate_right(Z, x % w, getbv(s)), s->vs);
    default:
        if (g_active) concretize(s, a, RA, "bit counting");
        return nullptr;
    }
}
EXPORT void vp_rt_conc(Ex* s, uint64_t v, const char* what)
{
    if (!s || !g_active) return;
    Rt r;
    concretize(s, v, RA, what);
}
EXPORT void vp_rt_unsup(Ex* s, const char* what)
{
    if (!s || !g_active) return;
    Rt r;
    incomplete(std::string("unsupported instruction on symbolic data: ") + what);
}
static Ex* ufApply(const char* nm, uint64_t id, unsigned n, const uint64_t* cv, Ex** se, uint64_t& val);
// models of library functions; called before the real call, returns the result's shadow
EXPORT Ex* vp_rt_ext(const char* name, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t n)
{
    if (!g_active) return nullptr;
    Ex *s0 = vp_pe[0], *s1 = vp_pe[1], *s2 = vp_pe[2];
    if (!strcmp(name, "memcpy") || !strcmp(name, "memmove")) {
        vp_rt_memcpy((void*)a0, s0, (void*)a1, s1, a2, s2);
        return nullptr;
    }
    if (!strcmp(name, "memset")) {
        vp_rt_memset((void*)a0, s0, a1, s1, a2, s2);
        return nullptr;
    }
    Rt r;
    if (!strcmp(name, "memcmp") || !strcmp(name, "bcmp")) {
        if (s0) concretize(s0, a0, RA, "memcmp");
        if (s1) concretize(s1, a1, RA, "memcmp");
        if (s2) concretize(s2, a2, RA, "memcmp");
        checkAccess(a0, a2, "memcmp outside of any live heap object");
        checkAccess(a1, a2, "memcmp outside of any live heap object");
        bool any = false;
        for (uint64_t i = 0; i < a2; i++) any |= cellAt(a0 + i) || cellAt(a1 + i);
        if (!any) return nullptr;
        Z3_ast res = num(0, 32);
        VS vs;
        for (int64_t i = a2 - 1; i >= 0; i--) {
            Ex *x = loadShadow(a0 + i, 1, 8), *y = loadShadow(a1 + i, 1, 8);
            Z3_ast p = bvOf(x, *(uint8_t*)(a0 + i), 8), q = bvOf(y, *(uint8_t*)(a1 + i), 8);
            if (x) vs |= x->vs;
            if (y) vs |= y->vs;
            res = ite(Z3_mk_eq(Z, p, q), res, ite(Z3_mk_bvult(Z, p, q), num(~0ULL, 32), num(1, 32)));
        }
        return mk(BV, 32, res, vs);
    }
    if (!strcmp(name, "strlen") || !strcmp(name, "memchr")) {
        // scanned bytes are made concrete
        if (s0) concretize(s0, a0, RA, name);
        bool len = name[0] == 's';
        if (!len && s1) concretize(s1, a1, RA, name);
        if (!len && s2) concretize(s2, a2, RA, name);
        for (uint64_t i = 0; len || i < a2; i++) {
            uint8_t c = *(uint8_t*)(a0 + i);
            if (Ex* e = loadShadow(a0 + i, 1, 8)) concretize(e, c, RA, name);
            if (c == (len ? 0 : (uint8_t)a1)) break;
        }
        return nullptr;
    }
    if (strstr(name, "_Hash_bytes")) {
        if (s1) concretize(s1, a1, RA, "hash length");
        for (uint64_t i = 0; i < a1; i++)
            if (Ex* e = loadShadow(a0 + i, 1, 8)) concretize(e, *(uint8_t*)(a0 + i), RA, "hashed byte");
        return nullptr;
    }
    // mathematical functions: the argument is made concrete
    if (s0) concretize(s0, a0, RA, name);
    if (n > 1 && s1) concretize(s1, a1, RA, name);
    return nullptr;
}

// ---------------------------------------------------------------- harness interface
static bool g_unsat = false;
static unsigned newVar(const char* name, unsigned bits, uint64_t dflt, bool dbl)
{
    if (g_vars.size() >= MAXV) {
        incomplete("too many symbolic variables");
        endPath(E_DEPTH);
    }
    unsigned i = g_vars.size();
    Var v;
    v.name = name ? name : "v";
    v.bits = bits;
    v.dbl = dbl;
    v.val = i < g_item.n ? g_item.val[i] : dflt;
    v.dom = 0;
    v.uf = false;
    v.lo = v.hi = 0;
    v.sg = false;
    char b[32];
    snprintf(b, sizeof b, "v%u", i);
    v.ast = Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(bits));
    g_vars.push_back(v);
    return i;
}
EXPORT uint64_t vp_sym(const char* name, uint32_t bits, uint64_t lo, uint64_t hi, uint32_t sg)
{
    Ex *slo = vp_ptag ? vp_pe[2] : nullptr, *shi = vp_ptag ? vp_pe[3] : nullptr;
    vp_ret = nullptr;
    if (!g_active) return lo;
    Rt r;
    uint64_t m = bits < 64 ? (1ULL << bits) - 1 : ~0ULL;
    if (!slo && !shi && (lo & m) == (hi & m)) {
        // keep a variable slot so that replay files stay aligned
        unsigned i = newVar(name, bits, lo, false);
        g_vars[i].val = lo;
        return lo;
    }
    unsigned i = newVar(name, bits, lo & m, false);
    // an unsigned value of small range needs few bits
    unsigned nb = bits;
    if (!slo && !shi && (!sg || !(((lo | hi) >> (bits - 1)) & 1)) && bitsFor(hi & m) < bits) {
        nb = bitsFor(hi & m);
        g_vars[i].ast = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("n" + std::to_string(i)).c_str()), bvs(nb));
    }
    Var& v = g_vars[i];
    v.lo = lo & m;
    v.hi = hi & m;
    v.sg = sg;
    auto sx = [&](uint64_t x) { return bits < 64 ? (int64_t)(x << (64 - bits)) >> (64 - bits) : (int64_t)x; };
    bool in = sg ? (sx(v.val) >= sx(lo) && sx(v.val) <= sx(hi)) : (v.val >= v.lo && v.val <= v.hi);
    if (!in) v.val = v.lo;
    if (nb < bits) {
        Z3_ast c[2] = {Z3_mk_bvuge(Z, v.ast, num(lo & m, nb)), Z3_mk_bvule(Z, v.ast, num(hi & m, nb))};
        if ((lo & m) != 0 || (hi & m) != maskOf(nb)) v.dom = Z3_mk_and(Z, 2, c);
        VS vs;
        vs.set(i);
        Ex* e = mk(BV, 64, Z3_mk_zero_ext(Z, 64 - nb, v.ast), vs);
        e->ub = hi & m;
        vp_ret = e;
        return v.val;
    }
    Z3_ast l = slo ? getbv(slo) : num(lo, 64), h = shi ? getbv(shi) : num(hi, 64);
    if (bits < 64) {
        l = Z3_mk_extract(Z, bits - 1, 0, l);
        h = Z3_mk_extract(Z, bits - 1, 0, h);
    }
    Z3_ast c[2] = {sg ? Z3_mk_bvsge(Z, v.ast, l) : Z3_mk_bvuge(Z, v.ast, l), sg ? Z3_mk_bvsle(Z, v.ast, h) : Z3_mk_bvule(Z, v.ast, h)};
    Z3_ast d = Z3_mk_and(Z, 2, c);
    VS vs;
    vs.set(i);
    if (slo || shi) {
        VS all = vs | vsOf(slo, shi);
        g_pc.push_back({d, all});
    }
    else if (!(lo == 0 && (hi & m) == m && !sg))
        v.dom = d;
    Ex* e = mk(BV, bits, v.ast, vs);
    if (bits < 64) e = mk(BV, 64, sg ? Z3_mk_sign_ext(Z, 64 - bits, v.ast) : Z3_mk_zero_ext(Z, 64 - bits, v.ast), vs);
    vp_ret = e;
    return sg ? (uint64_t)sx(v.val) : v.val;
}
EXPORT double vp_double(const char* name)
{
    vp_ret = nullptr;
    if (!g_active) return 0;
    Rt r;
    unsigned i = newVar(name, 64, 0, true);
    VS vs;
    vs.set(i);
    vp_ret = mk(BV, 64, g_vars[i].ast, vs);
    double d;
    memcpy(&d, &g_vars[i].val, 8);
    return d;
}
EXPORT uint64_t vp_conc(uint64_t v)
{
    Ex* s = vp_ptag ? vp_pe[0] : nullptr;
    vp_ret = nullptr;
    if (!g_active || !s) return v;
    Rt r;
    concretize(s, v, RA, "pick");
    return v;
}
EXPORT int vp_is_symbolic(uint64_t)
{
    Ex* s = vp_ptag ? vp_pe[0] : nullptr;
    vp_ret = nullptr;
    return g_active && s;
}
EXPORT void vp_assume(bool c)
{
    Ex* s = vp_ptag ? vp_pe[0] : nullptr;
    if (!g_active) return;
    Rt r;
    if (!s) {
        if (!c) endPath(E_ASSUME);
        return;
    }
    Z3_ast a = simp(getbl(s));
    int t = trivial(a);
    if (t == 1) return;
    if (c) {
        g_pc.push_back({a, s->vs});
        return;
    }
    // the concrete input violates the assumption: look for one that does not
    Item it{};
    if (feasible(a, s->vs, &it) == 1) {
        it.bound = g_item.bound;
        it.hash = g_item.hash;
        memcpy(it.imp, g_item.imp, sizeof it.imp);
        if (g_dec > g_item.bound || g_item.bound == 0) {
            it.bound = g_dec;
            it.hash = g_hash;
        }
        msg(M_ITEM, &it, sizeof it);
        g_st.pushed++;
        endPath(E_REDIRECT);
    }
    endPath(E_ASSUME);
}
EXPORT void vp_assert(bool c, const char* m)
{
    Ex* s = vp_ptag ? vp_pe[0] : nullptr;
    if (!g_active) return;
    Rt r;
    g_st.asserts++;
    if (!c) {
        curViolation(m);
        endPath(E_VIOL);
    }
    if (!s) {
        g_st.assertsConc++;
        return;
    }
    Z3_ast a = simp(getbl(s));
    if (trivial(a) == 1) {
        g_st.assertsSym++;
        return;
    }
    if (g_dec < g_bound()) return; // decided on the parent path, same path condition
    Item it{};
    int f = feasible(Z3_mk_not(Z, a), s->vs, &it);
    if (f == 1) {
        violation(it, m);
        g_pc.push_back({a, s->vs});
    }
    else if (f == 0)
        g_st.assertsSym++;
}
EXPORT void vp_known(const char* id, bool c)
{
    Ex* s = vp_ptag ? vp_pe[1] : nullptr;
    if (!g_active) return;
    Rt r;
    if (s) decide(c ? getbl(s) : Z3_mk_not(Z, getbl(s)), s->vs, c, RA);
    if (c) {
        msg(M_KNOWN, id, strlen(id));
        endPath(E_KNOWN);
    }
}
EXPORT void vp_reach(const char* l)
{
    if (!g_active) return;
    Rt r;
    for (auto& x : g_reach)
        if (x == l) return;
    g_reach.push_back(l);
}
EXPORT void vp_cut(const char* why)
{
    if (!g_active) return;
    Rt r;
    g_reach.push_back(std::string("cut:") + why);
    endPath(E_CUT);
}
EXPORT void vp_note(const char* m)
{
    if (!g_active) return;
    Rt r;
    msg(M_NOTE, m, strlen(m));
}
EXPORT int vp_is_replay(void) { return 0; }
struct UfApp {
    uint64_t id;
    unsigned n, var;
    uint64_t cv[4];
    Ex* se[4];
};
static std::vector<UfApp> g_uf;
static Ex* ufApply(const char* nm, uint64_t id, unsigned n, const uint64_t* cv, Ex** se, uint64_t& val)
{
    // syntactically identical application
    for (auto& u : g_uf) {
        if (u.id != id || u.n != n) continue;
        bool same = true;
        for (unsigned i = 0; i < n; i++) same &= u.se[i] && se[i] ? getbv(u.se[i]) == getbv(se[i]) : !u.se[i] && !se[i] && u.cv[i] == cv[i];
        if (same) {
            val = g_vars[u.var].val;
            unsigned ni = newVar(nm, 64, 0, true); // keeps replay files aligned with the calls
            g_vars[ni].uf = true;
            g_vars[ni].alias = u.var;
            g_vars[ni].val = val;
            VS vs;
            vs.set(u.var);
            return mk(BV, 64, g_vars[u.var].ast, vs);
        }
    }
    unsigned i = newVar(nm, 64, 0, true);
    g_vars[i].uf = true;
    for (auto& u : g_uf) { // functional consistency
        if (u.id != id || u.n != n) continue;
        bool eqc = true;
        std::vector<Z3_ast> eqs;
        VS vs;
        vs.set(i);
        vs.set(u.var);
        bool never = false;
        for (unsigned k = 0; k < n; k++) {
            if (u.cv[k] != cv[k]) eqc = false;
            if (!u.se[k] && !se[k]) {
                if (u.cv[k] != cv[k]) never = true;
                continue;
            }
            eqs.push_back(Z3_mk_eq(Z, bvOf(u.se[k], u.cv[k], 64), bvOf(se[k], cv[k], 64)));
            if (u.se[k]) vs |= u.se[k]->vs;
            if (se[k]) vs |= se[k]->vs;
        }
        if (never) continue;
        if (eqc) g_vars[i].val = g_vars[u.var].val;
        Z3_ast lhs = simp(Z3_mk_and(Z, eqs.size(), eqs.data()));
        if (trivial(lhs) == 0) continue;
        g_pc.push_back({Z3_mk_implies(Z, lhs, Z3_mk_eq(Z, g_vars[i].ast, g_vars[u.var].ast)), vs});
    }
    UfApp u;
    u.id = id;
    u.n = n;
    u.var = i;
    for (unsigned k = 0; k < n; k++) {
        u.cv[k] = cv[k];
        u.se[k] = se[k];
    }
    g_uf.push_back(u);
    val = g_vars[i].val;
    VS vs;
    vs.set(i);
    return mk(BV, 64, g_vars[i].ast, vs);
}
EXPORT double vp_uf(uint64_t id, uint64_t n, double a, double b, double c, double d)
{
    bool t = vp_ptag != nullptr;
    vp_ret = nullptr;
    if (!g_active) return 0;
    Rt r;
    double x[4] = {a, b, c, d};
    uint64_t cv[4], val;
    memcpy(cv, x, sizeof cv);
    Ex* se[4];
    for (int i = 0; i < 4; i++) se[i] = t ? vp_pe[2 + i] : nullptr;
    if (t && vp_pe[0]) concretize(vp_pe[0], id, RA, "uf id");
    char b2[32];
    snprintf(b2, sizeof b2, "uf%llu", (unsigned long long)id);
    vp_ret = ufApply(b2, id, n, cv, se, val);
    double res;
    memcpy(&res, &val, 8);
    return res;
}
static std::map<std::string, long>* g_params2;
EXPORT long vp_param(const char* n, long d)
{
    Rt r;
    if (!g_params2) return d;
    auto it = g_params2->find(n);
    return it == g_params2->end() ? d : it->second;
}
static std::map<std::string, void (*)()>* g_harness;
EXPORT void vp_reg_harness(const char* n, void (*f)())
{
    Rt r;
    if (!g_harness) g_harness = new std::map<std::string, void (*)()>;
    (*g_harness)[n] = f;
}
#include "rt_sched.inc"
#include "rt_main.inc"
