// ---------------------------------------------------------------- threads
// sched.cpp runs real threads one at a time; the next one is an arbitrary choice made here.
// While races are watched, accesses are recorded per thread and segment (code between two
// synchronisations); at the end the solver decides whether an execution order allowed by program
// order, creation, end and the observed order of locks and atomics puts two conflicting ones together.
static uint32_t g_tid = 0;
static const char* g_schedName = "schedule";
EXPORT uint32_t vp_sched_choose(uint32_t n)
{
    if (!g_active) return 0;
    Ex* keepRet = vp_ret;
    void* keepTag = vp_ptag;
    vp_ptag = nullptr;
    uint64_t v = vp_sym(g_schedName, 64, 0, n - 1, 0);
    if (vp_ret) {
        Rt r;
        concretize(vp_ret, v, (void*)vp_sched_choose, "schedule");
    }
    vp_ret = keepRet;
    vp_ptag = keepTag;
    return v;
}
EXPORT void vp_sched_deadlock(void)
{
    if (!g_active) return;
    Rt r;
    curViolation("every thread waits for another one");
    endPath(E_VIOL);
}
struct Acc {
    uint16_t tid, write, atomic;
    uint8_t mask;
    uint32_t seg;
    void* ra;
};
typedef std::pair<uint32_t, uint32_t> Seg;
static uint32_t g_seg[64];
static std::unordered_map<uint64_t, std::vector<Acc>>* g_acc;
static std::vector<std::pair<Seg, Seg>>* g_edges;
static std::map<uint64_t, std::vector<Seg>>* g_rel; // what an acquisition of this object comes after
static Seg cur() { return {g_tid, g_seg[g_tid]}; }
static void acquireFrom(uint64_t o)
{
    g_seg[g_tid]++;
    auto it = g_rel->find(o);
    if (it == g_rel->end()) return;
    for (auto& s : it->second)
        if (s.first != g_tid) g_edges->push_back({s, cur()});
}
static void releaseTo(uint64_t o, bool add)
{
    auto& v = (*g_rel)[o];
    if (!add) v.clear();
    v.push_back(cur());
    g_seg[g_tid]++;
}
EXPORT void vp_sched_event(uint32_t kind, uint32_t t, uint64_t obj)
{
    enum { EV_SWITCH, EV_LOCK, EV_UNLOCK, EV_FORK, EV_START, EV_END, EV_JOIN };
    Rt r;
    if (kind == EV_SWITCH) {
        g_tid = t;
        return;
    }
    if (!g_race) return;
    const uint64_t forkKey = 1, endKey = 100;
    switch (kind) {
    case EV_LOCK: acquireFrom(obj); break;
    case EV_UNLOCK: releaseTo(obj, false); break;
    case EV_FORK: releaseTo(forkKey + obj, false); break;
    case EV_START: acquireFrom(forkKey + t); break;
    case EV_END: releaseTo(endKey + t, false); break;
    case EV_JOIN: acquireFrom(endKey + obj); break;
    }
}
static uint64_t g_nextAtomic = 0;
static void record(uint64_t a, unsigned n, bool w, bool at, void* ra)
{
    while (n) {
        unsigned o = a & 7, k = std::min(n, 8 - o);
        uint8_t m = (uint8_t)(((1u << k) - 1) << o);
        auto& v = (*g_acc)[a >> 3];
        bool done = false;
        for (size_t i = v.size(); i-- > 0 && !done;) {
            auto& x = v[i];
            if (x.tid != g_tid || x.seg != g_seg[g_tid]) continue;
            if (x.write == w && x.atomic == at && (x.mask & m) == m) done = true;
        }
        if (!done) v.push_back({(uint16_t)g_tid, w, at, m, g_seg[g_tid], ra});
        a += k;
        n -= k;
    }
}
void rt_race_access(uint64_t a, unsigned n, bool w, void* ra)
{
    if (vp_in_rt) return;
    Rt r;
    bool at = g_nextAtomic == a && a;
    g_nextAtomic = 0;
    record(a, n, w, at, ra);
}
EXPORT void vp_sched_touch(void* p, uint32_t n, uint32_t w)
{
    if (g_race) rt_race_access((uint64_t)p, n, w, (void*)RA);
}
EXPORT void vp_rt_atomic(void* p, uint32_t n, uint32_t k)
{
    unsigned ord = k >> 4; // LLVM: 2 monotonic, 4 acquire, 5 release, 6 acq_rel, 7 seq_cst
    if (!g_race || vp_in_rt) return;
    Rt r;
    uint64_t a = (uint64_t)p;
    k &= 15;
    if (k != 1 && (ord == 4 || ord >= 6)) acquireFrom(a);
    if (k == 2) {
        record(a, n, true, true, RA);
        if (ord >= 5) releaseTo(a, true);
    }
    else {
        g_nextAtomic = a;
        if (k == 1) {
            record(a, n, true, true, RA);
            if (ord >= 5) releaseTo(a, false);
            else (*g_rel)[a].clear();
        }
    }
}
EXPORT void vp_race_watch(void)
{
    Rt r;
    if (!g_active) return;
    g_acc = new std::unordered_map<uint64_t, std::vector<Acc>>;
    g_edges = new std::vector<std::pair<Seg, Seg>>;
    g_rel = new std::map<uint64_t, std::vector<Seg>>;
    memset(g_seg, 0, sizeof g_seg);
    g_race = 1;
}
static std::string demang(const char* n);
EXPORT void vp_race_check(void)
{
    if (!g_active || !g_race) return;
    Rt r;
    g_race = 0;
    struct Cand {
        const Acc *a, *b;
        uint64_t addr;
    };
    std::map<std::pair<Seg, Seg>, Cand> cand;
    long words = 0;
    for (auto& w : *g_acc) {
        auto& v = w.second;
        bool many = false, wr = false;
        for (auto& x : v) many |= x.tid != v[0].tid, wr |= x.write;
        if (!many || !wr) continue;
        words++;
        for (size_t i = 0; i < v.size(); i++)
            for (size_t j = i + 1; j < v.size(); j++) {
                auto &x = v[i], &y = v[j];
                if (x.tid == y.tid || !(x.write | y.write) || (x.atomic & y.atomic) || !(x.mask & y.mask)) continue;
                auto k = std::make_pair(Seg{x.tid, x.seg}, Seg{y.tid, y.seg});
                if (k.second < k.first) std::swap(k.first, k.second);
                cand.insert({k, {&x, &y, w.first << 3}});
            }
    }
    g_st.asserts++;
    if (getenv("VP_RACE")) fprintf(stderr, "race: %zu words, %ld shared, %zu candidate pairs, %zu edges\n", g_acc->size(), words, cand.size(), g_edges->size());
    if (cand.empty()) {
        g_st.assertsConc++;
        return;
    }
    // positions of the segments in an execution
    std::map<Seg, Z3_ast> pos;
    Z3_sort SI = Z3_mk_int_sort(Z);
    std::vector<Z3_ast> cs;
    auto at = [&](Seg s) {
        auto it = pos.find(s);
        if (it != pos.end()) return it->second;
        char b[40];
        snprintf(b, sizeof b, "seg%u_%u", s.first, s.second);
        return pos[s] = Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), SI);
    };
    for (auto& e : *g_edges) cs.push_back(Z3_mk_lt(Z, at(e.first), at(e.second)));
    for (auto& c : cand) at(c.first.first), at(c.first.second);
    Seg prev;
    bool first = true;
    for (auto& p : pos) { // program order
        if (!first && prev.first == p.first.first) cs.push_back(Z3_mk_lt(Z, pos[prev], p.second));
        prev = p.first;
        first = false;
    }
    std::vector<Z3_ast> any;
    std::vector<const Cand*> which;
    for (auto& c : cand) {
        any.push_back(Z3_mk_eq(Z, at(c.first.first), at(c.first.second)));
        which.push_back(&c.second);
    }
    cs.push_back(Z3_mk_or(Z, any.size(), any.data()));
    Z3_model m = 0;
    int f = solve(cs, &m);
    if (f == 0) {
        g_st.assertsSym++;
        return;
    }
    if (f != 1) {
        incomplete("order of threads not decided");
        return;
    }
    for (size_t i = 0; i < any.size(); i++) {
        Z3_ast v;
        Z3_model_eval(Z, m, any[i], true, &v);
        if (Z3_get_bool_value(Z, v) != Z3_L_TRUE) continue;
        auto d = [](const Acc* x) {
            std::string n = demang(rt_symname((uint64_t)x->ra));
            return std::string(x->write ? "write" : "read") + " in " + n.substr(0, n.find('(')) + " (thread " + std::to_string(x->tid) + ")";
        };
        if (getenv("VP_RACE"))
            for (auto& c : cand) fprintf(stderr, "race: candidate %s / %s at %llx\n", d(c.second.a).c_str(), d(c.second.b).c_str(), (unsigned long long)c.second.addr);
        curViolation("data race: " + d(which[i]->a) + " and " + d(which[i]->b));
        endPath(E_VIOL);
    }
}
// the same value for the same key
EXPORT uint64_t vp_memo(const char* name, uint64_t key, uint64_t lo, uint64_t hi)
{
    static std::map<uint64_t, std::pair<uint64_t, Ex*>>* memo;
    if (!g_active) return lo;
    vp_in_rt++;
    if (!memo) memo = new std::map<uint64_t, std::pair<uint64_t, Ex*>>;
    auto it = memo->find(key);
    vp_in_rt--;
    if (it != memo->end()) {
        vp_ret = it->second.second;
        return it->second.first;
    }
    vp_ptag = nullptr;
    uint64_t v = vp_sym(name, 64, lo, hi, 0);
    Rt r;
    (*memo)[key] = {v, vp_ret};
    return v;
}
