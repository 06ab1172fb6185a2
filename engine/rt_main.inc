// ---------------------------------------------------------------- path child
static double g_pathLimit = 100;
static void onCrash(int sig)
{
    vp_in_rt++;
    char b[100];
    if (sig == SIGALRM) {
        snprintf(b, sizeof b, "path did not end within %.0f s", g_pathLimit);
        if (vp_in_rt > 1) {
            incomplete("solver or runtime did not finish within the path time limit");
            endPath(E_DEPTH);
        }
    }
    else
        snprintf(b, sizeof b, "crash: %s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE (division by zero)" : sig == SIGILL ? "SIGILL/trap" : "SIGBUS");
    if (vp_in_rt > 1) {
        char c[200];
        snprintf(c, sizeof c, "engine %s", b);
        incomplete(c);
        endPath(E_DEPTH);
    }
    curViolation(b);
    endPath(E_VIOL);
}
static void z3err(Z3_context c, Z3_error_code e)
{
    incomplete(std::string("z3 error: ") + Z3_get_error_msg(c, e));
    endPath(E_DEPTH);
}
static void (*g_fn)();
static std::string demang(const char* n);
static void runPath()
{
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = onCrash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) sigaction(s, &sa, nullptr);
    alarm((unsigned)g_pathLimit);
    if (!getenv("VP_DEBUG")) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1);
        if (!getenv("VP_TRACE") && !getenv("VP_SLOW") && !getenv("VP_EXTLOG")) dup2(fd, 2);
    }
    g_active = true;
    try {
        g_fn();
    }
    catch (std::exception& e) {
        Rt r;
        curViolation(std::string("uncaught exception: ") + e.what());
        endPath(E_VIOL);
    }
    catch (...) {
        Rt r;
        curViolation("uncaught exception of unknown type");
        endPath(E_VIOL);
    }
    Rt r;
    endPath(E_OK);
}
static void z3init()
{
    Rt r;
    Z3_config c = Z3_mk_config();
    Z3_set_param_value(c, "model", "true");
    Z = Z3_mk_context(c);
    Z3_set_error_handler(Z, z3err);
    SD = Z3_mk_fpa_sort_double(Z);
    SF = Z3_mk_fpa_sort_single(Z);
    SB = Z3_mk_bool_sort(Z);
    RNE = Z3_mk_fpa_rne(Z);
    RTZ = Z3_mk_fpa_rtz(Z);
    { // warm the solver up before forking
        Z3_ast x = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm"), Z3_mk_bv_sort(Z, 64));
        Z3_ast y = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm2"), Z3_mk_bv_sort(Z, 64));
        for (int k = 0; k < 3; k++)
            solve({Z3_mk_bvult(Z, x, y), Z3_mk_bvult(Z, y, Z3_mk_bvadd(Z, x, x))}, nullptr);
        g_st = Stat{};
    }
}
static bool rdall(int fd, void* p, size_t n)
{
    char* c = (char*)p;
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r;
        n -= r;
    }
    return true;
}
// one zygote per worker: stays pristine, forks one child per path
static void zygote(int in, int out)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        if (!rdall(in, &g_item, sizeof g_item)) _exit(0);
        g_out = out;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            vp_in_rt = 0;
            runPath();
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        struct { MsgHdr h; int st; } m{{M_EXIT, 4}, st};
        if (write(out, &m, sizeof m) != sizeof m) _exit(1);
    }
}
static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if (c < 32) o += ' ';
        else o += c;
    }
    return o;
}
#include <cxxabi.h>
static std::string demang(const char* n)
{
    int st;
    char* d = abi::__cxa_demangle(n, 0, 0, &st);
    std::string s = d ? d : n;
    free(d);
    return s;
}
EXPORT int vp_main(int argc, char** argv)
{
    vp_in_rt++;
    std::string h, out, vdir = ".";
    int jobs = 8;
    double budget = 600;
    uint64_t maxViol = 3;
    g_params2 = new std::map<std::string, long>;
    std::string setS;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--harness") h = nx();
        else if (a == "--out") out = nx();
        else if (a == "--vdir") vdir = nx();
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--qtimeout") g_timeout = atoi(nx().c_str());
        else if (a == "--path-limit") g_pathLimit = atof(nx().c_str());
        else if (a == "--max-enum") g_maxEnum = atoi(nx().c_str());
        else if (a == "--max-viol") maxViol = atoi(nx().c_str());
        else if (a == "--set") {
            std::string kv = nx();
            auto e = kv.find('=');
            (*g_params2)[kv.substr(0, e)] = atol(kv.substr(e + 1).c_str());
            setS += (setS.empty() ? "" : " ") + kv;
        }
        else if (a == "--list") {
            for (auto& p : *g_harness) puts(p.first.c_str());
            return 0;
        }
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (!g_harness || !g_harness->count(h)) {
        fprintf(stderr, "no harness %s\n", h.c_str());
        return 2;
    }
    g_fn = (*g_harness)[h];
    arenaInit();
    z3init();
    double t0 = now();
    struct W { int in, out; bool busy; std::string buf; pid_t pid; Item cur; double since; };
    std::vector<W> ws(jobs);
    for (auto& w : ws) {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return 2;
        fflush(stdout);
        w.pid = fork();
        if (!w.pid) {
            close(a[1]);
            close(b[0]);
            zygote(a[0], b[1]);
        }
        close(a[0]);
        close(b[1]);
        w.in = a[1];
        w.out = b[0];
        w.busy = false;
    }
    std::vector<Item*> q;
    q.push_back(new Item{});
    Stat T{};
    uint64_t paths = 0, ends[10] = {0}, items = 1, divergences = 0, viols = 0;
    std::map<std::string, uint64_t> reach, incompl, known;
    std::set<uint64_t> sites;
    std::vector<std::string> samples, vfiles, notes;
    bool stop = false, timeout = false;
    size_t busy = 0;
    double maxDec = 0;
    while (!stop && (busy || !q.empty())) {
        for (auto& w : ws)
            if (!w.busy && !q.empty()) {
                w.cur = *q.back();
                delete q.back();
                q.pop_back();
                w.busy = true;
                busy++;
                const char* c = (const char*)&w.cur;
                size_t n = sizeof(Item);
                while (n) {
                    ssize_t r = write(w.in, c, n);
                    if (r <= 0) return 2;
                    c += r;
                    n -= r;
                }
            }
        std::vector<pollfd> pf;
        for (auto& w : ws) pf.push_back({w.out, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        if (now() - t0 > budget) {
            timeout = true;
            break;
        }
        for (size_t i = 0; i < ws.size() && !stop; i++) {
            if (!(pf[i].revents & (POLLIN | POLLHUP))) continue;
            W& w = ws[i];
            char b[65536];
            ssize_t r = read(w.out, b, sizeof b);
            if (r <= 0) {
                incompl["worker died"]++;
                stop = true;
                break;
            }
            w.buf.append(b, r);
            size_t off = 0;
            while (w.buf.size() - off >= sizeof(MsgHdr)) {
                MsgHdr hd;
                memcpy(&hd, w.buf.data() + off, sizeof hd);
                if (w.buf.size() - off < sizeof hd + hd.len) break;
                const char* p = w.buf.data() + off + sizeof hd;
                off += sizeof hd + hd.len;
                switch (hd.type) {
                case M_ITEM: {
                    Item* it = new Item;
                    memcpy(it, p, sizeof *it);
                    q.push_back(it);
                    items++;
                    break;
                }
                case M_VIOL: {
                    Item it;
                    memcpy(&it, p, sizeof it);
                    std::string m = p + sizeof it;
                    std::string d = p + sizeof it + m.size() + 1;
                    std::string desc(p + sizeof it + m.size() + 1, hd.len - sizeof it - m.size() - 1);
                    std::string fn = vdir + "/" + h + "." + std::to_string(viols) + ".replay";
                    if (FILE* f = fopen(fn.c_str(), "w")) {
                        fprintf(f, "harness %s\nparams %s\nmessage %s\ninputs %s\nvalues", h.c_str(), setS.c_str(), m.c_str(), desc.c_str());
                        for (uint32_t k = 0; k < it.n; k++) fprintf(f, " %llu", (unsigned long long)it.val[k]);
                        fprintf(f, "\n");
                        fclose(f);
                    }
                    vfiles.push_back(fn);
                    viols++;
                    if (viols >= maxViol) stop = true;
                    break;
                }
                case M_INCOMPLETE: incompl[std::string(p, hd.len)]++; break;
                case M_KNOWN: known[std::string(p, hd.len)]++; break;
                case M_NOTE: if (notes.size() < 50) notes.push_back(std::string(p, hd.len)); break;
                case M_REACH: {
                    std::string s(p, hd.len), l;
                    for (char c : s) {
                        if (c == '\n') {
                            reach[l]++;
                            l.clear();
                        }
                        else
                            l += c;
                    }
                    break;
                }
                case M_SITES:
                    for (uint32_t k = 0; k + 8 <= hd.len; k += 8) {
                        uint64_t a;
                        memcpy(&a, p + k, 8);
                        sites.insert(a);
                    }
                    break;
                case M_SAMPLE:
                    if (samples.size() < 4 || (paths % 997 == 0 && samples.size() < 8)) samples.push_back(std::string(p, hd.len > 600 ? 600 : hd.len));
                    break;
                case M_DONE: {
                    Stat s;
                    memcpy(&s, p, sizeof s);
                    paths++;
                    ends[s.end]++;
                    T.queries += s.queries; T.sat += s.sat; T.unsat += s.unsat; T.unknown += s.unknown;
                    T.asserts += s.asserts; T.assertsSym += s.assertsSym; T.assertsConc += s.assertsConc;
                    T.solver += s.solver; T.concs += s.concs; T.decisions += s.decisions;
                    if (s.maxq > T.maxq) T.maxq = s.maxq;
                    if (s.vars > T.vars) T.vars = s.vars;
                    if (s.decisions > maxDec) maxDec = s.decisions;
                    break;
                }
                case M_EXIT: {
                    int st;
                    memcpy(&st, p, 4);
                    if (!WIFEXITED(st) || WEXITSTATUS(st)) incompl["path process ended with status " + std::to_string(st)]++;
                    w.busy = false;
                    busy--;
                    break;
                }
                }
            }
            w.buf.erase(0, off);
        }
    }
    double wall = now() - t0;
    for (auto& w : ws) kill(w.pid, SIGKILL);
    std::set<std::string> fns;
    for (uint64_t a : sites) {
        const char* n = rt_symname(a);
        if (*n != '?') fns.insert(demang(n));
    }
    if (timeout) incompl["time budget exhausted with " + std::to_string(q.size() + busy) + " open items"]++;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"harness\":\"%s\",\"params\":\"%s\",\"paths\":%llu,\"items\":%llu,\"completed\":%llu,\"assumed_away\":%llu,\"cut\":%llu,\"redirected\":%llu,\"known_paths\":%llu,", h.c_str(), setS.c_str(),
            (unsigned long long)paths, (unsigned long long)items, (unsigned long long)ends[E_OK], (unsigned long long)ends[E_ASSUME], (unsigned long long)ends[E_CUT], (unsigned long long)ends[E_REDIRECT], (unsigned long long)ends[E_KNOWN]);
    fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"decisions\":%llu,\"max_decisions\":%.0f,\"max_vars\":%llu,\"enumerations\":%llu,", (unsigned long long)T.queries, (unsigned long long)T.sat,
            (unsigned long long)T.unsat, (unsigned long long)T.unknown, T.solver, T.maxq, wall, (unsigned long long)T.decisions, maxDec, (unsigned long long)T.vars, (unsigned long long)T.concs);
    fprintf(f, "\"asserts\":%llu,\"asserts_solver\":%llu,\"asserts_concrete\":%llu,\"violations\":%llu,", (unsigned long long)T.asserts, (unsigned long long)T.assertsSym, (unsigned long long)T.assertsConc, (unsigned long long)viols);
    auto mapj = [&](const char* k, std::map<std::string, uint64_t>& m) {
        fprintf(f, "\"%s\":{", k);
        bool first = true;
        for (auto& p : m) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second);
            first = false;
        }
        fprintf(f, "},");
    };
    mapj("reached", reach);
    mapj("incomplete", incompl);
    mapj("known", known);
    auto listj = [&](const char* k, auto& v, const char* end) {
        fprintf(f, "\"%s\":[", k);
        bool first = true;
        for (auto& p : v) {
            fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(p).c_str());
            first = false;
        }
        fprintf(f, "]%s", end);
    };
    listj("functions", fns, ",");
    listj("samples", samples, ",");
    listj("notes", notes, ",");
    listj("violation_files", vfiles, "}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    _exit(viols ? 1 : incompl.empty() ? 0 : 3);
}
