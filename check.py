#!/usr/bin/env python3
"""Solver-based checks of gegelati.  usage: check.py setup | check.py <property> [--tier quick|thorough]
   | check.py replay <file> | check.py run <src> <harness> [k=v ...] (development)"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", V + "/.build")
LLVM = "/usr/lib/llvm-18"
NJ = os.cpu_count() or 8
sys.path.insert(0, V)
from registry import CHECKS, SOURCES, THREADED  # noqa: E402

WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "_ZNSt6thread4joinEv",
        "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE",
        "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv",
        "_ZNSt18condition_variable10notify_allEv", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"]

INC = ["-I" + V + "/engine", "-I" + V + "/harness", "-I" + R + "/gegelatilib/include", "-I" + R + "/lib/JsonCpp"]
DEF = ["-std=c++17", "-DNDEBUG", "-DCODE_GENERATION", '-DGEGELATI_VERSION="1.3.1"', "-w"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def cached(key, make, ext):
    """make(path) builds the file; kept under its content key"""
    os.makedirs(B + "/cache", exist_ok=True)
    p = f"{B}/cache/{hashlib.sha256(key.encode()).hexdigest()[:32]}{ext}"
    if os.path.exists(p):
        os.utime(p)
        return p
    t = f"{p}.{os.getpid()}.{hashlib.md5(key.encode()).hexdigest()[:6]}.tmp{ext}"
    make(t)
    os.rename(t, p)
    return p


def prune(limit=2 << 30):
    fs = sorted(glob.glob(B + "/cache/*"), key=os.path.getmtime, reverse=True)
    tot = 0
    for f in fs:
        tot += os.path.getsize(f)
        if tot > limit:
            os.unlink(f)


def must(cmd):
    def f(t):
        r = sh([c.replace("@OUT@", t) for c in cmd])
        if r.returncode:
            raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])
    return f


def engine(pool):
    e = V + "/engine/"
    plug = pool.submit(cached, "plugin" + fhash(e + "pass.cpp"), must(
        ["g++", "-std=c++17", "-fno-rtti", "-O1", "-fPIC", "-shared", "-I" + LLVM + "/include", "-D_GNU_SOURCE", e + "pass.cpp", "-o", "@OUT@"]), ".so")
    rt = pool.submit(cached, "rt" + fhash(*sorted(glob.glob(e + "rt*"))), must(
        ["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-Wl,--version-script=" + e + "rt.map", "-Wl,-Bsymbolic", e + "rt.cpp", "-o", "@OUT@", "-lz3", "-ldl"]), ".so")
    return plug, rt


def repo_sources():
    s = []
    for d, _, fs in os.walk(R + "/gegelatilib/src"):
        s += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(s) + [R + "/lib/JsonCpp/jsoncpp.cpp"]


_hh = None


def headers_hash():
    global _hh
    if _hh is None:
        fs = []
        for top in (R + "/gegelatilib", R + "/lib/JsonCpp"):
            for d, _, f in os.walk(top):
                fs += [os.path.join(d, x) for x in f if x.endswith((".h", ".hpp", ".inl"))]
        _hh = fhash(*sorted(fs))
    return _hh


# h_dot: text with numbers that depend on symbolic inputs (harness/dot_text.h)
TEXT = ["/src/file/tpgGraphDotExporter.cpp", "/src/file/tpgGraphDotImporter.cpp"]


def compile_instr(plug, src, hsrc=""):
    flags = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fPIE"] + DEF + INC
    if hsrc == "h_dot" and src.endswith(tuple(TEXT)):
        try:
            return compile_instr_with(plug, src, flags + TEXTFLAGS())
        except RuntimeError:
            print("note: numbers in text are case split in " + os.path.basename(src), flush=True)
    return compile_instr_with(plug, src, flags)


def TEXTFLAGS():
    return ["-include", V + "/harness/dot_text.h", "-DVP_TEXT=" + fhash(V + "/harness/dot_text.h")[:8]]


def compile_instr_with(plug, src, flags):
    hs = glob.glob(V + "/harness/*.h") + glob.glob(V + "/harness/*.inc") + glob.glob(V + "/engine/vp.h") if src.startswith(V) else []
    key = "instr" + fhash(plug, src, *sorted(hs)) + headers_hash() + " ".join(flags)
    return cached(key, must([LLVM + "/bin/clang++"] + flags + ["-fpass-plugin=" + plug, "-c", src, "-o", "@OUT@"]), ".o")


def compile_bare(src):
    """no instrumentation at all: the scheduler and, for race detection, the replay driver"""
    flags = ["-O1", "-g", "-fPIE"] + DEF + INC
    return cached("bare" + fhash(src, V + "/engine/vp.h") + " ".join(flags), must(["g++"] + flags + ["-c", src, "-o", "@OUT@"]), ".o")


def wraps(hsrc):
    ws = WRAP if hsrc in THREADED else ["_ZNSo9_M_insertIdEERSoT_"] if hsrc == "h_log" else []
    return ["-Wl,--wrap=" + w for w in ws]


def compile_plain(src, extra=(), san="address"):
    flags = ["-O1", "-g", "-fsanitize=" + san, "-fno-omit-frame-pointer", "-fPIE"] + list(extra) + DEF + INC
    hs = glob.glob(V + "/harness/*.h") + glob.glob(V + "/harness/*.inc") + glob.glob(V + "/engine/vp.h") if src.startswith(V) else []
    key = "plainc" + fhash(src, *sorted(hs)) + headers_hash() + " ".join(flags)
    # the compiler of the encoded code: both evaluate arguments in the same order
    return cached(key, must([LLVM + "/bin/clang++"] + flags + ["-c", src, "-o", "@OUT@"]), ".o")


def deps_file():
    p = V + "/harness/deps.json"
    return json.load(open(p)) if os.path.exists(p) else {}


def sources_for(hsrc):
    d = deps_file().get(hsrc)
    al = repo_sources()
    if d is None:
        return al, al
    want = [s for s in al if os.path.relpath(s, R) in d]
    return want, al


def archive(objs, key, hsrc, pool, compile_, link):
    """link with the needed repo objects; with all of them if that is not enough"""
    want, al = sources_for(hsrc)
    for sel in ([want, al] if len(want) < len(al) else [al]):
        fs = [pool.submit(compile_, s) for s in sel]
        hf = [pool.submit(f) for f in objs]
        os_ = [f.result() for f in fs]
        hs = [f.result() for f in hf]
        try:
            return link(hs, os_)
        except RuntimeError as e:
            if sel is al:
                raise
            print("note: linking against all sources", flush=True)


class Broken(Exception):
    """the code generated by the library is not usable"""


def generated(hsrc, pool, mode, flags):
    """h_codegen: write the C code of the graphs with the library built natively, and compile it; an archive"""
    objs = [lambda: compile_plain(V + "/harness/gen_codegen.cpp")]

    def link(hs, os_):
        def mk(t):
            lib = t + ".a"
            sh(["ar", "rcs", lib] + os_)
            r = sh([LLVM + "/bin/clang++", "-fsanitize=address"] + hs + [lib, "-Wl,--allow-multiple-definition", "-pthread", "-ldl", "-o", t])
            os.unlink(lib)
            if r.returncode:
                raise RuntimeError("link failed\n" + r.stdout[-3000:])
        return cached("gen" + " ".join(hs + os_), mk, ".exe")
    gen = archive(objs, "p", "gen_codegen", pool, lambda s: compile_plain(s), link)

    def one(src):
        o = src[:-2] + ".o"
        r = sh(flags + ["-I" + os.path.dirname(src), "-c", src, "-o", o])
        if r.returncode:
            raise Broken(f"the C code generated for {os.path.basename(src)} does not compile: " + r.stdout[-1500:])
        if not src.endswith("/tab.c"):
            must(["objcopy", "--keep-global-symbol=infer_" + os.path.basename(src)[1:-2], o])(o)
        return o

    def mk(t):
        d = scratch()
        try:
            r = sh([gen, d, str(GRAPHS)], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            if r.returncode:
                raise Broken("the generation of C code fails: " + r.stdout[-1500:])
            os_ = list(pool.map(one, sorted(glob.glob(d + "/w*.c")) + [d + "/tab.c"]))
            r = sh(["ar", "rcs", t] + os_)
            if r.returncode:
                raise RuntimeError(r.stdout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return cached("gena" + gen + mode + str(GRAPHS) + " ".join(flags), mk, ".a")


GRAPHS = 150


def gen_instr(hsrc, pool, plug):
    if hsrc != "h_codegen":
        return []
    return ["-Wl,--whole-archive", generated(hsrc, pool, "i" + plug, [LLVM + "/bin/clang", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fPIE", "-w", "-fpass-plugin=" + plug]), "-Wl,--no-whole-archive"]


def gen_plain(hsrc, pool):
    if hsrc != "h_codegen":
        return []
    return ["-Wl,--whole-archive", generated(hsrc, pool, "p", ["gcc", "-O1", "-g", "-fsanitize=address", "-fPIE", "-w"]), "-Wl,--no-whole-archive"]


def build_exe(hsrc, pool):
    pf, rf = engine(pool)
    plug = pf.result()
    extra = gen_instr(hsrc, pool, plug)
    objs = [lambda: compile_instr(plug, f"{V}/harness/{hsrc}.cpp"), lambda: compile_instr(plug, V + "/engine/main.cpp")]
    if hsrc in THREADED:
        objs.append(lambda: compile_bare(V + "/engine/sched.cpp"))

    def link(hs, os_):
        rt = rf.result()
        key = "exe" + " ".join(hs + extra + os_ + [rt])

        def mk(t):
            lib = t + ".a"
            r = sh(["ar", "rcs", lib] + os_)
            r = sh(["g++"] + hs + extra + [lib, rt, "-Wl,--allow-multiple-definition", "-pthread", "-ldl", "-o", t] + wraps(hsrc))
            os.unlink(lib)
            if r.returncode:
                raise RuntimeError("link failed\n" + r.stdout[-3000:])
        return cached(key, mk, ".exe")
    return archive(objs, "i", hsrc, pool, lambda s: compile_instr(plug, s, hsrc), link)


def build_replay(hsrc, pool, san="address"):
    extra = gen_plain(hsrc, pool)
    objs = [lambda: compile_plain(f"{V}/harness/{hsrc}.cpp", ("-DVP_REPLAY",), san),
            lambda: compile_bare(V + "/engine/replay.cpp") if san == "thread" else compile_plain(V + "/engine/replay.cpp")]
    if hsrc in THREADED:
        objs.append(lambda: compile_bare(V + "/engine/sched.cpp"))
        objs.append(lambda: compile_plain(V + "/engine/touch.cpp", (), san))

    def link(hs, os_):
        key = "rexe" + san + " ".join(hs + extra + os_)

        def mk(t):
            lib = t + ".a"
            sh(["ar", "rcs", lib] + os_)
            r = sh([LLVM + "/bin/clang++", "-fsanitize=" + san] + hs + extra + [lib, "-Wl,--allow-multiple-definition", "-pthread", "-ldl", "-o", t] + wraps(hsrc))
            os.unlink(lib)
            if r.returncode:
                raise RuntimeError("link failed\n" + r.stdout[-3000:])
        return cached(key, mk, ".exe")
    return archive(objs, "p", hsrc, pool, lambda s: compile_plain(s, (), san), link)


def run_replay(exe, f):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    d = scratch()
    try:
        r = subprocess.run([exe, f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=d, timeout=200)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        return -14, "replay: no end"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sanitizer(msg):
    return "thread" if msg.startswith("data race") else "address"


def scratch():
    import tempfile
    return tempfile.mkdtemp(prefix="vp-")


def run_harness(exe, h, params, budget, opts, outdir):
    out = f"{outdir}/{h}.json"
    cmd = [exe, "--harness", h, "--out", out, "--vdir", outdir, "--budget", str(budget), "--jobs", str(NJ)]
    for k, v in params.items():
        cmd += ["--set", f"{k}={v}"]
    cmd += opts
    d = scratch()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r.returncode not in (0, 1, 3) or not os.path.exists(out):
        raise RuntimeError(f"engine failed on {h}: rc={r.returncode} {r.stdout[-2000:]}")
    return json.load(open(out))


def hsrc_of(h):
    for s, hs in SOURCES.items():
        if h in hs:
            return s
    raise KeyError(h)


def known_findings():
    p = V + "/known_findings.txt"
    res = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: id=(\S+) property=(\S+) (.*)", l.strip())
            if m:
                res[m.group(1)] = (m.group(2), m.group(3))
    return res


def check(pid, tier):
    global GRAPHS
    t0 = time.time()
    if tier == "thorough":
        GRAPHS = 600
    C = CHECKS[pid]
    outdir = f"{V}/replays/{pid}"
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": C.get("level", "model_checking"),
          "coverage": {}, "assumptions": C.get("assumptions", []), "wall_s": 0, "violations": 0}
    viol, unconf, runs, kn = [], [], [], {}
    kf = known_findings()
    build_s = 0
    with cf.ThreadPoolExecutor(NJ) as pool:
        exes = {}
        for H in C["harnesses"]:
            if tier == "quick" and H.get("thorough_only"):
                continue
            src = hsrc_of(H["h"])
            b0 = time.time()
            if src not in exes:
                try:
                    with cf.ThreadPoolExecutor(4) as outer:
                        exes[src] = outer.submit(build_exe, src, pool).result()
                except Broken as e:
                    f = f"{outdir}/{H['h']}.broken.replay"
                    with open(f, "w") as o:
                        o.write(f"harness {H['h']}\nparams\nmessage the generated code is not usable\nvalues\n{e}\n")
                    viol.append((f, H["h"], str(e)[:600], "native build"))
                    continue
            build_s += time.time() - b0
            params = dict(H.get("params", {}))
            params.update(H.get(tier, {}))
            budget = H.get("tb", 1500) if tier == "thorough" else H.get("qb", 60)
            r = run_harness(exes[src], H["h"], params, budget, H.get("opts", []), outdir)
            runs.append(r)
            need = [x for x in H.get("reach", []) if x not in r["reached"]]
            if r["violations"]:
                rex = {}
                for f in r["violation_files"]:
                    msg = re.search(r"^message (.*)$", open(f).read(), re.M)
                    msg = msg.group(1) if msg else ""
                    san = sanitizer(msg)
                    if san not in rex:
                        with cf.ThreadPoolExecutor(4) as outer:
                            rex[san] = outer.submit(build_replay, src, pool, san).result()
                    rc, err = run_replay(rex[san], f)
                    tail = " | ".join(l for l in err.strip().splitlines() if "replay:" in l or "ERROR" in l)[-300:]
                    (viol if rc else unconf).append((f, H["h"], msg, tail))
            elif need and not r["incomplete"] and not r["known_paths"]:
                # the exploration is complete: what the property says can happen cannot
                f = f"{outdir}/{H['h']}.unreachable.replay"
                with open(f, "w") as o:
                    o.write(f"harness {H['h']}\nparams {r['params']}\nmessage never reached on any path: {', '.join(need)}\nvalues\n")
                if H.get("must", False):
                    viol.append((f, H["h"], "cannot happen on any path: " + ", ".join(need), "exhaustive exploration"))
                else:
                    print(f"vacuous: harness {H['h']} never reaches {need}", flush=True)
                    if r["completed"] == 0:
                        die("vacuous harness " + H["h"])
            for k, n in r["known"].items():
                kn[k] = kn.get(k, 0) + n
            inc = (" incomplete: " + "; ".join(f"{k} x{v}" for k, v in r["incomplete"].items())) if r["incomplete"] else ""
            print(f"{pid} {H['h']} [{r['params']}]: {r['paths']} paths, {r['queries']} queries ({r['solver_s']:.1f} s solver), "
                  f"{r['asserts_solver']} assertions by solver, {r['asserts_concrete']} decided on the path, wall {r['wall_s']:.1f} s{inc}", flush=True)
    for k in sorted(kn):
        if k in kf and kf[k][0] == pid:
            print(f"KNOWN-FINDING: property={pid} {kf[k][1]}", flush=True)
        else:
            print(f"unlisted finding {k}", flush=True)
            viol.append((outdir, k, "finding not listed in known_findings.txt: " + k, ""))
    S = lambda k: sum(r[k] for r in runs)  # noqa: E731
    fn = sorted({re.sub(r"\(.*", "", f) for r in runs for f in r["functions"] if not f.startswith(("harness_", "std::", "__gnu", "void std::", "bool std::"))})
    inc = sorted({k for r in runs for k in r["incomplete"]})
    ev["coverage"] = {
        "states": S("paths"), "transitions": S("decisions"), "traces_validated_against_impl": S("completed") + S("cut"),
        "samples": [f"{r['harness']}: {s[:300]}" for r in runs for s in r["samples"][:3]],
        "exhaustive": not inc and not any(r["cut"] for r in runs),
        "explanation": "states = explored paths, each the class of all inputs satisfying one path condition; transitions = branches on symbolic data; every path is run natively on a solver-made input",
        "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "solver_s": round(S("solver_s"), 2),
        "assertions": S("asserts"), "assertions_discharged_by_solver": S("asserts_solver"), "assertions_decided_by_path_condition": S("asserts_concrete"),
        "incomplete": inc, "bounds": C.get("bounds", ""), "stubs": C.get("stubs", ""),
        "harnesses": [{"name": r["harness"], "params": r["params"], "paths": r["paths"], "cut": r["cut"], "assumed_away": r["assumed_away"], "queries": r["queries"], "solver_s": r["solver_s"],
                       "max_query_s": r["max_query_s"], "wall_s": r["wall_s"], "max_vars": r["max_vars"], "reached": r["reached"], "incomplete": r["incomplete"], "known": r["known"]} for r in runs],
        "functions_encoded": fn, "build_s": round(build_s, 1),
    }
    if ev["level"] == "translation_validation":
        ev["coverage"]["programs"] = S("completed")
        ev["coverage"]["disagreements_checked"] = S("asserts")
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(viol)
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for f, h, m, t in unconf:
        print(f"unconfirmed counterexample (does not reproduce in the ordinary build): {h}: {m} ({f})", flush=True)
    prune()
    if viol:
        for f, h, m, t in viol:
            print(f"  {h}: {m}  [{t}]", flush=True)
        print(f"VIOLATION property={pid} replay={viol[0][0]}", flush=True)
        return 1
    print(f"{pid}: no violation ({ev['wall_s']:.0f} s)", flush=True)
    return 0


def setup():
    with cf.ThreadPoolExecutor(NJ) as pool:
        pf, rf = engine(pool)
        plug = pf.result()
        jobs = [pool.submit(compile_instr, plug, s) for s in repo_sources()]
        jobs += [pool.submit(compile_instr, plug, V + f"/harness/{s}.cpp") for s in SOURCES]
        for j in jobs:
            j.result()
        rf.result()
    with cf.ThreadPoolExecutor(NJ) as pool:
        for s in SOURCES:
            build_exe(s, pool)
    print("setup done")


def update_deps():
    """development: record which sources each harness needs"""
    d = {}
    with cf.ThreadPoolExecutor(NJ) as pool:
        pf, rf = engine(pool)
        plug, rt = pf.result(), rf.result()
        al = repo_sources()
        plain = list(pool.map(lambda s: compile_instr(plug, s), al))
        for s in list(SOURCES) + ["gen_codegen"]:
            os_ = [compile_instr(plug, x, s) for x in al] if s == "h_dot" else plain
            hs = [compile_instr(plug, f"{V}/harness/{s}.cpp")]
            if s != "gen_codegen":
                hs.append(compile_instr(plug, V + "/engine/main.cpp"))
            hs += gen_instr(s, pool, plug)
            if s in THREADED:
                hs.append(compile_bare(V + "/engine/sched.cpp"))
            lib = B + "/deps.a"
            if os.path.exists(lib):
                os.unlink(lib)
            sh(["ar", "rcs", lib] + os_)
            r = sh(["g++"] + hs + [lib, rt, "-Wl,--allow-multiple-definition", "-Wl,-Map=" + B + "/deps.map", "-pthread", "-ldl", "-o", B + "/deps.exe"] + wraps(s))
            if r.returncode:
                die(s + " " + r.stdout[-2000:])
            mp = open(B + "/deps.map").read().split("Discarded input sections")[0]
            got = [os.path.relpath(al[i], R) for i, o in enumerate(os_) if "(" + os.path.basename(o) + ")" in mp]
            d[s] = sorted(got)
            print(s, len(got))
    with open(V + "/harness/deps.json", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(B, exist_ok=True)
    try:
        if a[0] == "setup":
            setup()
            return 0
        if a[0] == "deps":
            update_deps()
            return 0
        if a[0] == "replay":
            txt = open(a[1]).read()
            h = re.search(r"^harness (\S+)", txt, re.M).group(1)
            msg = re.search(r"^message (.*)$", txt, re.M)
            with cf.ThreadPoolExecutor(NJ) as pool:
                exe = build_replay(hsrc_of(h), pool, sanitizer(msg.group(1) if msg else ""))
            rc, err = run_replay(exe, a[1])
            print(err)
            return 1 if rc else 0
        if a[0] == "run":
            with cf.ThreadPoolExecutor(NJ) as pool:
                exe = build_exe(a[1], pool)
            if len(a) == 2:
                return 0
            opts = []
            os.makedirs("/tmp/vprun", exist_ok=True)
            for x in a[3:]:
                opts += ["--set", x] if "=" in x and not x.startswith("-") else [x]
            if "--budget" not in opts:
                opts += ["--budget", "120"]
            r = subprocess.run([exe, "--harness", a[2], "--vdir", "/tmp/vprun", "--out", "/tmp/vprun/out.json"] + opts, cwd="/tmp/vprun")
            o = json.load(open("/tmp/vprun/out.json"))
            for k in ("paths", "completed", "assumed_away", "cut", "queries", "sat", "unsat", "solver_s", "max_query_s", "wall_s", "max_decisions", "max_vars", "enumerations", "asserts_solver", "asserts_concrete", "reached", "incomplete", "known", "notes", "samples"):
                print(k, ":", o[k] if k != "samples" else "\n   " + "\n   ".join(s[:400] for s in o[k][:5]))
            if "-f" in os.environ.get("VPF", ""):
                print("\n".join(o["functions"]))
            for f in o["violation_files"][:3]:
                print(open(f).read()[:1500])
            return r.returncode
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[0], tier)
    except Broken as e:
        print(e)
        return 1
    except RuntimeError as e:
        die(str(e))


if __name__ == "__main__":
    sys.exit(main())
