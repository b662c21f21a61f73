#!/usr/bin/env python3
"""Runs the checks. Usage: check.py ID [--tier quick|thorough] [--only ENTRY] [-v]; check.py --setup; check.py --replay FILE"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, threading, time, shutil, signal

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IRSYM_REPO", "/repo")
B = os.environ.get("IRSYM_BUILD", os.path.join(V, "build"))
EV = os.path.join(V, "evidence")
NPROC = int(os.environ.get("IRSYM_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VERBOSE = "-v" in sys.argv

class Err(Exception):
    pass

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)

def fhash(path, memo={}):
    if path not in memo:
        try:
            with open(path, "rb") as f:
                memo[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            memo[path] = "-"
    return memo[path]

# ---------------------------------------------------------------- building
COMMON = ["-std=c++20", "-DARCHON_DEBUG=1", "-D_GLIBCXX_ASSERTIONS", "-fconstexpr-steps=100000000", "-Wno-everything"]
IRFLAGS = ["-O1", "-S", "-emit-llvm", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-discard-value-names", "-fno-math-errno", "-ffp-contract=off",
           "-mllvm", "-phi-node-folding-threshold=6", "-mllvm", "-two-entry-phi-node-folding-threshold=12"]
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,array-bounds,float-cast-overflow", "-fsanitize-trap=all", "-fsanitize-ignorelist=" + os.path.join(V, "harness", "ubsan-ignore.txt")]
NATFLAGS = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fsanitize-ignorelist=" + os.path.join(V, "harness", "ubsan-ignore.txt"), "-fno-math-errno", "-ffp-contract=off"]

def incs():
    return ["-I", os.path.join(B, "gen"), "-I", os.path.join(REPO, "src"), "-I", os.path.join(V, "harness")]

def gen_config():
    for t in glob.glob(os.path.join(REPO, "src/archon/*/impl/config.h.in")):
        rel = os.path.relpath(t, os.path.join(REPO, "src"))[:-3]
        s = open(t).read()
        rep = {"ARCHON_SOURCE_FROM_BUILD_PATH": "../../src", "Archon_VERSION_MAJOR": "0", "Archon_VERSION_MINOR": "1"}
        s = re.sub(r"@(\w+)@", lambda m: rep.get(m.group(1), "0"), s)
        o = os.path.join(B, "gen", rel)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        if not os.path.exists(o) or open(o).read() != s:
            tmp = o + ".%d" % os.getpid()
            open(tmp, "w").write(s)
            os.replace(tmp, o)

def compile_cached(src, out, flags, timeout=600):
    """compiles src -> out unless nothing it depends on has changed"""
    meta = out + ".meta"
    cmd = ["clang++"] + flags + ["-c" if not out.endswith(".ll") else "-S", src, "-o", out + ".tmp", "-MD", "-MF", out + ".d"]
    if os.path.exists(meta) and os.path.exists(out):
        try:
            m = json.load(open(meta))
            if m["cmd"] == cmd and all(fhash(p) == h for p, h in m["deps"].items()):
                return out
        except Exception:
            pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = sh(cmd, timeout=timeout)
    if r.returncode != 0:
        raise Err("compilation of %s failed:\n%s" % (src, r.stderr[:2500]))
    deps = re.sub(r"\\\n", " ", open(out + ".d").read()).split(":", 1)[1].split()
    deps = [d for d in deps if not d.startswith("/usr/")]
    os.replace(out + ".tmp", out)
    json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, open(meta, "w"))
    return out

def build_engine():
    eng = os.path.join(B, "engine", "irsym")
    h = hashlib.sha1("".join(fhash(p) for p in sorted(glob.glob(os.path.join(V, "engine", "*")))).encode()).hexdigest()
    st = os.path.join(B, "engine", "stamp")
    if os.path.exists(eng) and os.path.exists(st) and open(st).read() == h:
        return eng
    os.makedirs(os.path.join(B, "engine"), exist_ok=True)
    r = sh(["bash", os.path.join(V, "engine", "build.sh"), os.path.join(B, "engine")], timeout=900)
    if r.returncode != 0:
        raise Err("engine build failed:\n" + r.stderr[-4000:])
    open(st, "w").write(h)
    return eng

def tag(p):
    return re.sub(r"[^A-Za-z0-9]+", "_", p)

class Unit:
    """one harness source file"""
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.link, self.rt, self.flags, self.entries, self.bounds, self.assume, self.nolink = [], [], [], [], {}, [], []
        self.ubsan = True
        self.opt = None
        for line in open(path):
            m = re.match(r"\s*//@\s*(\w+)\s*(.*)", line)
            if not m:
                continue
            k, rest = m.group(1), m.group(2).strip()
            if k == "link":
                self.link += rest.split()
            elif k == "rt":
                self.rt += rest.split()
            elif k == "flags":
                self.flags += rest.split()
            elif k == "ubsan":
                self.ubsan = rest == "on"
            elif k == "opt":
                self.opt = rest
            elif k == "assume":
                self.assume.append(rest)
            elif k == "bound":
                n, t = rest.split(":", 1)
                self.bounds[n.strip()] = t.strip()
            elif k == "entry":
                parts = rest.split()
                e = {"name": parts[0], "covers": [], "params": {}, "split": {}, "time": (100, 600), "steps": 30000000, "tier": "quick", "qto": 60}
                for p in parts[1:]:
                    kk, vv = p.split("=", 1)
                    if kk == "covers":
                        e["covers"] = vv.split(",")
                    elif kk == "time":
                        a = vv.split("|")
                        e["time"] = (float(a[0]), float(a[-1]))
                    elif kk == "steps":
                        e["steps"] = int(vv)
                    elif kk == "qto":
                        e["qto"] = float(vv)
                    elif kk == "tier":
                        e["tier"] = vv
                    elif ".." in vv:
                        a = vv.split("|")
                        e["split"][kk] = (a[0], a[-1])
                    else:
                        a = vv.split("|")
                        e["params"][kk] = (int(a[0]), int(a[-1]))
                self.entries.append(e)
            else:
                raise Err("%s: bad directive %s" % (path, k))

    def build_bc(self):
        fl = COMMON + IRFLAGS + (UBSAN if self.ubsan else []) + self.flags + incs()
        if self.opt:
            fl = [("-" + self.opt if f == "-O1" else f) for f in fl]
        d = os.path.join(B, "ir")
        jobs = [(self.path, os.path.join(d, "h_" + self.name + ".ll"), fl)]
        key = hashlib.sha1(" ".join(COMMON + IRFLAGS + (UBSAN if self.ubsan else []) + self.flags).encode()).hexdigest()[:8]
        for l in self.link:
            jobs.append((os.path.join(REPO, "src", l), os.path.join(d, key, tag(l) + ".ll"), fl))
        for l in ["rt.cpp", "tree.cpp"] + self.rt:
            jobs.append((os.path.join(V, "rt", l), os.path.join(d, key, "rt_" + tag(l) + ".ll"), COMMON + IRFLAGS + ["-fno-access-control"] + incs()))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(lambda j: compile_cached(*j), jobs))
        out = os.path.join(d, self.name + ".bc")
        r = sh(["llvm-link-18", outs[0]] + outs[1:] + ["-o", out + ".tmp"], timeout=300)
        if r.returncode != 0:
            raise Err("llvm-link failed:\n" + r.stderr[-3000:])
        os.replace(out + ".tmp", out)
        self.bc = out
        return out

    def build_native(self):
        fl = COMMON + NATFLAGS + self.flags + incs() + ["-DIRSYM_NATIVE=1"]
        d = os.path.join(B, "nat")
        key = hashlib.sha1(" ".join(fl).encode()).hexdigest()[:8]
        jobs = [(self.path, os.path.join(d, "h_" + self.name + ".o"), fl), (os.path.join(V, "harness", "native.cpp"), os.path.join(d, "native.o"), COMMON + ["-O1"] + incs())]
        for l in self.link:
            jobs.append((os.path.join(REPO, "src", l), os.path.join(d, key, tag(l) + ".o"), fl))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(lambda j: compile_cached(*j), jobs))
        out = os.path.join(d, self.name)
        r = sh(["clang++", "-fsanitize=address,undefined"] + outs + ["-o", out + ".tmp", "-lpthread"], timeout=300)
        if r.returncode != 0:
            raise Err("native link failed:\n" + r.stderr[-3000:])
        os.replace(out + ".tmp", out)
        self.nat = out
        return out

def which(cands):
    for c in cands:
        if shutil.which(c):
            return c
    return cands[0]

# ---------------------------------------------------------------- running
def write_case(path, entry, params, inputs, extra=""):
    with open(path, "w") as f:
        f.write("# %s\n" % extra.replace("\n", " ")[:1500])
        f.write("entry h_%s\n" % entry)
        for k, v in params.items():
            f.write("param %s %d\n" % (k, v))
        for n, w, v in inputs:
            f.write("in %s %s\n" % (n, v))

def run_native(unit, case, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=64:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([unit.nat, case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", env=env)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

def classify(rc, out, err):
    if rc == "timeout":
        return "hang", "no termination within the time limit"
    if rc == 67:
        return "assume", ""
    if rc == 66:
        m = re.search(r"CHECK-FAILED: (.*)", out)
        return "check", m.group(1) if m else "?"
    if rc == 0:
        return "ok", ""
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion[^\n]*|terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?)", err)
    return "crash", (m.group(1) if m else "exit %s: %s" % (rc, err[-300:]))

def tasks_of(unit, tier, only):
    ti = 0 if tier == "quick" else 1
    res = []
    for e in unit.entries:
        if only and e["name"] != only:
            continue
        if e["tier"] == "thorough" and tier == "quick":
            continue
        combos = [dict((k, v[ti]) for k, v in e["params"].items())]
        for k, (a, b) in e["split"].items():
            lo, hi = (a if ti == 0 else b).split("..")
            combos = [dict(c, **{k: i}) for c in combos for i in range(int(lo), int(hi) + 1)]
        for c in combos:
            res.append((unit, e, c))
    return res

START = time.time()
def max_time(e, tier):
    # quick: room for a slower machine, within an overall deadline
    return e["time"][1] if tier != "quick" else max(20, min(3 * e["time"][0], 700 - (time.time() - START)))

def run_entry(eng, task, tier, rundir, extra=[]):
    unit, e, params = task
    ti = 0 if tier == "quick" else 1
    nm = e["name"] + "".join("_%s%d" % kv for kv in sorted(params.items()))
    out = os.path.join(rundir, unit.name + "." + nm + ".json")
    cmd = [eng, unit.bc, "--entry=h_" + e["name"], "--out=" + out, "--max-time=%g" % max_time(e, tier), "--max-steps=%d" % e["steps"], "--query-timeout=%g" % e["qto"], "--seed=%d" % SEED, "--samples=%d" % (4 if tier == "quick" else 16)]
    cmd += ["--param=%s=%d" % kv for kv in params.items()] + extra
    if VERBOSE:
        cmd.append("-v")
    t0 = time.time()
    try:
        r = sh(cmd, timeout=max_time(e, tier) + 240)
    except subprocess.TimeoutExpired:
        return task, nm, {"error": "engine did not finish in time"}
    if VERBOSE and r.stderr:
        sys.stderr.write("[%s] %s\n" % (nm, r.stderr[-3000:]))
    if r.returncode != 0 or not os.path.exists(out):
        return task, nm, {"error": "engine exit %s: %s" % (r.returncode, r.stderr[-1500:])}
    d = json.load(open(out))
    d["total_s"] = time.time() - t0
    return task, nm, d

def load_known():
    known = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) key=(.*?) :: (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known

def run_check(pid, tier, only=None):
    t0 = time.time()
    eng = build_engine()
    gen_config()
    rundir = os.path.join(B, "run", "%s.%d" % (pid, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    repdir = os.path.join(EV, "replay")
    os.makedirs(repdir, exist_ok=True)
    units = [Unit(p) for p in sorted(glob.glob(os.path.join(V, "harness", pid + "*.cpp")))]
    if not units:
        raise Err("no harness for " + pid)
    results, violations, errors, findings, inconcl = [], [], [], [], []
    validated = mismatches = 0
    ex = cf.ThreadPoolExecutor(NPROC)
    bex = cf.ThreadPoolExecutor(4)
    natf = {}
    bcf = {u.name: bex.submit(u.build_bc) for u in units}
    futs = []
    for u in units:
        bcf[u.name].result()
        natf[u.name] = bex.submit(u.build_native)
        for t in tasks_of(u, tier, only):
            futs.append(ex.submit(run_entry, eng, t, tier, rundir))
    t_build = time.time() - t0
    known = load_known()
    covers_hit = {}
    for f in cf.as_completed(futs):
        (unit, e, params), nm, d = f.result()
        if VERBOSE and "error" not in d:
            print("  %-40s paths=%d assumed=%d checks=%d queries=%d solver=%.1fs wall=%.1fs inconcl=%d stop=%s viol=%d rss=%dMB maxq=%.1f covers=%s" % (nm, d["paths"], d["assumed_away"], d["checks"], d["queries"], d["solver_s"], d["wall_s"], d["inconclusive"], d["stop"], len(d["violations"]), d["rss_mb"], d["max_query_s"], ",".join(d["covers"])), flush=True)
        results.append((unit, e, params, nm, d))
        if "error" in d:
            errors.append("%s/%s: %s" % (unit.name, nm, d["error"]))
            continue
        covers_hit.setdefault((unit.name, e["name"]), set()).update(d["covers"])
        nat = natf[unit.name].result()
        for i, v in enumerate(d["violations"]):
            case = os.path.join(repdir, "%s-%s-%d.txt" % (pid, nm, i))
            write_case(case, e["name"], params, v["inputs"], "%s | unit=%s | %s: %s | %s" % (pid, unit.name, v["kind"], v["msg"], v["where"]))
            kind, msg = classify(*run_native(unit, case))
            confirmed = kind in ("check", "crash", "hang")
            if v["kind"] == "nontermination":
                confirmed = kind == "hang" or confirmed
            key = v["msg"]
            if not confirmed:
                errors.append("%s/%s: counterexample not reproduced natively (%s): %s: %s at %s [case %s]" % (unit.name, nm, kind, v["kind"], v["msg"], v["where"], case))
                continue
            kf = [k for k in known if k[0] == pid and k[1] == e["name"] and k[2] == key]
            if kf:
                findings.append((kf[0], case))
            else:
                violations.append((case, "%s: %s: %s (native: %s %s) at %s" % (nm, v["kind"], v["msg"], kind, msg, v["where"])))
        if d["inconclusive"] and not d["violations"]:
            inconcl.append("%s/%s: inconclusive: %s %s" % (unit.name, nm, d["stop"], "; ".join(d["inconclusive_notes"])))
        if d["violations"]:
            continue
        # sampled paths, replayed against the real code
        for i, s in enumerate(d["samples"]):
            case = os.path.join(rundir, "s-%s-%s-%d.txt" % (unit.name, nm, i))
            write_case(case, e["name"], params, s["inputs"])
            rc, out, err = run_native(unit, case)
            kind, msg = classify(rc, out, err)
            obs = [(a, int(b, 16)) for a, b in re.findall(r"^OBS (.*) ([0-9a-f]+)$", out, re.M)]
            want = [(a, int(b, 16)) for a, b in s["obs"]]
            if kind == "ok" and obs == want:
                validated += 1
            elif kind in ("check", "crash") :
                keep = os.path.join(repdir, "%s-%s-s%d.txt" % (pid, nm, i))
                shutil.copy(case, keep)
                violations.append((keep, "%s: sampled path fails natively: %s %s" % (nm, kind, msg)))
            else:
                mismatches += 1
                errors.append("%s/%s: native replay of a sampled path differs (%s): native %s, engine %s" % (unit.name, nm, kind, obs[:8], want[:8]))
    incomplete = set((r[0].name, r[1]["name"]) for r in results if "error" in r[4] or r[4]["inconclusive"])
    for u in units:
        for e in u.entries:
            if (u.name, e["name"]) in covers_hit and not violations and (u.name, e["name"]) not in incomplete:
                miss = [c for c in e["covers"] if c not in covers_hit[(u.name, e["name"])]]
                if miss:
                    errors.append("%s/%s: vacuity: never reached %s" % (u.name, e["name"], ",".join(miss)))
    ok = [r for r in results if "error" not in r[4]]
    tot = lambda k: sum(r[4].get(k, 0) for r in ok)
    fns = sorted(set(f for r in ok for f in r[4]["functions"] if "archon::" in f))
    if not only:
        ev = {
            "property": pid, "tier": tier, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
                "samples": [{"entry": r[3], "inputs": s["inputs"][:24], "observed": s["obs"][:12]} for r in ok for s in r[4]["samples"][:1]][:12],
                "exhaustive": not errors and not inconcl,
                "paths_explored": tot("paths"), "paths_assumed_away": tot("assumed_away"), "forks": tot("forks"), "ir_instructions_executed": tot("instructions"),
                "assertions_evaluated": tot("checks"), "assertions_sent_to_solver": tot("check_queries"), "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"), "query_cache_hits": tot("cache_hits"), "solver_seconds": round(tot("solver_s"), 2),
                "harness_entries": [{"entry": r[3], "unit": r[0].name, "bound": r[0].bounds.get(r[1]["name"], ""), "params": r[2], "paths": r[4].get("paths"), "checks": r[4].get("checks"), "queries": r[4].get("queries"), "solver_s": round(r[4].get("solver_s", 0), 2), "stop": r[4].get("stop")} for r in ok],
                "functions_encoded": len(fns), "functions": [f[:160] for f in fns[:400]],
                "unreproduced_or_inconclusive": (errors + inconcl)[:20],
            },
            "assumptions": sorted(set(a for u in units for a in u.assume)) + ["LLVM IR produced by clang 18 at -O1 from the current tree is what is encoded; the real build uses gcc", "runtime pieces in /verif/rt stand in for the parts of libstdc++.so that have no bitcode"],
            "wall_s": round(time.time() - t0, 1), "violations": len(violations),
        }
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    shutil.rmtree(rundir, ignore_errors=True)
    for (p, en, key, desc), case in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    print("%s tier=%s entries=%d paths=%d assertions=%d queries=%d solver=%.1fs validated=%d build=%.1fs wall=%.1fs" % (pid, tier, len(results), tot("paths"), tot("checks"), tot("queries"), tot("solver_s"), validated, t_build, time.time() - t0))
    if violations:
        for case, msg in violations[:10]:
            print("  " + msg)
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][0]))
        return 1
    for e in inconcl[:20]:
        print("INCONCLUSIVE " + e)
    for e in errors[:20]:
        print("ERROR " + e)
    # what the budget did not reach is reported here and in the evidence; it is no answer only when it is most of the check
    if errors or 2 * len(inconcl) > len(results):
        return 2
    return 0

def replay(path):
    txt = open(path).read()
    m = re.search(r"unit=(\S+)", txt)
    u = Unit(os.path.join(V, "harness", m.group(1) + ".cpp"))
    gen_config()
    u.build_native()
    rc, out, err = run_native(u, path)
    print(out, err)
    print(classify(rc, out, err))

def setup():
    build_engine()
    gen_config()
    print("engine built")
    ids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    us = [Unit(p) for i in ids for p in sorted(glob.glob(os.path.join(V, "harness", i + "*.cpp")))]
    def one(u):
        try:
            u.build_bc()
            u.build_native()
        except Exception as e:
            print("setup: %s: %s" % (u.name, str(e)[-500:]))
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, us))

def main():
    a = [x for x in sys.argv[1:] if x != "-v"]
    if a[0] == "--setup":
        return setup()
    if a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--only" in a:
        only = a[a.index("--only") + 1]
    try:
        return run_check(pid, tier, only)
    except Err as e:
        print("ERROR", e)
        return 2

if __name__ == "__main__":
    sys.exit(main())
