#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]

Decides one property of properties.jsonl on /repo's current working tree:
compiles the property's harnesses against /repo/include to LLVM IR, executes
them symbolically (engine/), replays every counterexample natively, and writes
evidence/PROPERTY.json.  Exit 0: held within the bounds; 1: VIOLATION line(s).
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BITLIB_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CLANG = "/usr/bin/clang++-18"
sys.path.insert(0, os.path.join(HERE, "checks"))
import table

NCPU = os.cpu_count() or 4

def run(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    with live_lock: live.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        kill(p); p.communicate()
        return -99, "timeout"
    finally:
        with live_lock: live.discard(p)

live, live_lock, stopping = set(), threading.Lock(), threading.Event()
def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
def kill_all():
    with live_lock:
        for p in list(live): kill(p)

def build_engine():
    out = os.path.join(BUILD, "engine")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o = run(["make", "-s", "-C", os.path.join(HERE, "engine"), "OUT=" + out, "-j8"])
        if rc: sys.exit("engine build failed:\n" + o)
    return os.path.join(out, "vse")

def solver_env(tmp):
    """Prefer the newer libz3 of the Python tooling; the system one otherwise."""
    env = dict(os.environ)
    lib = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"
    if os.path.exists(lib) and not os.environ.get("VERIF_SYSTEM_Z3"):
        d = os.path.join(tmp, "z3lib"); os.makedirs(d, exist_ok=True)
        os.symlink(lib, os.path.join(d, "libz3.so.4"))
        env["LD_LIBRARY_PATH"] = d
        return env, "libz3 (python tooling)"
    return env, "libz3 (system)"

def overlay(tmp):
    """/repo/include for the C++17 builds.  clang's C++17 mode rejects the two
    constexpr functions returning std::string (gcc accepts them): the copy drops
    that constexpr and nothing else."""
    inc17 = os.path.join(tmp, "inc17"); inc20 = os.path.join(REPO, "include")
    shutil.copytree(inc20, inc17)
    n = 0
    for root, _, files in os.walk(inc17):
        for f in files:
            p = os.path.join(root, f)
            s = open(p, encoding="utf-8", errors="surrogateescape").read()
            t, k = re.subn(r"\bconstexpr(\s+)((?:::)?std::string\b)", r"\1\2", s)
            if k: open(p, "w", encoding="utf-8", errors="surrogateescape").write(t); n += k
    return inc17, inc20, n

class Job:
    """One harness entry under one configuration."""
    def __init__(self, d, tier):
        self.src = d["src"]; self.entry = d["entry"]; self.std = d.get("std", "17")
        self.word = d.get("word", 8); self.defs = list(d.get("defs", []))
        self.flags = list(d.get("flags", []))
        self.params = dict(d.get("params", {}))
        self.summary = list(d.get("summary", []))
        self.shards = d.get("shards", 1)
        self.optional = d.get("optional", False)
        self.timeout = d.get("timeout", 60 if tier == "quick" else 300)
        self.maxtime = d.get("maxtime", 400 if tier == "quick" else 2400)
        self.covers = d.get("covers", True)
        self.native = d.get("native", True)
        self.bounds = d.get("bounds", "")
    def variant(self):
        return (self.src, self.std, self.word, tuple(self.defs), tuple(self.flags))
    def cflags(self):
        return ["-std=c++" + self.std, "-DWORD=uint%d_t" % self.word] + ["-D" + x for x in self.defs] + self.flags
    def name(self):
        return "%s u%d c++%s%s%s" % (self.entry, self.word, self.std, "".join(" " + x for x in self.defs + self.flags),
                                   "".join(" %s=%s" % kv for kv in sorted(self.params.items())))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--build", action="store_true", help="only build the engine")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--strict", action="store_true", help="exit 3 when anything is undecided, unsupported or vacuous")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.build: build_engine(); return 0
    prop = table.PROPS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    vse = build_engine()
    tmp = os.path.join(BUILD, "work", "%s-%s-%d" % (a.prop, tier, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    replays = os.path.join(BUILD, "replay"); os.makedirs(replays, exist_ok=True)
    env, solver = solver_env(tmp)
    inc17, inc20, nconst = overlay(tmp)
    incof = lambda std: inc17 if std == "17" else inc20
    jobs = [Job(d, tier) for d in prop["jobs"](tier)]
    if a.only: jobs = [j for j in jobs if re.search(a.only, j.name())]
    variants = {}
    for j in jobs: variants.setdefault(j.variant(), []).append(j)
    bcs, notes, results = {}, [], []
    deadline = t0 + prop.get("deadline", {}).get(tier, 720 if tier == "quick" else 7200)

    def compile_bc(v):
        out = os.path.join(tmp, hashlib.sha1(repr(v).encode()).hexdigest()[:12] + ".bc")
        j = variants[v][0]
        rc, o = run([os.path.join(HERE, "lib", "mk.sh"), incof(j.std), os.path.join(HERE, "harness", j.src), out] + j.cflags(), timeout=300)
        return v, (out if rc == 0 else None), o

    def compile_native(v, tag, opts):
        j = variants[v][0]
        exe = os.path.join(tmp, hashlib.sha1(repr((v, j.entry if False else "")).encode()).hexdigest()[:12])
        return exe

    nat_lock = threading.Lock(); nat_cache = {}
    def native(j, opts):
        key = (j.variant(), j.entry, tuple(opts))
        with nat_lock:
            ev = nat_cache.get(key)
            mine = ev is None
            if mine: ev = nat_cache[key] = dict(done=threading.Event(), exe=None, log="")
        if not mine:
            ev["done"].wait(); return ev["exe"], ev["log"]
        exe = os.path.join(tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:12] + ".exe")
        rc, o = run([CLANG, "-w", "-g1", "-I" + incof(j.std), "-I" + os.path.join(HERE, "harness"), "-DVH_NATIVE", "-DENTRY=" + j.entry]
                    + j.cflags() + opts + [os.path.join(HERE, "harness", j.src), os.path.join(HERE, "lib", "replay.cpp"), "-o", exe] , timeout=300)
        ev["exe"], ev["log"] = (exe if rc == 0 else None), o
        ev["done"].set()
        return ev["exe"], o

    def write_case(f, j, inputs):
        f.write("case\n")
        for k, v in j.params.items(): f.write("param %s %d\n" % (k, v))
        for k, v in inputs: f.write("in %s %s\n" % (k, v))
        f.write("run\n")

    def engine_job(j, i):
        if stopping.is_set(): return None
        left = deadline - time.time()
        if left < 5: return dict(job=j, shard=i, rc=-99, r=None, log="no time left")
        out = os.path.join(tmp, hashlib.sha1((j.name() + str(i)).encode()).hexdigest()[:14] + ".json")
        cmd = [vse, bcs[j.variant()], "--entry", j.entry, "--out", out, "--shard", "%d/%d" % (i, j.shards), "--timeout", str(j.timeout),
               "--maxtime", str(min(j.maxtime, left)), "--seed", str(seed * 1000 + i), "--traces", "4"]
        for k, v in j.params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        for k in j.summary: cmd += ["--summary", k]
        rc, o = run(cmd, timeout=max(5, min(j.maxtime, left)) + j.timeout + 30, env=env)
        r = None
        if rc in (0, 1, 2):
            try: r = json.load(open(out))
            except Exception as ex: o += repr(ex)
        return dict(job=j, shard=i, rc=rc, r=r, log=o)

    confirmed, unconfirmed = [], []
    def replay(j, vio):
        """Run the counterexample against the real code, natively."""
        sig = hashlib.sha1((j.name() + json.dumps(vio["inputs"])).encode()).hexdigest()[:10]
        path = os.path.join(replays, "%s-%s.txt" % (a.prop, sig))
        with open(path, "w") as f:
            f.write("# property %s: %s\n# harness %s (%s)\n# flags %s\n# %s: %s\n# at %s\n" % (a.prop, prop["title"], j.src, j.name(), " ".join(j.cflags()), vio["kind"], vio["msg"], vio["where"]))
            f.write("# reproduce: python3 /verif/lib/replay.py %s\n" % path)
            f.write("#entry %s\n#src %s\n#std %s\n#flags %s\n" % (j.entry, j.src, j.std, " ".join(j.cflags())))
            write_case(f, j, vio["inputs"])
        for opts in (["-O0", "-fsanitize=address"], ["-O2"], ["-O0"], ["-O2", "-fsanitize=address"]):
            exe, log = native(j, opts)
            if not exe: continue
            for fill in ("165", "0", "255"):
                rc, o = run([exe, path, fill], timeout=90, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
                if rc != 0 and "assume-failed" not in o:
                    head = [l for l in o.splitlines() if l.startswith("ASSERT-FAILED") or "ERROR:" in l or "Assertion" in l][:2]
                    return path, "%s fill=%s: exit %d %s" % (" ".join(opts), fill, rc, "; ".join(head))
        return path, None

    validated, mismatches = [0], []
    def validate(j, traces):
        """The same inputs through the encoding and through compiled code."""
        if not j.native or not traces: return
        exe, log = native(j, ["-O1"])
        if not exe: notes.append("native build failed for %s: %s" % (j.name(), log[-300:])); return
        path = os.path.join(tmp, hashlib.sha1(("tv" + j.name() + str(time.time()) + str(id(traces))).encode()).hexdigest()[:14] + ".txt")
        with open(path, "w") as f:
            for t in traces: write_case(f, j, t["inputs"])
        rc, o = run([exe, path], timeout=90)
        got = []
        for l in o.splitlines():
            if l == "case": got.append([[], False, False])
            elif l.startswith("obs ") and got: got[-1][0].append(l[4:])
            elif l == "threw" and got: got[-1][1] = True
            elif got: got[-1][2] = True
        for k, t in enumerate(traces):
            if k < len(got) and got[k][0] == t["obs"] and got[k][1] == t["threw"] and not got[k][2]: validated[0] += 1
            else: mismatches.append("%s inputs %s: encoding %s, native %s" % (j.name(), t["inputs"], t["obs"], got[k] if k < len(got) else "no output, exit %d" % rc))

    sem_done = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for v, out, log in ex.map(compile_bc, list(variants)):
            bcs[v] = out
            if not out:
                first = [l for l in log.splitlines() if "error" in l][:2]
                notes.append("does not compile: %s (%s)" % (v, "; ".join(first) or log[-300:]))
        futs = {}
        seenvio = set()
        order = [(j, i) for j in jobs if bcs[j.variant()] for i in range(j.shards)]
        order.sort(key=lambda ji: -ji[0].word * (1 + ji[0].shards))
        pend = {ex.submit(engine_job, j, i) for j, i in order}
        while pend:
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if r is None: continue
                if r == "aux": continue
                if isinstance(r, tuple):
                    j, vio, path, how = r
                    (confirmed if how else unconfirmed).append((j, vio, path, how))
                    if how and not known(a.prop, j, vio):
                        stopping.set(); kill_all()
                    continue
                results.append(r)
                if stopping.is_set(): continue
                if r["r"] is None: continue
                if a.v: print("%-60s shard %d: %s paths=%d asserts=%d q=%d %.1fs" % (r["job"].name(), r["shard"], ("ok", "VIOL", "INCONCLUSIVE")[r["rc"]], r["r"]["paths"], r["r"]["asserts"], r["r"]["queries"], r["r"]["wall_s"]), flush=True)
                for vio in r["r"]["violations"]:
                    key = (r["job"].name(), vio["msg"])
                    if key in seenvio: continue
                    seenvio.add(key)
                    pend.add(ex.submit(lambda j=r["job"], vio=vio: (j, vio) + replay(j, vio)))
                pend.add(ex.submit(lambda j=r["job"], t=r["r"]["traces"]: validate(j, t) or "aux"))

    # ---- verdict -------------------------------------------------------------
    newv = []
    for j, vio, path, how in confirmed:
        k = known(a.prop, j, vio)
        if k: print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
        else: newv.append((j, vio, path, how))
    tot = lambda k: sum(r["r"].get(k, 0) for r in results if r["r"])
    incon = []
    for r in results:
        if r["r"] is None:
            if not stopping.is_set(): incon.append("%s shard %d: %s" % (r["job"].name(), r["shard"], r["log"][-200:]))
            continue
        for x in r["r"]["undecided"]: incon.append("%s: undecided: %s" % (r["job"].name(), x))
        for x in r["r"]["unsupported"]: incon.append("%s: not encoded: %s" % (r["job"].name(), x))
    incon += notes
    for j, vio, path, how in unconfirmed:
        incon.append("solver counterexample that does not reproduce natively: %s: %s at %s (%s)" % (j.name(), vio["msg"], vio["where"], path))
    vac = []
    cov = {}
    for r in results:
        if r["r"] and r["job"].covers:
            for m, hit in r["r"]["covers"].items():
                k = (r["job"].entry, m); cov[k] = cov.get(k, False) or hit
    if not stopping.is_set():
        vac = ["%s: '%s' never reached" % k for k, v in cov.items() if not v]
        if not a.only and (tot("paths") == 0 or tot("asserts") == 0): vac.append("no path or assertion reached")
    fns = sorted({f for r in results if r["r"] for f in r["r"]["functions"] if f.startswith(("bit::", "constexpr bit::")) or "bit::" in f or "popcnt" in f})
    def plain(f):                       # name of a function from its demangled signature
        depth, out = 0, ""
        f = re.sub(r"operator(<=>|<<=?|>>=?|<=?|>=?|->|\(\))", lambda m: "operator" + m.group(1).replace("<", "\1").replace(">", "\2").replace("(", "\3").replace(")", "\4"), f)
        for ch in f:
            if ch in "<": depth += 1
            elif ch == ">": depth -= 1
            elif depth == 0: out += ch
        out = out.split("(")[0].strip().split(" ")[-1]
        return out.replace("\1", "<").replace("\2", ">").replace("\3", "(").replace("\4", ")")
    short = sorted({n for n in map(plain, fns) if n.startswith("bit::") or "popc" in n or "CSA" in n})
    samples = []
    for r in results:
        if r["r"] and r["r"]["traces"] and len(samples) < 6:
            t = r["r"]["traces"][0]
            samples.append({"harness": r["job"].name(), "path_witness": {k: v for k, v in t["inputs"][:24]}, "observed": t["obs"][:12]})
    for j, vio, path, how in (confirmed + unconfirmed)[:4]:
        samples.append({"harness": j.name(), "counterexample": vio["msg"], "inputs": {k: v for k, v in vio["inputs"][:40]}, "replay": how or "not reproduced"})
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("steps"),
            "traces_validated_against_impl": validated[0],
            "samples": samples or ["none: no path completed"],
            "paths": tot("paths"), "exception_paths": tot("throw_paths"),
            "assertions": tot("asserts"), "assertions_proved_by_solver": tot("proved_by_solver"), "assertions_proved_by_simplifier": tot("proved_by_simplifier"),
            "memory_accesses_checked": tot("mem_checks"),
            "solver": solver, "solver_queries": tot("queries"), "solver_unsat": tot("unsat"), "solver_sat": tot("sat"), "solver_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2), "slowest_query_s": max([r["r"]["max_query_s"] for r in results if r["r"]] or [0]),
            "bounds": prop["bounds"](tier) if callable(prop["bounds"]) else prop["bounds"],
            "configurations": sorted({j.name() for j in jobs}),
            "functions_encoded": short, "function_instances_encoded": len(fns), "basic_blocks_of_library_code_executed": tot("blocks"),
            "reachability_witnesses": {"%s: %s" % k: v for k, v in sorted(cov.items())},
            "inconclusive": incon[:40], "vacuity": vac, "encoding_vs_native_mismatches": mismatches[:10],
            "overlay_edits": nconst,
        },
        "assumptions": prop.get("assumptions", []) + table.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(newv),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for x in incon[:12]: print("inconclusive:", x[:600])
    for x in mismatches[:6]: print("mismatch:", x[:600])
    for x in vac: print("vacuous:", x)
    c = ev["coverage"]
    print("%s %s: paths=%d assertions=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (a.prop, tier, c["paths"], c["assertions"], c["solver_queries"], c["solver_seconds"], validated[0], ev["wall_s"]))
    for j, vio, path, how in newv:
        print("  %s: %s\n    at %s\n    inputs %s\n    native: %s" % (j.name(), vio["msg"], vio["where"][:300], " ".join("%s=%s" % tuple(kv) for kv in vio["inputs"][:40]), how))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    sys.stdout.flush()
    if newv: return 1
    if bcs and not any(bcs.values()): return 2
    if a.strict and (incon or mismatches or vac): return 3
    return 0

KNOWN = None
def known(prop, j, vio):
    """known_findings.txt: `finding: property=ID entry=RE msg=RE where=RE :: text`; `fixed:` lines suppress nothing."""
    global KNOWN
    if KNOWN is None:
        KNOWN = []
        p = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) entry=(\S+) inputs=(\S+) msg=(.*?) :: (.*)", l)
                if m: KNOWN.append(m.groups())
    for pr, en, inp, msg, text in KNOWN:
        if pr == prop and re.fullmatch(en, j.entry) and re.search(msg, vio["msg"]) and re.search(inp, ",".join("%s=%s" % tuple(x) for x in vio["inputs"])): return text
    return None

if __name__ == "__main__":
    rc = main()
    kill_all()
    sys.exit(rc)
