#!/usr/bin/env python3
"""Driver:  run.py PROPERTY [quick|thorough]   (see ../DESIGN.md)

Builds everything from /repo's working tree, runs the property's instances
through the symbolic engine, replays every counterexample natively and writes
evidence/<PROPERTY>.json.  Exit 0 (held on everything explored) or 1 (VIOLATION)."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
T0 = time.time()
NJOBS = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 8)
CLANG, GCC = "clang-18", "gcc"
IRF = "-O1 -Xclang -disable-llvm-passes -emit-llvm -c -gline-tables-only -fno-builtin -w".split()
NATF = "-O1 -g -w".split()
ASANF = "-O1 -g -w -DASAN -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=shift-base,alignment,signed-integer-overflow -fno-omit-frame-pointer".split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def fail(msg):
    print("ERROR:", msg); sys.exit(2)

def engine_path():
    src = [os.path.join(VERIF, "engine", f) for f in ("engine.cpp", "poly.h", "Makefile")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    d = os.path.join(VERIF, "build"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "symx-" + h)
    if not os.path.exists(p):
        t = p + ".%d" % os.getpid()
        r = sh(["make", "-s", "-C", os.path.join(VERIF, "engine"), "OUT=" + t])
        if r.returncode or not os.path.exists(t): fail("engine build failed:\n" + r.stdout[-3000:])
        os.rename(t, p)
    return p

class Build:
    def __init__(self, harnesses, l2=None):
        self.dir = tempfile.mkdtemp(prefix="m4rie-check-"); self.harnesses = harnesses
        self.lock = threading.Lock(); self.asan_bin = None
        self.src = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c"))
        self.inc_sym = ["-I", VERIF + "/m4ri_model/include", "-I", VERIF + "/shim", "-I", REPO, "-I", REPO + "/src"]
        self.inc_nat = ["-I", VERIF + "/shim", "-I", REPO, "-I", REPO + "/src"]
        self.inc_h = ["-I", VERIF + "/harness"]
        if l2: # the same sources configured for a machine with a (very) small level 2 and 3 cache, so that recursion starts at small sizes
            os.makedirs(self.p("cfg", "m4ri")); open(self.p("cfg", "m4ri", "m4ri_config.h"), "w").write("#include_next <m4ri/m4ri_config.h>\n#undef __M4RI_CPU_L2_CACHE\n#define __M4RI_CPU_L2_CACHE %d\n#undef __M4RI_CPU_L3_CACHE\n#define __M4RI_CPU_L3_CACHE %d\n" % (l2, 16 * l2))
            self.inc_sym = ["-I", self.p("cfg")] + self.inc_sym; self.inc_nat = ["-I", self.p("cfg")] + self.inc_nat
    def p(self, *a): return os.path.join(self.dir, *a)
    def run(self, ex):
        """everything in parallel: engine, IR of library + model + harnesses, native objects"""
        jobs = []; bcs = []; hbc = {}; objs = []
        os.makedirs(self.p("nat")); os.makedirs(self.p("bc"))
        fe = ex.submit(engine_path)
        for f in self.src + [VERIF + "/m4ri_model/m4ri_model.c"]:
            o = self.p("bc", os.path.basename(f)[:-2] + ".bc"); bcs.append(o)
            jobs.append((f, ex.submit(sh, [CLANG] + IRF + self.inc_sym + [f, "-o", o])))
        for h in self.harnesses:
            o = self.p("bc", "h_" + h + ".bc"); hbc[h] = o; f = VERIF + "/harness/" + h + ".c"
            jobs.append((f, ex.submit(sh, [CLANG] + IRF + self.inc_sym + self.inc_h + [f, "-o", o])))
        for f in self.src + [VERIF + "/harness/native_rt.c"] + [VERIF + "/harness/" + h + ".c" for h in self.harnesses]:
            o = self.p("nat", os.path.basename(f)[:-2] + ".o"); objs.append(o)
            jobs.append((f, ex.submit(sh, [GCC] + NATF + self.inc_nat + self.inc_h + ["-c", f, "-o", o])))
        for f, j in jobs:
            r = j.result()
            if r.returncode: fail("compiling %s failed:\n%s" % (f, r.stdout[-3000:]))
        self.native = self.p("native")
        fn = ex.submit(sh, [GCC, "-rdynamic", "-o", self.native] + objs + ["-lm4ri", "-lm", "-ldl"])
        self.engine = fe.result()
        lib = self.p("lib.bc"); self.prog = {}
        js = [ex.submit(sh, [self.engine, "--prep", lib] + bcs)]; ph = {}
        for h in self.harnesses:
            ph[h] = self.p("p_" + h + ".bc"); js.append(ex.submit(sh, [self.engine, "--prep", ph[h], hbc[h]]))
        for j in js + [fn]:
            r = j.result()
            if r.returncode: fail("linking failed:\n" + r.stdout[-3000:])
        js = []
        for h in self.harnesses:
            self.prog[h] = self.p("sym_" + h + ".bc"); js.append(ex.submit(sh, [self.engine, "--link", self.prog[h], ph[h], lib]))
        for j in js:
            r = j.result()
            if r.returncode: fail("linking failed:\n" + r.stdout[-3000:])
    def asan(self):
        with self.lock:
            if self.asan_bin: return self.asan_bin
            os.makedirs(self.p("asan"), exist_ok=True); ps = []; objs = []
            for f in self.src + [VERIF + "/harness/native_rt.c"] + [VERIF + "/harness/" + h + ".c" for h in self.harnesses]:
                o = self.p("asan", os.path.basename(f)[:-2] + ".o"); objs.append(o)
                ps.append(subprocess.Popen([GCC] + ASANF + self.inc_nat + self.inc_h + ["-c", f, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            for q in ps: q.wait()
            b = self.p("native_asan")
            r = sh([GCC, "-rdynamic", "-fsanitize=address,undefined", "-o", b] + objs + ["-lm4ri", "-lm", "-ldl"])
            self.asan_bin = b if r.returncode == 0 else None
            return self.asan_bin
    def cleanup(self): shutil.rmtree(self.dir, ignore_errors=True)

class Inst:
    """one symbolic run: harness file, entry function, integer parameters"""
    def __init__(self, h, entry, *params, **opt):
        self.h, self.entry, self.params, self.opt = h, entry, [int(x) for x in params], opt
    def name(self): return "%s(%s)%s" % (self.entry, ",".join(map(str, self.params)), "@%d" % self.opt["l2"] if self.opt.get("l2") else "")

def native(binary, inst, mode, arg, env=None, timeout=60, pre=()):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(list(pre) + [binary, inst.entry, mode, str(arg)] + [str(x) for x in inst.params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def replay(b, inst, cexfile, kind):
    """returns (how, output) if the counterexample reproduces on the real code"""
    rc, out = native(b.native, inst, "cex", cexfile, timeout=120)
    if rc in (10, 11, 99): return "plain", out
    if rc < 0: return "plain (signal %d)" % -rc, out
    if kind == "assert": return None, out
    if kind == "leak":
        rc, out = native(b.native, inst, "cex", cexfile, env={"SYM_LEAK": "20"}, timeout=300)
        return ("leak growth" if rc == 14 else None), out
    for pt in ("165", "90"):
        rc, o2 = native(b.native, inst, "cex", cexfile, env={"MALLOC_PERTURB_": pt}, timeout=120)
        if rc in (10, 11, 99) or rc < 0: return "MALLOC_PERTURB_=" + pt, o2
    if "uninit" in kind:
        rc, o2 = native(b.native, inst, "cex", cexfile, timeout=300, pre=["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes"])
        if rc == 77: return "valgrind", o2
    a = b.asan()
    if a:
        rc, o2 = native(a, inst, "cex", cexfile, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=98", "UBSAN_OPTIONS": "print_stacktrace=1"}, timeout=300)
        if rc != 0 and ("Sanitizer" in o2 or "runtime error" in o2 or rc in (10, 11, 98)): return "asan/ubsan", o2
    return None, out

def load_known():
    """lines: 'known: property=P entry=<regex on instance name> msg=<regex on message> :: text'"""
    res = []; p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) inst=(\S+) msg=(.*?) :: (.*)$", l.strip())
            if m: res.append(m.groups())
    return res

def main():
    if sys.argv[1] == "--setup": print("engine:", engine_path()); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import specs
    spec = specs.get(prop, tier, Inst)
    insts = spec["instances"]
    only = os.environ.get("VP_ONLY")
    if only: insts = [i for i in insts if re.search(only, i.name())]
    deadline = T0 + float(os.environ.get("VP_DEADLINE", spec.get("deadline", 300 if tier == "quick" else 3000)))
    itime = spec.get("time", 25 if tier == "quick" else 300)
    verbose = bool(os.environ.get("VP_VERBOSE"))
    ex = cf.ThreadPoolExecutor(NJOBS)
    l2s = sorted({i.opt.get("l2", 0) for i in insts}); builds = {l2: Build(sorted({i.h for i in insts if i.opt.get("l2", 0) == l2}), l2) for l2 in l2s}
    known = [k for k in load_known() if k[0] == prop]
    evdir = os.path.join(VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rdir, f))
    stop = threading.Event(); L = threading.Lock()
    res = []; viol = []; knownhit = {}; unconf = []; unexplored = []; fnset = set(); valid = []
    tot = dict(paths=0, forks=0, merges=0, instrs=0, sym_instrs=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, assert_bits=0, assert_const=0, normalised_paths=0, vars=0, sym_loads=0)
    mode = spec.get("mode")
    try:
        for x in builds.values(): x.run(ex)
        tb = time.time() - T0
        def go(n, inst):
            if stop.is_set() or time.time() > deadline - 2:
                with L: unexplored.append(dict(instance=inst.name(), why="stopped" if stop.is_set() else "deadline"))
                return
            b = builds[inst.opt.get("l2", 0)]; cex = b.p("cex%d" % n)
            tl = min(float(inst.opt.get("time", itime)), deadline - time.time())
            cmd = [b.engine, "--trace", "--entry", inst.entry, "--time", "%.1f" % tl, "--cex", cex, "--seed", str(seed), "--mem", str(inst.opt.get("mem", 3000)), "--qtimeout", str(inst.opt.get("qtimeout", 8000))] + inst.opt.get("args", []) + [b.prog[inst.h], "--"] + [str(x) for x in inst.params]
            t = time.time()
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=tl + 30)
                out, err = r.stdout, r.stderr
            except subprocess.TimeoutExpired: out, err = "", "outer timeout"
            try: d = json.loads(out)
            except Exception: d = {"status": "undecided", "why": "engine gave no result: " + (err or "")[-300:]}
            w = time.time() - t
            if verbose: print("%-70s %-10s %6.2fs paths %s q %s %s" % (inst.name(), d["status"], w, d.get("paths"), d.get("queries"), d.get("why", "")[:150]), flush=True)
            st = d["status"]
            with L:
                for k in tot:
                    if k in d: tot[k] += d[k]
                fnset.update(d.get("functions", []))
                res.append((inst.name(), st, round(w, 2), d.get("paths", 0), d.get("queries", 0)))
                if st in ("undecided", "vacuous"): unexplored.append(dict(instance=inst.name(), why=st + ": " + d.get("why", "")))
            if st != "violation": return
            for k in range(1, 9):
                cf_ = cex if k == 1 else cex + ".%d" % k
                if not os.path.exists(cf_): break
                head = open(cf_).read(4000)
                kind = re.search(r"# kind (.*)", head).group(1); msg = re.search(r"# msg (.*)", head).group(1); where = re.search(r"# where (.*)", head).group(1)
                kn = [q for q in known if re.search(q[1], inst.name()) and re.search(q[2], msg)]
                if kn:
                    with L: knownhit.setdefault(kn[0][3], []).append(inst.name())
                    continue
                how, o = replay(b, inst, cf_, kind)
                if how and prop != "P25" and not how.startswith("plain") and spec.get("need_plain", True):
                    with L: unconf.append(dict(instance=inst.name(), kind=kind, msg=msg, where=where, note="memory error without effect on the result: reported by P25"))
                    continue
                if not how:
                    with L: unconf.append(dict(instance=inst.name(), kind=kind, msg=msg, where=where, note="did not reproduce natively"))
                    continue
                with L:
                    path = os.path.join(rdir, "%s-%d.txt" % (prop, len(viol) + 1))
                    with open(path, "w") as f:
                        f.write("# property %s\n# harness %s.c entry %s params %s l2 %s\n# reproduced: %s\n# replay: python3 checks/replay.py %s\n" % (prop, inst.h, inst.entry, " ".join(map(str, inst.params)), inst.opt.get("l2", 0), how, os.path.relpath(path, VERIF)))
                        f.write(open(cf_).read()); f.write("".join("#out " + l + "\n" for l in o.splitlines()[:40]))
                    viol.append(dict(instance=inst.name(), kind=kind, msg=msg, where=where, reproduced=how, replay=path))
                    print("VIOLATION property=%s replay=%s" % (prop, path)); print("  %s: %s [%s] %s at %s" % (inst.name(), msg, kind, how, where)); sys.stdout.flush()
                if not os.environ.get("VP_NOSTOP"): stop.set()
                return
        fs = [ex.submit(go, n, i) for n, i in enumerate(insts)]
        # translator / model validation: the same inputs through engine and native build
        def val(n, inst):
            if stop.is_set() or time.time() > deadline - 2: return
            sd = seed * 1000 + n; b = builds[inst.opt.get("l2", 0)]
            rc, o = native(b.native, inst, "seed", sd, timeout=60)
            m = re.search(r"DIGEST (\w+)", o)
            r = subprocess.run([b.engine, "--concrete", str(sd), "--entry", inst.entry, "--time", "60", b.prog[inst.h], "--"] + [str(x) for x in inst.params], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            try: dg = json.loads(r.stdout).get("digest")
            except Exception: dg = None
            with L: valid.append(dict(instance=inst.name(), seed=sd, native_rc=rc, agree=bool(m) and dg == m.group(1)))
        nv = spec.get("validate", 8 if tier == "quick" else 32)
        step = max(1, len(insts) // nv); vi = [i for i in insts[::step] if not i.opt.get("noval")][:nv]
        fv = [ex.submit(val, n, i) for n, i in enumerate(vi)]
        for f in fs + fv: f.result()
    finally:
        for x in builds.values(): x.cleanup()
    holds = [r for r in res if r[1] == "holds"]
    used = sorted({f.split("@")[0] for f in fnset if os.path.realpath(f.split("@")[-1]).startswith(os.path.realpath(REPO) + "/")})
    cov = dict(states=tot["paths"], transitions=tot["instrs"], traces_validated_against_impl=sum(v["agree"] for v in valid),
               samples=[dict(instance=r[0], status=r[1], wall_s=r[2], paths=r[3], queries=r[4]) for r in sorted(res, key=lambda r: -r[3])[:12]],
               instances=len(insts), instances_run=len(res), instances_holding=len(holds), symbolic_bits=tot["vars"], assertions_over_symbolic_state=tot["assert_bits"], assertions_closed_by_normal_form=tot["assert_const"],
               paths=tot["paths"], forks=tot["forks"], merges=tot["merges"], symbolic_instructions=tot["sym_instrs"], symbolic_address_loads=tot["sym_loads"],
               queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 3), engine_s=round(sum(r[2] for r in res), 2),
               paths_decided_without_residual_query=tot["normalised_paths"],
               functions_encoded=used, functions_encoded_count=len(used), bounds=spec.get("bounds", ""), outside=spec.get("outside", ""),
               undecided=unexplored[:60], undecided_count=len(unexplored), unconfirmed_counterexamples=unconf[:20], validation=valid, known_findings=knownhit, violations_found=viol, build_s=round(tb, 2))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - T0, 2), violations=len(viol),
              assumptions=["libm4ri (binary only) is represented by m4ri_model/m4ri_model.c; agreement is sampled on every run (validation)", "clang-18 -O1 front end, x86-64; one thread; malloc does not fail", "bounds: " + spec.get("bounds", "")])
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for k, v in knownhit.items(): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    bad = [v for v in valid if not v["agree"]]
    if bad: print("note: engine/native disagreement on %s" % bad[:3])
    if unconf: print("note: %d unconfirmed counterexamples, e.g. %s" % (len(unconf), unconf[0]))
    print("%s %s: %d instances, %d hold, %d undecided/not run, %d violations; %d paths, %d queries (%.2f s solver), %.1f s" % (prop, tier, len(insts), len(holds), len(unexplored), len(viol), tot["paths"], tot["queries"], tot["solver_s"], time.time() - T0))
    if not res and not viol: return 2
    return 1 if viol else 0
if __name__ == "__main__": sys.exit(main())
