#!/usr/bin/env python3
"""mutate.py N SEED [FILE-REGEX] : mutation testing of the checks (a development aid, not a check).
Draws N one-token mutants of /repo/src in a scratch copy, runs the quick checks mapped to the file until one reports a violation, prints survivors."""
import sys, os, re, random, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/mutr"
MAP = [("conversion_(slice|cling)|conversion.c", "P11"), ("conversion.h", "P11 P15 P18 P16"), ("karatsuba", "P15 P25"), ("blm", "P16 P25 P17"), ("echelonform", "P20 P21 P24"), ("gf2e.c|gf2e.h", "P01 P02 P05 P25"), ("gf2x.h", "P03 P02 P01"),
       ("mzd_poly|mzd_ptr", "P17 P16 P15"), ("mzd_slice", "P06 P08 P09 P10 P12 P29 P28 P16 P15 P18 P25 P27"), ("mzed", "P07 P06 P08 P09 P10 P12 P18 P29 P28 P14 P13 P27 P25"), ("newton_john", "P19 P13 P24 P23 P20 P21 P25"),
       ("m4ri_functions", "P06 P15 P16 P17"), ("permutation", "P08 P21 P22"), ("ple", "P22 P21 P25"), ("strassen", "P14 P18 P25"), ("trsm", "P23 P25 P21")]
OPS = [(r"<=", "<"), (r"(?<![<>-])<(?![<=])", "<="), (r"(?<![->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"\+ ?1\b", "+0"), (r"- ?1\b", "-0"), (r"&&", "||"), (r"\|\|", "&&"), (r"\^=", "="), (r"\|=", "="), (r"&~", "&"), (r"<<", ">>"), (r"\bMIN\b", "MAX"), (r"\bMAX\b", "MIN"),
       (r"\b2\*", "1*"), (r"\bnrows\b", "ncols"), (r"\bncols\b", "nrows"), (r"\+=", "="), (r"\b0\b(?!x)", "1"), (r"\b1\b", "0"), (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"TRUE", "FALSE"), (r"\+(?![+=])", "-"), (r"%", "/"), ("STMT", "")]
n, seed, rx = int(sys.argv[1]), int(sys.argv[2]), re.compile(sys.argv[3] if len(sys.argv) > 3 else "")
g = random.Random(seed); files = [f for f in sorted(os.listdir("/repo/src")) if re.search(r"\.(c|h|inl)$", f) and rx.search(f) and any(re.search(p, f) for p, _ in MAP)]
def sites(f):
    r = []; com = False; d = 0; skip = False
    for i, l in enumerate(open("/repo/src/" + f).read().split("\n")):
        if l.startswith("#if 0"): skip = True
        if l.startswith(("#else", "#endif")): skip = False
        t = re.sub(r"/\*.*?\*/", "", l)
        if "/*" in t: com = True
        code = not com and not skip and not t.startswith("#") and "assert" not in t and "utoff" not in t and "CUTOFF" not in t and "CACHE" not in t and "m4ri_die" not in t and "0x0" not in t and (l.startswith((" ", "\t"))) and not t.strip().startswith("*") and "//" not in t
        if "*/" in t: com = False
        if code and d > 0 or (code and f.endswith(".c")):
            for o in OPS:
                if o[0] == "STMT":
                    if re.match(r"^\s+[\w\[\]>.-]+(\(| [\^|&+-]?= ).*;\s*$", t) and not re.match(r"^\s+(const|return|word|int|rci_t|wi_t|mz\w+_t|deg_t|register)\b", t) and "free" not in t: r.append((i, o, None))
                else:
                    for m in re.finditer(o[0], t): r.append((i, o, m.span()))
        d += t.count("{") - t.count("}")
    return r
done = 0
while done < n:
    f = g.choices(files, [os.path.getsize("/repo/src/" + x) ** .5 for x in files])[0]; ss = sites(f)
    if not ss: continue
    o = g.choice(sorted({s[1][0] for s in ss})); i, op, sp = g.choice([s for s in ss if s[1][0] == o])
    shutil.rmtree(S, ignore_errors=True); subprocess.run(["git", "clone", "-q", "/repo", S], check=True); os.symlink("src", S + "/m4rie")if not os.path.exists(S + "/m4rie") else None
    L = open(S + "/src/" + f).read().split("\n"); old = L[i]
    if sp is None: new = re.match(r"\s*", old).group(0) + ";"
    else:
        a, b = sp; seg = old[a:b]; new = old[:a] + re.sub(op[0] if not op[0].startswith("(?<") and "(?!" not in op[0] else re.escape(seg), op[1], seg, count=1) + old[b:]
    if new == old: continue
    L[i] = new; open(S + "/src/" + f, "w").write("\n".join(L))
    if subprocess.run("cd %s/src && for x in mzed.c blm.c gf2e.c ple.c trsm.c strassen.c newton_john.c %s; do gcc -w -fsyntax-only -I %s/shim -I %s -I. $x || exit 1; done" % (S, f if f.endswith(".c") else "", V, S), shell=True, capture_output=True).returncode: continue
    done += 1; t0 = time.time(); hit = None; notes = []
    for p in next(m for x, m in MAP if re.search(x, f)).split():
        try: q = subprocess.run(["python3", V + "/checks/run.py", p, "quick"], cwd=V, capture_output=True, text=True, errors="replace", timeout=850, env=dict(os.environ, VP_REPO=S))
        except subprocess.TimeoutExpired: notes.append(p + " timeout"); continue
        if "VIOLATION" in q.stdout: hit = p; break
        if q.returncode: notes.append(p + " rc%d" % q.returncode); hit = p + "(rc)"; break
    print("%s %s:%d %.0fs %s\n    - %s\n    + %s" % ("killed " + hit if hit else "SURVIVED", f, i + 1, time.time() - t0, notes, old.strip()[:150], new.strip()[:150])); sys.stdout.flush()
shutil.rmtree(S, ignore_errors=True)
