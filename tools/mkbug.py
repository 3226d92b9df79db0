#!/usr/bin/env python3
"""mkbug.py SPEC.py : write seeded/<id>/ from a spec (id, property, needs, breaks, edits [(file, old, new)], demo C code), and try it in a scratch copy of /repo."""
import sys, os, subprocess, tempfile, shutil, json
ns = {}; exec(open(sys.argv[1]).read(), ns); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
SH = '''#!/bin/bash
# run in the built tree
D=$(mktemp -d) || exit 2
gcc -O1 -w -I"$PWD" "$(dirname "$0")/demo.c" _build/.libs/libm4rie.a -lm4ri -lm -o "$D/demo" || { rm -rf "$D"; exit 2; }
timeout 120 "$D/demo"; rc=$?
rm -rf "$D"
exit $rc
'''
PRE = '''#include <m4rie/m4rie.h>
#include <stdio.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
static gf2e *field(int e) { return gf2e_init(irreducible_polynomials[e][1]); }
static mzed_t *rnd(gf2e *ff, int m, int n) { mzed_t *A = mzed_init(ff, m, n); mzed_randomize(A); return A; }
'''
for b in ns['BUGS']:
    d = f"{V}/seeded/{b['id']}"; T = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    try:
        sh(f"git -C /repo worktree prune; git clone -q /repo {T}/r")
        for f, o, n in b['edits']:
            p = f"{T}/r/{f}"; s = open(p).read(); assert s.count(o) == 1, (b['id'], f, s.count(o)); open(p, 'w').write(s.replace(o, n))
        os.makedirs(d, exist_ok=True); diff = sh(f"git -C {T}/r diff").stdout; open(f"{d}/patch.diff", 'w').write(diff)
        open(f"{d}/demo.sh", 'w').write(SH); os.chmod(f"{d}/demo.sh", 0o755); open(f"{d}/demo.c", 'w').write(PRE + b['demo'])
        json.dump({"property": b['property'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(f"{d}/meta.json", 'w'), indent=1)
        res = []
        for r in ("/repo", f"{T}/r"):
            N = f"-O1 -w -I {V}/shim -I {r} -I {r}/src"
            o = sh(f"cd {T} && rm -rf o && mkdir o && ls {r}/src/*.c | xargs -P8 -I@ sh -c 'gcc {N} -c @ -o o/$(basename @).o' && gcc {N} {d}/demo.c o/*.o -lm4ri -lm -o demo && timeout 100 ./demo")
            res.append((o.returncode, (o.stdout + o.stderr)[-200:]))
        print(b['id'], 'ok' if res[0][0] == 0 and res[1][0] not in (0,) else 'BAD', res if res[0][0] or not res[1][0] else res[1][1].strip()[-100:])
    finally: shutil.rmtree(T)
