#!/usr/bin/env python3
"""replay.py FILE: rebuild /repo natively and run a recorded counterexample against it."""
import sys, re, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
p = os.path.abspath(sys.argv[1]); t = open(p).read()
m = re.search(r"# harness (\w+)\.c entry (\w+) params ?(.*?) l2 (\d+)", t); kind = re.search(r"# kind (.*)", t).group(1)
b = run.Build([m.group(1)], int(m.group(4)))
try:
    b.run(cf.ThreadPoolExecutor(8)); how, out = run.replay(b, run.Inst(m.group(1), m.group(2), *m.group(3).split()), p, kind)
    print(out[-3000:]); print("reproduced:", how)
finally: b.cleanup()
