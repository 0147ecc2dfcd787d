"""developer front end: python3-vt pv.py PATTERN"""
import sys, time
sys.path.insert(0, "/verif")
sys.setrecursionlimit(5000)
from pyvc.engine import Engine
from pyvc.interp import World
from pyvc.core import STATS
from contracts.schema import SpecfileSpec
import contracts.all as A
import os
w = World(os.environ.get("VERIF_REPO", "/repo"))
e = Engine(w, SpecfileSpec(), A.CONTRACTS)
for c in A.CONTRACTS:
    if c.trusted or not any(p in c.target for p in sys.argv[1:]):
        continue
    r = e.verify_cases(c)
    print(r.target, r.status, r.reason, r.counts(), "paths", r.paths, "passes", r.passes, "%.1fs" % r.seconds)
    for k, v in r.loops.items():
        print("   loop", k, v[:4])
    seen = set()
    for o in r.obligations:
        if o.status != "proved" and o.name not in seen:
            seen.add(o.name)
            print("   ", o.status, o.name, "|", o.detail[:600], "|", o.path[:30], getattr(o, "inputs", None))
print("queries", STATS.queries, "solver %.1fs" % STATS.solver_s)
