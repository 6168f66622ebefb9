"""record the loop shapes of the functions under contract (run on the tree the invariants were written for)"""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verifier as V, main as M
out = {}
wd = tempfile.mkdtemp()
for n in sorted({u for us in M.UNITS.values() for u in us}):
    if not os.path.exists(os.path.join(V.UNITS, n, "unit.json")):
        continue
    u = V.Unit(n)
    out[n] = {}
    for l2 in (False, True):
        items, errs = V.extract(u, l2, wd)
        out[n]["L2" if l2 else "L1"] = {i["key"]: M.loops_of(i) for i in items if i["kind"] == "fn" and i["loops"]}
def one(a):
    pid, n, l2 = a
    u = V.Unit(n)
    if l2 and not any(c.helper for c in u.contracts.values()):
        return None
    d = tempfile.mkdtemp()
    j = V.Job(u, pid, l2, d)
    r = j.decide()
    subprocess.run(["rm", "-rf", d])
    return pid, n, j.level, r["status"], j.survivors()


with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, [(p, n, l2) for p in M.UNITS for n in M.UNITS[p] for l2 in (False, True)]):
        if x:
            pid, n, lv, st, s = x
            print(pid, n, lv, st, {k: len(v) for k, v in s.items()}, flush=True)
            out[n].setdefault("invariants", {})[f"{pid} {lv}"] = s
subprocess.run(["rm", "-rf", wd])
json.dump(out, open(os.path.join(V.VERIF, "vc", "baseline.json"), "w"), indent=1, sort_keys=True)
