import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verifier as V
unit, pid = sys.argv[1], sys.argv[2]
l2 = len(sys.argv) > 3 and sys.argv[3] == "L2"
wd = "/tmp/vxwork"; os.makedirs(wd, exist_ok=True)
j = V.Job(V.Unit(unit), pid, l2, wd)
if j.fatal: print(j.fatal); sys.exit()
print("included", [f["key"] for f in j.inc]); print("lost", j.lost, "tainted", j.tainted)
r = j.decide()
print(r["status"], r.get("why"), "verified", r.get("verified"), "errors", r.get("errors"), "obl", r.get("obligations"), "wall", r.get("wall"), "smt", r.get("smt_ms"))
print("degraded", j.degraded)
if "-v" in sys.argv: print("\n".join(j.notes))
print("dropped", {k: v for k, v in j.inv_state.items() if v})
for d, refs in r.get("fails", []):
    print(json.dumps(j.describe(r["F"], d), indent=1))
    if "-v" in sys.argv: print(d["rendered"])
if r.get("run") and r["status"] == "undecided":
    for d in r["run"]["diags"][:8]: print(d["rendered"])
if r["status"] == "proved": print(j.canary())

if "-d" in sys.argv:
    for x in j.droplog: print(x)
