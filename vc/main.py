"""Decide one property: extract, verify, replay, report.   usage: main.py PID   (VERIF_TIER, VERIF_SEED)"""
import fcntl, hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contracts as C
import verifier as V

VERIF = V.VERIF
os.environ["PATH"] += ":/root/.cargo/bin"
UNITS = {
    "C01": ["defense"], "C02": ["defense"], "C03": ["defense"], "C04": ["defense", "counter"], "C05": ["counter"],
    "C06": ["hashcache"], "C07": ["hashcache", "system"], "C08": ["hashcache"], "C09": ["system"], "C10": ["system"], "C11": ["system"],
    "C12": ["queue"], "C13": ["queue"], "C14": ["queue", "system"], "C15": ["master", "counter"], "C16": ["master", "counter"], "C17": ["master"],
    "C18": ["redis"], "C19": ["redis"], "C20": ["counter", "hashcache", "master", "redis"], "C21": ["system"], "C22": ["queue"],
}
HARNESS = os.path.join(VERIF, "harness")
# time after which no further verifier run is started
BUDGET = {"quick": 420, "thorough": 560}


def say(*a):
    print(*a, flush=True)


class Builder(threading.Thread):
    """build the replay harness from /repo's current tree while the verifier works"""

    def __init__(self):
        super().__init__(daemon=True)
        self.ok, self.log, self.bin, self.wall = False, "", os.path.join(HARNESS, "target", "debug", "replay"), 0.0

    def run(self):
        t = time.time()
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        try:
            r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env, capture_output=True, text=True, timeout=500)
            self.ok, self.log = r.returncode == 0, r.stderr[-4000:]
        except subprocess.TimeoutExpired:
            self.log = "timed out"
        self.wall = time.time() - t


def build_tool():
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "tool"), capture_output=True, text=True)
    if r.returncode != 0:
        say(r.stderr[-3000:])
        sys.exit(2)


def loops_of(f):
    return [l["kind"] for l in f["loops"]]


def baseline():
    p = os.path.join(VERIF, "vc", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def trusted(F):
    """what the assembled file takes on trust, by a scan of its text"""
    out, pend = {}, False
    for l, ref in zip(F.lines, F.refs):
        src = ref[1] if ref[0] in ("env", "spec") else ref[0] + ":" + str(ref[1] if len(ref) > 1 else "")
        if "external_body" in l:
            pend = True
        m = re.search(r"\b(?:fn|struct)\s+(\w+)", l) if pend else None
        if m:
            k = "type taken as opaque" if "struct" in m.group(0) else "contract assumed of"
            out.setdefault(f"{k} ({src})", []).append(m.group(1))
            pend = False
        m = re.search(r"\baxiom fn (\w+)", l)
        if m:
            out.setdefault(f"axiom ({src})", []).append(m.group(1))
        if re.search(r"\b(assume|admit)\s*\(", l):
            out.setdefault(f"assume ({src})", []).append(l.strip()[:120])
        m = re.search(r"\buninterp spec fn (\w+)", l)
        if m:
            out.setdefault(f"uninterpreted ({src})", []).append(m.group(1))
        m = re.search(r"assume_specification\b.*\[\s*(.*?)\s*\]", l)
        if m:
            out.setdefault(f"contract assumed of ({src})", []).append(m.group(1))
    return [f"{k}: {', '.join(dict.fromkeys(v))}" for k, v in out.items()]


def decide_unit(name, pid, workdir, deadline):
    """-> dict(status proved|bounded|failed, ...)"""
    u = V.Unit(name)
    out = dict(unit=name, levels=[])
    base = baseline().get(name, {})
    for l2 in (False, True):
        if l2 and not any(c.helper for c in u.contracts.values()):
            break
        if l2 and time.time() > deadline:
            break
        j = V.Job(u, pid, l2, workdir)
        if j.fatal:
            r = dict(status="undecided", why=j.fatal)
            j.inc, j.lost, j.tainted, j.degraded = [], [], {}, {}
        else:
            r = j.decide()
        lv = dict(level=j.level, status=r["status"], why=r.get("why"), obligations=r.get("obligations"), verified=r.get("verified"), errors=r.get("errors"),
                  smt_ms=r.get("smt_ms"), wall_s=round(r.get("wall", 0), 2), lost=j.lost, tainted=j.tainted, degraded=j.degraded)
        soft = list(j.lost) + [f"{k} calls {', '.join(v)}, which has no contract" for k, v in j.tainted.items()] + [f"{k}: {v}" for k, v in j.degraded.items()]
        if r["status"] == "proved":
            can = j.canary()
            lv["canary"] = can
            if can is None or can["vacuous"] or can["failed"] < can["expected"]:
                soft.append(f"reachability not confirmed: {can}")
        lv["soft"] = soft
        if r["status"] == "failed":
            fails = [j.describe(r["F"], d) for d, _ in r["fails"]]
            lv["fails"] = fails
            lv["rendered"] = [d.get("rendered", "")[:3000] for d, _ in r["fails"]]
            hard = []
            surv = j.survivors()
            for f in fails:
                it = j.bykey.get(f["function"])
                why = None
                if it is None:
                    why = "not in a function of the source"
                elif f["function"] in j.tainted:
                    why = f"calls {', '.join(j.tainted[f['function']])}, which has no contract"
                elif f["function"] in j.degraded:
                    why = j.degraded[f["function"]]
                elif not set(base.get("invariants", {}).get(f"{pid} {j.level}", {}).get(f["function"], [])) <= set(surv.get(f["function"], [])):
                    why = "the invariants do not hold of its loops as they are now"
                elif it["loops"] and sorted(loops_of(it)) != sorted(base.get(j.level, {}).get(f["function"], loops_of(it))):
                    why = "its loops are not the ones the invariants were written for"
                f["undecided_because"] = why
                if why is None:
                    hard.append(f)
            lv["hard"] = hard
        sup = r.get("support") or {}
        lv["support"] = {k: sup.get(k) for k in ("ok", "why", "obligations", "verified", "smt_ms", "wall")}
        lv["fns"] = {f["key"]: dict(source=f"src/{f['file']}:{f['line']}", obligations=r.get("per_fn", {}).get(f["key"], 0)) for f in j.inc if f["fnkind"] != "traitdecl"}
        if r.get("F"):
            lv["trusted"] = trusted(r["F"])
            lv["cmd"] = " ".join(r["run"]["cmd"])
        out["levels"].append(lv)
        if r["status"] == "proved" and not soft:
            break
    # the better of the levels
    rank = lambda lv: 0 if lv["status"] == "proved" and not lv["soft"] else 1 if lv["status"] == "proved" else 2 if not lv.get("hard") else 3
    best = min(out["levels"], key=rank)
    out["best"] = best
    k = rank(best)
    # an alarm needs every level to agree that an obligation within reach fails
    out["status"] = "proved" if k == 0 else "failed" if k == 3 else "bounded"
    return out


def replay(pid, seed, tier, limit=None):
    t = time.time()
    b = os.path.join(HARNESS, "target", "debug", "replay")
    limit = limit or (480 if tier == "thorough" else 200)
    try:
        r = subprocess.run([b, pid, str(seed), tier], capture_output=True, text=True, timeout=limit, cwd=HARNESS)
        last = [l for l in r.stdout.splitlines() if l.startswith("@@")]
        d = json.loads(last[-1][2:]) if last else dict(ok=False, what=f"the process ended with {r.returncode}: {r.stderr[-500:]}", trace=[], crash=True)
    except subprocess.TimeoutExpired:
        d = dict(ok=False, what=f"no end after {limit} s", trace=[], hang=True)
    d["wall_s"] = round(time.time() - t, 2)
    return d


def replay_checked(pid, seed, tier):
    """a failing case counts when it shows again"""
    d = replay(pid, seed, tier)
    if d["ok"]:
        return d
    again = [replay(pid, seed, tier)]
    if again[0]["ok"]:
        again.append(replay(pid, seed, tier))
    if any(not x["ok"] for x in again):
        return d
    return dict(again[-1], flaky=d)


def findings():
    out, p = [], os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) site=(\S+) (.*)$", l.strip())
        if m:
            out.append(m.groups())
    return out


ASSUME = [
    "actix, tokio, crossbeam-channel, std collections, redis and mcaptcha_pow_sha256 behave as the contracts in units/common and units/*/env.rs say",
    "derive macros (Clone, PartialEq, Default, Builder, Message) generate what their documentation says; log macros have no effect",
    "the extraction (tool/) preserves meaning: it resolves imports, expands macros, rewrites iterator chains, `?`, closures and async blocks as DESIGN.md lists",
    "values obtained by deserialisation satisfy their type's invariant",
    "Verus and its solver are sound; allocation never fails",
]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    wd = os.path.join(VERIF, "build", pid)
    subprocess.run(["rm", "-rf", wd])
    os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    build_tool()
    b = Builder()
    b.start()
    deadline = t0 + BUDGET[tier]
    units = []
    known = []
    for p, site, text in findings():
        if p == pid and still_there(site):
            known.append(text)
            V.KNOWN.add(tuple(site.split("#")[:2]))
            say(f"KNOWN-FINDING: property={pid} {text}")

    def unit(n):
        try:
            return decide_unit(n, pid, wd, deadline)
        except (Exception, SystemExit) as e:
            return dict(unit=n, status="bounded", best=dict(level="-", status="undecided", why=repr(e), soft=[repr(e)], fns={}, lost=[], tainted={}, degraded={}), levels=[])
    ex = ThreadPoolExecutor(4)
    for u in ex.map(unit, UNITS[pid]):
        units.append(u)
        n = u["unit"]
        bl = u["best"]
        say(f"[{pid}] unit {n}: {u['status']} at {bl['level']}: {bl.get('verified')} verified, {bl.get('errors')} errors, {bl.get('obligations')} obligations, "
            f"{bl.get('wall_s')} s" + (f"; {bl['why']}" if bl.get("why") else ""))
        for s in bl.get("soft", []):
            say(f"   outside the proof: {s}")
        for f in bl.get("fails", []):
            say(f"   not discharged: {f['function']} ({f['source']}): {f['obligation']}: {f['clause'] or f['code']}" + (f"  -- undecided: {f['undecided_because']}" if f["undecided_because"] else ""))
    second = None
    if tier == "thorough":
        second = cross_check(units, pid, wd)
    b.join()
    if b.ok:
        h = replay_checked(pid, seed, tier)
        say(f"[{pid}] bounded replay on the real code: {'no failing case' if h['ok'] else 'FAILING CASE'} ({h.get('cases', 0)} cases, {h['wall_s']} s)")
    else:
        h = dict(ok=True, cases=0, unavailable=b.log[-1500:] or "failed", wall_s=0)
        say(f"[{pid}] the replay harness did not build: {b.log[-600:]}")
    failed = [u for u in units if u["status"] == "failed"]
    viol = None
    if not h["ok"]:
        viol = dict(property=pid, kind="failing input on the real code", what=h.get("what"), history=h.get("trace"), panics=h.get("panics"),
                    reproduce=f"cd {HARNESS} && cargo build --offline && target/debug/replay {pid} {seed} {tier}")
        tail = ""
    elif failed:
        viol = dict(property=pid, kind="an obligation generated from the current source is not discharged, no failing input found")
        tail = " no-failing-input-found"
    if viol:
        viol["obligations_not_discharged"] = [f for u in units for f in u["best"].get("fails", [])]
        viol["verifier_output"] = [x for u in units for x in u["best"].get("rendered", [])]
        viol["verifier_cmd"] = [u["best"].get("cmd") for u in units if u["best"].get("fails")]
    rp = os.path.join(wd, "violation.json")
    bounded = [dict(unit=u["unit"], why=(u["best"].get("soft") or []) + ([u["best"]["why"]] if u["best"].get("why") else []) + [f"{f['function']}: {f['undecided_because']}" for f in u["best"].get("fails", [])])
               for u in units if u["status"] == "bounded"]
    proved = all(u["status"] == "proved" for u in units)
    nob = sum(u["best"].get("obligations") or 0 for u in units)
    nf = sum(len(u["best"].get("fails", [])) for u in units)
    und = 0 if proved else sum((u["best"].get("obligations") or 0) for u in units if u["status"] == "bounded" and u["best"]["status"] != "failed" and u["best"]["status"] != "proved")
    ev = dict(
        property=pid, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=nob, discharged=max(0, nob - nf - und),
            checker_cmd="; ".join(u["best"].get("cmd", "") for u in units),
            trusted_base=sorted(set(x for u in units for x in u["best"].get("trusted", []))),
            back_end="Z3 via Verus" + (" and cvc5 via Verus" if second else ""),
            support_code={u["unit"]: u["best"].get("support") for u in units},
            solver_ms={u["unit"]: u["best"].get("smt_ms") for u in units},
            functions_under_contract={u["unit"]: u["best"]["fns"] for u in units},
            units=[dict(unit=u["unit"], status=u["status"], levels=[{k: l.get(k) for k in ("level", "status", "why", "obligations", "verified", "errors", "smt_ms", "wall_s", "canary")} for l in u["levels"]]) for u in units],
            all_obligations_discharged=proved, bounded_stand_ins=bounded, second_solver=second,
            replay=dict(note="bounded; exercises the statement and the assumed contracts on the real code, never counted as proof", built=b.ok, build_s=round(b.wall, 1),
                        cases=h.get("cases", 0), distinct=h.get("distinct", 0), sample=h.get("sample", []), unavailable=h.get("unavailable"), flaky=h.get("flaky"), wall_s=h["wall_s"]),
            known_findings=known,
        ),
        assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
    )
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    clean(wd)
    if viol:
        json.dump(viol, open(rp, "w"), indent=1)
        for f in viol["obligations_not_discharged"]:
            say(f"  obligation: {f['function']}: {f['obligation']}: {f['clause'] or f['code']}")
        if viol.get("what"):
            say("  failing case: " + str(viol["what"])[:600])
        say(f"VIOLATION property={pid} replay={rp}{tail}")
        sys.exit(1)
    if not proved and not b.ok:
        say(f"[{pid}] neither the verifier nor the replay could decide")
        sys.exit(2)
    say(f"[{pid}] holds: " + (f"{nob} obligations discharged" if proved else "BOUNDED: not everything is within the verifier's reach, no failing case found") + f" ({time.time() - t0:.0f} s)")
    sys.exit(0)


def cross_check(units, pid, wd):
    """thorough tier: discharge the same obligations with a second solver and with other solver seeds"""
    out = []
    cvc5 = subprocess.run(["which", "cvc5"], capture_output=True, text=True).stdout.strip()
    for u in units:
        cmd = u["best"].get("cmd")
        if u["status"] != "proved" or not cmd:
            continue
        path = cmd.split()[1]
        for name, extra in (("z3 seed 7", ["--smt-option", "smt.random_seed=7"]), ("cvc5", ["-V", "cvc5"])):
            t = time.time()
            try:
                r = subprocess.run(["verus", path, "--verify-root", "--output-json", "--num-threads", "8", "--rlimit", "60", *extra], capture_output=True, text=True, timeout=150,
                                   env=dict(os.environ, VERUS_CVC5_PATH=cvc5), cwd=wd)
                m = re.search(r"\{.*\}", r.stdout, re.S)
                v = json.loads(m.group(0)).get("verification-results", {}) if m else {}
                out.append(dict(unit=u["unit"], solver=name, verified=v.get("verified"), not_verified=v.get("errors"), wall_s=round(time.time() - t, 1)))
            except (subprocess.TimeoutExpired, json.JSONDecodeError):
                out.append(dict(unit=u["unit"], solver=name, verified=None, note="no answer within 150 s", wall_s=round(time.time() - t, 1)))
            say(f"[{pid}] {out[-1]}")
    return out


def still_there(site):
    """a listed finding is reported while the code at its site is what was found"""
    path, fn, pat = site.split("#")
    try:
        s = open(os.path.join(V.REPO, path)).read()
    except OSError:
        return False
    m = re.search(r"impl Handler<" + re.escape(fn) + r">.*?\n}\n", s, re.S)
    return bool(m and pat in m.group(0))


def clean(wd):
    for d in os.listdir(wd):
        if d.endswith(".log"):
            subprocess.run(["rm", "-rf", os.path.join(wd, d)])


if __name__ == "__main__":
    main()
