"""Assemble a Verus file for one unit and one property from the extracted source and decide it."""
import json, os, re, subprocess, threading, time
import contracts as C

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
UNITS = os.path.join(VERIF, "units")

HEADER = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unreachable_code, unused_assignments, unused_must_use)]
#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
use vstd::std_specs::vec::*;
verus! {
"""

# messages of the verifier that report an obligation which was not discharged
FAILED = (
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "possible arithmetic",
    "assertion failed", "assertion failure", "possible division by zero", "possible bit shift", "unable to prove", "constructed value may fail",
    "cannot show", "decreases not satisfied", "possible out-of-bounds", "index out of bounds", "loop invariant", "possible panic",
    "recommendation not met", "the result of", "unreachable",
)
UNDECIDED = ("resource limit", "rlimit", "timed out", "timeout", "canceled")


# (file, message) of the handlers with a known finding of the property being decided
KNOWN = set()


class Unit:
    def __init__(self, name):
        self.name = name
        self.dir = os.path.join(UNITS, name)
        self.cfg = json.load(open(os.path.join(self.dir, "unit.json")))
        self.contracts, self.relevant = C.parse([os.path.join(UNITS, p) for p in self.cfg["contracts"]])

    def roots(self, pid):
        r = set(k for k, c in self.contracts.items() if not c.helper and any(pid in t for kd, t, _, _ in c.clauses if kd in ("requires", "ensures")))
        return r | self.relevant.get(pid, set())


def tool():
    return os.path.join(VERIF, "tool", "target", "debug", "vx")


def extract(unit, inline_helpers, workdir):
    cs = unit.contracts
    keep = sorted(k for k, c in cs.items() if not (inline_helpers and c.helper))
    cfg = dict(unit.cfg)
    world = sorted(k for k, c in cs.items() if any(re.search(r"(?<![\w.])w(?![\w])", t) for _, _, t, _ in c.clauses))
    cfg.update(world=world, root=os.path.join(REPO, "src"), contracted=keep, entry=keep, inline_all=False)
    p = os.path.join(workdir, f"{unit.name}.{'L2' if inline_helpers else 'L1'}.json")
    json.dump(cfg, open(p, "w"))
    r = subprocess.run([tool(), p], capture_output=True, text=True)
    if r.returncode != 0:
        return None, ["extraction failed: " + r.stderr.strip()[-400:]]
    d = json.loads(r.stdout)
    return d["items"], d["errors"]


def generics_of(t):
    m = re.search(r"(?:struct|enum)\s+\w+\s*<(.*?)>\s*(?:\{|\(|where|;)", t["text"], re.S)
    return m.group(1) if m else ""


def arity(text, name):
    """how many types `name` is applied to in `text`"""
    m = re.search(r"\b%s\s*<" % re.escape(name), text)
    if not m:
        return 0
    depth, n = 0, 1
    for c in text[m.end():]:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            if depth == 0:
                return n
            depth -= 1
        elif c == "," and depth == 0:
            n += 1
    return n


def debug(n):
    return f"\n#[verifier::external] impl core::fmt::Debug for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }}"


PLAIN = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "String"}


def plain_clone(ty, types, seen=()):
    """is a derived clone of a value of this type a field-by-field copy the verifier can follow?"""
    ty = re.sub(r"\s+", "", ty)
    m = re.fullmatch(r"Option<(.*)>", ty)
    if m:
        return plain_clone(m.group(1), types, seen)
    if ty in PLAIN or re.match(r"(HashMap|BTreeMap|Addr)<", ty):
        return True
    m = re.fullmatch(r"Vec<(.*)>", ty)
    if m:
        return plain_clone(m.group(1), types, seen)
    t = types.get(ty)
    if t is None or ty in seen or t["kind"] != "struct" or "Clone" not in t["derives"] or generics_of(t).strip():
        return False
    return bool(t["fields"]) and all(plain_clone(x, types, seen + (ty,)) for _, x in t["fields"])


def clone_of(e, ty):
    ty = re.sub(r"\s+", "", ty)
    if ty.startswith("Vec<"):
        return f"vec_clone_(&{e})"
    m = re.fullmatch(r"Option<(.*)>", ty)
    if m and "Vec<" in ty:
        return f"match &{e} {{ Some(x) => Some({clone_of('(*x)', m.group(1))}), None => None }}"
    return f"{e}.clone()"


def derive_impls(t, unit, types=None, assumed=()):
    out = []
    types = types or {}
    if t["kind"] == "type":
        return ""
    skip = unit.cfg.get("no_derive", {}).get(t["name"], [])
    g = re.sub(r"#\[[^\]]*\]", "", generics_of(t)).strip()
    names = [x.split(":")[0].strip() for x in g.split(",") if x.strip()]
    ig = f"<{g}>" if g else ""
    tg = f"<{', '.join(names)}>" if names else ""
    n = t["name"]
    d = t["derives"]
    if "Clone" in d and "Clone" not in skip and n not in assumed and plain_clone(n, types):
        # what derive(Clone) expands to; its contract is proved, not assumed
        fs = ", ".join(f"{f}: {clone_of('self.' + f, ty)}" for f, ty in t["fields"])
        out.append(f"impl Clone for {n} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ Self {{ {fs} }} }} }}")
    elif "Clone" in d and "Clone" not in skip:
        out.append(f"impl{ig} Clone for {n}{tg} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}")
    if "Copy" in d:
        out.append(f"impl{ig} Copy for {n}{tg} {{}}")
    out.append(f"#[verifier::external] impl{ig} core::fmt::Debug for {n}{tg} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }}")
    if "PartialEq" in d and t["kind"] in ("struct", "enum") and not g and n in unit.cfg.get("partial_eq", []):
        out.append(f"impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}")
        out.append(f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}")
    if t["rtype"] is not None and "Message" in d:
        gm = unit.cfg.get("gmsg", {}).get(n, "GMsg::Other")
        ga = unit.cfg.get("gans", {}).get(C.norm(t["rtype"]), "GAns::Other")
        out.append(f"impl{ig} Message for {n}{tg} {{ type Result = {t['rtype']}; open spec fn g_(self) -> GMsg {{ {gm} }} open spec fn ga_(r: {t['rtype']}) -> GAns {{ {ga} }} open spec fn post_(r: {t['rtype']}) -> bool {{ {unit.cfg.get("gpost", {}).get(n, "true")} }} }}")
    if "Builder" in d and t["kind"] == "struct" and n in unit.cfg.get("builders", []):
        out.append(builder(t, ig, tg, types, assumed))
    if "Default" in d and t["kind"] == "struct":
        fs = ", ".join(f"{f}: <{ty} as Default_>::default_()" for f, ty in t["fields"])
        es = " && ".join(f"ret.{f}.is_default_()" for f, ty in t["fields"]) or "true"
        out.append(f"impl{ig} {n}{tg} {{ pub fn default() -> (ret: Self) ensures {es} {{ Self {{ {fs} }} }} }}")
    return "\n".join(out)


def builder(t, ig, tg, types, assumed=()):
    """derive_builder's generated type, as the derive macro documents it; a contract is
    assumed only where a field cannot be cloned field by field (a vector, a map)"""
    n = t["name"]
    b = n + "Builder"
    fs = t["fields"]
    o = [f"pub struct {b}{ig} {{ {', '.join(f'pub {f}: Option<{ty}>' for f, ty in fs)} }}"]
    o.append(f"pub struct {b}Error;" + debug(b + "Error"))
    o.append(f"impl {b}Error {{ pub fn unwrap_(self) requires false {{}} }}")
    none = ", ".join(f"{f}: None" for f, _ in fs)
    same = lambda x: " && ".join([f"final(self).{g} == old(self).{g}" for g, _ in fs if g != x] or ["true"])
    m = [f"pub fn default() -> (ret: Self) ensures {' && '.join(f'ret.{f} is None' for f, _ in fs)} {{ Self {{ {none} }} }}"]
    for f, ty in fs:
        m.append(f"pub fn {f}(&mut self, value: {ty}) -> (ret: &mut Self) ensures "
                 + " && ".join([f"ret.{f} == Some(value)"] + [f"ret.{g} == old(self).{g}" for g, _ in fs if g != f])
                 + f", *final(self) == *final(ret) {{ self.{f} = Some(value); self }}")
    allset = " && ".join(f"self.{f} is Some" for f, _ in fs)
    eq = " && ".join(f"Some(v.{f}) == self.{f}" for f, _ in fs)
    own = n not in assumed and not ig and all(plain_clone(ty, types) for _, ty in fs)
    vals = ", ".join(f"{f}: match &self.{f} {{ Some(x) => {clone_of('(*x)', ty)}, None => return Err({b}Error) }}" for f, _ in fs)
    body = f"Ok({n} {{ {vals} }})" if own else "unimplemented!()"
    m.append(f"{'' if own else '#[verifier::external_body] '}pub fn build(&self) -> (ret: Result<{n}{tg}, {b}Error>) ensures (ret is Ok) == ({allset}), ret matches Ok(v) ==> {eq} {{ {body} }}")
    o.append(f"impl{ig} {b}{tg} {{ {' '.join(m)} }}")
    return "\n".join(o)


class File:
    def __init__(self):
        self.lines = []
        self.refs = []  # parallel: ref of each line

    def add(self, text, ref):
        for l in text.split("\n"):
            self.lines.append(l)
            self.refs.append(ref)

    def text(self):
        return "\n".join(self.lines) + "\n"


class Job:
    """one unit, one property, one ladder level"""

    def __init__(self, unit, pid, inline_helpers, workdir):
        self.u, self.pid, self.workdir = unit, pid, workdir
        self.level = "L2" if inline_helpers else "L1"
        self.inline_helpers = inline_helpers
        self.inv_state = {}  # (loop, idx) -> 0 full, 1 except break, 2 dropped
        self.degraded = {}   # key -> reason
        self.droplog = []
        self.notes = []
        self.excluded = set()
        self.stubs = set()
        self.assumed = set()  # types whose derived impls are assumed, not proved
        self.lost = []
        self.items, errs = extract(unit, inline_helpers, workdir)
        self.fatal = None
        if self.items is None or errs:
            self.fatal = "; ".join(errs)
            return
        self.types = {i["name"]: i for i in self.items if i["kind"] in ("struct", "enum", "type")}
        self.fns = [i for i in self.items if i["kind"] == "fn"]
        self.bykey = {}
        for f in self.fns:
            self.bykey.setdefault(f["key"], f)
        self.select()

    # ------------------------------------------------------------ selection
    def select(self):
        u, pid = self.u, self.pid
        roots = [k for k in u.roots(pid)]
        for k in sorted(roots):
            if k not in self.bykey:
                c = u.contracts.get(k)
                if c is None or not (c.helper or c.optional):
                    self.lost.append(f"function {k} not found in the source")
        self.fns = [f for f in self.fns if f["fnkind"] != "traitdecl"] if False else self.fns
        names = {}
        for f in self.fns:
            names.setdefault(f["key"], []).append(f)
            names.setdefault(f["name"], []).append(f)
            if f["self_name"]:
                names.setdefault("Self::" + f["name"], []).append(f)
        # a listed finding: the handler is left out while the code at its site is what was found
        self.known = sorted(k for k in roots if k in self.bykey and any("src/" + self.bykey[k]["file"] == p and self.bykey[k]["name"].startswith("handle__") and self.bykey[k]["name"].split("__")[1] == m for p, m in KNOWN))
        roots = [k for k in roots if k not in self.known]
        inc, todo = {}, [self.bykey[k] for k in roots if k in self.bykey]
        tainted = {}
        while todo:
            f = todo.pop()
            if f["id"] in inc:
                continue
            inc[f["id"]] = f
            for c in f["calls"]:
                cands = list(names.get(c, []))
                if c in ("into_",):
                    cands += [x for x in self.fns if x["fnkind"] == "from"]
                if "::" in c and c not in names:
                    pass
                for g in cands:
                    if c.startswith("Self::") and g["self_name"] != f["self_name"]:
                        continue
                    if g["inlinable"] and not self.recursive(g):
                        # inlined wherever it is called; only reachable as a value
                        continue
                    if g["fnkind"] == "traitdecl":
                        continue
                    todo.append(g)
                    if not self.clauses(g) and g["fnkind"] not in ("from",) and not self.trivial(g):
                        tainted.setdefault(f["key"], []).append(g["key"])
        self.inc = [f for f in self.fns if f["id"] in inc] + [f for f in self.fns if f["fnkind"] == "traitdecl" and f["id"] not in inc]
        self.tainted = tainted
        for f in self.inc:
            if f["unsupported"]:
                self.degraded[f["key"]] = "; ".join(f["unsupported"])
        # what a destructor does where a value goes out of scope is not in the text that is checked
        drops = [f["key"] for f in self.fns if f["name"] == "drop__" and f["key"] not in u.contracts]
        if drops:
            for f in self.inc:
                self.degraded.setdefault(f["key"], f"{drops[0]}: destructors are not taken into account")
        # the encodings in the contracts are those of plainly derived (de)serialisation
        odd = [n for n in self.u.cfg.get("serde", []) if n in self.types and (any("serde" in a for a in self.types[n]["attrs"]) or not {"Serialize", "Deserialize"} <= set(self.types[n]["derives"]))]
        if odd:
            for f in self.inc:
                if "serde_json__" in f["text"]:
                    self.degraded.setdefault(f["key"], f"the encoding of {', '.join(odd)} is not the derived one")

    def recursive(self, g):
        return g["key"] in g["calls"]

    def trivial(self, g):
        return g["key"] in self.u.contracts

    def clauses(self, f):
        c = self.u.contracts.get(f["key"])
        if c is None:
            return []
        return [x for x in c.clauses if x[0] in ("requires", "ensures", "decreases") and (self.pid in x[1] or "*" in x[1])]

    # ------------------------------------------------------------ text
    def subst(self, f, text):
        c = self.u.contracts[f["key"]]
        mapping = {}
        have = [p for p in f["params"]]
        want = c.params
        if f["fnkind"] == "from":
            have, want = ["self"], ["self"] if "self" in want else []
            have = have[: len(want)]
        if len(have) != len(want):
            raise C.LostAnchor(f"{f['key']}: parameters {have} do not match the contract's {want}")
        for a, b in zip(want, have):
            if a != b:
                mapping[a] = b
        t = C.subst_idents(text, mapping)
        if f["fnkind"] == "from":
            t = re.sub(r"(?<![\w.])ret\b", f"as_ty_::<{f['ret']}>(ret)", t)
        return C.resolve_fields(t, self.types, self.u.cfg.get("fields", {}))

    def loop_invs(self, f, loop):
        c = self.u.contracts.get(f["key"])
        if c is None:
            return []
        out = []
        for i, (k, tg, text, ref) in enumerate(c.clauses):
            if k != "inv":
                continue
            if not (self.pid in tg or "*" in tg):
                continue
            for j, t in enumerate(self.inst_inv(f, loop, text)):
                out.append(((loop["id"], i, j), t, ref))
        return out

    def survivors(self):
        """per function, the invariants that hold of its loops"""
        out = {}
        for f in self.inc:
            c = self.u.contracts.get(f["key"])
            if c is None or not f["loops"] or f["key"] in self.degraded:
                continue
            for l in f["loops"]:
                for cid, t, ref in self.loop_invs(f, l):
                    st = self.inv_state.get(cid, 0)
                    if st < 2:
                        out.setdefault(f["key"], []).append(f"{st} {c.clauses[cid[1]][2].strip()}")
        return {k: sorted(set(v)) for k, v in out.items()}

    def inst_inv(self, f, loop, text):
        if "$k" in text:
            if not loop["pos"]:
                return []
            text = text.replace("$k", loop["pos"] + (" as int" if loop["kind"] == "range" else ""))
        if "$it" in text:
            if loop["kind"] != "iter":
                return []
            text = text.replace("$it", loop["it"])
        if "$end" in text:
            if loop["kind"] != "range":
                return []
            text = text.replace("$end", loop["it"])
        out = [text]
        for m in dict.fromkeys(re.findall(r"\$l\d?\((?:[^()\\]|\\.)*\)", text)):
            pat = m[m.index("(") + 1:-1]
            c = [n for n, mut, init in loop["locals"] if re.search(pat, init.replace(" ", ""))]
            out = [t.replace(m, n) for t in out for n in dict.fromkeys(c)]
        return [self.inst_w(t, loop) for t in out]

    def inst_w(self, text, loop):
        text = text.replace("*$w", "__tw" if loop["in_async"] else "*w")
        text = text.replace("$w0", "__w0_" + loop["id"]).replace("$s0", "__s0_" + loop["id"])
        return text.replace("$w", "__tw" if loop["in_async"] else "w")

    def emit_fn(self, F, f, canary=False):
        key = f["key"]
        text = f["text"]
        cl = self.clauses(f)
        deg = key in self.degraded
        head, sep, rest = None, None, None
        marker = f"@@__CLAUSES__{f['id']}@@"
        pre, post = text.split(marker)
        if canary:
            pre = re.sub(r"\bfn " + re.escape(f["name"]) + r"\b", f"fn {f['name']}__canary", pre, count=1)
        ref = ("fn", key, canary)
        if deg:
            pre = pre.replace("#[verifier :: exec_allows_no_decreases_clause]", "")
            pre = re.sub(r"(\bpub )?\bfn (" + re.escape(f["name"]) + r"|into_)\b", "#[verifier::external_body] \\g<0>", pre, count=1)
        F.add(pre, ref)
        groups = {}
        for i, (kind, tg, t, r) in enumerate(cl):
            if kind == "decreases" and deg:
                continue
            if kind == "ensures" and canary:
                continue
            groups.setdefault(kind, []).append((self.subst(f, t), r))
        if canary:
            groups["ensures"] = [("false", "canary")]
        for kind in ("requires", "ensures", "decreases"):
            if kind in groups:
                F.add("  " + kind, ref)
                for t, r in groups[kind]:
                    F.add(f"    ({t})," if kind != "decreases" else f"    {t},", ("clause", key, kind, r, t, canary))
        if f["fnkind"] == "traitdecl":
            F.add(post, ref)
            return
        if deg:
            n = 1 if f["fnkind"] == "free" else 2
            F.add("  { unimplemented!() " + "}" * n, ref)
            return
        # body
        parts = re.split(r"@@(__INV__|__HOOK__|__SNAP__|__SELFSNAP__)(\w+)@@", post)
        F.add(parts[0], ref)
        loops = {l["id"]: l for l in f["loops"]}
        for i in range(1, len(parts), 3):
            tag, ident, rest = parts[i], parts[i + 1], parts[i + 2]
            if tag == "__SNAP__":
                l = loops[ident]
                if f["self"] == "mut" and not l["in_async"] and l["kind"] != "iter":
                    F.add(f"    let ghost __s0_{ident} = *self;", ref)
                if l["in_async"] or "Tracked(w)" in pre:
                    F.add(f"    let ghost __w0_{ident} = {'__tw' if l['in_async'] else '*w'};", ref)
            elif tag == "__SELFSNAP__":
                if f["self"] == "mut" and not loops[ident]["in_async"]:
                    F.add(f"    let ghost __s0_{ident} = *self;", ref)
            elif tag == "__HOOK__":
                if self.u.cfg.get("broadcast"):
                    F.add("    broadcast use {" + ", ".join(self.u.cfg["broadcast"]) + "};", ref)
                c = self.u.contracts.get(key)
                if c:
                    for (kind, tg, t, r) in c.clauses:
                        if kind == "hook" and (self.pid in tg or "*" in tg):
                            F.add("    " + self.subst(f, t), ("hook", key, r))
            else:
                l = loops[ident]
                invs = self.loop_invs(f, l)
                for state, word in ((1, "invariant_except_break"), (0, "invariant"), (9, "ensures")):
                    sel = [(cid, t, r) for cid, t, r in invs if self.inv_state.get(cid, 0) == state]
                    if word == "invariant" and l["kind"] == "range":
                        sel = [(("auto", ident, 0), f"{l['pos']} <= {l['it']}", "auto")] + sel if self.inv_state.get(("auto", ident, 0), 0) == 0 else sel
                    if word == "invariant" and l["kind"] in ("iter", "range"):
                        for n, (lc, mut, init) in enumerate(l["locals"]):
                            cid = ("auto", ident, 10 + n)
                            if lc.startswith("__n") and init.replace(" ", "") == "usize=0" and self.inv_state.get(cid, 0) == 0:
                                sel = [(cid, f"{lc} as int == {l['pos']}", "auto")] + sel
                    if word == "invariant" and l["kind"] == "iter":
                        for n, t in enumerate((f"{l['it']}.wf()", f"{l['it']}.same_source_({l['it']}__0)")):
                            if self.inv_state.get(("auto", ident, n), 0) == 0:
                                sel = [(("auto", ident, n), t, "auto")] + sel
                    for n, (kind, t) in enumerate(l.get("auto", [])):
                        cid = ("auto", ident, 100 + n)
                        if kind == word and self.inv_state.get(cid, 0) == 0:
                            sel = sel + [(cid, t, "auto")]
                    if sel:
                        F.add("    " + word, ref)
                        for cid, t, r in sel:
                            if r != "auto":
                                try:
                                    t = self.subst(f, t)
                                except C.LostAnchor:
                                    continue
                            F.add(f"      ({t}),", ("inv", key, cid, r, t))
            F.add(rest, ref)

    def assemble(self, canary=False, support=False):
        F = File()
        F.add(HEADER, ("head",))
        # support code in modules of its own: the functions under contract are verified without it being verified again each time
        F.add("pub mod env_ {\nuse super::*; use vstd::prelude::*; use vstd::std_specs::vec::*;", ("head",))
        for p in self.u.cfg["env"]:
            F.add(open(os.path.join(UNITS, p)).read(), ("env", p))
        F.add("}\npub use env_::*;\npub mod spec_ {\nuse super::*; use vstd::prelude::*; use vstd::std_specs::vec::*;", ("head",))
        for p in self.u.cfg["spec"]:
            F.add(C.resolve_fields(open(os.path.join(UNITS, p)).read(), self.types, self.u.cfg.get("fields", {})), ("spec", p))
        F.add("}\npub use spec_::*;", ("head",))
        opaque = set(self.u.cfg.get("opaque_types", []))
        have = set(self.types)
        for o in opaque:
            if o not in have:
                F.add(f"#[verifier::external_body] pub struct {o} {{ _p: () }}" + debug(o), ("types", o))
        for x in sorted(self.stubs):
            # a type of a library that has no contract here: nothing is known of it
            t = " ".join(i["text"] for i in self.items if i["kind"] in ("struct", "enum", "type"))
            k = arity(t, x)
            g = "<" + ", ".join(f"T{n}" for n in range(k)) + ">" if k else ""
            gs = g.replace(",", ": ?Sized,").replace(">", ": ?Sized>")
            F.add("#[verifier::external_body] " + "".join(f"#[verifier::accept_recursive_types(T{n})] " for n in range(k))
                  + f"pub struct {x}{gs} {{ {' '.join(f'_p{n}: core::marker::PhantomData<T{n}>,' for n in range(k))} }}"
                  + ("" if k else debug(x))
                  + f"\nimpl{gs} Default_ for {x}{g} {{ open spec fn is_default_(&self) -> bool {{ true }} #[verifier::external_body] fn default_() -> (ret: Self) {{ unimplemented!() }} }}"
                  + f"\nimpl{gs} Clone for {x}{g} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) {{ unimplemented!() }} }}", ("types", x))
        for i in self.items:
            if i["kind"] == "const":
                F.add(i["text"], ("types", i["name"]))
            elif i["kind"] in ("struct", "enum", "type"):
                if i["name"] in opaque:
                    F.add(f"#[verifier::external_body] pub struct {i['name']} {{ _p: () }}" + debug(i["name"]), ("types", i["name"]))
                else:
                    F.add(i["text"], ("types", i["name"]))
                    F.add(derive_impls(i, self.u, self.types, self.assumed), ("types", i["name"]))
        for f in [] if support else self.inc:
            self.emit_fn(F, f)
        if canary:
            for f in self.inc:
                if f["fnkind"] in ("inherent", "free") and f["key"] not in self.degraded:
                    self.emit_fn(F, f, canary=True)
        F.add("fn main() {}\n} // verus!", ("end",))
        return F

    # ------------------------------------------------------------ running
    def verus(self, F, name, extra=("--verify-root",), multi=6):
        path = os.path.join(self.workdir, name + ".rs")
        F.path = path
        open(path, "w").write(F.text())
        logd = os.path.join(self.workdir, name + ".log")
        cmd = ["verus", path, "--error-format=json", "--output-json", "--time-expanded", "--num-threads", "8", "--multiple-errors", str(multi),
               "--no-report-long-running", "--rlimit", str(self.u.cfg.get("rlimit", 30)), "--log", "air", "--log-dir", logd, *extra]
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=400, cwd=self.workdir)
        except subprocess.TimeoutExpired:
            return dict(diags=[], summary={}, wall=time.time() - t, timeout=True, path=path, stderr="timeout", cmd=cmd, log=logd)
        diags, rest = [], []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
                elif d.get("level") == "error" and "aborting" not in d.get("message", ""):
                    diags.append(d)
            except json.JSONDecodeError:
                rest.append(l)
        try:
            summary = json.loads(r.stdout)
        except json.JSONDecodeError:
            summary = {}
        return dict(diags=diags, summary=summary, wall=time.time() - t, timeout=False, path=path, stderr="\n".join(rest), cmd=cmd, log=logd,
                    rc=r.returncode)

    def locate(self, F, d):
        """(owner fn key, clause ref or None, primary line) of a diagnostic"""
        spans = d["spans"]
        refs = []
        for s in spans:
            n = s["line_start"] - 1
            if os.path.basename(s["file_name"]) == os.path.basename(getattr(F, "path", s["file_name"])) and 0 <= n < len(F.refs):
                refs.append((F.refs[n], s))
            # macro expansions etc. carry other files
        return refs

    def support(self):
        """verify the lemmas and models the contracts use, apart from the functions of the source"""
        try:
            F = self.assemble(support=True)
        except C.LostAnchor as e:
            return dict(why=str(e))
        r = self.verus(F, f"{self.u.name}_{self.pid}_{self.level}_support", extra=("--verify-module", "env_", "--verify-module", "spec_"))
        vr = r["summary"].get("verification-results", {})
        n = sum(self.obligations(r["log"], F, m + ".air", True)[0] for m in ("env_", "spec_"))
        bad = [(d, self.locate(F, d)) for d in r["diags"]]
        ok = not bad and not r["timeout"] and vr.get("errors") == 0 and (vr.get("verified") or 0) > 0
        return dict(ok=ok, F=F, fails=bad, obligations=n, verified=vr.get("verified"), wall=r["wall"], smt_ms=r["summary"].get("times-ms", {}).get("smt", {}).get("smt-run"),
                    why=None if ok else "a lemma of the specification was not accepted: " + (bad[0][0]["message"] if bad else "timeout" if r["timeout"] else r["stderr"][-300:]))

    def obligations(self, log, F, name="root.air", support=False):
        """obligations per function, counted in the verification conditions the verifier generated"""
        n, per, cur = 0, {}, None
        p = os.path.join(log, name)
        if not os.path.exists(p):
            return 0, {}
        take = False
        for line in open(p):
            if line.startswith(";; "):
                if line.startswith(";; Function-"):
                    take = "Recommends" not in line and "Axioms" not in line and "Specs" not in line
                    cur = None
                else:
                    m = re.match(r";; .*?\.rs:(\d+):", line)
                    if m and take:
                        i = int(m.group(1)) - 1
                        ref = F.refs[i] if i < len(F.refs) else None
                        cur = ref[1] if ref and ref[0] in ("fn", "clause") else (ref[0] if ref else None)
            elif take and cur and line.strip() == "(assert":
                n += 1
                per[cur] = per.get(cur, 0) + 1
        return n, per

    def decide(self):
        """verify; drop invariant candidates that do not hold; set aside what the verifier cannot read"""
        if self.fatal:
            return dict(status="undecided", why=self.fatal)
        box = {}
        th = threading.Thread(target=lambda: box.update(self.support()))
        th.start()
        r = self.decide_root()
        th.join()
        if self.stubs and not box.get("ok"):
            box = self.support()
        r["support"] = box
        if r["status"] == "proved" and not box.get("ok"):
            r.update(status="undecided", why=box.get("why") or "the support code was not verified")
        return r

    def decide_root(self):
        total = 0.0
        for rnd in range(40):
            try:
                F = self.assemble()
            except C.LostAnchor as e:
                return dict(status="undecided", why=str(e))
            r = self.verus(F, f"{self.u.name}_{self.pid}_{self.level}")
            total += r["wall"]
            if r["timeout"]:
                return dict(status="undecided", why="verifier timed out", run=r)
            dropped = False
            compile_errs, fails, und = [], [], []
            for d in r["diags"]:
                refs = self.locate(F, d)
                msg = d["message"]
                if any(x in msg for x in UNDECIDED):
                    und.append((d, refs))
                elif d.get("code") is None and any(msg.startswith(x) or x in msg for x in FAILED):
                    fails.append((d, refs))
                else:
                    compile_errs.append((d, refs))
            # a compile error in an invariant candidate: not applicable to that loop
            for d, refs in compile_errs + fails:
                for ref, s in refs:
                    if ref[0] == "inv" and (s["is_primary"] or "invariant" in d["message"] or "loop ensures" in d["message"] or d in [c[0] for c in compile_errs]):
                        cid = ref[2]
                        st = self.inv_state.get(cid, 0)
                        isc = any(d is c[0] for c in compile_errs)
                        if isc or "before loop" in d["message"] or st == 1 or cid[0] == "auto":
                            self.inv_state[cid] = 2
                        elif "at end of loop body" in d["message"]:
                            self.inv_state[cid] = 2
                        else:
                            self.inv_state[cid] = 1
                        dropped = True
                        self.droplog.append((cid, self.inv_state.get(cid), d["message"][:200], ref[4][:200]))
            if dropped:
                continue
            # a derived impl that cannot be followed field by field is assumed instead
            odd = {ref[1] for d, refs in compile_errs + fails + und for ref, s in refs if ref[0] == "types" and s["is_primary"]} - self.assumed
            if odd:
                self.assumed |= odd
                self.notes.append("derived impls assumed: " + ", ".join(sorted(odd)))
                continue
            if compile_errs:
                moved = False
                for d, refs in compile_errs:
                    own = [ref[1] for ref, s in refs if ref[0] in ("fn", "hook") and s["is_primary"]] or [ref[1] for ref, s in refs if ref[0] in ("fn", "hook")]
                    for k in own[:1]:
                        if k in self.degraded and k not in self.excluded:
                            self.excluded.add(k)
                            self.inc = [f for f in self.inc if f["key"] != k]
                            moved = True
                        if k not in self.degraded:
                            self.degraded[k] = "not accepted by the verifier: " + d["message"][:300]
                            self.notes.append(d.get("rendered", ""))
                            moved = True
                if moved:
                    continue
                # a field of a type that is unknown here
                for d, refs in compile_errs:
                    m = re.match(r"cannot find type `(\w+)` in this scope", d["message"])
                    if m and m.group(1) not in self.stubs and any(ref[0] == "types" for ref, s in refs):
                        self.stubs.add(m.group(1))
                        moved = True
                if moved:
                    continue
                d = compile_errs[0][0]
                return dict(status="undecided", why="assembled file rejected: " + d["message"][:300] + " @" + str([(x[0][:2], x[1]["line_start"]) for x in compile_errs[0][1]][:2]), run=r, F=F)
            break
        else:
            return dict(status="undecided", why="no fixpoint of invariant candidates")
        nob, per = self.obligations(r["log"], F)
        vr = r["summary"].get("verification-results", {})
        smt = r["summary"].get("times-ms", {}).get("smt", {})
        res = dict(run=r, F=F, wall=total, obligations=nob, per_fn=per, verified=vr.get("verified"), errors=vr.get("errors"),
                   smt_ms=smt.get("smt-run"), fails=fails, und=und)
        if not vr:
            res.update(status="undecided", why="verifier produced no result: " + r["stderr"][-300:])
        elif fails:
            res["status"] = "failed"
        elif und:
            res.update(status="undecided", why=und[0][0]["message"])
        elif vr.get("errors") == 0 and not vr.get("encountered-error") and not vr.get("encountered-vir-error") and r.get("rc") == 0:
            res["status"] = "proved"
        else:
            res.update(status="undecided", why="verifier reported: " + json.dumps(vr))
        return res

    def describe(self, F, d):
        refs = self.locate(F, d)
        fn, clause, line = None, None, None
        for ref, s in refs:
            if ref[0] == "fn" and fn is None:
                fn = ref[1]
            if ref[0] == "clause":
                clause = f"{ref[2]} {ref[4]}  [{ref[3]}] of {ref[1]}"
                if fn is None:
                    fn = ref[1]
            if ref[0] == "inv":
                clause = f"loop invariant {ref[4]} [{ref[3]}]"
                fn = fn or ref[1]
            if ref[0] in ("env", "spec"):
                n = s["line_start"] - 1
                clause = clause or (F.lines[n].strip() + f"  [{ref[1]}]")
        code = ""
        for ref, s in refs:
            if ref[0] == "fn":
                code = F.lines[s["line_start"] - 1].strip()
                break
        it = self.bykey.get(fn)
        src = f"src/{it['file']}:{it['line']}" if it else None
        return dict(function=fn, source=src, obligation=d["message"], clause=clause, code=code)

    def canary(self):
        """every function under contract must be able to reach its end: `ensures false` must fail for it"""
        if self.fatal:
            return None
        F = self.assemble(canary=True)
        r = self.verus(F, f"{self.u.name}_{self.pid}_{self.level}_canary", multi=0)
        want = set(f["key"] for f in self.inc if f["fnkind"] in ("inherent", "free") and f["key"] not in self.degraded)
        bad = set()
        for d in r["diags"]:
            for ref, s in self.locate(F, d):
                if ref[0] in ("fn", "clause") and ref[-1] is True:
                    bad.add(ref[1])
        exempt = set(self.u.cfg.get("diverging", []))
        return dict(expected=len(want - exempt), failed=len(want & bad), vacuous=sorted(want - bad - exempt), wall=r["wall"], diags=len(r["diags"]), rc=r.get("rc"))
