"""Contract files: parsing, tag selection, renaming to the parameter and field names of the current source."""
import re

KW = ("requires", "ensures", "inv", "relevant", "fn", "helper", "optional", "hook", "decreases")


class Contract:
    def __init__(self, key, params, helper):
        self.key, self.params, self.helper = key, params, helper
        self.optional = False  # may be absent from the source, counts when there
        self.clauses = []  # (kind, tags, text, srcref)

    def tags(self):
        t = set()
        for k, tg, _, _ in self.clauses:
            if k in ("requires", "ensures"):
                t |= tg
        return t


def norm(s):
    return re.sub(r"\s+", "", s)


def parse(paths):
    cs, relevant = {}, {}
    for path in paths:
        cur, last, buf = None, None, None

        def flush():
            nonlocal buf
            if buf is not None:
                kind, tags, text, ref = buf
                cur.clauses.append((kind, tags, text.strip(), ref))
                buf = None

        for n, line in enumerate(open(path), 1):
            s = line.strip()
            if not s or s.startswith("#"):
                continue
            word = re.match(r"[a-z]+", s)
            word = word.group(0) if word else ""
            indent = line[0] == " "
            if not indent and word in ("fn", "helper", "optional"):
                if cur is not None:
                    flush()
                helper = word == "helper"
                body = s.split("fn ", 1)[1]
                m = re.match(r"(.*?)\(([^()]*)\)\s*$", body)
                if not m:
                    raise SystemExit(f"{path}:{n}: bad fn line: {s}")
                key = norm(m.group(1))
                params = [p.strip() for p in m.group(2).split(",") if p.strip()]
                cur = cs.get(key)
                if cur is None:
                    cur = Contract(key, params, helper)
                    cur.optional = word == "optional"
                    cs[key] = cur
            elif not indent and word == "relevant":
                if cur is not None:
                    flush()
                p = s.split()
                relevant.setdefault(p[1], set()).update(norm(x) for x in p[2:])
            elif indent and re.match(r"(requires|ensures|hook|decreases|inv)(\[[^\]]*\])?\s", s):
                flush()
                m = re.match(r"(\w+)(?:\[([^\]]*)\])?\s+(.*)$", s)
                tags = set(t.strip() for t in (m.group(2) or "*").split(","))
                buf = (m.group(1), tags, m.group(3), f"{path.split('/units/')[-1]}:{n}")
            else:
                if buf is None:
                    raise SystemExit(f"{path}:{n}: stray line: {s}")
                buf = (buf[0], buf[1], buf[2] + " " + s, buf[3])
        if cur is not None:
            flush()
    return cs, relevant


def subst_idents(text, mapping):
    """rename whole identifiers that are not preceded by `.` (fields and methods keep their names)"""
    if not mapping:
        return text
    pat = re.compile(r"(?<![\w.$@])(" + "|".join(re.escape(k) for k in mapping) + r")(?![\w])(?!\s*::)")
    return pat.sub(lambda m: mapping[m.group(1)], text)


class LostAnchor(Exception):
    pass


def resolve_fields(text, types, expected):
    """`@Type.field@` -> the field's current name (by name, else by unique type)"""

    def one(m):
        tn, fn = m.group(1), m.group(2)
        t = types.get(tn)
        if t is None:
            raise LostAnchor(f"type {tn} not found in the source")
        want = norm(expected.get(f"{tn}.{fn}", ""))
        fields = t["fields"]
        for n, ty in fields:
            if n == fn and (not want or norm(ty) == want):
                return n
        if want:
            c = [n for n, ty in fields if norm(ty) == want]
            if len(c) == 1:
                return c[0]
        raise LostAnchor(f"field {tn}.{fn} not found in the source")

    return re.sub(r"@(\w+)\.(\w+)@", one, text)
