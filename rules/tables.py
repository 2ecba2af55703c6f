"""Constant tables read off the program: (key, value) pairs of maps and arms, without running anything."""
from facts import const_int


class Consts:
    """The constant that an operand is known to hold, from its only definition."""

    def __init__(self, F):
        self.F = F
        self.memo = {}

    def defs(self, body):
        r = self.memo.get(id(body))
        if r is None:
            r = {}
            for i in body.reachable():
                for s in body.bbs[i].stmts:
                    if s[0] == "=" and not s[1][1]:
                        r.setdefault(s[1][0], []).append(("rv", s[2]))
                    elif s[0] == "=":
                        r.setdefault(s[1][0], []).append(("part", s[2]))
                c = body.bbs[i].call
                if c is not None and not c.dest[1]:
                    r.setdefault(c.dest[0], []).append(("call", c))
            self.memo[id(body)] = r
            self.memo[("keep", id(body))] = body
        return r

    def operand(self, fn, body, o, n=0):
        if n > 60:
            return None
        if o[0] == "k":
            if o[2] == "s":
                return o[3]
            if o[2] == "i":
                return chr(o[3]) if str(o[1]) == "char" and isinstance(o[3], int) else o[3]
            if o[2] == "p":
                pb = fn.promoted(o[3])
                return self.local(fn, pb, 0, n + 1) if pb is not None else None
            if o[2] == "static":
                return ("static", o[3])
            nm = o[4] if len(o) > 4 else None
            if nm and nm in self.F.fns and self.F.fns[nm].kind == "const":
                f2 = self.F.fns[nm]
                return self.local(f2, f2.body, 0, n + 1)
            return None
        base, proj = o[1]
        v = self.local(fn, body, base, n + 1)
        for e in proj:
            if v is None:
                return None
            if e == "*":
                continue
            if isinstance(e, tuple) and e[0] == "f":
                if isinstance(v, tuple) and v[0] == "agg":
                    names, vals = v[3], v[4]
                    if e[1] in names:
                        v = vals[names.index(e[1])]
                        continue
                    return None
                if isinstance(v, list):
                    try:
                        v = v[int(e[1])]
                        continue
                    except Exception:
                        return None
                return None
            if isinstance(e, tuple) and e[0] == "v":
                continue
            return None
        return v

    def local(self, fn, body, l, n=0):
        if n > 60:
            return None
        ds = self.defs(body).get(l, [])
        if len(ds) != 1:
            return None
        k, r = ds[0]
        if k == "part":
            return None
        if k == "call":
            if r.last == "deref" and r.args:
                return self.operand(fn, body, r.args[0], n + 1)
            if r.last == "index" and len(r.args) == 2:
                m = self.operand(fn, body, r.args[0], n + 1)
                i = self.operand(fn, body, r.args[1], n + 1)
                return ("index", m, i) if i is not None else None
            if r.last in ("into", "to_string", "from", "to_owned", "clone", "as_str") and len(r.args) == 1:
                return self.operand(fn, body, r.args[0], n + 1)
            return None
        if r[0] == "use":
            return self.operand(fn, body, r[1], n + 1)
        if r[0] == "ref":
            return self.operand(fn, body, ("c", r[2]), n + 1)
        if r[0] == "cast":
            return self.operand(fn, body, r[2], n + 1)
        if r[0] in ("tup", "arr"):
            return [self.operand(fn, body, o, n + 1) for o in (r[1] if isinstance(r[1], (list, tuple)) else r[2])]
        if r[0] == "agg":
            if not r[4]:
                return ("V", r[1], r[2])
            return ("agg", r[1], r[2], list(r[3]), [self.operand(fn, body, o, n + 1) for o in r[4]])
        return None


def show_v(v):
    return v[2] if isinstance(v, tuple) and v and v[0] == "V" else v


def inserts(F, C, fn):
    """(key, value, line) of each `map.insert(constant, constant)` and each constant pair of fn"""
    body = fn.body
    out = []
    for i in sorted(body.reachable()):
        c = body.bbs[i].call
        if c is not None and c.last in ("insert", "push") and not F.targets(c):
            vs = [C.operand(fn, body, a) for a in c.args[1:]]
            if len(vs) == 1 and isinstance(vs[0], list):
                vs = vs[0]
            if len(vs) == 2 and None not in vs:
                out.append((vs[0], vs[1], c.line))
    return out


def lists(v, want):
    """the nested constant lists of v that `want` accepts"""
    if isinstance(v, list):
        if want(v):
            yield v
        for x in v:
            yield from lists(x, want)
