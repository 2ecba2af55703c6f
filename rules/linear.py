"""Which values are thrown away on a path that goes on to succeed (path-sensitive over drop flags and known variants)."""
from cover import is_err_block
from flow import place_ty
from facts import const_int


class Drops:
    def __init__(self, F, holds, cap=40000):
        """`holds(type, variant or None)`: a value of the type (in that variant) may hold what must not be lost"""
        self.F, self.holds, self.cap = F, holds, cap

    def variants_held(self, ty, name):
        a = self.F.adts.get(ty.path)
        if a is None:
            if ty.path in ("core::option::Option",):
                return name != "None"
            if ty.path == "core::result::Result":
                return self.holds(ty.args[0 if name == "Ok" else 1])
            if ty.path == "core::ops::control_flow::ControlFlow":
                return self.holds(ty.args[1 if name == "Continue" else 0])
            return True
        v = a.variant(name)
        return v is None or any(self.holds(t) for _, t, _ in v.fields)

    def name_of(self, ty, d):
        std = {"core::option::Option": ("None", "Some"), "core::result::Result": ("Ok", "Err"),
               "core::ops::control_flow::ControlFlow": ("Continue", "Break")}
        if ty.path in std:
            return std[ty.path][d] if d in (0, 1) else None
        a = self.F.adts.get(ty.path)
        if a is None or a.kind != "enum":
            return None
        for v in a.variants:
            if int(v.discr) == d:
                return v.name
        return None

    def lost(self, fn, failing=()):
        """`failing`: further blocks that make the function give up; [(block of the drop, place, type)] of drops that a succeeding path passes"""
        F, body = self.F, fn.body
        R = body.reachable()
        drops = {}
        for i in R:
            t = body.bbs[i].term
            if t[0] == "drop":
                ty = place_ty(F, body, t[1])
                if ty is not None and self.holds(ty):
                    drops[i] = (t[1], ty)
        if not drops:
            return []
        err = {i for i in R if is_err_block(F, body, i)} | set(failing)
        rets = [i for i in R if body.bbs[i].term[0] == "ret"]
        ok = set()
        preds = body.preds()
        st = [r for r in rets if r not in err]
        while st:
            b = st.pop()
            if b in ok:
                continue
            ok.add(b)
            st += [p for p in preds[b] if p not in err]
        drops = {i: v for i, v in drops.items() if i in ok}
        if not drops:
            return []
        # bools assigned constants only
        flags = {}
        for i in R:
            for s in body.bbs[i].stmts:
                if s[0] == "=" and not s[1][1]:
                    v = s[2][1] if s[2][0] == "use" else None
                    c = v is not None and v[0] == "k" and str(v[1]) == "bool"
                    flags[s[1][0]] = flags.get(s[1][0], True) and bool(c)
            c = body.bbs[i].call
            if c is not None and not c.dest[1]:
                flags[c.dest[0]] = False
        flags = {l for l, v in flags.items() if v and str(body.locals[l][0]) == "bool"}
        use = self.uses(body, drops)
        up = {}

        def root(x):
            while up.get(x, x) != x:
                x = up[x]
            return x
        for i in R:
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[2][0] in ("use", "ref"):
                    o = s[2][1] if s[2][0] == "use" else ("m", s[2][2])
                    if o[0] in ("c", "m") and (self.holds(body.locals[s[1][0]][0]) and self.holds(body.locals[o[1][0]][0])):
                        up[root(s[1][0])] = root(o[1][0])
            c = body.bbs[i].call
            if c is not None and c.last in ("branch", "next") and c.args and c.args[0][0] in ("c", "m"):
                up[root(c.dest[0])] = root(c.args[0][1][0])
        out = []
        for d in sorted(drops):
            near = {d}
            for _ in range(2):
                near |= {q for x in list(near) for q in preds[x] if body.bbs[q].term[0] in ("goto", "switch")}
            rel = set()
            for i in near:
                t = body.bbs[i].term
                if t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1]:
                    rel.add(t[1][1][0])
            me = root(drops[d][0][0])
            tr = {l for l in range(len(body.locals)) if root(l) == me}
            r = self.one(fn, {d: drops[d]}, ok, flags & rel, tr, use)
            if r is None:
                return None
            out += r
        return out

    def one(self, fn, drops, live, flags, tr, use):
        F, body = self.F, fn.body
        seen, found, n = set(), {}, 0
        work = [(0, frozenset(), frozenset())]
        while work:
            b, st, hit = work.pop()
            if (b, st, hit) in seen or b not in live:
                continue
            seen.add((b, st, hit))
            n += 1
            if n > self.cap:
                return None
            S = dict(st)
            bb = body.bbs[b]
            for s in bb.stmts:
                if s[0] == "=":
                    d, r = s[1], s[2]
                    known = None
                    if r[0] == "use" and r[1][0] in ("c", "m") and ("K",) + r[1][1] in S:
                        known = S[("K",) + r[1][1]]
                    if r[0] == "agg" and r[2]:
                        known = r[2]
                    if r[0] == "discr":
                        S[("D", d[0])] = r[1]
                    self.clear(S, d)
                    if r[0] == "discr":
                        S[("D", d[0])] = r[1]
                    if r[0] == "ref":
                        q = r[2]
                        if q[1][:1] == ("*",) and ("R", q[0]) in S:
                            b0 = S[("R", q[0])]
                            q = (b0[0], b0[1] + q[1][1:])
                        S[("R", d[0])] = q
                    if known is not None:
                        S[("K",) + d] = known
                    if not d[1] and d[0] in flags:
                        S[("B", d[0])] = const_int(r[1])
                elif s[0] == "sd":
                    pass
            t = bb.term
            nxt = [(x, S) for x in bb.succ()]
            if t[0] == "drop":
                pl, ty = t[1], place_ty(F, body, t[1])
                if b in drops:
                    k = S.get(("K",) + pl)
                    if self.may_hold(S, pl, ty):
                        hit = hit | {b}
            elif t[0] == "call":
                c = bb.call
                arg = c.args[0] if c.args else None
                S2 = dict(S)
                self.clear(S2, c.dest)
                if c.last == "next" and arg and arg[0] in ("c", "m") and not arg[1][1] and ("R", arg[1][0]) in S:
                    S2[("N",) + c.dest] = S[("R", arg[1][0])]
                if c.last == "branch" and arg and arg[0] in ("c", "m") and ("K",) + arg[1] in S:
                    k = S[("K",) + arg[1]]
                    S2[("K",) + c.dest] = {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break"}.get(k, k)
                if c.last in ("is_some", "is_none", "is_ok", "is_err") and arg and arg[0] in ("c", "m") and ("R", arg[1][0]) in S:
                    S2[("P", c.dest[0])] = (S[("R", arg[1][0])], c.last)
                nxt = [(x, S2) for x in bb.succ()]
            elif t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1]:
                l = t[1][1][0]
                if ("B", l) in S:
                    v = S[("B", l)]
                    tb = [x for w, x in t[2] if int(w) == v]
                    nxt = [(tb[0] if tb else t[3], S)]
                elif ("P", l) in S and [int(w) for w, _ in t[2]] == [0]:
                    pl, q = S[("P", l)]
                    yes = {"is_some": ("Some", "None"), "is_none": ("None", "Some"), "is_ok": ("Ok", "Err"), "is_err": ("Err", "Ok")}[q]
                    cur = S.get(("K",) + pl)
                    nxt = []
                    for nm, x in ((yes[1], t[2][0][1]), (yes[0], t[3])):
                        if cur in (None, nm):
                            S2 = dict(S)
                            self.know(S2, pl, nm)
                            nxt.append((x, S2))
                elif ("D", l) in S:
                    pl = S[("D", l)]
                    ty = place_ty(F, body, pl)
                    ty = ty.peel() if ty is not None else None
                    if ty is not None and ty.kind == "adt":
                        cur = S.get(("K",) + pl)
                        nxt = []
                        names = []
                        for w, x in t[2]:
                            nm = self.name_of(ty, int(w))
                            names.append(nm)
                            if cur is not None and nm is not None and cur != nm:
                                continue
                            S2 = dict(S)
                            if nm is not None:
                                self.know(S2, pl, nm)
                            nxt.append((x, S2))
                        if not (cur is not None and cur in names):
                            S2 = dict(S)
                            rest = self.rest(ty, names)
                            if rest:
                                self.know(S2, pl, rest)
                            nxt.append((t[3], S2))
            elif t[0] == "ret":
                for h in hit:
                    found[h] = drops[h]
            for x, s in nxt:
                keep = frozenset((k, v) for k, v in s.items() if x in use(k[1]) and (k[0] == "B" or k[0] in ("D", "R", "P") or k[1] in tr) and (
                    k[0] not in ("D", "R") or v[0] in tr) and (k[0] != "P" or v[0][0] in tr) and (
                    k[0] not in ("R", "N") or x in use(v[0])))
                work.append((x, keep, hit))
        return [(i, pl, ty) for i, (pl, ty) in sorted(found.items())]

    @staticmethod
    def uses(body, drops):
        """local -> the blocks from which the local is still read (drops count only where they matter)"""
        R = body.reachable()
        by = {}

        def see(i, x):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                by.setdefault(x[0], set()).add(i)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    see(i, y)
        for i in R:
            bb = body.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    see(i, s[2])
                    if s[1][1]:
                        see(i, s[1])
            t = bb.term
            if t[0] == "switch":
                see(i, t[1])
            elif t[0] == "drop":
                see(i, (t[1],)) if i in drops else None
            elif t[0] == "call":
                see(i, tuple(bb.call.args))
        preds = body.preds()
        memo = {}

        def use(l):
            if l not in memo:
                out, st = set(), list(by.get(l, ()))
                while st:
                    b = st.pop()
                    if b not in out:
                        out.add(b)
                        st += preds[b]
                memo[l] = out
            return memo[l]
        return use

    def may_hold(self, S, pl, ty):
        k = S.get(("K",) + pl)
        if k == "(empty)":
            return False
        if k is None:
            return True
        if not self.variants_held(ty, k):
            return False
        a = self.F.adts.get(ty.path)
        v = a.variant(k) if a is not None else None
        if v is None:
            return True
        n = len(pl[1])
        for fname, ft, _ in v.fields:
            if not self.holds(ft):
                continue
            sub = [q for q in S if q[0] == "K" and q[1] == pl[0] and q[2][:n] == pl[1] and len(q[2]) == n + 2 and
                   q[2][n] == ("v", k) and q[2][n + 1][:2] == ("f", fname)]
            if not sub or any(self.may_hold(S, q[1:], ft) for q in sub):
                return True
        return False

    def know(self, S, pl, nm):
        S[("K",) + pl] = nm
        if nm == "None" and ("N",) + pl in S:
            S[("K",) + S[("N",) + pl]] = "(empty)"

    def rest(self, ty, names):
        a = self.F.adts.get(ty.path)
        if a is not None and a.kind == "enum":
            r = [v.name for v in a.variants if v.name not in names]
            return r[0] if len(r) == 1 else None
        for d in (0, 1):
            n = self.name_of(ty, d)
            if n is not None and n not in names and len(names) == 1:
                return n
        return None

    @staticmethod
    def clear(S, pl):
        for k in list(S):
            if k[0] in ("K", "N") and k[1] == pl[0] and (k[2][:len(pl[1])] == pl[1]):
                del S[k]
            elif k[0] in ("D", "R", "B", "P") and k[1] == pl[0] and not pl[1]:
                del S[k]
            elif k[0] in ("D", "R") and isinstance(S[k], tuple) and S[k][0] == pl[0] and not pl[1] and k[0] == "D":
                del S[k]
