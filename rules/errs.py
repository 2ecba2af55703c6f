"""Errors that must not be lost: from each call that may fail hard, follow the failure to the function's return."""
from facts import const_int, rv_operands
from flow import place_ty

PASS = {"branch", "from_residual", "from", "into", "map", "map_err", "and_then", "clone", "as_ref", "as_mut", "as_deref", "err",
        "transpose", "flatten", "unwrap_err", "expect_err", "inspect_err", "copied", "cloned", "from_output", "ok_or", "ok_or_else",
        "new", "take", "replace", "unwrap", "expect", "collect", "try_collect", "next", "try_fold", "try_for_each", "sum", "or",
        "zip", "to_owned", "unwrap_or_else", "or_else", "map_or", "map_or_else", "push", "borrow", "deref", "into_iter", "iter"}
# these give up the error
LOSE = {"ok", "unwrap_or", "unwrap_or_default", "is_ok_and", "iter", "drop"}


class ErrFlow:
    def __init__(self, F, err, hard, crates, opaque=()):
        """err: path of the error type; hard: its variants that must never be lost; crates: those analysed"""
        self.F, self.err, self.hard, self.crates = F, err, hard, crates
        self.adt = F.adt(err)
        self.opaque = set(opaque)
        self._sum = {}
        self._mention = {}
        self._boolsum = {}

    # -- which functions may fail hard
    def may_fail(self):
        mk = set()
        for p, f in self.F.fns.items():
            if f.derived:
                continue
            for b in f.bodies():
                for i in b.reachable():
                    for s in b.bbs[i].stmts:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == self.err and s[2][2] in self.hard:
                            mk.add(p)
        self.makers = mk
        # only through calls whose result mentions the error, or that can carry it in another way
        out = self.F.callers_of(mk)
        return out

    def mentions(self, ty):
        k = str(ty)
        r = self._mention.get(k)
        if r is None:
            r = self._mention[k] = any(t.kind == "adt" and t.path == self.err for t in ty.walk()) or self.inside(ty)
        return r

    def inside(self, ty):
        """a workspace type that holds the error by value"""
        for t in ty.walk():
            if t.kind == "adt" and t.path in self.F.adts and t.path != self.err:
                if any(self.err in str(f[1]) for v in self.F.adts[t.path].variants for f in v.fields):
                    return True
        return False

    def variant_of(self, ty, discr):
        a = self.F.adts.get(ty.path)
        if a is None:
            return None
        for v in a.variants:
            if int(v.discr) == discr:
                return v.name
        return None

    # -- one obligation: `holders` hold the failure at the start of `block`
    def follow(self, fn, block, holders, depth=0, stack=()):
        """None when the failure is kept on every path, else (line, why)"""
        body = fn.body
        F = self.F
        seen = set()
        work = [(block, 0, frozenset(holders), frozenset())]
        retty = body.locals[0][0]
        can_return = self.mentions(retty)
        while work:
            b, k, H, flags = work.pop()
            key = (b, k, H, flags)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 6000:
                return None
            if self.halt(fn, b):
                continue
            bb = body.bbs[b]
            H = set(H)
            flags = dict(flags)
            kept = False
            for s in bb.stmts[k:]:
                if s[0] != "=":
                    continue
                d, r = s[1], s[2]
                src = set()
                moved = set()
                for o in (rv_operands(r) if r[0] not in ("ref", "discr") else [("c", r[2] if r[0] == "ref" else r[1])]):
                    if o[0] in ("c", "m") and o[1][0] in H:
                        src.add(o[1][0])
                        if o[0] == "m":
                            moved.add(o[1][0])
                if r[0] == "discr" and r[1][0] in flags and flags[r[1][0]][0] == "o" and not r[1][1]:
                    flags[d[0]] = ("b", flags[r[1][0]][1])
                    continue
                if r[0] == "discr":
                    flags[d[0]] = ("d", r[1]) if src else None
                    if not flags[d[0]]:
                        flags.pop(d[0])
                    continue
                if r[0] == "use" and r[1][0] == "k" and str(r[1][1]) == "bool" and not d[1]:
                    flags[d[0]] = ("b", bool(const_int(r[1])))
                    continue
                if not d[1]:
                    flags.pop(d[0], None) if not (r[0] in ("use", "un") and rv_operands(r)[0][0] in ("c", "m") and
                                                  rv_operands(r)[0][1][0] in flags) else None
                if r[0] == "use" and r[1][0] in ("c", "m") and r[1][1][0] in flags and not r[1][1][1]:
                    flags[d[0]] = flags[r[1][1][0]]
                    continue
                if r[0] == "un" and r[2][0] in ("c", "m") and r[2][1][0] in flags:
                    v = flags[r[2][1][0]]
                    flags[d[0]] = (v[0], not v[1]) if v[0] == "b" else v
                    continue
                if src:
                    # only what can still hold the error
                    t = place_ty(F, body, d)
                    if t is not None and not self.mentions(t) and t.kind != "param":
                        # a piece of the error that is no error (its thrown value): nothing kept
                        if r[0] != "ref":
                            continue
                    if d[1] and self.outlives(body, d):
                        kept = True
                        break
                    H.add(d[0])
                elif not d[1] and d[0] in H:
                    H.discard(d[0])
            if kept:
                continue
            t = bb.term
            nxt = []
            if t[0] == "ret":
                if 0 in H:
                    continue
                return (self.line_of(body, b), "the function returns without it")
            if t[0] == "goto":
                nxt = [t[1]]
            elif t[0] == "drop":
                nxt = [t[2]]
            elif t[0] == "assert":
                nxt = [t[4]]
            elif t[0] == "switch":
                o = t[1]
                f = flags.get(o[1][0]) if o[0] in ("c", "m") and not o[1][1] else None
                if f is None:
                    nxt = [x for _, x in t[2]] + [t[3]]
                elif f[0] == "b":
                    # f[1]: the value the flag has when the failure is present
                    nxt = [dict(t[2]).get(int(f[1]), t[3])]
                else:
                    ty = place_ty(F, body, f[1])
                    ty = ty.peel() if ty is not None else None
                    nxt = self.arms(ty, t)
            elif t[0] == "call":
                c = bb.call
                r = self.call(fn, body, b, c, H, flags, depth, stack)
                if r == "kept":
                    continue
                if isinstance(r, tuple):
                    return r
                if c.target is not None:
                    nxt = [c.target]
            for x in nxt:
                work.append((x, 0, frozenset(H), frozenset((a, v) for a, v in flags.items())))
        return None

    def halt(self, fn, b):
        """the path needs not be followed past this block"""
        return False

    def arms(self, ty, t):
        """successors that the failure can take"""
        p = ty.path if ty is not None and ty.kind == "adt" else None
        tab = dict(t[2])
        if p == "core::result::Result":
            return [tab.get(1, t[3])]
        if p == "core::ops::control_flow::ControlFlow":
            return [tab.get(1, t[3])]
        if p == "core::option::Option":
            return [tab.get(1, t[3])]
        if p == "core::task::poll::Poll":
            return [tab.get(0, t[3])]
        if p == self.err:
            out = []
            for v in self.adt.variants:
                if v.name in self.hard:
                    out.append(tab.get(int(v.discr), t[3]))
            return sorted(set(out))
        if p in self.F.adts:
            # a workspace enum: the variants that can hold the error
            out = []
            for v in self.F.adts[p].variants:
                if any(self.mentions(f[1]) for f in v.fields):
                    out.append(tab.get(int(v.discr), t[3]))
            if out:
                return sorted(set(out))
        return sorted({x for _, x in t[2]} | {t[3]})

    def outlives(self, body, d):
        """the place belongs to the caller (through a reference parameter or captured variable)"""
        return "*" in d[1] and (1 <= d[0] <= body.argc or str(body.locals[d[0]][0]).startswith("&mut"))

    def line_of(self, body, b):
        bb = body.bbs[b]
        for s in reversed(bb.stmts):
            if s[0] == "=":
                return s[3]
        for p in body.preds()[b] if callable(body.preds) else []:
            x = body.bbs[p]
            if x.call is not None:
                return x.call.line
        return body.fn.line

    def call(self, fn, body, b, c, H, flags, depth, stack):
        F = self.F
        ins = [j for j, a in enumerate(c.args) if a[0] in ("c", "m") and a[1][0] in H]
        d = c.dest
        if not ins:
            if not d[1] and d[0] in H:
                H.discard(d[0])
            return None
        dt = body.locals[d[0]][0] if not d[1] else place_ty(F, body, d)
        tg = F.targets(c)
        byref = all(str(place_ty(F, body, c.args[j][1])).startswith("&") for j in ins)
        if tg:
            t2 = str(dt)
            if byref and t2 in ("bool",) or t2.startswith("core::option::Option<") and byref:
                v = self.outcome(F.fns[tg[0]])
                if v is not None:
                    flags[d[0]] = ("b", v) if t2 == "bool" else ("o", v)
                return None
            if byref:
                return None
            res = [self.param(F.fns[x], [j + 1 for j in ins], depth + 1, stack + (fn.path,)) for x in tg]
            bad = [x for x in res if x is not None]
            if bad:
                return (c.line, "it is given to %s, which loses it (%s)" % (c.name, bad[0][1]))
            if self.mentions(dt):
                H.add(d[0])
                return None
            return "kept"
        n = c.last
        if n == "is_err":
            flags[d[0]] = ("b", True)
            return None
        if n == "is_ok":
            flags[d[0]] = ("b", False)
            return None
        if n in ("push", "push_back", "insert", "extend", "send") and 0 not in ins:
            return "kept"
        # closures given along: what they do with the error
        clos = self.closures(body, c)
        for g in clos:
            if g.body.argc >= 2 and any(self.mentions(g.body.locals[j][0]) for j in range(2, g.body.argc + 1)):
                js = [j for j in range(2, g.body.argc + 1) if self.mentions(g.body.locals[j][0])]
                r = self.param(g, js, depth + 1, stack + (fn.path,))
                if r is not None:
                    return (c.line, "the closure given to %s loses it (%s)" % (n, r[1]))
        if n in LOSE and not self.mentions(dt):
            for j in ins:
                if c.args[j][0] == "m":
                    H.discard(c.args[j][1][0])
            return None
        if self.mentions(dt):
            H.add(d[0])
        return None

    def closures(self, body, c):
        out = []
        for a in c.args:
            if a[0] == "k" and a[1].kind in ("closure", "fndef") and a[1].path in self.F.fns:
                out.append(self.F.fns[a[1].path])
            elif a[0] in ("c", "m"):
                t = body.locals[a[1][0]][0].peel()
                if t.kind == "closure" and t.path in self.F.fns:
                    out.append(self.F.fns[t.path])
        return out

    def param(self, fn, js, depth, stack):
        """does fn keep the failure it is given in parameters js?"""
        if depth > 6 or fn.path in stack or fn.path in self.opaque:
            return None
        key = (fn.path, tuple(js))
        if key not in self._sum:
            self._sum[key] = None
            self._sum[key] = self.follow(fn, 0, set(js), depth, stack)
        return self._sum[key]

    def outcome(self, fn):
        """what a predicate or accessor on the error gives for a hard failure: True/Some, False/None or unknown"""
        if fn.path in self._boolsum:
            return self._boolsum[fn.path]
        body = fn.body
        res = set()
        seen = set()
        work = [(0, frozenset())]
        disc = {}
        for i in body.reachable():
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[2][0] == "discr":
                    disc[s[1][0]] = s[2][1]
        st = [(0, None)]
        while st:
            b, v = st.pop()
            if (b, v) in seen:
                continue
            seen.add((b, v))
            bb = body.bbs[b]
            for s in bb.stmts:
                if s[0] == "=" and s[1] == (0, ()):
                    r = s[2]
                    if r[0] == "use" and r[1][0] == "k":
                        v = bool(const_int(r[1]))
                    elif r[0] == "agg" and r[2] in ("Some", "None"):
                        v = r[2] == "Some"
                    else:
                        v = "?"
            t = bb.term
            if t[0] == "ret":
                res.add(v)
                continue
            if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][0] in disc:
                ty = place_ty(self.F, body, disc[t[1][1][0]])
                for x in self.arms(ty.peel() if ty is not None else None, t):
                    st.append((x, v))
                continue
            for x in bb.succ():
                st.append((x, v if bb.call is None or bb.call.dest != (0, ()) else "?"))
        out = next(iter(res)) if len(res) == 1 and next(iter(res)) in (True, False) else None
        self._boolsum[fn.path] = out
        return out
