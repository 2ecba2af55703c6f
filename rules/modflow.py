"""Modifiers: a flag, tag or name of a node must decide or supply output on every path that writes the node."""
from cover import TreeCover, NODE
from flow import place_ty
from facts import const_int, rv_operands


# reading a name character by character
CONTENT = {"chars", "bytes", "char_indices", "as_bytes", "split", "lines"}


def prim(c):
    """the writer's own primitives"""
    return (c.path or "").startswith("core::fmt::Write::") or c.name.startswith("emit_js::emitter::Emitter::") or \
        c.name.startswith("<emit_js::emitter::Emitter as")


class ModCover(TreeCover):
    """TreeCover whose leaves are the scalars: flags (bool), tags (enums without payload) and names (String)."""

    def __init__(self, F, enums, dispatchers, writes, **kw):
        super().__init__(F, enums, dispatchers, **kw)
        self.writes = lambda c: writes(c) or c.last in ("extend_from_slice", "push_str", "push", "write_char")

        def leaf(t):
            if str(t) == "bool":
                return True
            if t.kind == "adt" and t.path == "alloc::string::String":
                return True
            return t.kind == "adt" and t.path in F.adts and t.path.startswith("parse_js::") and \
                F.adts[t.path].kind == "enum" and not any(v.fields for v in F.adts[t.path].variants)
        self.is_leaf = leaf
        self._c2 = {}
        self._ip = {}

        def sink(c, f, j):
            if prim(c):
                return True
            tg = F.targets(c)
            if tg:
                return not any(F.fns[x].crate.name == f.crate.name for x in tg)
            return self.text_call(c)
        self.sink = sink

    def text_call(self, c):
        return self.writes(c)

    def has_leaf(self, ty):
        return any(t.kind == "adt" and t.path.startswith("parse_js::") or self.is_leaf(t) for t in ty.walk())

    def leaves(self, ty, path=(), seen=(), root=True):
        if ty.kind == "adt" and ty.path == NODE and ty.args[0].kind == "adt" and ty.args[0].path in self.enums and not root:
            return []
        return super().leaves(ty, path, seen, root)

    def ipdom(self, fn):
        r = self._ip.get(fn.path)
        if r is None:
            r = self._ip[fn.path] = postdoms(fn.body)
        return r

    def region(self, body, b, stop):
        out, st = set(), [b]
        while st:
            x = st.pop()
            if x in out or x in stop:
                continue
            out.add(x)
            st.extend(body.bbs[x].succ())
        return out

    def acts(self, fn, b, stop):
        """what the code from block b up to the join writes or sets: a set of tokens"""
        body = fn.body
        out = set()
        for x in self.region(body, b, stop):
            bb = body.bbs[x]
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                if s[2][0] == "use" and s[2][1][0] == "k":
                    out.add(("set", s[1], str(s[2][1][1:])))
                elif s[2][0] == "agg":
                    out.add(("agg", s[1], str(s[2][1]), str(s[2][2]), str(s[2][4]) if len(s[2]) > 4 else ""))
            c = bb.call
            if c is not None:
                out.add(("call", c.name, tuple(str(a) for a in c.args)))
        return out

    def polarity(self, body, local, want, der, n=0):
        """+1 if local is the flag itself, -1 if its negation, 0 unknown"""
        if n > 8:
            return 0
        defs = []
        for i in body.reachable():
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[1] == (local, ()):
                    defs.append(s[2])
            c = body.bbs[i].call
            if c is not None and c.dest == (local, ()):
                return 0
        if len(defs) != 1:
            return 1 if not defs else 0
        r = defs[0]
        if r[0] == "use" and r[1][0] in ("c", "m"):
            if r[1][1][1] and any(e != "*" for e in r[1][1][1]):
                return 1
            return self.polarity(body, r[1][1][0], want, der, n + 1)
        if r[0] == "un" and r[2][0] in ("c", "m"):
            return -self.polarity(body, r[2][1][0], want, der, n + 1)
        if r[0] in ("ref",):
            return 1
        return 0

    def consumed(self, fn, der, leaf, upvars):
        out = set()
        body = fn.body
        disc = {}

        def ppaths(pl):
            base, proj = pl
            if upvars and base == 1 and fn.kind == "closure":
                for j, e in enumerate(proj):
                    if isinstance(e, tuple) and e[0] == "f" and e[2] and e[2] not in self.F.adts and ":" in e[1]:
                        c = self.comps(proj[j + 1:])
                        return {p + c for p in upvars.get(int(e[1].split(":")[0]), ())}
            c = self.comps(proj)
            return {p + c for p in der.get(base, ())}

        for i in body.reachable():
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[2][0] == "discr":
                    disc[s[1][0]] = s[2][1]
            c = body.bbs[i].call
            if c is not None and c.last in CONTENT and not self.F.targets(c) and \
                    any(a[0] in ("c", "m") and leaf in ppaths(a[1]) for a in c.args[:1]):
                ty = c.args[0][1]
                t = place_ty(self.F, body, ty)
                t = t.peel() if t is not None else None
                if t is not None and (str(t) == "str" or t.path == "alloc::string::String") and \
                        any(self.writes(body.bbs[x].call) for x in body.reach_from(i) if body.bbs[x].call is not None):
                    out.add(i)
        pd = None
        for i in body.reachable():
            t = body.bbs[i].term
            if t[0] != "switch" or t[1][0] not in ("c", "m"):
                c = body.bbs[i].call
                if c is not None and c.dest == (0, ()) and not self.F.targets(c):
                    if any(a[0] in ("c", "m") and leaf in ppaths(a[1]) for a in c.args) and fn.path not in self.tops:
                        out.add(i)
                continue
            pl = t[1][1]
            isd = pl[0] in disc and not pl[1]
            ps = ppaths(disc[pl[0]] if isd else pl)
            if leaf not in ps:
                continue
            if pd is None:
                pd = self.ipdom(fn)
            stop = pd.get(i, set()) | self.err_blocks(fn)
            if isd:
                ty = place_ty(self.F, body, disc[pl[0]])
                ty = ty.peel() if ty is not None else None
                if ty is None or not self.is_leaf(ty):
                    continue
                arms = [self.acts(fn, b, stop) for b in dict.fromkeys([b for _, b in t[2]] + [t[3]])]
                if sum(1 for a in arms if a) >= 1:
                    out.add(i)
                continue
            if str(body.locals[pl[0]][0]) != "bool" and not pl[1]:
                continue
            pol = self.polarity(body, pl[0], leaf, der) if not pl[1] else 1
            f = [b for v, b in t[2] if v == 0]
            tr = t[3]
            if not f:
                continue
            fa, ta = self.acts(fn, f[0], stop), self.acts(fn, tr, stop)
            if pol < 0:
                fa, ta = ta, fa
            if ta - fa and pol != 0 or (pol == 0 and ta != fa):
                out.add(i)
        return out

    tops = ()

    def may(self, fn, roots, leaf, upvars=None, depth=0, seen=None):
        seen = seen if seen is not None else set()
        key = ("y", fn.path, leaf, repr(sorted(map(str, roots.items()))), repr(sorted(map(str, (upvars or {}).items()))))
        if key in seen:
            return False
        seen.add(key)
        der, events, _ = self.analyze(fn, roots, upvars, 0)
        if self.consumed(fn, der, leaf, upvars):
            return True
        for (i, ps, c, kind) in events:
            if kind == "sink":
                if leaf in ps:
                    return True
            else:
                _, f2, rr, uv = kind
                if any(self.may(f2, r2, l2, u2, 0, seen) for r2, u2, l2 in self.reroot(rr, uv, leaf)):
                    return True
        return False


def tag_arms(F, fn, want, stop_of):
    """for each switch of fn over an enum without payload that `want` accepts: (enum, line, {signature: [variants]});
    a signature is the constants, results and calls of the arm up to the join"""
    b = fn.body
    disc = {}
    for i in b.reachable():
        for s in b.bbs[i].stmts:
            if s[0] == "=" and s[2][0] == "discr":
                disc[s[1][0]] = s[2][1]
    out = []
    for i in sorted(b.reachable()):
        t = b.bbs[i].term
        if t[0] != "switch" or t[1][0] not in ("c", "m") or t[1][1][0] not in disc or t[1][1][1]:
            continue
        ty = place_ty(F, b, disc[t[1][1][0]])
        ty = ty.peel() if ty is not None else None
        if ty is None or ty.kind != "adt" or ty.path not in F.adts or not want(ty.path) or \
                any(v.fields for v in F.adts[ty.path].variants):
            continue
        stop = stop_of(i)
        nm = {int(v.discr): v.name for v in F.adts[ty.path].variants}
        arms = {}
        for v, x in t[2]:
            arms.setdefault(x, []).append(nm[v])
        rest = [n for n in nm.values() if n not in sum(arms.values(), [])]
        if rest:
            arms.setdefault(t[3], []).extend(rest)
        sig = []
        for x, vs in arms.items():
            a, seen, st, text = set(), set(), [x], []
            while st:
                y = st.pop(0)
                if y in seen or y in stop:
                    continue
                seen.add(y)
                bb = b.bbs[y]
                for s in bb.stmts:
                    if s[0] == "=":
                        for o in rv_operands(s[2]):
                            if o[0] == "k" and o[2] != "f":
                                a.add(str(o[1:4]))
                                if o[2] == "s":
                                    text.append(o[3])
                        if s[2][0] == "agg":
                            a.add("%s::%s" % (s[2][1], s[2][2]))
                if bb.term[0] == "switch" and bb.term[1][0] in ("c", "m") and bb.term[1][1][0] in disc:
                    t3 = place_ty(F, b, disc[bb.term[1][1][0]])
                    if t3 is not None and t3.peel().path == ty.path:
                        a.add("switch again")
                c = bb.call
                if c is not None:
                    a.add(c.name)
                    for o in c.args:
                        if o[0] == "k":
                            a.add(str(o[1:4]))
                            if o[2] == "s":
                                text.append(o[3])
                            elif o[2] == "i" and str(o[1]) == "char":
                                text.append(chr(o[3]))
                st.extend(bb.succ())
            sig.append((vs, frozenset(a), text))
        out.append((ty.path, t[-1], sig))
    return out


def postdoms(body):
    """block -> set of its strict post-dominators (over blocks that reach a return)"""
    nodes = list(body.reachable())
    succ = {b: [s for s in body.bbs[b].succ()] for b in nodes}
    exits = [b for b in nodes if body.bbs[b].term[0] == "ret"]
    # blocks reaching an exit
    preds = {b: [] for b in nodes}
    for b in nodes:
        for s in succ[b]:
            if s in preds:
                preds[s].append(b)
    live, st = set(), list(exits)
    while st:
        x = st.pop()
        if x in live:
            continue
        live.add(x)
        st.extend(preds[x])
    allb = set(live)
    pd = {b: set(allb) for b in live}
    for e in exits:
        pd[e] = {e}
    ch = True
    order = sorted(live, reverse=True)
    while ch:
        ch = False
        for b in order:
            if b in exits:
                continue
            ss = [pd[s] for s in succ[b] if s in live]
            n = set.intersection(*ss) | {b} if ss else {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    return {b: pd[b] - {b} for b in live}
