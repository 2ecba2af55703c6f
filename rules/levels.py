"""Finite evaluation: the set of values a small number or an enum without payload can have at a point, by constant
propagation over the paths that the values fixed so far leave open.  Nothing is executed: an operand is known only if
every definition that reaches it is."""
from flow import place_ty

TOP = None
LIMIT = 64


def slot(f):
    """the position of a child: Owner.field, or Owner::Variant.field"""
    o = f[0].rsplit("::", 1)[-1]
    return "%s::%s.%s" % (o, f[1], f[2]) if f[1] and f[1] != o else "%s.%s" % (o, f[2])


class Eval:
    def __init__(self, F, table, assoc, tablename, optype, assoctype):
        self.F, self.table, self.assoc = F, table, assoc
        self.tablename, self.optype, self.assoctype = tablename, optype, assoctype
        self.memo = {}
        self.slots = set()
        self._bare = {}

    def bare(self, f):
        if f.path not in self._bare:
            self._bare[f.path] = Frame(self, f, f.body, {})
        return self._bare[f.path]

    # a value is a frozenset of items; an item is int | str (text) | ("V", adt, variant) | ("row", op) | ("some", item)
    # | ("none",) | ("table",) | ("agg", adt, variant, names, items)
    def const(self, fn, o):
        if o[2] == "s":
            return frozenset([o[3]]) if isinstance(o[3], str) else TOP
        if o[2] == "i":
            return frozenset([o[3]]) if isinstance(o[3], int) else TOP
        if o[2] == "static":
            return frozenset([("table",)]) if o[3] == self.tablename else TOP
        if o[2] == "p":
            k = ("p", fn.path, o[3])
            if k not in self.memo:
                self.memo[k] = TOP
                try:
                    b = fn.promoted(o[3])
                except IndexError:
                    return TOP
                self.memo[k] = Frame(self, fn, b, {}).local(0)
            return self.memo[k]
        nm = o[4] if len(o) > 4 else None
        f = self.F.fns.get(nm) if nm else None
        if f is not None and f.kind in ("const", "static"):
            k = ("c", nm)
            if k not in self.memo:
                self.memo[k] = TOP
                self.memo[k] = Frame(self, f, f.body, {}).local(0)
            return self.memo[k]
        return TOP

    def call(self, path, args, depth):
        f = self.F.fns.get(path)
        if f is None or depth > 8 or f.coroutine or len(f.body.bbs) > 200:
            return TOP
        k = (path, tuple(args))
        if k not in self.memo:
            self.memo[k] = TOP
            self.memo[k] = Frame(self, f, f.body, {i + 1: v for i, v in enumerate(args)}, depth=depth + 1).returned()
        return self.memo[k]

    def call_on(self, path, args, nodes, tags, depth, flags=None):
        f = self.F.fns.get(path)
        if f is None or depth > 4 or f.coroutine or len(f.body.bbs) > 300:
            return TOP
        k = (path, tuple(args), tuple(sorted(nodes.items())), str(sorted((str(a), sorted(b.items())) for a, b in tags.items())), str(flags or {}))
        if k not in self.memo:
            self.memo[k] = TOP
            self.memo[k] = Frame(self, f, f.body, {i + 1: v for i, v in enumerate(args) if v is not TOP}, nodes, tags,
                                 flags, depth=depth + 1).returned()
        return self.memo[k]


PASS = {"as_ref", "deref", "unwrap", "expect", "next", "iter", "into_iter", "enumerate", "as_deref", "borrow", "clone", "branch",
        "first", "last", "get", "index", "zip", "rev", "skip", "peekable", "copied", "cloned", "as_mut", "to_owned", "peek"}
TRANSPARENT = {"stx", "kind"}


class Frame:
    """one body under assumptions: fix = {local: values}; nodes = {parameter: node}; tags = {node: {type path: variant}};
    flags = {field name: value} of the node "self" """

    def __init__(self, E, fn, body, fix, nodes=None, tags=None, flags=None, depth=0, up=None):
        self.E, self.fn, self.body, self.fix, self.depth = E, fn, body, fix, depth
        self.nodes, self.tags, self.flags = nodes or {}, tags or {}, flags or {}
        self.root = fn.path.split("::{closure")[0]
        self.up = up or {}
        self._defs = None
        self._trail = {}
        self.open = None
        self.busy = set()
        self.known, self.cut = {}, False
        self.settle()

    # -- where a value comes from
    def trail(self, pl, n=0):
        """(parameter, fields from it on) a place is read from, or None; fields are (owner, variant, name)"""
        base, proj = pl
        if n > 40:
            return ("?", ())
        tail = []
        for e in proj:
            if isinstance(e, tuple) and e[0] == "f":
                tail.append((e[2], e[3], e[1]))
        if 1 <= base <= self.body.argc:
            if "{closure" in (tail[0][0] or "") if tail else False:
                up = self.upvar(tail[0][2], n)
                return (up[0], up[1] + tuple(tail[1:])) if up else None
            return ("%s#%d" % (self.fn.path, base), tuple(tail))
        ds = self.defs().get(base, ())
        outs = set()
        if not ds:
            return ("?", tuple(tail))
        for i, p, r in ds:
            if p:
                continue
            t = None
            if isinstance(r, tuple):
                if r[0] == "ref":
                    t = self.trail(r[2], n + 1)
                elif r[0] in ("use", "cast"):
                    o = r[1] if r[0] == "use" else r[2]
                    t = self.trail(o[1], n + 1) if o[0] in ("c", "m") else None
            else:
                src = None
                if r.last in PASS and r.args:
                    src = r.args[0]
                else:
                    ids = [a for a in r.args if a[0] in ("c", "m") and not a[1][1] and
                           str(self.body.locals[a[1][0]][0]).split("::")[-1] in ("ExprId",)]
                    if len(ids) == 1 and str(self.body.locals[r.dest[0]][0]).startswith("&"):
                        src = ids[0]
                if src is not None and src[0] in ("c", "m"):
                    t = self.trail(src[1], n + 1)
            outs.add(t)
        t = outs.pop() if len(outs) == 1 else None
        return (t[0], t[1] + tuple(tail)) if t else ("?", tuple(tail))

    def upvar(self, name, n):
        """the captured place, in the function that makes the closure"""
        par = self.fn.path.rsplit("::{closure", 1)[0]
        f = self.E.F.fns.get(par)
        if f is None:
            return None
        k = int(name.split(":")[0])
        fr = self.E.bare(f)
        for i in f.body.reachable():
            for s in f.body.bbs[i].stmts:
                if s[0] == "=" and isinstance(s[2], tuple) and s[2][0] == "clo" and s[2][1] == self.fn.path and k < len(s[2][2]):
                    o = s[2][2][k]
                    return fr.trail(o[1], n + 1) if o[0] in ("c", "m") else None
        return None

    def own(self, fields):
        """fields without the ones that only wrap: (owner, variant, name)"""
        return [f for f in fields if f[0] and not f[0].startswith(("core::", "alloc::", "std::")) and f[2] not in TRANSPARENT]

    def node(self, pl):
        """which node's own data a place is: "self", a slot (owner, name), or None"""
        t = self.trail(pl)
        if t is None:
            return None
        fs = self.own(t[1])
        root = t[0]
        if root == "?":
            slots = [slot(f) for f in fs if slot(f) in self.E.slots]
            return slots[0] if len(slots) == 1 else None
        if self.nodes:
            p, i = root.rsplit("#", 1)
            if p != self.root or int(i) not in self.nodes:
                return None
            base = self.nodes[int(i)]
        else:
            base = "self"
        slots = [slot(f) for f in fs if slot(f) in self.E.slots]
        if base == "self":
            return slots[0] if len(slots) == 1 else None if slots else "self"
        return base if not slots else None

    def defs(self):
        if self._defs is None:
            d = {}
            for i in self.body.reachable():
                bb = self.body.bbs[i]
                for s in bb.stmts:
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append((i, s[1][1], s[2]))
                c = bb.call
                if c is not None:
                    d.setdefault(c.dest[0], []).append((i, c.dest[1], c))
            self._defs = d
        return self._defs

    def settle(self):
        """the blocks that can be entered"""
        self.open = {0}
        while True:
            seen, st = {0}, [0]
            while st:
                b = st.pop()
                t = self.body.bbs[b].term
                nxt = self.body.bbs[b].succ()
                if t[0] == "switch":
                    v = self.operand(t[1])
                    if v is not TOP and all(isinstance(x, int) for x in v):
                        m = dict(t[2])
                        nxt = {m.get(x, t[3]) for x in v}
                for s in nxt:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            if seen <= self.open:
                return
            self.open |= seen
            self.known = {}

    def returned(self):
        return self.local(0)

    def operand(self, o, n=0):
        if o[0] == "k":
            return self.E.const(self.fn, o)
        if o[0] in ("c", "m"):
            return self.place(o[1], n + 1)
        return TOP

    def place(self, pl, n=0):
        base, proj = pl
        if n > 60:
            return TOP
        if self.tags or self.flags:
            v = self.tagged(pl)
            if v is not None:
                return v
        if self.up and base == 1 and proj:
            t = self.trail(pl)
            if t and not t[1] and t[0] in self.up:
                return self.up[t[0]]
        v = self.local(base, n + 1)
        for e in proj:
            if v is TOP:
                return TOP
            if e == "*":
                continue
            if isinstance(e, tuple) and e[0] == "f" and e[2] == "core::ops::control_flow::ControlFlow":
                if e[3] == "Break":
                    return frozenset()
                continue
            if isinstance(e, tuple) and e[0] == "f":
                out = set()
                for x in v:
                    if isinstance(x, tuple) and x[0] == "row":
                        if e[1] == "precedence":
                            out.add(self.E.table[x[1]])
                        elif e[1] == "associativity":
                            out.add(("V", self.E.assoctype, self.E.assoc[x[1]]))
                        elif e[1] == "name":
                            out.add(("V", self.E.optype, x[1]))
                        else:
                            return TOP
                    elif isinstance(x, tuple) and x[0] == "some":
                        out.add(x[1])
                    elif isinstance(x, int) and e[1] == "0":
                        out.add(x)
                    elif isinstance(x, tuple) and x[0] == "agg" and e[1] in x[3]:
                        out.add(x[4][x[3].index(e[1])])
                    elif isinstance(x, tuple) and x[0] == "none":
                        pass
                    else:
                        return TOP
                v = frozenset(out)
            elif isinstance(e, tuple) and e[0] == "v":
                continue
            else:
                return TOP
        return v

    def tagged(self, pl):
        t = place_ty(self.E.F, self.body, pl)
        if t is None:
            return None
        t = t.peel()
        if t.kind == "adt" and any(t.path in d for d in self.tags.values()):
            k = self.node(pl)
            v = self.tags.get(k, {}).get(t.path) if k else None
            if v is not None:
                return frozenset([("V", t.path, v)])
        if self.flags and str(t) == "bool":
            tr = self.trail(pl)
            if tr and tr[1] and tr[1][-1][2] in self.flags and \
                    (self.node(pl) == "self" or tr[0] == "?" and not any(slot(f) in self.E.slots for f in self.own(tr[1]))):
                return frozenset([self.flags[tr[1][-1][2]]])
        return None

    def local(self, l, n=0):
        if l in self.fix:
            return self.fix[l]
        if l in self.known:
            return self.known[l]
        if n > 60 or l in self.busy:
            self.cut = True
            return TOP
        if 1 <= l <= self.body.argc:
            return TOP
        before, self.cut = self.cut, False
        v = self.compute(l, n)
        if not self.cut:
            self.known[l] = v
        self.cut = self.cut or before
        return v

    def compute(self, l, n):
        ds = [d for d in self.defs().get(l, ()) if d[0] in self.open]
        if not ds:
            return TOP if l not in self.defs() else frozenset()
        self.busy.add(l)
        try:
            out = set()
            for i, proj, r in ds:
                if proj:
                    return TOP
                v = self.rvalue(r, n + 1)
                if v is TOP:
                    return TOP
                out |= v
                if len(out) > LIMIT:
                    return TOP
            return frozenset(out)
        finally:
            self.busy.discard(l)

    def rvalue(self, r, n):
        if not isinstance(r, tuple):
            return self.callv(r, n)
        k = r[0]
        if k == "use":
            return self.operand(r[1], n)
        if k == "ref":
            return self.place(r[2], n)
        if k == "cast":
            return self.operand(r[2], n)
        if k == "discr":
            v = self.place(r[1], n)
            if v is TOP:
                return TOP
            out = set()
            for x in v:
                if isinstance(x, tuple) and x[0] in ("V", "agg"):
                    a = self.E.F.adts.get(x[1])
                    if a is None:
                        return TOP
                    out.add(int(a.variant(x[2]).discr))
                elif isinstance(x, tuple) and x[0] == "some":
                    out.add(1)
                elif isinstance(x, tuple) and x[0] == "none":
                    out.add(0)
                else:
                    return TOP
            return frozenset(out)
        if k == "un" and r[1] == "Not":
            v = self.operand(r[2], n)
            return TOP if v is TOP or not v <= {0, 1} else frozenset(1 - x for x in v)
        if k == "bin":
            a, b = self.operand(r[2], n), self.operand(r[3], n)
            if a is TOP or b is TOP or not all(isinstance(x, int) for x in a | b):
                return TOP
            op = r[1].lower()
            fs = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "lt": lambda x, y: int(x < y),
                  "le": lambda x, y: int(x <= y), "gt": lambda x, y: int(x > y), "ge": lambda x, y: int(x >= y),
                  "eq": lambda x, y: int(x == y), "ne": lambda x, y: int(x != y), "bitand": lambda x, y: x & y,
                  "bitor": lambda x, y: x | y, "mul": lambda x, y: x * y}
            for nm, f in fs.items():
                if op == nm or op.startswith(nm) and op[len(nm):] in ("withoverflow", "unchecked"):
                    return frozenset(f(x, y) for x in a for y in b)
            return TOP
        if k == "tup":
            out = [()]
            for v in (self.operand(o, n) for o in r[1]):
                if v is TOP:
                    return TOP
                out = [x + (y,) for x in out for y in v]
                if len(out) > LIMIT:
                    return TOP
            return frozenset(("agg", None, None, tuple(str(i) for i in range(len(r[1]))), x) for x in out)
        if k == "agg":
            vals = [self.operand(o, n) for o in r[4]]
            if not vals:
                return frozenset([("none",)]) if r[2] == "None" else frozenset([("V", r[1], r[2])])
            if any(v is TOP for v in vals):
                return TOP
            if len(vals) == 1:
                if r[2] in ("Some", "Ok"):
                    return frozenset(("some", x) for x in vals[0]) if r[2] == "Some" else vals[0]
                if r[2] == "Err":
                    return frozenset()
                if r[1] and self.E.F.adts.get(r[1]) is not None and self.E.F.adts[r[1]].kind == "struct":
                    return vals[0]
            return TOP
        return TOP

    def callv(self, c, n):
        args = [self.operand(a, n) for a in c.args]
        last = c.last
        if frozenset() in args:
            return frozenset()
        if last in ("deref", "as_ref", "clone", "borrow", "into", "from", "copied", "cloned", "branch", "expect", "unwrap",
                    "ok_or", "ok_or_else", "unwrap_or_else", "from_output") and args and args[0] is not TOP \
                and (last in ("unwrap_or_else", "ok_or_else") or not self.E.F.targets(c)):
            v = args[0]
            if last == "unwrap_or_else" and ("none",) in v:
                return TOP
            if last in ("expect", "unwrap", "ok_or", "ok_or_else", "unwrap_or_else"):
                return frozenset(x[1] if isinstance(x, tuple) and x[0] == "some" else x for x in v
                                 if not (isinstance(x, tuple) and x[0] == "none"))
            return v
        if last in ("index", "get") and len(args) == 2 and args[0] == frozenset([("table",)]):
            if args[1] is TOP or not all(isinstance(x, tuple) and x[0] == "V" for x in args[1]):
                return TOP
            rows = frozenset(("row", x[2]) for x in args[1] if x[2] in self.E.table)
            return rows if last == "index" else frozenset(("some", x) for x in rows)
        if last in ("saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub", "max", "min") and len(args) == 2 and \
                args[0] is not TOP and args[1] is not TOP and all(isinstance(x, int) for x in args[0] | args[1]):
            f = {"max": max, "min": min}.get(last) or (lambda x, y: x + y if last.endswith("add") else max(0, x - y))
            return frozenset(f(x, y) for x in args[0] for y in args[1])
        if last in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 2 and args[0] is not TOP and args[1] is not TOP:
            def key(x):
                return x[2] if isinstance(x, tuple) and x[0] == "V" else x
            if last in ("eq", "ne") or all(isinstance(x, int) for x in args[0] | args[1]):
                f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y, "le": lambda x, y: x <= y,
                     "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[last]
                return frozenset(int(f(key(x), key(y))) for x in args[0] for y in args[1])
        if last == "map" and len(args) == 2 and args[0] is not TOP:
            clo = self.closure(c.args[1])
            if clo:
                out = set()
                for x in args[0]:
                    if x[0] != "some":
                        out.add(x)
                        continue
                    v = self.E.call(clo, [TOP, frozenset([x[1]])], self.depth)
                    if v is TOP:
                        return TOP
                    out |= {("some", y) for y in v}
                return frozenset(out)
        if last in ("from_str", "new_const", "from_str_nonconst") and "Arguments" in c.name and args:
            return args[0]
        ts = list(self.E.F.targets(c))
        if len(ts) == 1:
            if "Result<()," in str(self.body.locals[c.dest[0]][0]):
                return TOP
            if self.tags:
                nodes = {}
                for j, a in enumerate(c.args):
                    if a[0] in ("c", "m") and (args[j] is TOP or place_ty(self.E.F, self.body, a[1]) is not None and
                                               place_ty(self.E.F, self.body, a[1]).kind == "ref"):
                        k = self.node(a[1])
                        if k is not None:
                            nodes[j + 1] = k
                            args[j] = TOP
                if nodes:
                    return self.E.call_on(ts[0], args, nodes, self.tags, self.depth, self.flags)
            return self.E.call(ts[0], args, self.depth)
        return TOP

    def closure(self, o):
        if o[0] == "k":
            t = o[1]
            return getattr(t, "path", None) if getattr(t, "kind", "") == "closure" else None
        l = o[1][0]
        for i, proj, r in self.defs().get(l, ()):
            if isinstance(r, tuple) and r[0] == "clo":
                return r[1]
        t = self.body.locals[l][0]
        return t.path if t.kind == "closure" else None
