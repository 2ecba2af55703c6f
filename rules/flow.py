"""Access-path flow: which parts (field paths) of a root value flow to which calls, on which paths.

An access path is a tuple of components (variant or None, field) through *workspace* ADTs;
references, Box/Option/Vec/slices/tuples and iterators over them are transparent.  The engine
decides "every leaf of this value is handed to a sink on every path on which the leaf exists":
branches on the presence of the leaf itself (Option, loop over its elements, the enum variant that
carries it) are the only ways around the sink that are accepted.  Helpers and closures that receive
a part of the value are analysed with the same rule, so extracting a helper changes nothing."""
from facts import CheckError, const_int

OPTION_LIKE = {"core::option::Option": "Some", "core::result::Result": "Ok",
               "core::ops::control_flow::ControlFlow": "Continue",
               "core::ops::ControlFlow": "Continue"}


# library calls that yield only a part of a collection: what comes out is no longer "every element"
PARTIAL = {"skip", "take", "step_by", "take_while", "skip_while", "filter", "nth", "last", "first", "split_at",
           "split_first", "split_last", "min", "max", "clamp", "saturating_sub", "checked_sub", "wrapping_sub",
           "chunks_exact", "truncate", "pop", "rposition", "position", "find", "map_while", "dedup", "retain",
           "min_by_key", "max_by_key", "min_by", "max_by", "rfind", "find_map"}
PRESENCE = {"is_some", "is_none", "is_empty", "is_ok", "is_err", "any", "all"}
CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}


class Flow:
    exact = False
    prefixes = None  # when set: the only access paths worth following
    ends = None     # ends(call, fn): what the call returns is not derived from what it receives

    def __init__(self, F, sink, is_leaf, max_depth=6, opaque=None, passthrough=None, elem_must=True,
                 descend=None, absent=None, atoms=()):
        """sink(call, fn, argi) -> bool: passing a value as that argument handles it entirely
        is_leaf(ty) -> bool: types that must be handled
        opaque(adt path) -> bool: do not look for leaves inside"""
        self.F, self.sink, self.is_leaf, self.max_depth = F, sink, is_leaf, max_depth
        self.opaque = opaque or (lambda p: False)
        self.descend = descend or (lambda call, path: True)
        self.absent = absent
        self.atoms = set(atoms)
        self.elem_must = elem_must
        self._contains = {}
        self._adts = None
        self.memo = {}

    # ---------------------------------------------------------------- leaves of a type
    def has_leaf(self, ty):
        k = id(ty)
        r = self._contains.get(k)
        if r is None:
            from hazard import adts_containing, type_has
            if self._adts is None:
                self._adts = adts_containing(self.F, self.is_leaf, self.opaque)
            r = type_has(ty, lambda t: self.is_leaf(t) or (t.kind == "adt" and t.path in self._adts),
                         lambda t: t.kind in ("fndef", "fnptr", "dyn") or
                         (t.kind == "adt" and self.opaque(t.path)))
            self._contains[k] = r
        return r

    def leaves(self, ty, path=(), seen=(), root=True):
        """access paths of the leaves below `ty`, with their types"""
        if self.is_leaf(ty) and not root:
            return [(path, ty)]
        if ty.kind == "adt" and ty.path in self.F.adts:
            if ty.path in seen or self.opaque(ty.path):
                return []
            a = self.F.adts[ty.path]
            out = []
            for v in a.variants:
                for n, t, _ in v.fields:
                    if self.has_leaf(t):
                        comp = (v.name if a.kind == "enum" else None, n)
                        out += self.leaves(t, path + (comp,), seen + (ty.path,), False)
            return out
        out = []
        for x in ty.args:
            if self.has_leaf(x):
                for l in self.leaves(x, path, seen, False):
                    if l not in out:
                        out.append(l)
        return out

    # ---------------------------------------------------------------- per function
    def comps(self, proj):
        out = []
        for e in proj:
            if isinstance(e, tuple) and e[0] == "f" and e[2] in self.F.adts and e[2] not in self.atoms:
                out.append((e[3], e[1]))
        return tuple(out)

    def analyze(self, fn, roots, upvars=None, depth=0, start_calls=None):
        """roots: {local: set(paths)}, upvars: {index: set(paths)}.
        Returns (derived, events, ret) where events = [(bb, path-set, call)]"""
        key = (fn.path, tuple(sorted((k, tuple(sorted(map(repr, v)))) for k, v in roots.items())),
               tuple(sorted((k, tuple(sorted(map(repr, v)))) for k, v in (upvars or {}).items())))
        if key in self.memo:
            return self.memo[key]
        body = fn.body
        der = {k: set(v) for k, v in roots.items()}
        self.memo[key] = (der, [], der.get(0, set()))
        clos = {}  # local -> (closure fn, upvar paths)

        def ppaths(pl):
            base, proj = pl
            if upvars and base == 1 and fn.kind == "closure":
                for j, e in enumerate(proj):
                    if isinstance(e, tuple) and e[0] == "f" and e[2] and e[2] not in self.F.adts and ":" in e[1]:
                        i = int(e[1].split(":")[0])
                        c = self.comps(proj[j + 1:])
                        return {p + c for p in upvars.get(i, ())}
            d = der.get(base)
            if not d:
                return set()
            c = self.comps(proj)
            return {p + c for p in d}

        def opaths(o):
            if o[0] in ("c", "m"):
                return ppaths(o[1])
            return set()

        for _ in range(30):
            changed = False

            def add(local, ps):
                nonlocal changed
                if ps and self.prefixes is not None:
                    ps = {p for p in ps if p in self.prefixes}
                if ps:
                    d = der.setdefault(local, set())
                    n = len(d)
                    d |= ps
                    if len(d) != n:
                        changed = True

            for i in body.reachable():
                bb = body.bbs[i]
                for s in bb.stmts:
                    if s[0] != "=":
                        continue
                    r = s[2]
                    ps = set()
                    if r[0] == "ref":
                        ps = ppaths(r[2])
                    elif r[0] == "discr":
                        ps = ppaths(r[1])
                    elif r[0] == "clo":
                        cf = self.F.fns.get(r[1])
                        if cf is not None:
                            uv = {j: opaths(o) for j, o in enumerate(r[2])}
                            old = clos.get(s[1][0])
                            clos[s[1][0]] = (cf, uv)
                            if old is None or old[1] != uv:
                                changed = True
                        for o in r[2]:
                            ps |= opaths(o)
                        # the closure value itself is not a part of the root
                        continue
                    elif r[0] == "bin" and r[1] not in CMP:
                        continue
                    elif r[0] == "agg" and r[1].startswith("core::ops::range::Range") and not self.whole_range(r):
                        continue
                    else:
                        from facts import rv_operands
                        for o in rv_operands(r):
                            ps |= opaths(o)
                            if o[0] in ("c", "m") and o[1][0] in clos and not o[1][1]:
                                if s[1][0] not in clos:
                                    clos[s[1][0]] = clos[o[1][0]]
                                    changed = True
                    if r[0] == "ref" and r[2][0] in clos and not r[2][1] and s[1][0] not in clos:
                        clos[s[1][0]] = clos[r[2][0]]
                        changed = True
                    add(s[1][0], ps)
                c = bb.call
                if c is not None:
                    ps = set()
                    args = [opaths(a) for a in c.args]
                    tg = self.F.targets(c)
                    if not tg and self.partial_call(c) or self.ends is not None and self.ends(c, fn):
                        continue
                    if tg and any(args) and depth < self.max_depth and len(tg) <= 3 and self.descend(c, fn):
                        for t in tg:
                            f2 = self.F.fns[t]
                            if f2.kind == "closure":
                                # direct call of a closure: args are (closure, (tuple))
                                continue
                            rr = {j + 1: p for j, p in enumerate(args) if p}
                            _, _, ret = self.analyze(f2, rr, None, depth + 1)
                            ps |= ret
                        if all(self.F.fns[t].kind == "closure" for t in tg):
                            for p in args:
                                ps |= p
                    elif not tg:
                        for p in args:
                            ps |= p
                        # closures handed to library code see elements of the other arguments
                        for a in c.args:
                            cl = self.closure_of(a, clos)
                            if cl is not None:
                                cf, uv = cl
                                el = set()
                                for p in args:
                                    el |= p
                                rr = {j: el for j in range(2, cf.body.argc + 1)} if el else {}
                                _, _, ret = self.analyze(cf, rr, uv, depth + 1)
                                ps |= ret
                    else:
                        for p in args:
                            ps |= p
                    add(c.dest[0], ps)
            if not changed:
                break

        # events
        events = []
        for i in body.reachable():
            c = body.bbs[i].call
            if c is None:
                continue
            args = [opaths(a) for a in c.args]
            for j, ps in enumerate(args):
                if ps and self.sink(c, fn, j):
                    events.append((i, ps, c, "sink"))
            tg = self.F.targets(c)
            if tg and any(args) and depth < self.max_depth and len(tg) <= 3:
                if (self.exact or not any(self.sink(c, fn, j) for j in range(len(args)))) and self.descend(c, fn):
                    for t in tg:
                        f2 = self.F.fns[t]
                        if f2.kind == "closure":
                            continue
                        rr = {j + 1: p for j, p in enumerate(args) if p}
                        events.append((i, set(), c, ("call", f2, rr, None)))
            # closures passed along
            for a in c.args:
                cl = self.closure_of(a, clos)
                if cl is not None:
                    cf, uv = cl
                    el = set()
                    for p in args:
                        el |= p
                    rr = {j: el for j in range(2, cf.body.argc + 1)} if el else {}
                    if el or any(uv.values()):
                        events.append((i, set(), c, ("call", cf, rr, uv)))
        res = (der, events, der.get(0, set()))
        self.memo[key] = res
        return res

    def whole_range(self, r):
        names = r[3]
        for n, o in zip(names, r[4]):
            if n == "start" and const_int(o) != 0:
                return False
        return True

    def partial_call(self, c):
        if c.path in ("core::mem::take", "core::option::Option::<T>::take"):
            return False
        if c.last in PARTIAL:
            return not any(x.kind == "adt" and x.path in ("core::option::Option", "core::result::Result")
                           for x in c.targs[:1]) or c.last != "filter"
        if c.last in ("index", "index_mut", "get", "get_mut"):
            for t in c.targs:
                for x in [t] + list(t.args):
                    if x.kind == "adt" and x.path.startswith("core::ops::range::Range") and \
                            x.path != "core::ops::range::RangeFull":
                        return True
        return False

    def presence_test(self, body, local):
        """is this boolean a test of presence (is_some, is_empty, index < len, len == 0)?"""
        for i in body.reachable():
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[1] == (local, ()):
                    r = s[2]
                    if r[0] == "bin" and r[1] in CMP:
                        return all(o[0] != "k" or const_int(o) == 0 for o in r[2:4])
                    if r[0] == "un" and r[2][0] in ("c", "m"):
                        return self.presence_test(body, r[2][1][0])
                    if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                        return self.presence_test(body, r[1][1][0])
                    return False
            c = body.bbs[i].call
            if c is not None and c.dest == (local, ()):
                return c.last in PRESENCE
        return False

    def closure_of(self, a, clos):
        if a[0] in ("c", "m") and a[1][0] in clos and not a[1][1]:
            return clos[a[1][0]]
        if a[0] == "k" and a[1].kind == "closure" and a[1].path in self.F.fns:
            return (self.F.fns[a[1].path], {})
        return None

    # ---------------------------------------------------------------- the decision
    def must(self, fn, roots, leaf, upvars=None, start=0, depth=0, stack=()):
        """None if `leaf` is handed to a sink on every path from block `start` to a return on which
        it exists, else a description of a path that skips it."""
        key = (fn.path, leaf, start)
        if key in stack:
            return None
        stack = stack + (key,)
        body = fn.body
        der, events, _ = self.analyze(fn, roots, upvars, depth)
        hit = set()
        for (i, ps, c, kind) in events:
            if kind == "sink":
                if any(leaf[:len(p)] == p for p in ps):
                    hit.add(i)
            else:
                _, f2, rr, uv = kind
                allp = set().union(*rr.values()) if rr else set()
                if uv:
                    for v in uv.values():
                        allp |= v
                if any(leaf[:len(p)] == p for p in allp) and depth < self.max_depth:
                    if self.may(f2, rr, leaf, uv, depth + 1) and \
                            self.must(f2, rr, leaf, uv, 0, depth + 1, stack) is None:
                        hit.add(i)
        gates = self.gates(fn, der, leaf, upvars)
        work = [(start, None)]
        seen = set()
        while work:
            b, inside = work.pop()
            if (b, inside) in seen:
                continue
            seen.add((b, inside))
            if b in hit:
                continue
            t = body.bbs[b].term
            if t[0] == "ret":
                return "a path returns at %s without passing it on" % fn.where(
                    next((body.bbs[p].term[-1] for p in body.preds()[b] if isinstance(body.bbs[p].term[-1], int)
                          and body.bbs[p].term[0] in ("switch",)), fn.line)) + " (in %s)" % fn.path
            g = gates.get(b)
            if g is None:
                for s in body.bbs[b].succ():
                    work.append((s, inside))
                continue
            kind, follow = g
            if kind == "elem" and inside == b and self.elem_must:
                return "an element is skipped in the loop at %s" % fn.where(t[5])
            if kind == "bool":
                # a test of the value itself: some branch must handle it
                ok = False
                for s in follow:
                    if self._sub(fn, roots, leaf, upvars, s, depth, stack, hit, gates, body) is None:
                        ok = True
                if not ok:
                    for s in follow:
                        work.append((s, inside))
                continue
            for s in follow:
                work.append((s, b if kind == "elem" else inside))
        return None

    def _sub(self, fn, roots, leaf, upvars, start, depth, stack, hit, gates, body):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in hit:
                continue
            seen.add(b)
            if body.bbs[b].term[0] == "ret":
                return "ret"
            g = gates.get(b)
            nxt = body.bbs[b].succ() if g is None else g[1]
            st.extend(nxt)
        return None

    def may(self, fn, roots, leaf, upvars=None, depth=0, seen=None):
        seen = seen if seen is not None else set()
        k = (fn.path, repr(sorted(map(str, roots.items()))))
        if k in seen:
            return False
        seen.add(k)
        der, events, _ = self.analyze(fn, roots, upvars, depth)
        for (i, ps, c, kind) in events:
            if kind == "sink":
                if any(leaf[:len(p)] == p for p in ps):
                    return True
            else:
                _, f2, rr, uv = kind
                if depth < self.max_depth and self.may(f2, rr, leaf, uv, depth + 1, seen):
                    return True
        return False

    def gates(self, fn, der, leaf, upvars):
        """switches on the presence of the leaf: bb -> (kind, successors to follow)"""
        body = fn.body
        out = {}
        # which local holds the discriminant of what
        disc = {}
        for i in body.reachable():
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[2][0] == "discr":
                    disc.setdefault(s[1][0], []).append(s[2][1])

        def ppaths(pl):
            base, proj = pl
            if upvars and base == 1 and fn.kind == "closure":
                for j, e in enumerate(proj):
                    if isinstance(e, tuple) and e[0] == "f" and e[2] and e[2] not in self.F.adts and ":" in e[1]:
                        c = self.comps(proj[j + 1:])
                        return {p + c for p in upvars.get(int(e[1].split(":")[0]), ())}
            c = self.comps(proj)
            return {p + c for p in der.get(base, ())}

        for i in body.reachable():
            t = body.bbs[i].term
            if t[0] != "switch" or t[1][0] not in ("c", "m"):
                continue
            loc = t[1][1][0]
            if loc in disc and not t[1][1][1]:
                for pl in disc[loc]:
                    ty = self.place_ty(fn, pl)
                    ps = [p for p in ppaths(pl) if leaf[:len(p)] == p]
                    if not ps or ty is None:
                        continue
                    ty = ty.peel()
                    if ty.kind == "adt" and ty.path in OPTION_LIKE:
                        want = 0 if ty.path not in ("core::option::Option",) else 1
                        f = [b for v, b in t[2] if v == want] or [t[3]]
                        kind = "elem" if self.from_next(fn, pl[0]) else "opt"
                        out[i] = (kind, f)
                    elif ty.kind == "adt" and ty.path in self.F.adts:
                        a = self.F.adts[ty.path]
                        # which variant carries the leaf at this depth
                        follow = set()
                        for p in ps:
                            if len(p) < len(leaf) and leaf[len(p)][0] is not None:
                                vn = leaf[len(p)][0]
                                d = next((int(v.discr) for v in a.variants if v.name == vn), None)
                                if d is None:
                                    continue
                                e = [b for v, b in t[2] if v == d]
                                follow.update(e or [t[3]])
                        if follow:
                            out[i] = ("variant", sorted(follow))
            else:
                ps = [p for p in ppaths(t[1][1]) if leaf[:len(p)] == p and (len(p) > 0 or self.exact)]
                if ps and self.presence_test(body, loc):
                    out[i] = ("bool", body.bbs[i].succ())
        return out

    def from_next(self, fn, local):
        body = fn.body
        for i in body.reachable():
            c = body.bbs[i].call
            if c is not None and c.dest[0] == local and c.path and c.path.endswith("::next"):
                return True
        return False

    def place_ty(self, fn, pl):
        return place_ty(self.F, fn.body, pl)


def place_ty(F, body, pl):
    base, proj = pl
    ty = body.locals[base][0]
    variant = None
    for e in proj:
        if e == "*":
            if ty.kind in ("ref", "ptr"):
                ty = ty.args[0]
            elif ty.kind == "adt" and ty.args:
                ty = ty.args[0]
            else:
                return None
        elif e[0] == "v":
            variant = e[1]
        elif e[0] == "f":
            if ty.kind == "tuple":
                try:
                    ty = ty.args[int(e[1])]
                except Exception:
                    return None
            elif ty.kind == "adt" and ty.path in F.adts:
                a = F.adts[ty.path]
                vs = a.variants if e[3] is None else [v for v in a.variants if v.name == e[3]]
                ft = None
                for v in vs:
                    for n, t, _ in v.fields:
                        if n == e[1]:
                            ft = t
                if ft is None:
                    return None
                ty = ft
            elif ty.kind == "adt" and ty.path in OPTION_LIKE:
                if ty.path == "core::result::Result":
                    ty = ty.args[0] if e[3] == "Ok" else ty.args[1]
                elif ty.path == "core::option::Option":
                    ty = ty.args[0]
                else:
                    ty = ty.args[1] if e[3] == "Continue" and len(ty.args) > 1 else ty.args[0]
            elif ty.kind == "adt" and ty.args:
                ty = ty.args[0]
            elif ty.kind == "closure":
                try:
                    ty = ty.args[int(e[1].split(":")[0])]
                except Exception:
                    return None
            else:
                return None
        elif e[0] in ("i", "c"):
            if ty.args:
                ty = ty.args[0]
        elif e[0] == "s":
            pass
        else:
            return None
    return ty
