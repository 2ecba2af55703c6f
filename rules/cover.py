"""Coverage of a syntax tree by its consumers: which child of a node a handler passes on, on which paths."""
from flow import Flow, place_ty
from facts import rv_operands, const_int


def is_err_block(F, body, i):
    """the block builds the error the function returns"""
    bb = body.bbs[i]
    for s in bb.stmts:
        if s[0] == "=" and s[1] == (0, ()) and s[2][0] == "agg" and s[2][1] == "core::result::Result" and s[2][2] == "Err":
            return True
    c = bb.call
    if c is not None and c.last == "from_residual" and c.dest == (0, ()):
        return True
    return False


def rkey(d):
    return tuple(sorted((k, tuple(sorted(map(repr, v)))) for k, v in (d or {}).items() if v))


def ways_(rr, uv, leaf):
    return [p for d in (rr, uv or {}) for ps in d.values() for p in ps if leaf[:len(p)] == p and len(p) > 0]


class Cover(Flow):
    """Flow whose sinks must receive exactly the leaf; a call that receives more is looked into."""
    exact = True

    def __init__(self, F, sink, is_leaf, **kw):
        super().__init__(F, sink, is_leaf, **kw)
        self._err, self._flags, self.rmemo = {}, {}, {}
        self.mmemo, self.ymemo = {}, {}

    def consumed(self, fn, der, leaf, upvars):
        """blocks that are taken only for a leaf of a kind without content, or hand content of the leaf to a call"""
        return set()

    def err_blocks(self, fn):
        r = self._err.get(fn.path)
        if r is None:
            r = self._err[fn.path] = {i for i in fn.body.reachable() if is_err_block(self.F, fn.body, i)}
        return r

    def analyze(self, fn, roots, upvars=None, depth=0, start_calls=None):
        res = super().analyze(fn, roots, upvars, depth)
        return res

    def must(self, fn, roots, leaf, upvars=None, start=0, depth=0, stack=()):
        key = (fn.path, leaf, start, rkey(roots), rkey(upvars))
        if key in stack:
            return None
        if key in self.mmemo:
            return self.mmemo[key]
        r = self.mmemo[key] = self._must(fn, roots, leaf, upvars, start, depth, stack + (key,))
        return r

    def reroot(self, rr, uv, leaf):
        """the ways to restate `leaf` relative to what a callee receives"""
        slots = [("a", k, p) for k, ps in rr.items() for p in ps if leaf[:len(p)] == p]
        slots += [("u", k, p) for k, ps in (uv or {}).items() for p in ps if leaf[:len(p)] == p]
        out = []
        for n in sorted({len(p) for _, _, p in slots}, reverse=True):
            r2 = {k: {()} for t, k, p in slots if t == "a" and len(p) == n}
            u2 = {k: {()} for t, k, p in slots if t == "u" and len(p) == n}
            out.append((r2, u2 if uv is not None else None, leaf[n:]))
        return out

    def callee_must(self, f2, rr, uv, leaf, stack):
        ways = self.reroot(rr, uv, leaf)
        self.blame = None
        for r2, u2, l2 in ways:
            w = self.must(f2, r2, l2, u2, 0, 0, stack)
            if w is None:
                return True
            self.blame = w
        if len(ways) > 1 and len(stack) < 12:
            if self.must(f2, rr, leaf, uv, 0, 0, stack) is None:
                return True
        return False

    def _must(self, fn, roots, leaf, upvars, start, depth, stack):
        body = fn.body
        der, events, _ = self.analyze(fn, roots, upvars, 0)
        hit = set(self.err_blocks(fn)) | self.consumed(fn, der, leaf, upvars)
        blame = None
        for (i, ps, c, kind) in events:
            if kind == "sink":
                if leaf in ps or any(p[:len(leaf)] == leaf for p in ps):
                    hit.add(i)
            else:
                _, f2, rr, uv = kind
                allp = set().union(*rr.values()) if rr else set()
                if uv:
                    for v in uv.values():
                        allp |= v
                if any(leaf[:len(p)] == p for p in allp) and i not in hit:
                    if self.callee_must(f2, rr, uv, leaf, stack):
                        hit.add(i)
                    elif self.blame and (blame is None or len(ways_(rr, uv, leaf)) > 0):
                        blame = self.blame
        gates = self.gates(fn, der, leaf, upvars)
        work = [(start, None, (), ())]
        seen = set()
        flags = self.bool_flags(fn)
        while work:
            b, inside, tr, env = work.pop()
            if (b, inside, env) in seen:
                continue
            seen.add((b, inside, env))
            if b in hit:
                continue
            if b in flags:
                env = tuple(sorted((dict(env) | flags[b]).items()))
            t = body.bbs[b].term
            if t[0] == "call" and any(k == t[1].dest[0] for k, _ in env):
                env = tuple(x for x in env if x[0] != t[1].dest[0])
            if isinstance(t[-1], int) and t[0] == "switch":
                tr = tr + (t[-1],)
            if t[0] == "ret":
                return blame or "%s returns without passing it on (path over lines %s)" % (
                    fn.path, ",".join(map(str, tr[-6:])) or fn.line)
            g = gates.get(b)
            if g is None:
                sc = body.bbs[b].succ()
                if t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1]:
                    v = dict(env).get(t[1][1][0])
                    if v is not None:
                        sc = [x for w, x in t[2] if w == v] or [t[3]]
                for s in sc:
                    if (b, s) not in hit:
                        work.append((s, inside, tr, env))
                continue
            kind, follow = g
            if kind == "elem" and inside == b and self.elem_must:
                return "an element is skipped in the loop at %s" % fn.where(t[5])
            if kind == "bool":
                ok = False
                for s in follow:
                    if self._sub(fn, roots, leaf, upvars, s, depth, stack, hit, gates, body) is None:
                        ok = True
                if not ok:
                    for s in follow:
                        work.append((s, inside, tr, env))
                continue
            for s in follow:
                if (b, s) not in hit:
                    work.append((s, b if kind == "elem" else inside, tr, env))
        return None

    def bool_flags(self, fn):
        """block -> {local: constant} for the flags of `matches!` and `&&`"""
        r = self._flags.get(fn.path)
        if r is None:
            r = {}
            for i in fn.body.reachable():
                for s in fn.body.bbs[i].stmts:
                    if s[0] == "=" and not s[1][1] and str(fn.body.locals[s[1][0]][0]) == "bool":
                        v = const_int(s[2][1]) if s[2][0] == "use" else None
                        r.setdefault(i, {})[s[1][0]] = v
            self._flags[fn.path] = r
        return r

    def may(self, fn, roots, leaf, upvars=None, depth=0, seen=None):
        seen = seen if seen is not None else set()
        key = (fn.path, leaf, rkey(roots), rkey(upvars))
        if key in self.ymemo:
            return self.ymemo[key]
        if key in seen:
            return False
        top = not seen
        seen.add(key)
        der, events, _ = self.analyze(fn, roots, upvars, 0)
        r = False
        for (i, ps, c, kind) in events:
            if kind == "sink":
                r = leaf in ps or any(p[:len(leaf)] == leaf for p in ps)
            else:
                _, f2, rr, uv = kind
                r = any(self.may(f2, r2, l2, u2, 0, seen) for r2, u2, l2 in self.reroot(rr, uv, leaf))
            if r:
                break
        if r or top:
            self.ymemo[key] = r
        return r

    def reads(self, fn, slot, skip=(), stack=()):
        """access paths below parameter / captured variable `slot` that the function or its callees read"""
        key = (fn.path, slot)
        if key in self.rmemo:
            return self.rmemo[key]
        if key in stack:
            return set()
        roots, upv = ({slot[1]: {()}}, {} if fn.kind == "closure" else None) if slot[0] == "a" else ({}, {slot[1]: {()}})
        der, events, _ = self.analyze(fn, roots, upv, 0)
        out = set()
        for ps in der.values():
            out |= ps
        for _, _, pl, _ in fn.body.places_read():
            for p in der.get(pl[0], ()):
                out.add(p + self.comps(pl[1]))
        if slot[0] == "u":
            for _, _, (base, proj), _ in fn.body.places_read():
                if base == 1:
                    for j, e in enumerate(proj):
                        if isinstance(e, tuple) and e[0] == "f" and e[2] and e[2] not in self.F.adts and \
                                e[1].split(":")[0] == str(slot[1]) and ":" in e[1]:
                            out.add(self.comps(proj[j + 1:]))
        for (i, ps, c, kind) in events:
            if kind == "sink":
                continue
            _, f2, rr, uv = kind
            if f2.path in skip:
                continue
            for t, d in (("a", rr), ("u", uv or {})):
                for k, ps2 in d.items():
                    if ps2:
                        sub = self.reads(f2, (t, k), skip, stack + (key,))
                        for p in ps2:
                            if len(p) < 24:
                                out |= {p + x for x in sub}
        self.rmemo[key] = out
        return out


NODE = "parse_js::ast::node::Node"


class TreeCover(Cover):
    """Cover over the parse-js tree: `Node<T>` is transparent unless T is one of the dispatched enums."""

    def __init__(self, F, enums, dispatchers, strings=False, **kw):
        self.enums = enums
        self.disp = dispatchers

        def leaf(t):
            if t.kind == "adt" and t.path == NODE:
                return t.args[0].kind == "adt" and t.args[0].path in enums
            return strings and t.kind == "adt" and t.path == "alloc::string::String"
        def sink(c, f, j):
            tg = F.targets(c)
            if not tg:
                # a callback the caller supplied (`F: FnMut(..)`)
                return c.last in ("call", "call_mut", "call_once") and (c.path or "").startswith("core::ops::function")
            return any(x in dispatchers for x in tg)
        super().__init__(F, sink, leaf, **kw)

    def has_leaf(self, ty):
        return any(t.kind == "adt" and (t.path.startswith("parse_js::ast")) or self.is_leaf(t) for t in ty.walk())

    def leaves(self, ty, path=(), seen=(), root=True):
        if self.is_leaf(ty) and not root:
            return [(path, ty)]
        if ty.kind == "adt" and ty.path == NODE:
            return self.leaves(ty.args[0], path + ((None, "stx"),), seen, False)
        if ty.kind == "adt" and ty.path in self.F.adts:
            if ty.path in seen or not ty.path.startswith("parse_js::"):
                return []
            a = self.F.adts[ty.path]
            out = []
            for v in a.variants:
                for n, t, _ in v.fields:
                    if self.has_leaf(t):
                        comp = (v.name if a.kind == "enum" else None, n)
                        out += self.leaves(t, path + (comp,), seen + (ty.path,), False)
            return out
        out = []
        for x in ty.args:
            if self.has_leaf(x):
                for l in self.leaves(x, path, seen, False):
                    if l not in out:
                        out.append(l)
        return out


    writer = None

    def empty_variant(self, a, name):
        v = a.variant(name)
        if v is None:
            return False
        for _, t, _ in v.fields:
            for x in t.walk():
                if x.kind == "adt" and x.path != NODE and x.path in self.F.adts and \
                        any(y.fields for y in self.F.adts[x.path].variants):
                    return False
                if x.kind == "adt" and x.path not in self.F.adts and x.path != NODE:
                    return False
        return True

    def consumed(self, fn, der, leaf, upvars):
        out = set()
        body = fn.body
        disc = {}

        def ppaths(pl):
            base, proj = pl
            if upvars and base == 1 and fn.kind == "closure":
                for j, e in enumerate(proj):
                    if isinstance(e, tuple) and e[0] == "f" and e[2] and e[2] not in self.F.adts and ":" in e[1]:
                        c = self.comps(proj[j + 1:])
                        return {p + c for p in upvars.get(int(e[1].split(":")[0]), ())}
            c = self.comps(proj)
            return {p + c for p in der.get(base, ())}

        for i in body.reachable():
            bb = body.bbs[i]
            for s in bb.stmts:
                if s[0] == "=" and s[2][0] == "discr":
                    disc[s[1][0]] = s[2][1]
            c = bb.call
            if c is not None and self.writer is not None and self.writer(c):
                for a in c.args:
                    if a[0] in ("c", "m"):
                        for p in ppaths(a[1]):
                            if len(p) > len(leaf) + 1 and p[:len(leaf)] == leaf:
                                out.add(i)
        for i in body.reachable():
            t = body.bbs[i].term
            if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][0] in disc and not t[1][1][1]:
                pl = disc[t[1][1][0]]
                if not any(p in (leaf, leaf + ((None, "stx"),)) for p in ppaths(pl)):
                    continue
                ty = place_ty(self.F, body, pl)
                ty = ty.peel() if ty is not None else None
                if ty is None or ty.kind != "adt" or ty.path not in self.enums:
                    continue
                a = self.F.adts[ty.path]
                nm = {int(v.discr): v.name for v in a.variants}
                other = [b for v, b in t[2] if not self.empty_variant(a, nm.get(v))] + [t[3]]
                for v, b in t[2]:
                    if b not in other and self.empty_variant(a, nm.get(v)):
                        out.add((i, b))
                    elif b != t[3] and self.writer is not None and len(body.preds()[b]) == 1:
                        # an arm for this very variant: writing anything in it is its output
                        rest = set()
                        for b2 in [x for _, x in t[2] if x != b] + [t[3]]:
                            rest |= body.reach_from(b2)
                        for x in body.reach_from(b) - rest:
                            c = body.bbs[x].call
                            if c is not None and self.writer(c):
                                out.add(x)
        return out


def enum_switches(F, fn):
    """enum path -> set of variants named in a switch of fn (explicit arms)"""
    out = {}
    b = fn.body
    disc = {}
    for i in b.reachable():
        for s in b.bbs[i].stmts:
            if s[0] == "=" and s[2][0] == "discr":
                disc[s[1][0]] = s[2][1]
    for i in b.reachable():
        t = b.bbs[i].term
        if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][0] in disc and not t[1][1][1]:
            ty = place_ty(F, b, disc[t[1][1][0]])
            if ty is None:
                continue
            ty = ty.peel()
            if ty.kind == "adt" and ty.path in F.adts and F.adts[ty.path].kind == "enum":
                vs = {int(v.discr): v.name for v in F.adts[ty.path].variants}
                out.setdefault(ty.path, []).append({vs.get(v) for v, _ in t[2]})
    return out


def tree_enums(F):
    """enums that appear as Node<E> anywhere in the tree"""
    out = set()
    for p, a in F.adts.items():
        if p.startswith("parse_js::ast"):
            for v in a.variants:
                for _, t, _ in v.fields:
                    for x in t.walk():
                        if x.kind == "adt" and x.path == NODE and x.args[0].kind == "adt" and \
                                x.args[0].path in F.adts and F.adts[x.args[0].path].kind == "enum":
                            out.add(x.args[0].path)
    return out
