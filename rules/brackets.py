"""Brackets: state that a function saves, changes and puts back must be put back on every way out."""
from facts import rv_operands


def accessor(F, call, memo={}):
    """the field a method returns a reference to: (parameter, path)"""
    ts = F.targets(call)
    if len(ts) != 1:
        return None
    p = ts[0]
    if p not in memo:
        memo[p] = None
        f = F.fns.get(p)
        if f is not None and str(f.body.locals[0][0]).startswith("&") and len(f.body.bbs) <= 4:
            B = Body(F, f, f.body)
            got = {B.canon((0, ("*",)))}
            c = next(iter(got))
            if 1 <= c[0] <= f.body.argc and last_field(c):
                memo[p] = (c[0], tuple(c[1]))
    return memo[p]


class Body:
    """places and saved values of one MIR body"""

    def __init__(self, F, fn, body):
        self.F, self.fn, self.body = F, fn, body
        self.defs = {}          # local -> [(block, stmt index or None, rvalue | Call)]
        for i in body.reachable():
            bb = body.bbs[i]
            for k, s in enumerate(bb.stmts):
                if s[0] == "=" and not s[1][1]:
                    self.defs.setdefault(s[1][0], []).append((i, k, s[2]))
            if bb.call is not None and not bb.call.dest[1]:
                self.defs.setdefault(bb.call.dest[0], []).append((i, None, bb.call))

    def canon(self, pl, n=0):
        """a place written through temporaries, as a place of a parameter or variable"""
        base, proj = pl[0], tuple(pl[1])
        if n > 20 or 1 <= base <= self.body.argc:
            return base, proj
        ds = self.defs.get(base, ())
        if len(ds) != 1:
            return base, proj
        d = ds[0][2]
        if isinstance(d, tuple) or isinstance(d, list):
            if d[0] == "ref" and proj and proj[0] == "*":
                return self.canon((d[2][0], tuple(d[2][1]) + proj[1:]), n + 1)
            if d[0] == "use" and d[1][0] in ("c", "m"):
                return self.canon((d[1][1][0], tuple(d[1][1][1]) + proj), n + 1)
            if d[0] == "cast" and proj and proj[0] == "*" and d[2][0] in ("c", "m"):
                # what a box points to
                p2 = d[2][1]
                if p2[1] and isinstance(p2[1][-1], tuple) and p2[1][-1][0] == "f" and p2[1][-1][2] == "alloc::boxed::Box":
                    return self.canon((p2[0], tuple(p2[1][:-1]) + proj), n + 1)
        else:
            acc = accessor(self.F, d)
            if acc and proj and proj[0] == "*" and acc[0] <= len(d.args) and d.args[acc[0] - 1][0] in ("c", "m"):
                a = d.args[acc[0] - 1][1]
                return self.canon((a[0], tuple(a[1]) + acc[1] + proj[1:]), n + 1)
            # deref()/deref_mut()/as_mut() of a smart pointer or guard
            if d.last in ("deref", "deref_mut", "as_mut", "as_ref", "borrow_mut") and d.args and d.args[0][0] in ("c", "m") and proj and proj[0] == "*":
                b2, p2 = self.canon((d.args[0][1][0], tuple(d.args[0][1][1]) + ("*",)), n + 1)
                return b2, p2 + ("*",) + proj[1:]
        return base, proj

    def saved(self, op, n=0):
        """the places (and getters' objects) an operand's value was read from: {(place, block)}"""
        if op[0] not in ("c", "m") or n > 12:
            return set()
        pl = op[1]
        if pl[1]:
            return set()
        out = set()
        for i, k, d in self.defs.get(pl[0], ()):
            if isinstance(d, (tuple, list)):
                if d[0] == "use" and d[1][0] in ("c", "m"):
                    p2 = d[1][1]
                    if p2[1] and not self.variant_read(p2):
                        c = self.canon(p2)
                        if c[1]:
                            out.add((c, i))
                    else:
                        out |= self.saved(("c", (p2[0], ())), n + 1)
                elif d[0] == "agg" and d[2] == "Some":
                    for o in rv_operands(d):
                        out |= self.saved(o, n + 1)
            else:
                if d.name in ("core::mem::take", "core::mem::replace") and d.args[0][0] in ("c", "m"):
                    out.add((self.canon((d.args[0][1][0], tuple(d.args[0][1][1]) + ("*",))), i))
                elif d.last in ("clone", "to_owned", "copied", "cloned") and d.args and d.args[0][0] in ("c", "m"):
                    c = self.canon((d.args[0][1][0], tuple(d.args[0][1][1]) + ("*",)))
                    if c[1] and c[0] <= self.body.argc or len(c[1]) > 1:
                        out.add((c, i))
                    else:
                        out |= self.saved(("c", (c[0], ())), n + 1)
                elif d.last == "take" and d.args and d.args[0][0] in ("c", "m"):
                    out.add((self.canon((d.args[0][1][0], tuple(d.args[0][1][1]) + ("*",))), i))
                elif len(d.args) == 1 and d.args[0][0] in ("c", "m") and self.F.targets(d):
                    # a getter
                    t = str(self.body.locals[d.args[0][1][0]][0])
                    if t.startswith("&"):
                        c = self.canon((d.args[0][1][0], tuple(d.args[0][1][1]) + ("*",)))
                        out.add(((c[0], c[1] + ("()" + d.last,)), i))
        return out

    def variant_read(self, pl):
        return len(pl[1]) and isinstance(pl[1][-1], tuple) and pl[1][-1][0] == "f" and any(
            isinstance(x, tuple) and x[0] == "v" for x in pl[1])

    def variable(self, c):
        """the place outlives the function: it is reached through a reference parameter or a captured variable"""
        return "*" in c[1]


def fields_written(F, path, memo={}):
    """fields a setter gives the value of a parameter: {parameter: {field}}"""
    if path not in memo:
        out = {}
        f = F.fns.get(path)
        if f is not None and len(f.body.bbs) <= 12:
            B = Body(F, f, f.body)
            for i in f.body.reachable():
                for s in f.body.bbs[i].stmts:
                    if s[0] == "=" and s[1][1] and s[2][0] in ("use", "agg"):
                        c = B.canon(s[1])
                        fld = last_field(c)
                        if c[0] != 1 or "*" not in c[1] or fld is None:
                            continue
                        for o in rv_operands(s[2]):
                            if o[0] in ("c", "m"):
                                src = B.canon(o[1])
                                if 2 <= src[0] <= f.body.argc:
                                    out.setdefault(src[0], set()).add(fld)
        memo[path] = out
    return memo[path]


def swaps(F, path, memo={}):
    """fields a function overwrites and returns the former value of"""
    if path not in memo:
        memo[path] = set()
        f = F.fns.get(path)
        if f is not None and str(f.body.locals[0][0]) != "()":
            out = set()
            B = Body(F, f, f.body)
            wr = set()
            for i in f.body.reachable():
                bb = f.body.bbs[i]
                for s in bb.stmts:
                    if s[0] == "=" and s[1][1]:
                        c = B.canon(s[1])
                        if "*" in c[1]:
                            wr.add(last_field(c))
                c = bb.call
                if c is not None and c.name in ("core::mem::take", "core::mem::replace") and c.args[0][0] in ("c", "m"):
                    pl = B.canon((c.args[0][1][0], tuple(c.args[0][1][1]) + ("*",)))
                    if "*" in pl[1]:
                        wr.add(last_field(pl))
                elif c is not None and len(F.targets(c)) == 1 and c.args and c.args[0][0] in ("c", "m") and \
                        str(f.body.locals[c.args[0][1][0]][0]).startswith("&mut"):
                    for fl in fields_written(F, F.targets(c)[0]).values():
                        wr |= fl
            wr.discard(None)
            if wr:
                E = Events.__new__(Events)
                E.F, E.fn, E.body, E.B = F, f, f.body, B
                got = set()
                for _, _, d in B.defs.get(0, ()):
                    if isinstance(d, tuple):
                        for o in rv_operands(d):
                            got |= E.saved_fields(o)
                            for _, _, d2 in (B.defs.get(o[1][0], ()) if o[0] in ("c", "m") else ()):
                                if isinstance(d2, tuple) and d2[0] in ("tup", "agg"):
                                    for o2 in rv_operands(d2):
                                        got |= E.saved_fields(o2)
                    else:
                        got |= E.saved_fields(("c", (0, ())))
                out = wr & got
            memo[path] = out
    return memo[path]


def fields_read(F, path, memo={}):
    if path not in memo:
        f = F.fns.get(path)
        out = set()
        if f is not None:
            for _, _, pl, _ in f.body.places_read():
                out.update((x[2], x[1]) for x in pl[1] if isinstance(x, tuple) and x[0] == "f")
        memo[path] = out
    return memo[path]


PUSH = {"push", "push_back", "push_front"}
POP = {"pop", "pop_back", "pop_front"}


def last_field(place):
    for x in reversed(place[1]):
        if isinstance(x, tuple) and x[0] == "f":
            return (x[2], x[1])
    return None


class Events:
    """what a body does to state that outlives it.  ev: {key: {(block, pos): (kind, line, helper?)}} with pos = statement
    index, or None for the call that ends the block.  kinds: mod, restore, push, pop, trunc"""

    def __init__(self, F, fn, body, helpers):
        self.F, self.fn, self.body = F, fn, body
        B = self.B = Body(F, fn, body)
        self.ev = {}
        lens = {}       # local -> places whose length it holds
        for i in body.reachable():
            c = body.bbs[i].call
            if c is not None and c.last == "len" and c.args and c.args[0][0] in ("c", "m") and not c.dest[1]:
                lens.setdefault(c.dest[0], set()).add(B.canon((c.args[0][1][0], tuple(c.args[0][1][1]) + ("*",))))
        for i in body.reachable():
            bb = body.bbs[i]
            for k, s in enumerate(bb.stmts):
                if s[0] == "=" and s[1][1]:
                    c = B.canon(s[1])
                    if c[1] and B.variable(c):
                        self.assign(i, k, c, s[2], s[3])
            c = bb.call
            if c is None:
                continue
            if c.dest[1]:
                d = B.canon(c.dest)
                if B.variable(d):
                    self.assign(i, None, d, None, c.line)
            if not c.args or c.args[0][0] not in ("c", "m"):
                continue
            at = body.locals[c.args[0][1][0]][0]
            recv = B.canon((c.args[0][1][0], tuple(c.args[0][1][1]) + ("*",)))
            var = B.variable(recv) and recv[1] and last_field(recv)
            if c.name in ("core::mem::take", "core::mem::replace", "core::mem::swap") or c.last == "take" and len(c.args) == 1:
                if var:
                    if c.last == "replace" and len(c.args) == 2 and last_field(recv) in self.saved_fields(c.args[1]):
                        self.add(("field", recv), i, None, "restore", c.line)
                    else:
                        self.add(("field", recv), i, None, "mod", c.line)
                continue
            ts = F.targets(c)
            if not ts:
                if var and str(at).startswith("&mut"):
                    if c.last in PUSH:
                        self.add(("field", recv), i, None, "push", c.line)
                    elif c.last in POP:
                        self.add(("field", recv), i, None, "pop", c.line)
                    elif c.last == "truncate" and len(c.args) == 2 and c.args[1][0] in ("c", "m"):
                        ls = set()
                        seen, st = set(), [c.args[1][1][0]]
                        while st:
                            x = st.pop()
                            if x in seen:
                                continue
                            seen.add(x)
                            ls |= lens.get(x, set())
                            for _, _, d in B.defs.get(x, ()):
                                if isinstance(d, tuple) and d[0] == "use" and d[1][0] in ("c", "m"):
                                    st.append(d[1][1][0])
                        if recv in ls:
                            self.add(("field", recv), i, None, "trunc", c.line)
                continue
            hs = {helpers.get(t) for t in ts}
            if len(hs) == 1 and None not in hs:
                for fld, eff in next(iter(hs)):
                    self.ev.setdefault(("field", fld), {})[(i, None)] = ("call", c.line, eff)
                continue
            if len(ts) != 1 or not str(at).startswith("&mut") or not B.variable(recv):
                continue
            for fld in swaps(F, ts[0]):
                self.ev.setdefault(("field", fld), {})[(i, None)] = ("mod", c.line, False)
            for par, flds in fields_written(F, ts[0]).items():
                for fld in flds:
                    got = par <= len(c.args) and fld in self.saved_fields(c.args[par - 1])
                    self.ev.setdefault(("field", fld), {}).setdefault((i, None), ("restore" if got else "mod", c.line, False))

    def getter(self, block, last):
        c = self.body.bbs[block].call
        if c is None:
            return None
        t = self.F.targets(c)
        return t[0] if t else None

    def saved_fields(self, op):
        """fields the value of an operand was read from"""
        out = set()
        for p, b in self.B.saved(op):
            if isinstance(p[1][-1], str) and p[1][-1].startswith("()"):
                g = self.getter(b, None)
                if g:
                    out |= fields_read(self.F, g)
            elif p[1][-1] not in ("*",) or last_field(p):
                out.add(last_field(p))
        out.discard(None)
        seen, st = set(), [op]
        while st:
            o = st.pop()
            if o[0] not in ("c", "m") or o[1] in seen:
                continue
            seen.add(o[1])
            for _, _, d in self.B.defs.get(o[1][0], ()):
                if isinstance(d, tuple):
                    if d[0] == "use" or d[0] == "agg" and d[2] in ("Some", "Ok"):
                        st.extend(rv_operands(d))
                elif d.last in ("branch", "clone"):
                    st.extend(d.args)
                else:
                    ts = self.F.targets(d)
                    if len(ts) == 1:
                        out |= swaps(self.F, ts[0])
        return out

    def assign(self, i, k, c, r, line):
        got = False
        if r is not None and r[0] == "use":
            got = last_field(c) in self.saved_fields(r[1])
        elif r is not None and r[0] == "agg" and r[2] == "Some":
            got = any(last_field(c) in self.saved_fields(o) for o in rv_operands(r))
        self.add(("field", c), i, k, "restore" if got else "mod", line)

    def add(self, key, i, k, kind, line, fallible=False):
        if key[0] == "field":
            key = ("field", last_field(key[1]))
            if key[1] is None:
                return
        self.ev.setdefault(key, {})[(i, k)] = (kind, line, fallible)


class Decisions:
    """values of conditions that decide more than one branch, to rule out ways that cannot happen"""

    def __init__(self, F, body, B):
        self.F, self.body, self.B = F, body, B
        self.nassign = {}
        self.mutref = set()
        for i in body.reachable():
            bb = body.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    if not s[1][1]:
                        self.nassign[s[1][0]] = self.nassign.get(s[1][0], 0) + 1
                    else:
                        self.mutref.add(s[1][0])
                    if s[2][0] == "ref" and s[2][1] and "*" not in s[2][2][1]:
                        self.mutref.add(s[2][2][0])
            if bb.call is not None:
                d = bb.call.dest
                self.nassign[d[0]] = self.nassign.get(d[0], 0) + 1
        # flags: bool variables that are only given constants
        self.flags = set()
        for l, (t, _) in enumerate(body.locals):
            if l <= body.argc or l in self.mutref:
                continue
            ds = B.defs.get(l, ())
            if str(t) == "bool":
                if any(isinstance(d, tuple) and d[0] == "use" and d[1][0] == "k" for _, _, d in ds):
                    self.flags.add(l)
            elif str(t).startswith("core::option::Option<") and len(ds) > 1:
                if all(self.optval(d) is not None for _, _, d in ds):
                    self.flags.add(l)

    def optval(self, r):
        """1 if the value is `Some`, 0 if it is `None`"""
        if not isinstance(r, tuple):
            return None
        if r[0] == "agg" and r[2] in ("None", "Some"):
            return int(r[2] == "Some")
        if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
            ds = self.B.defs.get(r[1][1][0], ())
            if len(ds) == 1:
                return self.optval(ds[0][2])
        return None

    def constant(self, op):
        """variant index of a constant an operand refers to"""
        if op[0] not in ("c", "m") or op[1][1]:
            return None
        l = op[1][0]
        for _ in range(6):
            ds = self.B.defs.get(l, ())
            if len(ds) != 1 or not isinstance(ds[0][2], tuple):
                return None
            d = ds[0][2]
            if d[0] == "ref" and tuple(d[2][1]) in ((), ("*",)):
                l = d[2][0]
            elif d[0] == "use" and d[1][0] in ("c", "m") and not d[1][1][1]:
                l = d[1][1][0]
            elif d[0] == "use" and d[1][0] == "k" and d[1][2] == "p":
                try:
                    b = self.body.fn.promoted(d[1][3])
                except IndexError:
                    return None
                aggs = [s[2] for bb in b.bbs for s in bb.stmts if s[0] == "=" and s[2][0] == "agg"]
                return self.index(aggs[0]) if len(aggs) == 1 else None
            elif d[0] == "agg":
                return self.index(d)
            else:
                return None
        return None

    def index(self, agg):
        adt = self.F.adts.get(agg[1])
        if adt is None or agg[4]:
            return None
        for i, v in enumerate(adt.variants):
            if v.name == agg[2]:
                return i
        return None

    def stable(self, pl):
        l = pl[0]
        if l in self.mutref:
            return False
        n = self.nassign.get(l, 0)
        return n <= 1 if l > self.body.argc else n == 0 and ("*" not in pl[1] or str(self.body.locals[l][0]).startswith("&") and
                                                            not str(self.body.locals[l][0]).startswith("&mut"))

    def key(self, i):
        """(condition, {value: edge target}, mapping of switch values) of the switch ending block i"""
        t = self.body.bbs[i].term
        if t[0] != "switch" or t[1][0] not in ("c", "m"):
            return None
        return self.cond(t[1][1])

    def cond(self, pl, n=0):
        if n > 8:
            return None
        if pl[1]:
            c = self.B.canon(pl)
            return (("val", c), False) if self.stable(c) else None
        l = pl[0]
        if l in self.flags:
            return (("flag", l), False)
        ds = self.B.defs.get(l, ())
        if l <= self.body.argc:
            return (("val", (l, ())), False) if self.stable((l, ())) else None
        if len(ds) != 1:
            return None
        d = ds[0][2]
        if isinstance(d, tuple):
            if d[0] == "discr":
                c = self.B.canon(d[1])
                for _ in range(4):
                    # discriminant of what as_ref() and the like give is that of the place they look at
                    ds2 = self.B.defs.get(c[0], ()) if not c[1] and c[0] > self.body.argc else ()
                    if len(ds2) == 1 and not isinstance(ds2[0][2], tuple) and \
                            ds2[0][2].last in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "clone") and \
                            ds2[0][2].args and ds2[0][2].args[0][0] in ("c", "m"):
                        a = ds2[0][2].args[0][1]
                        c = self.B.canon((a[0], tuple(a[1]) + ("*",)))
                    else:
                        break
                if not c[1] and c[0] in self.flags:
                    return (("flag", c[0]), False)
                return (("discr", c), False) if self.stable(c) else None
            if d[0] == "use" and d[1][0] in ("c", "m"):
                return self.cond(d[1][1], n + 1)
            if d[0] == "un" and d[1] == "Not" and d[2][0] in ("c", "m"):
                r = self.cond(d[2][1], n + 1)
                return None if not r else (r[0], ({"eq": "ne", "ne": "eq"}[r[1][0]], r[1][1]) if isinstance(r[1], tuple) else not r[1])
            return (("val", (l, ())), False)
        c = d
        if c.last in ("is_some", "is_none", "is_ok", "is_err", "is_empty") and len(c.args) == 1 and c.args[0][0] in ("c", "m"):
            p = self.B.canon((c.args[0][1][0], tuple(c.args[0][1][1]) + ("*",)))
            if not p[1] and p[0] in self.flags:
                return (("flag", p[0]), c.last in ("is_none", "is_ok"))
            if not self.stable(p):
                return (("val", (l, ())), False)
            if c.last == "is_empty":
                return (("empty", p), False)
            # Option: None = 0, Some = 1.  Result: Ok = 0, Err = 1.
            return (("discr", p), c.last in ("is_none", "is_ok"))
        if c.last in ("eq", "ne") and len(c.args) == 2 and c.args[0][0] in ("c", "m"):
            k = self.constant(c.args[1])
            if k is not None:
                p = self.B.canon((c.args[0][1][0], tuple(c.args[0][1][1]) + ("*",)))
                if self.stable(p):
                    return (("discr", p), (c.last, k))
        if c.last == "branch" and len(c.args) == 1 and c.args[0][0] in ("c", "m"):
            return None
        return (("val", (l, ())), False)


LIMIT = 60000


def escape(F, fn, body, E, key, helper=False):
    """ways out of the body on which the state of the key is not as it was: (kind of return, line of the change) or None;
    with helper, the net effect on the number of elements on every way out: {(ret, n)}"""
    ev = E.ev[key]
    D = Decisions(F, body, E.B)
    # leaving a node pops what entering it pushed
    D.assume_pop = fn.path.split("::")[-1].startswith("exit_")
    uses = {}
    for i in body.reachable():
        k = D.key(i)
        if k is not None:
            uses.setdefault(k[0], []).append(i)
    track = {k for k, v in uses.items() if len(v) > 1 or k[0] == "flag"}
    if str(body.locals[0][0]) == "bool":
        # a flag that is returned
        for i in body.reachable():
            for s in body.bbs[i].stmts:
                if s[0] == "=" and s[1] == (0, ()) and s[2][0] == "use" and s[2][1][0] in ("c", "m") and not s[2][1][1][1] and \
                        s[2][1][1][0] in D.flags:
                    track.add(("flag", s[2][1][1][0]))
    tryof = {}      # local holding the ControlFlow of a `?` -> local it tests
    for i in body.reachable():
        c = body.bbs[i].call
        if c is not None and c.last == "branch" and len(c.args) == 1 and c.args[0][0] in ("c", "m"):
            tryof[c.dest[0]] = c.args[0][1][0]
    res = set()
    for attempt in (track, {k for k in track if k[0] in ("flag", "discr")}, set()):
        out = run(body, D, ev, attempt, tryof)
        if out is not None:
            return out
    return set()


def run(body, D, ev, track, tryof):
    out = set()
    seen = set()
    st = [(0, 0, 0, None, (), (), 0)]
    while st:
        state = st.pop()
        if state in seen:
            continue
        seen.add(state)
        if len(seen) > LIMIT:
            return None
        x, open_, n, ret, vals, results, line = state
        bb = body.bbs[x]
        vals_d = dict(vals)
        for k, s in enumerate(bb.stmts):
            e = ev.get((x, k))
            if e is not None:
                if e[0] == "mod":
                    open_, line = 1, line or e[1]
                elif e[0] == "restore":
                    open_, n, line = 0, 0, 0
            if s[0] == "=" and not s[1][1]:
                l = s[1][0]
                if l in D.flags and ("flag", l) in track:
                    v = D.optval(s[2])
                    if v is None and s[2][0] == "use":
                        o = s[2][1]
                        v = o[3] if o[0] == "k" else dict(results).get(o[1][0]) if not o[1][1] else None
                    if v is not None:
                        vals_d[("flag", l)] = v
                    else:
                        vals_d.pop(("flag", l), None)
                if l == 0:
                    ret = retkind(s[2])
                    if s[2][0] == "use" and s[2][1][0] in ("c", "m") and not s[2][1][1][1]:
                        v = vals_d.get(("flag", s[2][1][1][0]))
                        if v is not None and str(body.locals[0][0]) == "bool":
                            ret = "true" if v else "false"
                if s[2][0] == "use" and s[2][1][0] in ("c", "m") and not s[2][1][1][1] and s[2][1][1][0] in dict(results):
                    results = tuple(sorted(dict(results, **{}).items() | {(l, dict(results)[s[2][1][1][0]])}))
                elif l in dict(results):
                    results = tuple(x for x in results if x[0] != l)
        res_d = dict(results)
        c = bb.call
        variants = [None]
        if c is not None:
            if not c.dest[1]:
                vals_d.pop(("flag", c.dest[0]), None)
            if c.dest == (0, ()):
                ret = "err" if c.last == "from_residual" else "ok"
            e = ev.get((x, None))
            if e is not None:
                if e[0] == "mod":
                    open_, line = 1, line or e[1]
                elif e[0] == "restore" or e[0] == "trunc":
                    open_, n, line = 0, 0, 0
                elif e[0] == "call":
                    if len(e[2]) == 1:
                        d = e[2][0][1]
                        n += d
                        line = (line or e[1]) if n else 0
                    else:
                        variants = e[2]
                else:
                    n += 1 if e[0] == "push" else -1
                    line = (line or e[1]) if n else 0
            if D.assume_pop and c.last in POP and not c.dest[1] and str(body.locals[c.dest[0]][0]).startswith("core::option::Option"):
                res_d[c.dest[0]] = 1
            if c.dest[0] in tryof and tryof[c.dest[0]] in res_d:
                res_d[c.dest[0]] = res_d[tryof[c.dest[0]]]
        if bb.term[0] == "ret":
            out.add((ret, open_, n, line))
            continue
        for v in variants:
            n2, line2, r2, ret2 = n, line, dict(res_d), ret
            if v is not None:
                n2 += v[1]
                line2 = (line or ev[(x, None)][1]) if n2 else 0
                v = v[0]
            if v in ("ok", "err", "true", "false"):
                r2[c.dest[0]] = {"ok": 0, "err": 1, "true": 1, "false": 0}[v]
                if c.dest[0] in D.flags and not c.dest[1]:
                    vals_d = dict(vals_d)
                    vals_d[("flag", c.dest[0])] = r2[c.dest[0]]
                if c.dest == (0, ()):
                    ret2 = v
            if abs(n2) > 3:
                continue
            if bb.term[0] == "switch":
                t = bb.term
                # a result known from the call
                known = None
                op = t[1]
                if op[0] in ("c", "m"):
                    ds = D.B.defs.get(op[1][0], ())
                    if not op[1][1] and op[1][0] in r2:
                        known = r2[op[1][0]]
                    for _, _, d in ds:
                        if isinstance(d, tuple) and d[0] == "discr" and not d[1][1] and d[1][0] in r2:
                            known = r2[d[1][0]]
                k = D.key(x)
                edges = [(val, y) for val, y in t[2]] + [(None, t[3])]
                for val, y in edges:
                    if known is not None:
                        if val is None and any(v2 == known for v2, _ in t[2]) or val is not None and val != known:
                            continue
                    v3 = vals_d
                    if k is not None and k[0] in track:
                        cv = val
                        if val is None:
                            zs = [v2 for v2, _ in t[2]]
                            cv = 1 if zs == [0] else 0 if zs == [1] else ("not",) + tuple(zs)
                        if isinstance(k[1], tuple):
                            cv = k[1][1] if (cv == 1) == (k[1][0] == "eq") else ("not", k[1][1])
                        elif k[1] and cv in (0, 1):
                            cv = 1 - cv
                        have = vals_d.get(k[0])
                        if have is not None and not compatible(have, cv):
                            continue
                        v3 = dict(vals_d)
                        if isinstance(have, tuple) and isinstance(cv, tuple):
                            v3[k[0]] = ("not",) + tuple(sorted(set(have[1:]) | set(cv[1:])))
                        elif have is None or isinstance(have, tuple):
                            v3[k[0]] = cv
                    st.append((y, open_, n2, ret2, tuple(sorted(v3.items(), key=str)), tuple(sorted(r2.items())), line2))
            else:
                for y in bb.succ():
                    st.append((y, open_, n2, ret2, tuple(sorted(vals_d.items(), key=str)), tuple(sorted(r2.items())), line2))
    return out


def retkind(r):
    if r[0] == "agg" and r[2] == "Err":
        return "err"
    if r[0] == "use" and r[1][0] == "k" and str(r[1][1]) == "bool":
        return "true" if r[1][3] else "false"
    return "ok"


def compatible(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return True
    if isinstance(a, tuple):
        return b not in a[1:]
    if isinstance(b, tuple):
        return a not in b[1:]
    return a == b


def guard_types(F):
    """types whose destructor takes something back"""
    out = set()
    for p, f in F.fns.items():
        if p.endswith("::drop") and " as core::ops::drop::Drop>" in p or f.path.endswith("as core::ops::Drop>::drop"):
            out.add(p)
    return out


def guards(F, fns, events):
    """types whose destructor takes an element back: {type: field}"""
    out = {}
    for f in fns:
        if f.path.endswith("as core::ops::drop::Drop>::drop") and f.path in events:
            t = f.body.locals[1][0].peel()
            out[t.path] = f.path
    return out


class Analysis:
    def __init__(self, F, crates):
        self.F = F
        self.crates = crates
        self.fns = [f for f in F.fns.values() if f.crate.name in crates and not f.derived and "::tests::" not in f.path and
                    not f.path.endswith(("as derive_visitor::VisitorMut>::visit", "as derive_visitor::Visitor>::visit"))]
        self.helpers = {}
        self.guards = {}
        for rnd in range(6):
            before = dict(self.helpers)
            self.events = {}
            for f in self.fns:
                E = Events(F, f, f.body, self.helpers)
                if E.ev:
                    self.events[f.path] = E
            self.guards = guards(F, self.fns, self.events)
            touch = {}
            for p, E in self.events.items():
                for key, ev in E.ev.items():
                    if key[0] == "field" and any(e[0] in ("push", "pop", "call") for e in ev.values()):
                        touch.setdefault(key[1], set()).add(p)
            popped = {key[1] for E in self.events.values() for key, ev in E.ev.items()
                      if any(e[0] == "pop" or e[0] == "call" and min(x[1] for x in e[2]) < 0 for e in ev.values())}
            callers = {fld: F.callers_of(ps) for fld, ps in touch.items() if fld in popped}
            self.helpers = {}
            for p, E in self.events.items():
                f = F.fns[p]
                if any(t.path in self.guards for t in f.body.locals[0][0].walk() if t.kind == "adt"):
                    continue        # gives out a guard, whose destructor undoes it
                for key, ev in E.ev.items():
                    kinds = {e[0] for e in ev.values()}
                    if key[0] != "field" or not kinds & {"push", "pop", "call"} or kinds - {"push", "pop", "call"}:
                        continue
                    fld = key[1]
                    if fld not in popped:
                        continue
                    # a leaf: calls nothing else that touches the stack (or tells the caller whether to undo it)
                    if str(f.body.locals[0][0]) != "bool" and any(t in callers[fld] and t not in before for _, c in f.body.calls() for t in F.targets(c)):
                        continue
                    o = escape(F, f, f.body, E, key)
                    eff = {}
                    for r, _, n, _ in o:
                        eff.setdefault(r, set()).add(n)
                    if not eff or any(abs(x) > 1 for v in eff.values() for x in v) or \
                            set(eff) - {"ok", "err"} and set(eff) - {"true", "false"}:
                        continue
                    if any(len(v) > 1 for v in eff.values()):
                        # sometimes: only for a visitor's methods, which are matched with each other
                        cs = self.callers(p)
                        if not cs or any(not c.split("::")[-1].startswith(("enter_", "exit_")) for c in cs):
                            continue
                        self.helpers.setdefault(p, []).append((fld, tuple(("", x) for x in sorted(set().union(*eff.values())))))
                        continue
                    eff = {k: next(iter(v)) for k, v in eff.items()}
                    if not any(eff.values()):
                        continue
                    if len(set(eff.values())) == 1:
                        eff = {"": next(iter(eff.values()))}
                    self.helpers.setdefault(p, []).append((fld, tuple(sorted(eff.items()))))
            self.helpers = {k: tuple(sorted(v)) for k, v in self.helpers.items()}
            if self.helpers == before:
                break

    def callers(self, p):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for f in self.fns:
                for _, c in f.body.calls():
                    for t in self.F.targets(c):
                        self._callers.setdefault(t, set()).add(f.path)
        return self._callers.get(p, set())

    def excused(self, p, key, seen=()):
        """every caller puts back what this function leaves changed"""
        cs = self.callers(p)
        if not cs or p in seen:
            return False
        for c in cs:
            f = self.F.fns[c]
            E = self.events.get(c) or Events(self.F, f, f.body, self.helpers)
            ev = dict(E.ev.get(key, {}))
            for i in f.body.reachable():
                k = f.body.bbs[i].call
                if k is not None and p in self.F.targets(k):
                    ev[(i, None)] = ("mod", k.line, False)
            if not any(e[0] == "restore" for e in ev.values()):
                return False
            E2 = Events.__new__(Events)
            E2.F, E2.fn, E2.body, E2.B, E2.ev = self.F, f, f.body, E.B, {key: ev}
            if any(x[1] for x in escape(self.F, f, f.body, E2, key)) and not self.excused(c, key, seen + (p,)):
                return False
        return True

    def effects(self, p, key):
        """{(kind of return, overwritten?, elements added, line)}"""
        f = self.F.fns[p]
        return escape(self.F, f, f.body, self.events[p], key)
