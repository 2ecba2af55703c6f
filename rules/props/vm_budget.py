"""vm-js: every loop a script can prolong checks the budget, every recursion it can deepen checks the depth."""
from facts import rv_operands
from flow import place_ty

TICK = "vm_js::vm::Vm::tick"
CRATES = ("vm_js", "runtime_js", "webidl_vm_js")
# calls after which a loop's length is out of the engine's hands, or which allocate on the heap
COLLECT = "vm_js::heap::Heap::collect_garbage_with_extra_roots"
VMS = {"vm_js::vm::Vm"}
# each turn replaces an operand by one of a simpler type
BOUNDED = {"vm_js::ops::abstract_equality"}
# drains of queues: each turn takes one element off, and what a job runs is charged by the call it makes
DRAIN = {"pop", "pop_front", "pop_back"}
# loops over in-memory data
NOT_IN_MEMORY = ("core::ops::range::", "core::iter::sources::", "core::iter::adapters::step_by")


def sccs(nodes, succ):
    idx, low, st, on, out, n = {}, {}, [], set(), [], 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == u:
                            break
                    if len(c) > 1 or u in succ(u):
                        out.append(c)
    return out


class Ticks:
    def __init__(self, F):
        self.F = F
        self.fns = [f for f in F.fns.values() if f.crate.name in CRATES and not f.derived and "::tests::" not in f.path]
        self.always = {TICK}
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f.path not in self.always and self.passes(f):
                    self.always.add(f.path)
                    ch = True

    def ticks(self, c):
        t = self.F.targets(c)
        return bool(t) and all(x in self.always for x in t)

    def direct(self, c):
        """the charge itself, or a function that does nothing else"""
        t = self.F.targets(c)
        return bool(t) and all(x == TICK or [y.name for _, y in self.F.fns[x].body.calls()] == [TICK] for x in t)

    def passes(self, fn):
        """every path that returns something other than an error or `Ok(None)` charges the budget first"""
        b = fn.body
        seen = set()
        st = [(0, None, frozenset())]
        while st:
            x, ret, none = st.pop()
            if (x, ret, none) in seen:
                continue
            seen.add((x, ret, none))
            bb = b.bbs[x]
            nn = set(none)
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                d, r = s[1], s[2]
                isnone = r[0] == "agg" and r[2] == "None" or \
                    r[0] == "use" and r[1][0] in ("c", "m") and r[1][1] in {(v, ()) for v in nn}
                if not d[1]:
                    (nn.add if isnone else nn.discard)(d[0])
                if d[0] == 0:
                    if r[0] == "agg" and r[2] == "Err":
                        ret = "err"
                    elif r[0] == "agg" and r[2] == "Ok" and any(o[0] in ("c", "m") and o[1][0] in nn for o in rv_operands(r)):
                        ret = "err"
                    else:
                        ret = "ok"
            c = bb.call
            if c is not None:
                if self.ticks(c):
                    continue
                if c.dest[0] == 0:
                    ret = "err" if c.last == "from_residual" else "ok"
                elif not c.dest[1]:
                    nn.discard(c.dest[0])
            if bb.term[0] == "ret":
                if ret != "err":
                    return False
                continue
            for y in bb.succ():
                st.append((y, ret, frozenset(nn)))
        return True


def lengthy(F, body, local, seen=None):
    """the value is the length of something in memory, or a constant"""
    seen = seen if seen is not None else set()
    if local in seen:
        return True
    seen.add(local)
    if 1 <= local <= body.argc:
        return False
    defs = []
    for i in body.reachable():
        bb = body.bbs[i]
        for s in bb.stmts:
            if s[0] == "=" and s[1][0] == local:
                defs.append(s[2])
        if bb.call is not None and bb.call.dest[0] == local:
            defs.append(bb.call)
    if not defs:
        return False
    for r in defs:
        if not isinstance(r, tuple) and not isinstance(r, list):
            n = r.last
            if n in ("len", "count", "capacity", "len_utf16", "len_utf8", "len_code_units"):
                continue
            if n in ("min", "saturating_sub", "saturating_add", "checked_sub", "max", "wrapping_sub", "into", "from", "clone",
                     "branch", "unwrap_or", "checked_add", "into_iter", "rev", "ok_or", "map_err"):
                if all(a[0] == "k" or lengthy(F, body, a[1][0], seen) for a in r.args):
                    continue
            return False
        if r[0] == "len":
            continue
        ops = rv_operands(r) if r[0] not in ("ref", "discr") else [("c", r[2] if r[0] == "ref" else r[1])]
        if r[0] in ("use", "bin", "cbin", "cast", "agg", "un", "ref", "len"):
            if all(o[0] == "k" or lengthy(F, body, o[1][0], seen) for o in ops if o[0] in ("c", "m", "k")):
                continue
        return False
    return True


def budget(ck, F):
    ck.rule("a loop whose length is not that of data in memory (it runs script code, allocates on the script heap, or counts "
            "to a bound that no in-memory length gives) contains, on every way round, a call that charges the budget, or "
            "charges it periodically")
    T = Ticks(F)
    mayrun = F.callers_of({TICK})
    maygc = F.callers_of({COLLECT})
    n = loops = flagged = 0
    for f in sorted(T.fns, key=lambda f: f.path):
        b = f.body
        reach = set(b.reachable())
        tick = {i for i in reach if b.bbs[i].call is not None and T.ticks(b.bbs[i].call)}
        full = sccs(reach, lambda i: b.bbs[i].succ())
        loops += len(full)
        if not full:
            continue
        # an inner loop is judged by itself: cut in-memory drivers, then look at what remains
        drive = set()
        for i in reach:
            c = b.bbs[i].call
            if c is None or c.last not in ("next", "next_back") or not c.args or c.args[0][0] not in ("c", "m"):
                continue
            t = place_ty(F, b, c.args[0][1])
            s = str(t)
            if any(w in s for w in NOT_IN_MEMORY):
                loc = c.args[0][1][0]
                if lengthy(F, b, loc):
                    drive.add(i)
            elif F.targets(c):
                pass
            else:
                drive.add(i)
        for c in full:
            if c & tick and not (c & drive):
                n += 1
                ck.ob("charged-loop:%s" % f.path, True, f.where(f.line))
        k = 0
        parts = sccs(reach - tick - drive, lambda i: [x for x in b.bbs[i].succ() if x not in tick and x not in drive])
        # loops of the script itself, whatever drives them
        for c in sccs(reach - tick, lambda i: [x for x in b.bbs[i].succ() if x not in tick]):
            if not any(c & p for p in parts) and any(b.bbs[i].call is not None and loop_body(b, b.bbs[i].call) for i in c):
                parts.append(c)
        for c in parts:
            calls = [b.bbs[i].call for i in sorted(c) if b.bbs[i].call is not None]
            if any(x.last in DRAIN for x in calls):
                continue
            script = [x for x in calls if any(t in mayrun for t in F.targets(x))]
            alloc = [x for x in calls if any(t in maygc for t in F.targets(x))]
            rng = [x for x in calls if x.last in ("next", "next_back")]
            if not script and not alloc and not rng or f.path in BOUNDED:
                continue
            n += 1
            k += 1
            # the whole loop this is a part of: does it charge the budget at intervals?
            whole = [w for w in full if c <= w]
            periodic = whole and any(b.bbs[i].call is not None and T.direct(b.bbs[i].call) and at_intervals(F, b, i, whole[0])
                                     for i in whole[0])
            line = min([s[3] for i in c for s in b.bbs[i].stmts if s[0] == "=" and s[3]] or [f.line])
            ck.ob("loop:%s:%d" % (f.path, k), bool(periodic), f.where(line),
                  "%s: a way round this loop charges no budget, although a script decides how often it turns (it calls %s)" %
                  (f.path, ", ".join(sorted({x.last for x in script + alloc + rng})[:5])))
            flagged += not periodic
    ck.count("loops", loops)
    ck.count("functions_that_always_charge", len(T.always))
    ticking = sum(1 for f in T.fns for i in f.body.reachable() if f.body.bbs[i].call is not None and f.body.bbs[i].call.name == TICK)
    ck.floor("direct_charges", ticking, 12)
    ck.floor("loops", loops, 120)
    for p in ("vm_js::exec::Evaluator::<'a>::eval_expr", "vm_js::exec::Evaluator::<'a>::eval_stmt_labelled",
              "vm_js::vm::Vm::call_impl", "vm_js::vm::Vm::construct_impl"):
        fn = F.fns.get(p)
        if ck.anchor("entry:" + p, fn is not None, p):
            ck.ob("always:" + p, p in T.always, fn.where(fn.line), "%s can return a result without charging the budget" % p)


def sources(b, local):
    """what a local is computed from: the operators used, the calls, and whether anything else"""
    ops, calls, seen, st = set(), [], set(), [local]
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        for i in b.reachable():
            bb = b.bbs[i]
            for s in bb.stmts:
                if s[0] == "=" and s[1][0] == l:
                    r = s[2]
                    if r[0] in ("bin", "cbin"):
                        ops.add(r[1])
                    st.extend(o[1][0] for o in rv_operands(r) if o[0] in ("c", "m"))
            if bb.call is not None and bb.call.dest[0] == l:
                calls.append(bb.call)
                if bb.call.last not in ABSENT:
                    st.extend(a[1][0] for a in bb.call.args if a[0] in ("c", "m"))
    return ops, calls


ABSENT = ("is_none", "is_empty")


def at_intervals(F, b, tick, loop):
    """the charge in block `tick` is skipped only for a number of turns (a remainder or a mask of a counter decides), or
    when something else in the loop that is known to be there charges (a flag made of `is_none` and `is_empty` decides)"""
    # the switch that decides: the last one on the way to the charge that another way round goes past it
    deciding = []
    for i in loop:
        if b.bbs[i].term[0] != "switch":
            continue
        out = [x for x in b.bbs[i].succ() if x in loop]

        def reaches(x):
            seen, st = set(), [x]
            while st:
                y = st.pop()
                if y == tick:
                    return True
                if y in seen or y not in loop or y == i:
                    continue
                seen.add(y)
                st.extend(b.bbs[y].succ())
            return False
        r = [reaches(x) for x in out]
        if any(r) and not all(r):
            deciding.append(i)
    for i in deciding:
        op = b.bbs[i].term[1]
        if op[0] not in ("c", "m"):
            return False
        ops, calls = sources(b, op[1][0])
        if ops & {"Rem", "BitAnd"}:
            continue
        # a flag
        defs = {j for j in b.reachable() for s in b.bbs[j].stmts if s[0] == "=" and s[1] == (op[1][0], ())} | \
               {j for j in b.reachable() if b.bbs[j].call is not None and b.bbs[j].call.dest == (op[1][0], ())}
        if not calls and not any(c for c in flag_calls(b, defs)):
            return False
        cs = [c for c in calls + flag_calls(b, defs)]
        if not cs or any(c.last not in ABSENT for c in cs):
            return False
        names = set()
        for c in cs:
            names |= {x for a in c.args for x in origin_fields(b, a)}
        used = {x[1] for j in loop for s in b.bbs[j].stmts if s[0] == "=" for p in places(s[2]) for x in p[1]
                if isinstance(x, tuple) and x[0] == "f"}
        if not names or not names <= used | {"stx"}:
            return False
    return True


def flag_calls(b, defs):
    """the calls whose results decide which of the definitions of a flag is taken"""
    pred = {}
    for j in b.reachable():
        for x in b.bbs[j].succ():
            pred.setdefault(x, set()).add(j)
    out, seen, st = [], set(), list(defs)
    dom = None
    while st:
        j = st.pop()
        for p in pred.get(j, ()):
            if p in seen:
                continue
            t = b.bbs[p].term
            c = b.bbs[p].call
            if t[0] == "switch" and t[1][0] in ("c", "m"):
                d = [x.call for y in b.reachable() for x in [b.bbs[y]] if x.call is not None and x.call.dest == t[1][1]]
                if not d or any(x.last not in ABSENT for x in d):
                    continue
                out += d
                seen.add(p)
                st.append(p)
            elif c is not None and c.last in ABSENT or t[0] == "goto" and len(b.bbs[p].stmts) < 12 and c is None:
                seen.add(p)
                st.append(p)
    return out


def places(r):
    if r[0] == "ref":
        yield r[2]
    elif r[0] == "discr":
        yield r[1]
    for o in rv_operands(r) if r[0] not in ("ref", "discr") else ():
        if o[0] in ("c", "m"):
            yield o[1]


def origin_fields(b, a):
    """the names of the last field a reference handed to `is_none` or `is_empty` goes through"""
    out, seen, st = set(), set(), [a[1]] if a[0] in ("c", "m") else []
    while st:
        p = st.pop()
        f = [x[1] for x in p[1] if isinstance(x, tuple) and x[0] == "f"]
        if f:
            out.add(f[-1])
            continue
        if p[0] in seen:
            continue
        seen.add(p[0])
        for i in b.reachable():
            for s in b.bbs[i].stmts:
                if s[0] == "=" and s[1] == (p[0], ()):
                    st.extend(places(s[2]))
            c = b.bbs[i].call
            if c is not None and c.dest == (p[0], ()):
                st.extend(x[1] for x in c.args if x[0] in ("c", "m"))
    return out


def loop_body(body, c):
    return any(a[0] in ("c", "m") and "parse_js::ast::stmt::ForBody" in str(body.locals[a[1][0]][0]) for a in c.args)


LIMIT = "max_stack_depth"


def field_names(place):
    return [x[1] for x in place[1] if isinstance(x, tuple) and x[0] == "f"]


class Frames:
    """which functions record a stack frame, and only after comparing the depth with the limit"""

    def __init__(self, F, fns):
        self.F = F
        self.pushes = {}        # fn path -> blocks that push onto the frame stack
        self.unguarded = []
        for f in fns:
            for b in f.bodies():
                ps = [i for i, c in b.calls() if c.last in ("push", "push_back", "insert", "extend") and c.args and
                      self.is_stack(b, c.args[0])]
                if not ps:
                    continue
                self.pushes.setdefault(f.path, set()).update(ps)
                edges = self.within(b)
                seen, st = set(), [0]
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    st.extend(y for y in b.bbs[x].succ() if (x, y) not in edges)
                if seen & set(ps):
                    self.unguarded.append((f, b.bbs[ps[0]].call.line))
        bad = {f.path for f, _ in self.unguarded}
        self.frames = set()
        ch = True
        while ch:
            ch = False
            for f in fns:
                if f.path in self.frames or f.path in bad:
                    continue
                own = self.pushes.get(f.path, set())
                if not own and not any(set(F.targets(c)) & self.frames for _, c in f.body.calls()):
                    continue
                if self.always(f, own):
                    self.frames.add(f.path)
                    ch = True

    def is_stack(self, b, a):
        if a[0] not in ("c", "m"):
            return False
        seen, st = set(), [a[1]]
        while st:
            l, pr = st.pop()
            if any(isinstance(x, tuple) and x[0] == "f" and x[1] == "stack" and x[2] == "vm_js::vm::Vm" for x in pr):
                return True
            if l in seen:
                continue
            seen.add(l)
            for i in b.reachable():
                for s in b.bbs[i].stmts:
                    if s[0] == "=" and s[1] == (l, ()) and s[2][0] in ("ref", "use"):
                        r = s[2]
                        if r[0] == "ref":
                            st.append(r[2])
                        elif r[1][0] in ("c", "m"):
                            st.append(r[1][1])
        return False

    def within(self, b):
        """edges taken only when the depth is below the limit"""
        lim, ln, cmp_, neg = set(), set(), {}, set()
        ch = True
        while ch:
            ch = False
            for i in b.reachable():
                bb = b.bbs[i]
                for s in bb.stmts:
                    if s[0] != "=" or s[1][1]:
                        continue
                    d, r = s[1][0], s[2]
                    if r[0] == "use" and r[1][0] in ("c", "m"):
                        src = r[1][1]
                        for S in (lim, ln):
                            if (LIMIT in field_names(src) if S is lim else False) or not src[1] and src[0] in S:
                                if d not in S:
                                    S.add(d)
                                    ch = True
                        if not src[1] and src[0] in cmp_ and cmp_.get(d) != cmp_[src[0]]:
                            cmp_[d] = cmp_[src[0]]
                            ch = True
                    elif r[0] in ("bin", "cbin") and r[1] in ("Ge", "Gt", "Lt", "Le", "Eq", "Ne"):
                        sides = []
                        for o in (r[2], r[3]):
                            if o[0] not in ("c", "m"):
                                sides.append("?")
                            elif LIMIT in field_names(o[1]) or o[1][0] in lim:
                                sides.append("max")
                            elif o[1][0] in ln:
                                sides.append("len")
                            else:
                                sides.append("?")
                        v = None
                        if sides == ["len", "max"]:
                            v = {"Ge": True, "Gt": True, "Lt": False, "Le": False}.get(r[1])
                        elif sides == ["max", "len"]:
                            v = {"Le": True, "Lt": True, "Gt": False, "Ge": False}.get(r[1])
                        if v is not None and cmp_.get(d) != v:
                            cmp_[d] = v
                            ch = True
                    elif r[0] == "un" and r[1] == "Not" and r[2][0] in ("c", "m") and r[2][1][0] in cmp_ and d not in cmp_:
                        cmp_[d] = not cmp_[r[2][1][0]] if cmp_[r[2][1][0]] is not None else None
                        ch = True
                c = bb.call
                if c is not None and not c.dest[1]:
                    d = c.dest[0]
                    if c.last == "len" and c.args and self.is_stack(b, c.args[0]) and d not in ln:
                        ln.add(d)
                        ch = True
                    if d not in cmp_ and str(b.locals[d][0]) == "bool" and any(
                            t in self.F.fns and any(LIMIT in field_names(p) for _, _, p, _ in self.F.fns[t].body.places_read())
                            for t in self.F.targets(c)):
                        cmp_[d] = None
                        ch = True
        out = set()
        for i in b.reachable():
            t = b.bbs[i].term
            if t[0] != "switch" or t[1][0] not in ("c", "m") or t[1][1][1] or t[1][1][0] not in cmp_:
                continue
            over = cmp_[t[1][1][0]]
            zero = [y for v, y in t[2] if v == 0]
            if over in (True, None):
                out.update((i, y) for y in zero)
            if over is False:
                out.update((i, y) for y in b.bbs[i].succ() if y not in zero)
        return out

    def always(self, f, own):
        """every way to a result other than an error records a frame"""
        b = f.body
        seen, st = set(), [(0, None)]
        while st:
            x, ret = st.pop()
            if (x, ret) in seen:
                continue
            seen.add((x, ret))
            bb = b.bbs[x]
            for s in bb.stmts:
                if s[0] == "=" and s[1][0] == 0:
                    ret = "err" if s[2][0] == "agg" and s[2][2] == "Err" else "ok"
            c = bb.call
            if c is not None:
                if x in own or (set(self.F.targets(c)) and set(self.F.targets(c)) <= self.frames):
                    continue
                if c.dest[0] == 0:
                    ret = "err" if c.last == "from_residual" else "ok"
            if bb.term[0] == "ret":
                if ret != "err":
                    return False
                continue
            st.extend((y, ret) for y in bb.succ())
        return True

    def free(self, F, body):
        """blocks that can be reached without recording a frame"""
        fr = {i for i, c in body.calls() if set(F.targets(c)) and set(F.targets(c)) <= self.frames}
        return body.reach_from(0, fr) if fr else set(body.reachable())


def has_ast(ty, memo={}):
    k = str(ty)
    if k not in memo:
        memo[k] = any(t.kind == "adt" and t.path and t.path.startswith("parse_js::ast") for t in ty.walk()) or "parse_js::ast" in k
    return memo[k]


class Descent:
    """does a value come out of a piece of syntax the function was given?"""

    def __init__(self, body):
        self.body = body
        self.defs = {}
        for i in body.reachable():
            bb = body.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    r = s[2]
                    ops = rv_operands(r) if r[0] not in ("ref", "discr") else [("c", r[2] if r[0] == "ref" else r[1])]
                    self.defs.setdefault(s[1][0], []).extend(o[1][0] for o in ops if o[0] in ("c", "m"))
            if bb.call is not None:
                self.defs.setdefault(bb.call.dest[0], []).extend(a[1][0] for a in bb.call.args if a[0] in ("c", "m"))

    def down(self, local):
        seen, st = set(), [local]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if 1 <= x <= self.body.argc:
                if has_ast(self.body.locals[x][0]) or x == 1 and self.body.locals[x][0].peel().kind == "closure":
                    return True
                continue
            st.extend(self.defs.get(x, ()))
        return False


# recursion whose depth is bounded by something other than a script: one turn per module the host has loaded, or a
# value that is converted to one of a simpler type
SHALLOW = {
    "vm_js::module_loading::": "each step loads one more module the host supplied",
    "vm_js::module_record::SourceTextModuleRecord::": "visits each module of the graph once",
    "vm_js::ops::to_number": "the operand of the inner call is primitive",
    "vm_js::agent::Agent::value_to_error_string": "the value thrown by a failed conversion is a native error",
}


def depth(ck, F):
    ck.rule("every cycle of the call graph of the script engine either records a stack frame (which checks the depth limit) "
            "or passes a smaller piece of the syntax tree it was given on at each call")
    fns = [f for f in F.fns.values() if f.crate.name in CRATES and not f.derived and "::tests::" not in f.path]
    names = {f.path for f in fns}
    FR = Frames(F, fns)
    edges, info = {}, {}
    n = 0
    for f in fns:
        e = edges.setdefault(f.path, set())
        for b in f.bodies():
            free = FR.free(F, b)
            D = None
            for i in sorted(free):
                bb = b.bbs[i]
                for s in bb.stmts:
                    if s[0] == "=" and s[2][0] == "clo" and s[2][1] in names:
                        e.add(s[2][1])
                        info.setdefault((f.path, s[2][1]), []).append((True, None))
                c = bb.call
                if c is None:
                    continue
                for t in F.targets(c):
                    if t not in names:
                        continue
                    if c.kind in ("trait", "virtual") and t != c.path and t.rsplit("::", 1)[-1] == f.path.rsplit("::", 1)[-1]:
                        continue    # delegation to another implementation of the same method
                    n += 1
                    e.add(t)
                    down = False
                    for a in c.args:
                        if a[0] in ("c", "m") and has_ast(b.locals[a[1][0]][0]):
                            D = D or Descent(b)
                            if D.down(a[1][0]):
                                down = True
                    info.setdefault((f.path, t), []).append((down, c.line))
    cyc = sccs(set(edges), lambda x: edges[x])
    where = {}
    for k, c in enumerate(cyc):
        for x in c:
            where[x] = k
    m = 0
    for (u, v), xs in sorted(info.items(), key=lambda z: z[0]):
        if u not in where or where.get(v) != where[u]:
            continue
        m += 1
        bad = [line for down, line in xs if not down]
        if bad and any(u.startswith(p) for p in SHALLOW):
            ck.count("bounded_otherwise")
            continue
        ck.ob("recursion:%s:%s" % (u, v), not bad, F.fns[u].where(bad[0] if bad else None),
              "%s calls %s, which can come back to it, without checking the depth and without descending in the syntax tree" %
              (u, v))
    ck.floor("calls_without_a_frame", n, 3000)
    ck.floor("recursive_calls", m, 90)
    for f, line in FR.unguarded:
        ck.ob("limit:%s" % f.path, False, f.where(line),
              "%s records a frame on a path where the depth is not known to be below the limit" % f.path)
    ck.ob("limit", bool(FR.pushes), "", "no place was found where frames are recorded")
    ck.floor("frames", sum(1 for f in fns for b in f.bodies() for _, c in b.calls() if set(F.targets(c)) & FR.frames), 6)


PROPS = {"A05": budget, "A06": depth}
