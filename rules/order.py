"""Order taint: may the arbitrary iteration order of a hash container reach something that keeps an order?

A site is a call that produces an iterator over a hash container.  The iterator value is followed through
adapters to where it is consumed; a consumer is harmless when the result does not depend on the order
(collecting into an ordered or hashed container, commutative folds, sorting what was collected, loops whose
per-element effects commute).  Everything else is reported."""
from facts import const_int
from flow import place_ty

HASHY = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
         "hashbrown::map::HashMap", "hashbrown::set::HashSet", "ahash::hash_map::AHashMap", "ahash::hash_set::AHashSet",
         "dashmap::DashMap", "dashmap::DashSet", "hashbrown::table::HashTable", "dashmap::set::DashSet")
START = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values",
         "union", "intersection", "difference", "symmetric_difference", "extract_if"}
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "flat_map", "flatten", "chain", "peekable", "inspect",
         "into_iter", "by_ref", "iter", "as_ref", "deref", "clone", "fuse", "as_slice", "deref_mut", "as_mut", "zip_none",
         "unwrap", "borrow", "from_residual_none", "branch", "ok", "unwrap_or_default", "to_vec", "as_mut_slice", "iter_mut",
         "into_boxed_slice", "to_owned", "drain"}
COMMUTE = {"any", "all", "count", "sum", "product", "max", "min", "len", "is_empty", "size_hint", "contains", "eq_none",
           "with_capacity", "reserve", "is_some", "is_none", "drop", "capacity", "contains_key", "is_subset",
           "is_superset", "is_disjoint", "copy_none"}
SORTS = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
         "sort_by_cached_key", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable"}
# container inserts keyed by the element: the final content does not depend on the order of insertion
KEYED = {"insert", "remove", "entry", "or_insert", "or_insert_with", "or_default", "contains", "contains_key", "get",
         "get_mut", "clear", "take", "replace_none", "retain", "or_insert_with_key", "and_modify", "swap_remove_none",
         "union_none", "append_none"}


def hashy(t):
    t = t.peel()
    return t.kind == "adt" and (t.path in HASHY or t.path.endswith(("::HashMap", "::HashSet", "::DashMap", "::DashSet",
                                                                     "::AHashMap", "::AHashSet")))


def unordered(t):
    """containers whose content does not remember an insertion order"""
    t = t.peel()
    return hashy(t) or (t.kind == "adt" and t.path.endswith(("::BTreeMap", "::BTreeSet", "::BinaryHeap")))


def seq(t):
    t = t.peel()
    return t.kind in ("slice", "array") or (t.kind == "adt" and t.path.endswith(
        ("::Vec", "::VecDeque", "::SmallVec", "::String", "::IndexMap", "::IndexSet", "::LinkedList", "::Box",
         "::ThinVec")))

PASS = {"deref", "deref_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "index", "index_mut", "get_mut", "get", "entry",
        "or_default", "or_insert", "or_insert_with", "unwrap", "expect", "iter_mut", "as_mut_slice", "as_slice", "into_iter",
        "next", "values_mut", "and_modify", "or_insert_with_key", "last_mut", "first_mut", "write", "lock", "read",
        "get_or_insert_with", "as_deref_mut", "as_deref", "ok", "unwrap_or_else", "make_mut", "by_ref", "branch", "iter",
        "peekable", "get_or_insert_default", "into_mut", "to_mut"}
MUTSEQ = {"push", "extend", "push_back", "push_front", "push_str", "extend_from_slice", "insert", "append", "write_str",
          "write_fmt", "add_assign", "resize"}
FREE = {"drop", "clone", "eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "hash_none", "fmt_none", "next_none"}
ERRNESS = ("from_residual",)


class Order:
    def __init__(self, F, in_scope, ok_fields=(), commuting=()):
        self.F, self.in_scope = F, in_scope
        self.ok_fields = ok_fields
        self.commuting = set(commuting)
        self.eff = {}
        self.retu = {}      # fn path -> 'iter' / 'seq' when it returns something in arbitrary order
        self.reports = {}
        self.sites = 0
        self.fieldtaint = {}
        self.per_fn = {}
        self._d, self._rt, self.cb, self.sp = {}, {}, {}, {}

    # ------------------------------------------------------------ helpers
    def info(self, fn):
        r = self._d.get(fn.path)
        if r is None:
            defs = {}
            b = fn.body
            for i in b.reachable():
                bb = b.bbs[i]
                for s in bb.stmts:
                    if s[0] == "=":
                        defs.setdefault(s[1][0], []).append((i, "s", s))
                if bb.call is not None:
                    defs.setdefault(bb.call.dest[0], []).append((i, "c", bb.call))
            r = self._d[fn.path] = (defs, b.dominators())
        return r

    def fields(self, proj):
        return tuple(e[1] for e in proj if isinstance(e, tuple) and e[0] == "f")

    def root(self, fn, pl, depth=0, seen=()):
        """(base local, fields, through-element?) of the storage that a place denotes"""
        defs, _ = self.info(fn)
        base, proj = pl
        f = self.fields(proj)
        if depth > 25 or base in seen or 1 <= base <= fn.body.argc:
            return (base, f)
        ds = [d for d in defs.get(base, ()) if (d[1] == "c" and not d[2].dest[1]) or (d[1] == "s" and not d[2][1][1])]
        ty = fn.body.locals[base][0]
        for d in ds:
            if d[1] == "s":
                r = d[2][2]
                if r[0] == "ref":
                    x = self.root(fn, r[2], depth + 1, seen + (base,))
                    return (x[0], x[1] + f)
                if r[0] in ("use", "cast") and (r[1] if r[0] == "use" else r[2])[0] in ("c", "m"):
                    o = r[1] if r[0] == "use" else r[2]
                    x = self.root(fn, o[1], depth + 1, seen + (base,))
                    return (x[0], x[1] + f)
                if r[0] == "agg" and len(r[4]) == 1 and r[4][0][0] in ("c", "m"):
                    x = self.root(fn, r[4][0][1], depth + 1, seen + (base,))
                    return (x[0], x[1])
            else:
                c = d[2]
                if c.args and c.args[0][0] in ("c", "m") and (c.last in PASS or self.refty(ty)):
                    x = self.root(fn, c.args[0][1], depth + 1, seen + (base,))
                    return (x[0], x[1] + ("[]",) if x[1][-1:] != ("[]",) and c.last not in
                            ("deref", "deref_mut", "into_iter", "iter", "iter_mut", "as_mut_slice", "as_slice",
                             "write", "lock", "read", "borrow_mut", "borrow", "unwrap", "expect", "as_mut", "as_ref",
                             "by_ref", "branch", "make_mut", "to_mut") else x[1])
        return (base, f)

    def refty(self, t):
        if t.kind == "ref" and t.mut:
            return True
        if t.kind != "adt":
            return False
        if t.path in ("core::option::Option", "core::result::Result"):
            return self.refty(t.args[0])
        if t.path.endswith(("Guard", "::RefMut", "::Entry", "::OccupiedEntry", "::VacantEntry")):
            return True
        a = self.F.adts.get(t.path)
        if a is None:
            return False
        r = self._rt.get(t.path)
        if r is None:
            self._rt[t.path] = False
            r = self._rt[t.path] = any(self.refty(ft) for v in a.variants for _, ft, _ in v.fields)
        return r

    def region(self, fn, header, start):
        b = fn.body
        fwd = b.reach_from(start, avoid=(header,))
        preds = b.preds()
        back = {header}
        st = [header]
        while st:
            x = st.pop()
            for p in preds[x]:
                if p in fwd and p not in back:
                    back.add(p)
                    st.append(p)
        return (fwd & back), fwd

    def report(self, fn, line, what, kind):
        self.reports.setdefault((fn.path, kind), (fn.where(line), what))

    # ------------------------------------------------------------ effects of a callee on what it may mutate
    def effects(self, fn, stack=()):
        """None when every effect on the function's &mut parameters / captures commutes, else a description"""
        if fn.path in self.eff:
            return self.eff[fn.path]
        if fn.path in stack or len(stack) > 60:
            return None
        if fn.path in self.commuting:
            return None
        b = fn.body
        outer = {}
        r = self.block_effects(fn, set(b.reachable()), set(range(1, b.argc + 1)), stack + (fn.path,), whole=True)
        self.eff[fn.path] = r
        return r

    def block_effects(self, fn, blocks, outside, stack=(), whole=False, taint=None):
        """first effect of `blocks` on storage rooted in `outside` that does not commute"""
        b = fn.body
        for i in sorted(blocks):
            bb = b.bbs[i]
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                pl = s[1]
                if not pl[1]:
                    continue
                if "*" not in pl[1] and not (not whole and pl[0] in outside):
                    continue
                rt = self.root(fn, pl)
                if rt[0] not in outside:
                    continue
                r = s[2]
                if self.harmless_write(fn, rt, r):
                    continue
                return "overwrites `%s` at %s" % (self.name(fn, rt), fn.where(s[3]))
            c = bb.call
            if c is None:
                continue
            w = self.call_effect(fn, i, c, outside, stack, taint, whole)
            if w:
                return w
            if c.dest[1] and "*" in c.dest[1]:
                rt = self.root(fn, c.dest)
                if rt[0] in outside and c.last not in ("bitor", "max", "min", "add", "saturating_add", "wrapping_add"):
                    return "overwrites `%s` at %s" % (self.name(fn, rt), fn.where(c.line))
        return None

    def harmless_write(self, fn, rt, r):
        if "[]" in rt[1]:
            return True          # one slot per key
        if r[0] == "use" and r[1][0] == "k":
            return True
        if r[0] == "agg" and not r[4]:
            return True
        if r[0] == "bin" and r[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Mul", "BitOr", "BitAnd", "BitXor", "Sub"):
            return True
        if r[0] == "use" and r[1][0] in ("c", "m"):
            src = r[1][1]
            defs, _ = self.info(fn)
            for d in defs.get(src[0], ()):
                if d[1] == "s" and d[2][2][0] == "bin" and d[2][2][1].startswith(("Add", "Mul", "BitOr", "BitAnd", "BitXor", "Sub")):
                    return True
                if d[1] == "c" and d[2].last in ("saturating_add", "wrapping_add", "max", "min", "bitor", "union"):
                    return True
        return False

    def name(self, fn, rt):
        n = fn.body.locals[rt[0]][1] or ("self" if rt[0] == 1 else "_%d" % rt[0])
        return ".".join([n] + [x for x in rt[1]])

    def call_effect(self, fn, i, c, outside, stack, taint, whole=False):
        b = fn.body
        if c.last in COMMUTE or c.last in FREE or (c.path or "").startswith(("core::panicking", "std::panicking", "alloc::fmt")):
            return None
        tg = self.F.targets(c)
        muts = []
        for j, a in enumerate(c.args):
            if a[0] not in ("c", "m"):
                if a[0] == "k" and a[1].kind == "closure" and a[1].path in self.F.fns:
                    pass
                continue
            t = place_ty(self.F, b, a[1])
            if t is None:
                continue
            if t.kind == "closure":
                cf = self.F.fns.get(t.path)
                if cf is not None and cf.path not in stack:
                    # the closure's captures that are mutable and come from outside
                    if self.closure_touches(fn, a[1], outside):
                        w = self.effects(cf, stack)
                        if w:
                            return w
                continue
            if t.kind == "ref" and t.mut:
                rt = self.root(fn, a[1])
                if rt[0] in outside:
                    muts.append((j, t.args[0], rt))
            elif hashy(t) and False:
                pass
        if not muts:
            return None
        j, t, rt = muts[0]
        if c.last in ("call_mut", "call", "call_once") and rt[0] in range(1, fn.body.argc + 1) and \
                t.peel().kind not in ("closure", "dyn"):
            return ("param", rt[0])
        if tg:
            for x in tg[:6]:
                f2 = self.F.fns[x]
                if f2.kind == "closure":
                    continue
                w = self.effects(f2, stack)
                if isinstance(w, tuple):
                    # the callee runs the closure it is given: judge that closure
                    k = w[1] - 1
                    w = None
                    if k < len(c.args):
                        ty = place_ty(self.F, b, c.args[k][1]) if c.args[k][0] in ("c", "m") else c.args[k][1]
                        ty = ty.peel() if ty is not None else None
                        if ty is not None and ty.kind == "closure" and ty.path in self.F.fns:
                            w = self.effects(self.F.fns[ty.path], stack)
                            if isinstance(w, tuple):
                                w = None
                        elif c.args[k][0] in ("c", "m") and self.root(fn, c.args[k][1])[0] in range(1, b.argc + 1) and whole:
                            return ("param", self.root(fn, c.args[k][1])[0])
                if w:
                    return w if len(stack) > 3 else "calls %s, which %s" % (x.rsplit("::", 2)[-1] if "::" in x else x, w)
            return None
        if unordered(t):
            if c.last in KEYED or c.last in ("extend", "append", "deref_mut", "iter_mut", "values_mut", "drain", "reserve",
                                             "push", "pop_none", "get_or_insert_with", "try_insert", "remove_entry"):
                return None
            return "calls %s on `%s` at %s" % (c.last, self.name(fn, rt), fn.where(c.line))
        if seq(t) and c.last in MUTSEQ:
            if taint is not None:
                taint.append((rt, c, i))
                return None
            return "appends to `%s` at %s" % (self.name(fn, rt), fn.where(c.line))
        if c.last in PASS or c.last in SORTS or c.last in ("clear", "retain", "reserve", "dedup", "get_mut", "index_mut", "iter_mut", "truncate", "as_mut_ptr", "drain", "lock", "take_none"):
            return None
        if c.last in ("replace", "take", "swap") and t.kind == "adt" and False:
            return None
        if "[]" in rt[1] and c.last in ("or_insert", "insert", "add_assign", "bitor_assign", "replace", "pop", "split_off",
                                        "swap_remove", "remove"):
            return None
        if c.last in ("add_assign", "bitor_assign", "bitand_assign", "mul_assign", "bitxor_assign"):
            return None
        if t.kind == "adt" and t.path == "core::option::Option" and c.last in ("get_or_insert_with", "get_or_insert", "is_some"):
            return "takes the first element for `%s` at %s" % (self.name(fn, rt), fn.where(c.line))
        if (c.path or "").startswith(("core::iter", "core::option", "core::result", "core::slice::iter")):
            return None
        if c.last in ("next", "peek", "insert", "remove", "get_or_insert_with", "push_none"):
            return None
        return "calls %s on `%s` at %s" % (c.last, self.name(fn, rt), fn.where(c.line))

    def closure_touches(self, fn, pl, outside):
        defs, _ = self.info(fn)
        for d in defs.get(pl[0], ()):
            if d[1] == "s" and d[2][2][0] == "clo":
                for o in d[2][2][2]:
                    if o[0] in ("c", "m"):
                        t = place_ty(self.F, fn.body, o[1])
                        if t is not None and t.kind == "ref" and t.mut and self.root(fn, o[1])[0] in outside:
                            return True
                return False
            if d[1] == "s" and d[2][2][0] in ("use", "ref"):
                x = d[2][2][1] if d[2][2][0] == "use" else ("c", d[2][2][2])
                if x[0] in ("c", "m") and x[1][0] != pl[0]:
                    return self.closure_touches(fn, x[1], outside)
        return False

    def derived(self, fn, x, l, depth=0):
        if x == l or self.root(fn, (x, ()))[0] == l:
            return True
        if depth > 4:
            return False
        defs, _ = self.info(fn)
        for d in defs.get(x, ()):
            if d[1] == "c":
                if any(a[0] in ("c", "m") and self.derived(fn, a[1][0], l, depth + 1) for a in d[2].args):
                    return True
            elif d[2][2][0] == "use" and d[2][2][1][0] in ("c", "m"):
                if self.derived(fn, d[2][2][1][1][0], l, depth + 1):
                    return True
        return False

    # ------------------------------------------------------------ a function
    def run(self):
        work = [f for f in self.F.fns.values() if self.in_scope(f)]
        callers = self.F.rcallgraph()
        todo = list(work)
        n = 0
        while todo:
            f = todo.pop()
            n += 1
            old = self.retu.get(f.path)
            self.function(f)
            if self.retu.get(f.path) != old:
                if f.kind == "closure" and f.parent in self.F.fns and self.in_scope(self.F.fns[f.parent]):
                    todo.append(self.F.fns[f.parent])
                for g in callers.get(f.path, ()):
                    if self.in_scope(self.F.fns[g]):
                        todo.append(self.F.fns[g])
            if n > 5 * len(work):
                break
        # functions that run a callback once per element in arbitrary order: judge what their callers pass
        done = set()
        while set(self.cb) - done:
            p = sorted(set(self.cb) - done)[0]
            done.add(p)
            for q in sorted(callers.get(p, ())):
                g = self.F.fns[q]
                if not self.in_scope(g):
                    continue
                for i, c in g.body.calls():
                    if p not in self.F.targets(c):
                        continue
                    for k in self.cb[p]:
                        if k > len(c.args):
                            continue
                        a = c.args[k - 1]
                        ty = place_ty(self.F, g.body, a[1]) if a[0] in ("c", "m") else a[1]
                        ty = ty.peel() if ty is not None else None
                        if ty is None or ty.kind != "closure" or ty.path not in self.F.fns:
                            continue
                        cf = self.F.fns[ty.path]
                        w = self.effects(cf)
                        if w and not isinstance(w, tuple):
                            toks = self.closure_seq(g, a, cf)
                            if toks is not None and all(self.sorted_root(g, rt) for rt in toks):
                                continue
                            self.report(g, c.line, "%s runs, once per element in arbitrary order, a closure that %s" % (p, w),
                                        "callback:" + p)
        return self

    def function(self, fn):
        b = fn.body
        T = {}     # local -> ('iter'|'seq', line, what)
        toks = []  # sequences at places: (root, line, block)
        seen_sites = 0

        def start(i, c):
            if c.last in START and c.args and c.args[0][0] in ("c", "m"):
                t = place_ty(self.F, b, c.args[0][1])
                if t is not None and hashy(t):
                    return True
            return False
        for i, c in b.calls():
            if start(i, c):
                seen_sites += 1
                T[c.dest[0]] = ("iter", c.line, "the iteration over a hash container")
                if c.last in ("drain",):
                    pass
            else:
                for a in c.args:
                    ct = place_ty(self.F, b, a[1]) if a[0] in ("c", "m") else a[1] if a[0] == "k" else None
                    ct = ct.peel() if ct is not None else None
                    if ct is not None and ct.kind == "closure" and self.retu.get(ct.path) and not c.dest[1] and \
                            (c.last == "flat_map" or self.holds_seq(b.locals[c.dest[0]][0])):
                        T[c.dest[0]] = ("iter" if c.last == "flat_map" else self.retu[ct.path], c.line, "what a closure given to %s returns" % c.last)
                for t in self.F.targets(c):
                    k = self.retu.get(t)
                    if k and not c.dest[1] and self.F.fns[t].kind != "closure":
                        T[c.dest[0]] = (k, c.line, "what %s returns" % t.rsplit("::", 1)[-1])
        if not T:
            return
        self.per_fn[fn.path] = len(T)
        changed = True
        handled = set()
        rounds = 0
        while changed and rounds < 40:
            changed = False
            rounds += 1
            for i in b.reachable():
                bb = b.bbs[i]
                for s in bb.stmts:
                    if s[0] != "=":
                        continue
                    r = s[2]
                    src = None
                    if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                        src = r[1][1][0]
                    elif r[0] == "ref" and all(e == "*" for e in r[2][1]):
                        src = r[2][0]
                    elif r[0] == "cast" and r[2][0] in ("c", "m") and not r[2][1][1]:
                        src = r[2][1][0]
                    elif r[0] == "agg" and r[2] in ("Some", "Ok") and r[4] and r[4][0][0] in ("c", "m") and not r[4][0][1][1]:
                        src = r[4][0][1][0]
                    elif r[0] == "use" and r[1][0] in ("c", "m") and all(
                            e == "*" or (isinstance(e, tuple) and e[0] in ("v",)) or
                            (isinstance(e, tuple) and e[0] == "f" and (e[2] or "").startswith(("core::option", "core::result", "core::ops")))
                            for e in r[1][1][1]):
                        src = r[1][1][0]
                    elif r[0] == "use" and r[1][0] in ("c", "m") and r[1][1][0] in T and \
                            b.locals[r[1][1][0]][0].kind == "tuple" and len(r[1][1][1]) == 1:
                        src = r[1][1][0]
                    if src in T and s[1][0] not in T and not s[1][1]:
                        T[s[1][0]] = T[src]
                        changed = True
                    elif src in T and s[1][1] and (i, "st", s[3]) not in handled:
                        handled.add((i, "st", s[3]))
                        if T[src][0] == "seq":
                            toks.append((self.root(fn, s[1]), s[3], i, T[src][2]))
                    elif r[0] == "agg" and r[2] not in ("Some", "Ok", "Err"):
                        for nm, o in zip(r[3], r[4]):
                            if o[0] == "m" and not o[1][1] and o[1][0] in T and T[o[1][0]][0] == "seq" and \
                                    (i, "agg", s[3], nm) not in handled:
                                handled.add((i, "agg", s[3], nm))
                                toks.append((("agg", r[1], nm, o[1][0]), s[3], i, T[o[1][0]][2]))
                c = bb.call
                if c is None or (i, "call") in handled and False:
                    continue
                for j, a in enumerate(c.args):
                    if a[0] not in ("c", "m") or a[1][1] or a[1][0] not in T:
                        continue
                    kind, ln, what = T[a[1][0]]
                    r = self.consume(fn, i, c, j, kind, ln, what, toks, handled)
                    if r and not c.dest[1] and c.dest[0] not in T:
                        T[c.dest[0]] = (r, ln, what)
                        changed = True
        self.sites += seen_sites
        # returned in arbitrary order?
        if 0 in T and not self.sorted_local(fn, 0, T):
            k = T[0][0]
            if k == "seq" or k == "iter":
                self.retu[fn.path] = k
                if k == "seq" and fn.reach and fn.kind != "closure":
                    self.report(fn, fn.line, "%s returns a sequence in the arbitrary order of %s" % (fn.path, T[0][2]), "returns")
        # sequences in places
        for rt, line, blk, what in toks:
            if rt[0] == "agg":
                if "%s.%s" % (rt[1].rsplit("::", 1)[-1], rt[2]) in self.ok_fields:
                    continue
                if not self.sorted_local(fn, rt[3], T):
                    self.report(fn, line, "%s fills `%s.%s` in arbitrary order" % (what, rt[1].rsplit("::", 1)[-1], rt[2]), "agg:%s.%s" % (rt[1], rt[2]))
                continue
            if self.sorted_root(fn, rt):
                continue
            base = rt[0]
            if rt[1][:1] == ("[]",) and T.get(base, ("",))[0] == "iter":
                continue        # the visited element itself
            if "%s:%s" % (fn.path, ".".join(rt[1])) in self.ok_fields:
                continue
            if base == 0 or (base not in range(1, b.argc + 1) and not rt[1]):
                # a local sequence: taint it
                if base not in T:
                    T[base] = ("seq", line, what)
                    self.follow_local(fn, base, T, toks, handled)
                continue
            self.report(fn, line, "%s appends to `%s` in arbitrary order" % (what, self.name(fn, rt)), "append:%s" % ".".join(rt[1][-2:]))

    def follow_local(self, fn, base, T, toks, handled):
        """a local vector filled in arbitrary order: same propagation, from it"""
        b = fn.body
        if self.sorted_local(fn, base, T):
            del T[base]
            T[("clean", base)] = True
            return
        mine = {base}
        ch = True
        n = 0
        while ch and n < 20:
            ch = False
            n += 1
            for i in b.reachable():
                bb = b.bbs[i]
                for s in bb.stmts:
                    if s[0] != "=":
                        continue
                    r = s[2]
                    src = None
                    if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                        src = r[1][1][0]
                    elif r[0] == "ref" and all(e == "*" for e in r[2][1]):
                        src = r[2][0]
                    elif r[0] == "cast" and r[2][0] in ("c", "m") and not r[2][1][1]:
                        src = r[2][1][0]
                    elif r[0] == "agg" and r[2] in ("Some", "Ok") and r[4] and r[4][0][0] in ("c", "m") and not r[4][0][1][1]:
                        src = r[4][0][1][0]
                    if src is None and r[0] == "use" and r[1][0] in ("c", "m") and r[1][1][0] in mine and \
                            b.locals[r[1][1][0]][0].kind == "tuple" and len(r[1][1][1]) == 1:
                        src = r[1][1][0]
                    if src in mine and s[1][0] not in mine and not s[1][1]:
                        mine.add(s[1][0])
                        T[s[1][0]] = T[base]
                        ch = True
                    elif src in mine and s[1][1] and (i, "st", s[3]) not in handled:
                        handled.add((i, "st", s[3]))
                        toks.append((self.root(fn, s[1]), s[3], i, T[base][2]))
                    elif r[0] == "agg" and r[2] not in ("Some", "Ok", "Err"):
                        for nm, o in zip(r[3], r[4]):
                            if o[0] == "m" and not o[1][1] and o[1][0] in mine and (i, "agg", s[3], nm) not in handled:
                                handled.add((i, "agg", s[3], nm))
                                toks.append((("agg", r[1], nm, o[1][0]), s[3], i, T[base][2]))
                c = bb.call
                if c is None:
                    continue
                for j, a in enumerate(c.args):
                    if a[0] in ("c", "m") and not a[1][1] and a[1][0] in mine:
                        kind, ln, what = T[base]
                        if T.get(a[1][0], ("seq",))[0] == "iter":
                            kind = "iter"
                        r = self.consume(fn, i, c, j, kind, ln, what, toks, handled)
                        if r and not c.dest[1] and c.dest[0] not in mine:
                            mine.add(c.dest[0])
                            T[c.dest[0]] = (r, ln, what)
                            ch = True
        if 0 in mine:
            self.retu[fn.path] = "seq"

    def sorted_root(self, fn, rt):
        if rt[0] == "agg":
            return False
        for i, c in fn.body.calls():
            for k, a in enumerate(c.args):
                if a[0] not in ("c", "m") or not (c.last in SORTS and k == 0 or self.sorts_param(c, k + 1)):
                    continue
                r2 = self.root(fn, a[1])
                if r2[0] == rt[0] and (r2[1][:len(rt[1])] == rt[1] or rt[1][:len(r2[1])] == r2[1]):
                    return True
        return False

    def sorts_param(self, c, k):
        """a helper that sorts what its k-th parameter refers to"""
        for t in self.F.targets(c):
            f = self.F.fns[t]
            if f.kind == "closure" or k > f.body.argc:
                continue
            ty = f.body.locals[k][0]
            if not (ty.kind == "ref" and ty.mut and seq(ty)):
                continue
            key = (t, k)
            if key not in self.sp:
                self.sp[key] = False
                self.sp[key] = self.sorted_root(f, (k, ()))
            if self.sp[key]:
                return True
        return False

    def sorted_local(self, fn, local, T):
        """a sort of the local's sequence exists"""
        return self.sorted_root(fn, self.root(fn, (local, ())))

    def consume(self, fn, i, c, j, kind, ln, what, toks, handled):
        """what becomes of an unordered value passed as argument j; returns the kind of the result"""
        b = fn.body
        last = c.last
        tg = self.F.targets(c)
        key = (i, "call", j, kind)
        first = key not in handled
        handled.add(key)
        dty = place_ty(self.F, b, c.dest)
        if last in SORTS:
            return None
        if kind == "seq" and first is False:
            pass
        if kind == "seq" and self.sorted_root(fn, self.root(fn, c.args[j][1])):
            return None
        # closures passed along run once per element
        if first and last not in ("sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"):
            for a in c.args:
                t = place_ty(self.F, b, a[1]) if a[0] in ("c", "m") else a[1] if a[0] == "k" else None
                if t is not None and t.kind == "closure" and t.path in self.F.fns and a is not c.args[j]:
                    cf = self.F.fns[t.path]
                    w = self.effects(cf)
                    if isinstance(w, tuple):
                        w = "calls a callback"
                    if w:
                        w2 = self.closure_seq(fn, a, cf)
                        if w2:
                            for rt in w2:
                                toks.append((rt, c.line, i, what))
                        else:
                            self.report(fn, c.line, "%s runs a closure that %s" % (what, w), "closure:" + last)
        if tg and last not in ("next",):
            for t in tg:
                f2 = self.F.fns[t]
                if f2.kind == "closure" or not self.in_scope(f2):
                    continue
                k2 = self.param(f2, j + 1, kind)
                if k2 and first:
                    self.report(fn, c.line, "%s is passed to %s, which depends on its order: %s" % (what, t, k2), "pass:" + t.rsplit("::", 1)[-1])
            return None
        if last in COMMUTE:
            return None
        if last in ("collect", "from_iter", "collect_vec", "extend", "to_vec", "unzip", "partition", "into", "from",
                    "into_boxed_slice", "try_collect", "collect_into", "into_vec", "to_owned", "extend_none", "append"):
            if last in ("extend", "append"):
                if j == 0:
                    return None
                t = place_ty(self.F, b, c.args[0][1]) if c.args[0][0] in ("c", "m") else None
                if t is not None and unordered(t):
                    return None
                if first:
                    toks.append((self.root(fn, c.args[0][1]), c.line, i, what))
                return None
            if dty is None:
                return "seq"
            d = dty
            while d.kind == "adt" and d.path in ("core::option::Option", "core::result::Result") and d.args:
                d = d.args[0]
            if d.kind == "tuple" and d.args and all(unordered(x) for x in d.args):
                return None
            if unordered(d):
                return None
            if d.kind == "adt" and d.path in self.F.adts and not seq(d):
                return None
            return "seq"
        if last == "enumerate" and self.polls(fn, c):
            return kind
        if last == "next" or last == "next_back" or last == "pop":
            if not first:
                return None
            self.loop(fn, i, c, what, toks)
            return None
        if last == "for_each" or last == "try_for_each":
            return None
        if kind == "seq" and last in ("push", "push_back", "extend_from_slice", "insert", "reserve", "clear", "retain", "truncate", "dedup", "deref_mut_none", "push_str"):
            if j == 0:
                return None
            if first and last in ("push", "insert", "push_back"):
                t = place_ty(self.F, b, c.args[0][1]) if c.args[0][0] in ("c", "m") else None
                toks.append((self.root(fn, c.args[0][1]), c.line, i, what + " (kept as a value)"))
            return None
        if last in ADAPT or last in PASS or last in ("rev", "enumerate_none", "sorted_none", "deref", "as_deref", "unwrap_or_default", "get_none", "par_iter", "into_par_iter", "skip_none", "dedup", "unique", "map_or", "unwrap_or"):
            if last in ("index", "get", "index_mut"):
                if kind == "seq":
                    return None
            if kind == "seq" and last in ("iter", "into_iter", "iter_mut", "drain", "par_iter", "into_par_iter"):
                return "iter"
            return kind
        if last in ("clone_from", "from_residual", "shrink_to_fit", "swap_none", "hash_none", "eq", "ne", "fmt", "cmp", "partial_cmp", "forget", "mem_drop"):
            return None
        if last in ("min_by_key", "max_by_key", "min_by", "max_by") and self.total_key(fn, c):
            return None
        if "consumer:" + (c.path or last) in self.ok_fields:
            return None
        if first:
            self.report(fn, c.line, "%s is consumed by `%s`" % (what, last), "op:" + last)
        return None

    def polls(self, fn, c):
        """the index given by this enumerate() only decides when to poll (index % n == 0)"""
        b = fn.body
        ty = b.locals[c.dest[0]][0]
        idx = set()
        for i in b.reachable():
            for s in b.bbs[i].stmts:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in ("c", "m") and not s[1][1]:
                    pl = s[2][1][1]
                    if self.fields(pl[1])[-1:] == ("0",) and str(b.locals[s[1][0]][0]) == "usize":
                        r = self.root(fn, (pl[0], ()))
                        if r[0] in self.iters_of(fn, c.dest[0]):
                            idx.add(s[1][0])
        ch = True
        while ch:
            ch = False
            for i in b.reachable():
                for s in b.bbs[i].stmts:
                    if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in ("c", "m") and s[2][1][1][0] in idx and \
                            not s[2][1][1][1] and s[1][0] not in idx:
                        if s[1][1]:
                            return False
                        idx.add(s[1][0])
                        ch = True
        for i in b.reachable():
            bb = b.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    r = s[2]
                    ops = {"bin": r[2:4], "agg": r[4:5] and r[4], "tup": r[1:2] and r[1], "arr": r[1:2] and r[1]}.get(r[0], ())
                    for o in ops or ():
                        if isinstance(o, tuple) and o[0] in ("c", "m") and o[1][0] in idx and not (r[0] == "bin" and r[1] in ("Rem", "Eq")):
                            return False
                    if r[0] == "ref" and r[2][0] in idx or r[0] == "clo" and any(o[0] in ("c", "m") and o[1][0] in idx for o in r[2]):
                        return False
            if bb.call is not None and any(a[0] in ("c", "m") and a[1][0] in idx for a in bb.call.args):
                return False
        return bool(idx)

    def iters_of(self, fn, l):
        out = {l}
        b = fn.body
        ch = True
        while ch:
            ch = False
            for i in b.reachable():
                for s in b.bbs[i].stmts:
                    if s[0] == "=" and not s[1][1] and s[1][0] not in out and s[2][0] in ("use", "ref"):
                        o = s[2][1] if s[2][0] == "use" else ("c", s[2][2])
                        if o[0] in ("c", "m") and o[1][0] in out and not o[1][1]:
                            out.add(s[1][0])
                            ch = True
                c = b.bbs[i].call
                if c is not None and c.last in ("into_iter", "next", "by_ref") and c.args and c.args[0][0] in ("c", "m") and \
                        c.args[0][1][0] in out and c.dest[0] not in out:
                    out.add(c.dest[0])
                    ch = True
        return out

    def total_key(self, fn, c):
        """the closure's key takes in the whole element, or its first component (the container's key)"""
        for a in c.args[1:]:
            ty = place_ty(self.F, fn.body, a[1]) if a[0] in ("c", "m") else a[1]
            if ty is not None and ty.kind == "closure" and ty.path in self.F.fns:
                cf = self.F.fns[ty.path]
                todo = [cf] + [self.F.fns[x] for x in self.F.callgraph().get(cf.path, ()) if self.F.fns[x].kind == "closure"]
                # a whole element copied into the key
                elem = {}
                for i in cf.body.reachable():
                    for s in cf.body.bbs[i].stmts:
                        if s[0] != "=":
                            continue
                        from facts import rv_operands
                        for o in rv_operands(s[2]):
                            if o[0] in ("c", "m"):
                                rt = self.root(cf, o[1])
                                if rt[0] >= 2 and rt[0] <= cf.body.argc and (rt[1] == () or rt[1][0] == "0") and \
                                        s[2][0] in ("use", "tup", "agg"):
                                    return True
                for f in todo:
                    for i, c2 in f.body.calls():
                        if c2.last in ("cmp", "partial_cmp", "then", "then_with"):
                            for x in c2.args:
                                if x[0] in ("c", "m"):
                                    rt = self.root(f, x[1])
                                    if "0" in rt[1][-1:] or (f is not cf and rt[0] == 1):
                                        return True
        return False

    def closure_seq(self, fn, a, cf):
        """captured local sequences that the closure appends to (its only effects)"""
        defs, _ = self.info(fn)
        taint = []
        w = self.block_effects(cf, set(cf.body.reachable()), set(range(1, cf.body.argc + 1)), (cf.path,), True, taint)
        if w or not taint or a[0] not in ("c", "m"):
            return None
        out = []
        for d in defs.get(a[1][0], ()):
            if d[1] == "s" and d[2][2][0] == "clo":
                for (rt, c, i) in taint:
                    idx = None
                    for x in rt[1]:
                        if ":" in x:
                            idx = int(x.split(":")[0])
                            break
                    if idx is None or idx >= len(d[2][2][2]):
                        return None
                    o = d[2][2][2][idx]
                    if o[0] not in ("c", "m"):
                        return None
                    out.append(self.root(fn, o[1]))
        return out

    def param(self, f2, k, kind):
        """does f2 depend on the order of its k-th parameter?"""
        key = (f2.path, k, kind)
        if not hasattr(self, "pm"):
            self.pm = {}
        if key in self.pm:
            return self.pm[key]
        self.pm[key] = None
        if k > f2.body.argc:
            return None
        sub = Order(self.F, self.in_scope)
        sub.eff, sub.retu, sub.pm, sub._d = self.eff, self.retu, self.pm, self._d
        sub.commuting, sub.cb, sub.sp, sub.ok_fields = self.commuting, self.cb, self.sp, self.ok_fields
        T = {k: (kind, f2.line, "its parameter")}
        toks = []
        sub.follow_local(f2, k, T, toks, set()) if not sub.sorted_local(f2, k, T) else None
        r = None
        if sub.reports:
            w = next(iter(sub.reports.values()))
            r = "%s (%s)" % (w[1], w[0])
        for rt, line, blk, what in toks:
            if rt[0] == "agg":
                if "%s.%s" % (rt[1].rsplit("::", 1)[-1], rt[2]) in self.ok_fields:
                    continue
                if not sub.sorted_local(f2, rt[3], T):
                    r = "it is stored in `%s.%s`" % (rt[1].rsplit("::", 1)[-1], rt[2])
            elif not sub.sorted_root(f2, rt):
                if rt[0] == 0 or rt[0] > f2.body.argc:
                    T2 = {rt[0]: ("seq", line, "its parameter")}
                    toks2 = []
                    sub.follow_local(f2, rt[0], T2, toks2, set())
                    if sub.reports:
                        w = next(iter(sub.reports.values()))
                        r = "%s (%s)" % (w[1], w[0])
                else:
                    r = "it is appended to `%s`" % sub.name(f2, rt)
        self.pm[key] = r
        return r

    def loop(self, fn, i, c, what, toks):
        b = fn.body
        t = c.target
        sw = None
        x = t
        for _ in range(4):
            tm = b.bbs[x].term
            if tm[0] == "switch":
                sw = x
                break
            nx = b.bbs[x].succ()
            if len(nx) != 1:
                break
            x = nx[0]
        if sw is None:
            self.report(fn, c.line, "one arbitrary element is taken of %s" % what, "first")
            return
        tm = b.bbs[sw].term
        some = next((bb for v, bb in tm[2] if v == 1), tm[3])
        reg, fwd = self.region(fn, i, some)
        if not reg:
            self.report(fn, c.line, "one arbitrary element is taken of %s" % what, "first")
            return
        outside = self.outside(fn, reg)
        taint = []
        self.shared_keys(fn, reg, outside, c, what)
        w = self.block_effects(fn, reg, outside, (), False, taint)
        if isinstance(w, tuple):
            self.cb.setdefault(fn.path, set()).add(w[1])
            w = None
        if w:
            self.report(fn, c.line, "the loop over %s %s" % (what, w), "loop:" + w.split(" at ")[0][:60])
        for rt, cc, blk in taint:
            toks.append((rt, cc.line, blk, "the loop over " + what))
        # locals carried out of the loop
        w = self.carried(fn, reg, fwd, i, outside)
        if w:
            self.report(fn, c.line, "the loop over %s %s" % (what, w), "carried:" + w.split(" at ")[0][:60])

    def compares(self, f):
        b = f.body
        return any(x[0] == "=" and x[2][0] == "bin" and x[2][1] in ("Lt", "Le", "Gt", "Ge") for k in b.reachable()
                   for x in b.bbs[k].stmts) or any(c.last in ("lt", "le", "gt", "ge", "cmp", "partial_cmp", "min", "max")
                                                   for _, c in b.calls())

    def holds_seq(self, t):
        while t.kind == "adt" and t.path in ("core::option::Option", "core::result::Result") and t.args:
            t = t.args[0]
        return seq(t)

    def shared_keys(self, fn, reg, outside, nxt, what):
        """writes to an outer map under a key that two elements may share: which one stays depends on the order"""
        b = fn.body
        for i in sorted(reg):
            c = b.bbs[i].call
            if c is None or c.last not in ("insert", "or_insert", "or_insert_with") or not c.args or c.args[0][0] not in ("c", "m"):
                continue
            if self.F.targets(c):
                continue
            if c.last == "insert":
                t = place_ty(self.F, b, c.args[0][1])
                if t is None or not unordered(t) or t.peel().path.endswith("Set") or len(c.args) != 3:
                    continue
                rt = self.root(fn, c.args[0][1])
                if rt[0] not in outside or "[]" in rt[1]:
                    continue
                key, val, line = c.args[1], c.args[2], c.line
            else:
                ent = self.entry_of(fn, c.args[0])
                if ent is None or len(ent.args) < 2:
                    continue
                rt = self.root(fn, ent.args[0][1]) if ent.args[0][0] in ("c", "m") else (None,)
                if rt[0] not in outside:
                    continue
                key, val, line = ent.args[1], c.args[1], c.line
            if val[0] == "k":
                continue
            names = {b.locals[x][1] for x in self.near(fn, key[1])} if key[0] in ("c", "m") else set()
            if any("sharedkey:%s[%s]" % (self.name(fn, rt).split(".")[-1], nm) in self.ok_fields for nm in names):
                continue
            if c.last == "insert" and self.asserted_new(fn, c):
                continue
            if self.unique(fn, key, nxt):
                continue
            self.report(fn, line, "%s: `%s` writes under a key that two elements may share (%s) at %s" % (what, c.last, sorted(map(str, names)), fn.where(line)), "sharedkey:%s" % self.name(fn, rt))

    def asserted_new(self, fn, c):
        """insert(..) whose result is asked is_none(): a second element with this key is noticed"""
        return any(c2.last == "is_none" and c2.args and c2.args[0][0] in ("c", "m") and
                   c.dest[0] in self.near(fn, c2.args[0][1]) for _, c2 in fn.body.calls())

    def entry_of(self, fn, o, d=0):
        defs, _ = self.info(fn)
        if o[0] not in ("c", "m") or d > 6:
            return None
        for x in defs.get(o[1][0], ()):
            if x[1] == "c":
                if x[2].last == "entry":
                    return x[2]
                if x[2].args:
                    return self.entry_of(fn, x[2].args[0], d + 1)
            elif x[2][2][0] == "use":
                return self.entry_of(fn, x[2][2][1], d + 1)
        return None

    def unique(self, fn, o, nxt, d=0, seen=None):
        """the key operand takes in the whole of the element's own container key"""
        defs, _ = self.info(fn)
        b = fn.body
        seen = seen or set()
        if o[0] not in ("c", "m") or d > 14:
            return False
        pl = o[1]
        its = self.iters_of(fn, nxt.dest[0])
        f = self.fields(pl[1])
        if pl[0] in its:
            t = place_ty(self.F, b, (nxt.dest[0], ()))
            it = t.args[0] if t is not None and t.args else None
            pair = it is not None and it.kind == "tuple" and len(it.args) == 2
            kind = self.start_kind(fn, nxt)
            if kind == "values":
                return False
            if pair:
                return f[1:2] == ("0",) or f == ("0",)
            return True
        if (pl[0], f) in seen:
            return False
        seen.add((pl[0], f))
        for x in defs.get(pl[0], ()):
            if x[1] == "c":
                c = x[2]
                if c.last in ("clone", "to_owned", "to_string", "into", "as_str", "as_ref", "deref", "borrow", "copied", "cloned", "from", "as_file", "to_vec") and c.args:
                    if self.unique(fn, c.args[0], nxt, d + 1, seen):
                        return True
                for t in self.F.targets(c):
                    f2 = self.F.fns[t]
                    # a plain wrapper around the key
                    if len(f2.body.reachable()) <= 3 and any(self.unique(fn, a, nxt, d + 1, seen) for a in c.args):
                        return True
            else:
                r = x[2][2]
                if r[0] == "use":
                    if r[1][0] in ("c", "m") and self.unique(fn, ("c", (r[1][1][0], r[1][1][1] + pl[1])), nxt, d + 1, seen):
                        return True
                elif r[0] == "ref" and self.unique(fn, ("c", (r[2][0], r[2][1] + pl[1])), nxt, d + 1, seen):
                    return True
                elif r[0] == "tup" and any(self.unique(fn, y, nxt, d + 1, seen) for y in r[1]):
                    return True
                elif r[0] == "agg" and any(self.unique(fn, y, nxt, d + 1, seen) for y in r[4]):
                    return True
                elif r[0] == "cast" and self.unique(fn, r[2], nxt, d + 1, seen):
                    return True
        return False

    def start_kind(self, fn, nxt):
        defs, _ = self.info(fn)
        o, k = nxt.args[0], None
        for _ in range(12):
            if o[0] not in ("c", "m"):
                return k
            ds = defs.get(o[1][0], ())
            if not ds:
                return k
            x = ds[0]
            if x[1] == "c":
                if x[2].last in ("values", "values_mut", "into_values", "map", "filter_map", "flat_map"):
                    return "values"
                if x[2].last in START and x[2].last != "into_iter":
                    return x[2].last
                if not x[2].args:
                    return k
                o = x[2].args[0]
            else:
                r = x[2][2]
                o = r[1] if r[0] == "use" else ("c", r[2]) if r[0] == "ref" else ("k",)
        return k

    def outside(self, fn, reg):
        defs, _ = self.info(fn)
        out = set(range(0, fn.body.argc + 1))
        for l, ds in defs.items():
            if any(d[0] not in reg for d in ds):
                out.add(l)
        return out

    def near(self, fn, pl):
        """locals that a compared place stands for: the variable borrowed, and where its value came from"""
        out = {self.root(fn, pl)[0], pl[0]}
        defs, _ = self.info(fn)
        l = pl[0]
        for _ in range(6):
            ds = [d for d in defs.get(l, ()) if d[1] == "s" and d[2][2][0] in ("ref", "use")]
            if len(ds) != 1:
                break
            r = ds[0][2][2]
            o = ("c", r[2]) if r[0] == "ref" else r[1]
            if o[0] not in ("c", "m"):
                break
            l = o[1][0]
            out.add(l)
        return out

    def carried(self, fn, reg, fwd, header, outside):
        b = fn.body
        defs, _ = self.info(fn)
        used_out = set()
        rest = set(b.reachable()) - reg
        for bi, ln, pl, how in b.places_read():
            if bi in rest and bi != header:
                used_out.add(pl[0])
        compared = set()
        for bi in reg:
            bb = b.bbs[bi]
            for s in bb.stmts:
                if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
                    for o in s[2][2:4]:
                        if o[0] in ("c", "m"):
                            compared.update(self.near(fn, o[1]))
                if s[0] == "=" and s[2][0] == "discr":
                    compared.add(s[2][1][0])
                if s[0] == "=" and s[2][0] == "clo" and s[2][1] in self.F.fns and self.compares(self.F.fns[s[2][1]]):
                    for o in s[2][2]:
                        if o[0] in ("c", "m"):
                            compared.update(self.near(fn, o[1]))
            c = bb.call
            if c is not None and c.last == "as_ref" and c.args[0][0] in ("c", "m"):
                compared.update(self.near(fn, c.args[0][1]))
            if c is not None and c.last in ("lt", "le", "gt", "ge", "cmp", "partial_cmp", "min", "max", "is_none", "is_some", "map_or", "is_none_or", "is_some_and", "eq", "ne", "union", "insert_none"):
                for a in c.args:
                    if a[0] in ("c", "m"):
                        compared.update(self.near(fn, a[1]))
        after = b.reach_from(header, avoid=()) - reg
        for l, ds in defs.items():
            inn = [d for d in ds if d[0] in reg]
            if not inn or l not in used_out or l not in outside or l == 0:
                continue
            for d in inn:
                if d[1] == "s":
                    if d[2][1][1]:
                        continue
                    r = d[2][2]
                    if self.harmless_write(fn, (l, ()), r) or (r[0] == "ref"):
                        continue
                    if r[0] == "use" and r[1][0] in ("c", "m") and str(b.locals[l][0]) == "()":
                        continue
                    if l in compared:
                        continue
                    if b.locals[l][1] is None and r[0] != "agg":
                        continue     # a temporary
                    if r[0] == "use" and r[1][0] in ("c", "m") and self.derived(fn, r[1][1][0], l):
                        continue
                    return "keeps the last element in `%s` at %s" % (self.name(fn, (l, ())), fn.where(d[2][3]))
                elif b.locals[l][1] is not None and l not in compared and not d[2].dest[1]:
                    if d[2].last in ("max", "min", "bitor", "saturating_add", "union"):
                        continue
                    args_l = any(a[0] in ("c", "m") and self.derived(fn, a[1][0], l) for a in d[2].args)
                    if args_l:
                        continue
                    return "keeps the last element in `%s` at %s" % (self.name(fn, (l, ())), fn.where(d[2].line))
        # leaving the loop with an element: exits that write the return place or a named local
        for bi in fwd - reg:
            bb = b.bbs[bi]
            if not any(p in reg or p in fwd - reg for p in b.preds()[bi]):
                continue
        exits = [x for y in reg for x in b.bbs[y].succ() if x not in reg and x != header]
        for e in exits:
            seen, st = set(), [e]
            none_exit = b.reach_from(header, avoid=tuple(reg)) if False else None
            while st:
                x = st.pop()
                if x in seen or len(seen) > 12:
                    continue
                seen.add(x)
                bb = b.bbs[x]
                c = bb.call
                if c is not None and c.last in ERRNESS:
                    continue
                stop = False
                for s in bb.stmts:
                    if s[0] == "=" and s[1] == (0, ()):
                        r = s[2]
                        if r[0] == "agg" and r[2] in ("Some", "Ok") and r[4] and r[4][0][0] in ("c", "m"):
                            if str(b.locals[0][0]).endswith("<()>"):
                                continue
                            t = place_ty(self.F, b, r[4][0][1])
                            if t is not None and str(t) in ("()", "bool"):
                                stop = True
                                continue
                            src = self.root(fn, r[4][0][1])[0]
                            dsrc = defs.get(src, ())
                            if dsrc and all(d[0] in reg or d[0] in seen for d in dsrc):
                                return "leaves with the first matching element at %s" % fn.where(s[3])
                        stop = True
                if not stop and len([p for p in b.preds()[x]]) <= 1:
                    st.extend(y for y in bb.succ() if y not in reg and y != header)
        return None
