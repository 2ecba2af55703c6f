"""GC rooting hazards in code that uses vm-js' moving-free, handle-based collector.

A handle (GcObject, GcString, ..., Value) that is not reachable from a root when a collection may
run is dead afterwards; using it then is a use-after-free of a heap slot.  This is an
interprocedural forward dataflow over MIR: tokens stand for "the handle(s) produced here", their
status is (stale, protected, scopes that protect it)."""
import heapq
from facts import CheckError, rv_operands

H = "vm_js::heap::"
LEAVES = {"vm_js::handle::GcObject", "vm_js::handle::GcString", "vm_js::handle::GcSymbol", "vm_js::handle::GcEnv",
          "vm_js::handle::HeapId", "vm_js::value::Value"}
CONTEXT = {"vm_js::vm::Vm", "vm_js::heap::Heap", "vm_js::heap::Scope", "vm_js::realm::Realm",
           "vm_js::intrinsics::Intrinsics", "vm_js::heap::Tracer", "vm_js::exec::Evaluator", "vm_js::exec::RuntimeEnv",
           "vm_js::exec::JsRuntime", "vm_js::error::VmError"}
COLLECT = "vm_js::heap::Heap::collect_garbage_with_extra_roots"
# value argument index of the primitives that root their argument in the scope/heap given first
ROOT_PRIMS = {
    "vm_js::heap::Scope::<'a>::push_root": 1, "vm_js::heap::Scope::<'a>::push_roots": 1,
    "vm_js::heap::Scope::<'a>::push_roots_with_extra_roots": 1, "vm_js::heap::Scope::<'a>::push_env_root": 1, "vm_js::heap::Scope::<'a>::push_env_roots": 1,
    "vm_js::heap::Heap::push_stack_root": 1, "vm_js::heap::Heap::add_root": 1, "vm_js::heap::Heap::add_env_root": 1,
    "vm_js::heap::Heap::set_root": 2, "vm_js::heap::Heap::set_env_root": 2,
}
HEAP_TYPES = {"vm_js::heap::ObjectBase", "vm_js::heap::JsObject", "vm_js::heap::JsPromise", "vm_js::heap::PropertyEntry",
              "vm_js::property::PropertyKind", "vm_js::property::PropertyDescriptor", "vm_js::env::EnvRecord",
              "vm_js::env::EnvBinding", "vm_js::env::DeclarativeEnvRecord", "vm_js::env::ObjectEnvRecord",
              "vm_js::function::JsFunction", "vm_js::heap::Slot", "vm_js::heap::Heap", "vm_js::heap::HeapObject"}
ALLOC = "vm_js::heap::Heap::alloc_unchecked"
ATOMS = {"vm_js::property::PropertyKey", "vm_js::handle::GcString", "vm_js::handle::GcSymbol"}
OUTER, HEAPED = frozenset(["outer"]), frozenset(["heap"])
PERM = frozenset(["outer", "heap", "none"])
# %Promise% resolving functions hold the promise in an internal slot: what keeps one keeps the other
NOSPLIT = {"vm_js::promise_ops::new_promise_capability"}
NONHANDLE = {"Undefined", "Null", "Bool", "Number", "BigInt"}


def type_has(ty, pred, stop):
    st = [ty]
    while st:
        t = st.pop()
        if stop(t):
            continue
        if pred(t):
            return True
        st.extend(t.args)
    return False


def adts_containing(F, leaf, opaque):
    """workspace ADTs some field of which (transitively) contains a leaf"""
    out = set()
    uses = {}
    todo = []
    for p, a in F.adts.items():
        if opaque(p):
            continue
        for v in a.variants:
            for _, t, _ in v.fields:
                st = [t]
                while st:
                    x = st.pop()
                    if x.kind == "adt" and opaque(x.path):
                        continue
                    if x.kind in ("fndef", "fnptr", "dyn"):
                        continue
                    if leaf(x):
                        if p not in out:
                            out.add(p)
                            todo.append(p)
                    elif x.kind == "adt" and x.path in F.adts:
                        uses.setdefault(x.path, set()).add(p)
                    st.extend(x.args)
    while todo:
        x = todo.pop()
        for u in uses.get(x, ()):
            if u not in out:
                out.add(u)
                todo.append(u)
    return out


class Hazards:
    def __init__(self, F, crates):
        self.F, self.crates = F, crates
        self._leaf = {}
        self.fns = [f for f in F.fns.values() if f.crate.name in crates and f.kind != "const" and f.kind != "static"]
        self.maygc = F.callers_of([COLLECT])
        self.sum = {}
        self.reports = {}
        self.ngc = 0
        self.skip = set()
        self._live = {}
        self._adts = None
        self.entry = self.entries()

    def has(self, ty):
        k = id(ty)
        r = self._leaf.get(k)
        if r is None:
            if self._adts is None:
                self._adts = adts_containing(self.F, lambda t: t.kind == "adt" and t.path in LEAVES,
                                             lambda p: p in CONTEXT)
            r = type_has(ty, lambda t: t.kind == "adt" and (t.path in LEAVES or t.path in self._adts),
                         lambda t: t.kind in ("fndef", "fnptr", "dyn", "prim", "never") or
                         (t.kind == "adt" and t.path in CONTEXT))
            self._leaf[k] = r
        return r

    def entries(self):
        """functions called through a native-handler pointer: their arguments are rooted by the dispatcher"""
        out = set()
        for f in self.F.fns.values():
            if f.crate.name not in self.crates:
                continue
            for b in f.bodies():
                for _, _, o in b.operands():
                    if o[0] == "k" and o[1].kind == "fndef" and o[1].path in self.F.fns:
                        g = self.F.fns[o[1].path]
                        ts = [str(t) for t, _ in g.body.locals[1:g.body.argc + 1]]
                        if len(ts) >= 6 and "&mut vm_js::vm::Vm" in ts[0] and "Scope" in ts[1] and "[vm_js::value::Value]" in "".join(ts):
                            out.add(o[1].path)
        return out

    def is_ctx(self, ty):
        return any(t.kind == "adt" and t.path in ("vm_js::heap::Scope", "vm_js::heap::Heap", "vm_js::vm::Vm") or
                   t.kind == "dyn" for t in ty.walk())

    def gc_call(self, fn, c):
        t = self.F.targets(c)
        if t:
            return any(x in self.maygc for x in t)
        if c.kind in ("ptr", "fnptr") or c.path is None or c.kind == "virtual":
            b = fn.body
            return any(a[0] in ("c", "m") and self.is_ctx(b.locals[a[1][0]][0]) for a in c.args)
        if c.last in ("call", "call_mut", "call_once"):
            return any(a[0] in ("c", "m") and self.is_ctx(b) for a in c.args for b in [fn.body.locals[a[1][0]][0]]) or \
                any(self.closure_gc(fn, a) for a in c.args)
        return any(self.closure_gc(fn, a) for a in c.args)

    def closure_gc(self, fn, a):
        if a[0] in ("c", "m"):
            t = fn.body.locals[a[1][0]][0].peel()
            return t.kind == "closure" and t.path in self.maygc
        return a[0] == "k" and a[1].kind in ("closure", "fndef") and a[1].path in self.maygc

    # ------------------------------------------------------------------ per function
    def prep(self, fn):
        b = fn.body
        origin = {}  # ref local -> base locals
        for i in b.reachable():
            for s in b.bbs[i].stmts:
                if s[0] != "=" or s[1][1]:
                    continue
                r = s[2]
                if r[0] == "ref":
                    origin.setdefault(s[1][0], set()).add(r[2][0])
                elif r[0] in ("use", "cast"):
                    o = r[1] if r[0] == "use" else r[2]
                    if o[0] in ("c", "m") and b.locals[s[1][0]][0].kind in ("ref", "ptr"):
                        origin.setdefault(s[1][0], set()).add(o[1][0])
            c = b.bbs[i].call
            if c is not None and b.locals[c.dest[0]][0].kind in ("ref", "ptr") and not c.dest[1]:
                for a in c.args[:1]:
                    if a[0] in ("c", "m"):
                        origin.setdefault(c.dest[0], set()).add(a[1][0])
        return origin

    def bases(self, origin, local):
        seen, st = set(), [local]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(origin.get(x, ()))
        return seen

    def summary(self, path):
        return self.sum.get(path)

    def run(self, rounds=60):
        todo = {f.path for f in self.fns}
        for r in range(rounds):
            nxt = set()
            for f in self.fns:
                if f.path not in todo:
                    continue
                old = self.sum.get(f.path)
                new = self.analyze(f)
                if new != old:
                    self.sum[f.path] = new
                    nxt |= self.F.rcallgraph().get(f.path, set())
                    nxt.add(f.path)
            todo = nxt
            if not todo:
                break
        return self

    def analyze(self, fn):
        b = fn.body
        origin = self.prep(fn)
        F = self.F
        scope_locals = {i for i, (t, n) in enumerate(b.locals) if t.kind == "adt" and t.path == "vm_js::heap::Scope"}
        disc = {}
        for i in b.reachable():
            for s in b.bbs[i].stmts:
                if s[0] == "=" and s[2][0] == "discr" and not s[1][1]:
                    disc[s[1][0]] = s[2][1]
        reports = {}
        hazard = set()
        parents = {}
        keepers = {}  # token -> tokens of new heap objects that hold it

        init_l, init_s = {}, {}
        for p in range(1, b.argc + 1):
            t = b.locals[p][0]
            if fn.kind == "closure" and p == 1:
                continue
            if self.has(t):
                tok = ("p", p)
                init_l[p] = frozenset([tok])
                init_s[tok] = (False, True, OUTER) if fn.path in self.entry else (False, False, frozenset())

        def scope_of(a):
            if a[0] not in ("c", "m"):
                return "outer"
            bs = self.bases(origin, a[1][0]) & scope_locals
            return min(bs) if bs else "outer"

        instate = {0: (init_l, init_s)}
        order = self.rpo(b)
        live = self.liveness(fn, b, origin)
        work = [(0, 0)]
        inwork = {0}
        iters = {}
        ret_tokens = set()
        ret_status = {}
        unheld = set()
        nret = 0

        def prot(S, t):
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                v = S.get(x)
                if v is None or v[1]:
                    return True
                st.extend(parents.get(x, ()))
                st.extend(k for k in keepers.get(x, ()) if k in S)
            return False

        def join(a, bst):
            la, sa = a
            lb, sb = bst
            ch = False
            for k, v in lb.items():
                o = la.get(k)
                if o is None:
                    la[k] = v
                    ch = True
                elif not v <= o:
                    la[k] = o | v
                    ch = True
            for k, v in sb.items():
                o = sa.get(k)
                if o is None:
                    sa[k] = v
                    ch = True
                else:
                    pr = v[2] if "none" in o[2] else o[2] if "none" in v[2] else o[2] & v[2]
                    n = (o[0] or v[0], bool(pr), pr)
                    if n != o:
                        sa[k] = n
                        ch = True
            return ch

        def param_roots(t):
            """parameters a token was read out of; empty: it was created here"""
            out, st, seen, fresh = set(), [t], set(), False
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == "p":
                    out.add(x[1])
                elif x[0] == "c":
                    fresh = True
                st.extend(parents.get(x, ()))
            if t[0] == "d" and fresh and not out:
                return set()
            return out

        def has_fresh(t):
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == "c":
                    return True
                st.extend(parents.get(x, ()))
            return False

        def use(toks, S, line, what, i):
            for t in toks:
                st = S.get(t)
                if st and st[0]:
                    ps = param_roots(t)
                    if ps:
                        hazard.update(ps)
                    elif ps is not None:
                        reports.setdefault((t, what), line)

        for final in (False, True):
          if final:
            # the last pass reports on the fixpoint only
            reports.clear(), hazard.clear(), ret_tokens.clear(), ret_status.clear(), unheld.clear()
            work = [(order.get(x, 0), x) for x in sorted(instate)]
            heapq.heapify(work)
          while work:
              i = heapq.heappop(work)[1]
              inwork.discard(i)
              iters[i] = iters.get(i, 0) + 1
              if iters[i] > 60 and not final:
                  continue
              L, S = instate[i]
              L, S = dict(L), dict(S)
              bb = b.bbs[i]

              def toks(pl):
                  r = L.get(pl[0], frozenset())
                  if pl[1] and r:
                      for e in pl[1]:
                          if isinstance(e, tuple) and e[0] == "f" and any(len(t) > 3 for t in r):
                              key = (e[2] or "", e[1])
                              r = frozenset(t for t in r if len(t) <= 3 or t[3][0] != key[0] or t[3] == key)
                  return r

              def otoks(o):
                  return toks(o[1]) if o[0] in ("c", "m") else frozenset()

              for s in bb.stmts:
                  if s[0] != "=":
                      continue
                  dest, r, line = s[1], s[2], s[3]
                  if r[0] == "ref":
                      ts = toks(r[2])
                  elif r[0] == "discr":
                      continue
                  else:
                      ts = frozenset()
                      for o in rv_operands(r):
                          ts |= otoks(o)
                      if r[0] == "agg" and r[1] == "vm_js::handle::HeapId":
                          # a handle made from a slot index: a new object
                          tk = ("c", i, "HeapId")
                          S[tk] = (False, False, frozenset())
                          ts |= {tk}
                  dty = b.locals[dest[0]][0]
                  if ts and not dest[1] and not self.has(dty) and dty.kind not in ("closure",) and \
                          not any(t.kind == "closure" for t in dty.walk()):
                      ts = frozenset()
                  if dest[1]:
                      if ts:
                          # a write into a heap object keeps the handle reachable
                          stored = False
                          cur = dty
                          if "*" in dest[1]:
                              for e in dest[1]:
                                  if isinstance(e, tuple) and e[0] == "f" and e[2] in HEAP_TYPES:
                                      stored = True
                              if not stored:
                                  pt = dty.peel()
                                  if pt.kind == "adt" and pt.path in HEAP_TYPES:
                                      stored = True
                              if not stored:
                                  for x in self.bases(origin, dest[0]):
                                      pt = b.locals[x][0].peel()
                                      if pt.kind == "adt" and (pt.path in HEAP_TYPES or pt.path == "vm_js::heap::Scope"):
                                          stored = True
                          if stored:
                              for t in ts:
                                  if t in S:
                                      S[t] = (S[t][0], True, S[t][2] | HEAPED)
                          for x in self.bases(origin, dest[0]) if "*" in dest[1] else [dest[0]]:
                              L[x] = L.get(x, frozenset()) | ts
                  else:
                      if ts:
                          L[dest[0]] = ts
                      else:
                          L.pop(dest[0], None)
              t = bb.term
              if t[0] == "call":
                  c = t[1]
                  tg = F.targets(c)
                  at = [otoks(a) for a in c.args]
                  name = c.name
                  # closures: captured handles are used by the callee
                  for ts in at:
                      use(ts, S, c.line, name, i)
                  gc = self.gc_call(fn, c)
                  prim = ROOT_PRIMS.get(name)
                  keep = set()
                  passed = frozenset().union(*at) if at else frozenset()
                  stored = set()
                  rooted = set()
                  if (fn.path, i) in self.skip:
                      prim = None
                      gc = True
                      tg = []
                  elif prim is not None and fn.path not in ROOT_PRIMS:
                      rooted = set(at[prim]) if prim < len(at) else set()
                      if name.endswith("push_roots_with_extra_roots"):
                          for ts in at[1:]:
                              keep |= ts
                  elif name.endswith("ensure_can_allocate_with_extra_roots"):
                      for ts in at:
                          keep |= ts
                  elif tg:
                      for x in tg:
                          sm = self.sum.get(x)
                          for j, ts in enumerate(at):
                              if not ts:
                                  continue
                              if sm is None:
                                  keep |= ts
                                  continue
                              if (j + 1) in sm["hazard"]:
                                  for tk in ts:
                                      if tk in S and not prot(S, tk):
                                          ps = param_roots(tk)
                                          if ps:
                                              hazard.update(ps)
                                          elif ps is not None:
                                              reports.setdefault((tk, name), c.line)
                              if (j + 1) not in sm["stale"]:
                                  keep |= ts
                              if (j + 1) in sm["stored"]:
                                  stored |= ts
                              if (j + 1) in sm["rooted"]:
                                  rooted |= ts
                  elif not gc:
                      keep |= passed
                  if not tg:
                      for a in c.args:
                          ct = b.locals[a[1][0]][0].peel() if a[0] in ("c", "m") else a[1] if a[0] == "k" else None
                          if ct is not None and ct.kind == "closure" and ct.path in self.sum:
                              sm = self.sum[ct.path]
                              if 2 in sm["stored"]:
                                  stored |= passed
                              if 2 not in sm["stale"]:
                                  keep |= passed
                  # what is being rooted is a root while the root stack grows
                  for tk in rooted:
                      if tk in S and not S[tk][0]:
                          sc = scope_of(c.args[0]) if c.args else "outer"
                          S[tk] = (False, True, S[tk][2] | {sc})
                  if gc:
                      for tk, st in list(S.items()):
                          if tk in keep or tk in rooted or tk in stored:
                              continue
                          if not st[0] and not prot(S, tk):
                              S[tk] = (True, st[1], st[2])
                  for tk in stored:
                      if tk in S and not S[tk][0]:
                          S[tk] = (False, True, S[tk][2] | HEAPED)
                  # explicit drop of a scope
                  if name in ("core::mem::drop",) and c.args and c.args[0][0] == "m":
                      sc = c.args[0][1][0]
                      bs = self.bases(origin, sc) & scope_locals
                      self.drop_scope(S, bs)
                      # moved scopes
                  dty = b.locals[c.dest[0]][0]
                  res = frozenset()
                  if self.has(dty) or dty.kind == "closure":
                      if tg and prim is None:
                          r = frozenset()
                          fresh = False
                          for x in tg:
                              sm = self.sum.get(x)
                              if sm is None:
                                  continue
                              for q in sm["ret"]:
                                  if q == "fresh":
                                      fresh = True
                                  elif q == "held":
                                      tk = ("h", i, name)
                                      S[tk] = (False, True, OUTER)
                                      r |= {tk}
                                      for x in tg:
                                          for q2 in (self.sum.get(x) or {}).get("kept", ()):
                                              for y in at[q2 - 1] if q2 - 1 < len(at) else ():
                                                  if y in S and not S[y][0]:
                                                      S[y] = (False, True, S[y][2] | HEAPED)
                                  elif isinstance(q, tuple):
                                      if q[1] - 1 < len(at) and at[q[1] - 1] and not self.atom(b, c.args[q[1] - 1]):
                                          tk = ("d", i, name)
                                          ps = frozenset(x for x in at[q[1] - 1] if x != tk)
                                          parents[tk] = parents.get(tk, frozenset()) | ps
                                          # the callee answers for what it did before returning it
                                          S[tk] = (False, False, frozenset())
                                          r |= {tk}
                                  elif q - 1 < len(at):
                                      r |= at[q - 1]
                          flds = [] if name in NOSPLIT else self.split_fields(dty)
                          if flds and r:
                              nr = frozenset()
                              for t in r:
                                  if t[0] == "d":
                                      for fl in flds:
                                          t2 = t[:3] + (fl,)
                                          parents[t2] = parents.get(t, frozenset()) - {t2}
                                          S[t2] = S[t]
                                          nr |= {t2}
                                  else:
                                      nr |= {t}
                              r = nr
                          if fresh:
                            for fl in flds or [None]:
                              tk = ("c", i, name) if fl is None else ("c", i, name, fl)
                              S[tk] = (False, False, frozenset())
                              r |= {tk}
                              for x in tg:
                                  for q in (self.sum.get(x) or {}).get("kept", ()):
                                      if q - 1 < len(at):
                                          for y in at[q - 1]:
                                              if y != tk:
                                                  keepers.setdefault(y, set()).add(tk)
                          elif not gc and passed and not any(
                                  a[0] in ("c", "m") and self.is_ctx(b.locals[a[1][0]][0]) for a in c.args):
                              r |= passed
                          elif not gc and passed:
                              tk = ("d", i, name)
                              ps = frozenset(x for ts, a in zip(at, c.args) if not self.atom(b, a)
                                             for x in ts if x != tk) or passed - {tk}
                              parents[tk] = parents.get(tk, frozenset()) | ps
                              S[tk] = (any(S[x][0] for x in ps if x in S), False, frozenset())
                              r = frozenset([tk])
                          res = r
                      elif prim is not None:
                          res = at[prim] if prim < len(at) else frozenset()
                      elif gc:
                          tk = ("c", i, name)
                          S[tk] = (False, False, frozenset())
                          res = frozenset([tk])
                      else:
                          res = passed
                  # std mutators put arguments into their receiver
                  if not tg and c.args and passed and (fn.path, i) not in self.skip:
                      a0 = c.args[0]
                      if a0[0] in ("c", "m") and b.locals[a0[1][0]][0].kind == "ref" and b.locals[a0[1][0]][0].mut:
                          bs = self.bases(origin, a0[1][0])
                          for x in bs:
                              if self.has(b.locals[x][0]):
                                  L[x] = L.get(x, frozenset()) | passed
                          pt = [b.locals[x][0].peel() for x in bs]
                          if any(p.kind == "adt" and p.path in HEAP_TYPES for p in pt) or any(
                                  p.kind == "adt" and p.path == "vm_js::heap::Scope" for p in pt):
                              for tk in passed:
                                  if tk in S and not S[tk][0]:
                                      S[tk] = (False, True, S[tk][2] | HEAPED)
                  if c.dest[1]:
                      L[c.dest[0]] = L.get(c.dest[0], frozenset()) | res
                  elif res:
                      L[c.dest[0]] = res
                  else:
                      L.pop(c.dest[0], None)
              elif t[0] == "drop":
                  if t[1][0] in scope_locals and not t[1][1]:
                      self.drop_scope(S, {t[1][0]})
              elif t[0] == "ret":
                  ts = L.get(0, frozenset())
                  use(ts, S, fn.end, "return", i)
                  nret += 1
                  for tk in ts:
                      ret_tokens.add(tk)
                      if tk in S and not S[tk][2] & PERM:
                          unheld.add(tk)
                  for p in init_l:
                      tk = ("p", p)
                      st = S.get(tk)
                      if st is None:
                          continue
                      ret_status.setdefault(p, []).append((st, prot(S, tk), self.err_ret(b, L)))
              # successors
              if final:
                  continue
              for sx, kill in self.edges(b, i, disc):
                  S2, Lk = S, L
                  if kill is not None:
                      pl, vs = kill
                      ks = L.get(pl[0], frozenset())
                      if ks:
                          # on this edge the place holds no handle
                          Lk = {k: v for k, v in L.items() if k != pl[0]}
                          S2 = dict(S)
                          for tk in ks:
                              if tk in S2 and not S2[tk][0]:
                                  S2[tk] = (False, True, S2[tk][2] | {"none"})
                  lv = live[sx]
                  L2 = {k: v for k, v in Lk.items() if k in lv}
                  keep = set()
                  st = [t for v in L2.values() for t in v]
                  while st:
                      x = st.pop()
                      if x not in keep:
                          keep.add(x)
                          st.extend(parents.get(x, ()))
                          st.extend(keepers.get(x, ()))
                  S2 = {k: v for k, v in S2.items() if k in keep or k[0] == "p"}
                  if sx not in instate:
                      instate[sx] = (L2, S2)
                  elif not join(instate[sx], (L2, S2)):
                      continue
                  if sx not in inwork:
                      inwork.add(sx)
                      heapq.heappush(work, (order.get(sx, 0), sx))
        stale, stored, rooted = set(), set(), set()
        for p, l in ret_status.items():
            if any(st[0] for st, _, _ in l):
                stale.add(p)
            if l and all(st[2] & PERM for st, _, _ in l):
                stored.add(p)
        ret = set()
        for tk in ret_tokens:
            if tk[0] == "p":
                ret.add(tk[1])
            elif tk not in unheld:
                # rooted in the caller's scope (or stored in the heap): it stays alive for the caller
                ret.add("held")
            elif tk[0] == "d":
                ps, fresh = param_roots(tk), has_fresh(tk)
                if fresh:
                    ret.add("fresh")
                else:
                    ret |= {("from", p) for p in ps}
            else:
                ret.add("fresh")
        if not ret_tokens and self.has(b.locals[0][0]):
            pass
        self.reports[fn.path] = reports
        kept = set()
        if fn.path == ALLOC:
            kept.add(2)
        for p in init_l:
            if keepers.get(("p", p), set()) & ret_tokens:
                kept.add(p)
        return {"hazard": hazard, "stale": stale, "stored": stored, "rooted": rooted, "ret": ret, "kept": kept}

    def rpo(self, b):
        out, seen = [], {0}
        st = [(0, iter(b.bbs[0].succ()))]
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(b.bbs[y].succ())))
                    break
            else:
                out.append(x)
                st.pop()
        out.reverse()
        return {x: i for i, x in enumerate(out)}

    def liveness(self, fn, b, origin):
        """locals that may still be read at block entry (a borrowed local lives as long as its borrows)"""
        if fn.path in self._live:
            return self._live[fn.path]
        gen, kill = {}, {}
        for i in b.reachable():
            g, k = set(), set()
            bb = b.bbs[i]

            def rd(l):
                if l not in k:
                    g.add(l)
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                r = s[2]
                for o in rv_operands(r):
                    if o[0] in ("c", "m"):
                        rd(o[1][0])
                if r[0] == "ref":
                    rd(r[2][0])
                elif r[0] == "discr":
                    rd(r[1][0])
                if s[1][1]:
                    rd(s[1][0])
                else:
                    k.add(s[1][0])
            t = bb.term
            if t[0] == "call":
                for a in t[1].args:
                    if a[0] in ("c", "m"):
                        rd(a[1][0])
                if t[1].fnptr is not None and t[1].fnptr[0] in ("c", "m"):
                    rd(t[1].fnptr[1][0])
                if not t[1].dest[1]:
                    k.add(t[1].dest[0])
            elif t[0] in ("switch", "assert") and t[1][0] in ("c", "m"):
                rd(t[1][1][0])
            elif t[0] == "drop":
                pass
            elif t[0] == "ret":
                rd(0)
            gen[i], kill[i] = g, k
        rb = {}
        for l, bs in origin.items():
            for x in bs:
                rb.setdefault(x, set()).add(l)
        live = {i: set() for i in b.reachable()}
        work = list(b.reachable())
        preds = b.preds()
        while work:
            i = work.pop()
            out = set()
            for s in b.bbs[i].succ():
                out |= live.get(s, set())
            n = gen[i] | (out - kill[i])
            if n != live[i]:
                live[i] = n
                work.extend(preds[i])
        for i in live:
            ext = set(live[i])
            for l in live[i]:
                ext |= self.bases(origin, l)
            live[i] = ext
        self._live[fn.path] = live
        return live

    def split_fields(self, ty):
        """the handle fields of a returned struct, when it has several: each is a token of its own"""
        k = ("split", id(ty))
        if k in self._leaf:
            return self._leaf[k]
        t, r = ty, []
        while t.kind == "adt" and t.path in ("core::result::Result", "core::option::Option") and t.args:
            t = t.args[0]
        if t.kind == "adt" and t.path in self.F.adts and t.path not in LEAVES and t.path not in CONTEXT and \
                self.F.adts[t.path].kind == "struct":
            r = [(t.path, n) for n, ft, _ in self.F.adts[t.path].variants[0].fields if self.direct(ft)]
        elif t.kind == "tuple":
            r = [("", str(j)) for j, ft in enumerate(t.args) if self.direct(ft)]
        self._leaf[k] = r if len(r) > 1 else []
        return self._leaf[k]

    def direct(self, t):
        while t.kind == "adt" and t.path == "core::option::Option" and t.args:
            t = t.args[0]
        return t.kind == "adt" and t.path in LEAVES

    def atom(self, b, a):
        """strings, symbols and keys: nothing else is read out of them"""
        if a[0] not in ("c", "m") or a[1][1]:
            return False
        t = b.locals[a[1][0]][0].peel()
        return t.kind == "adt" and t.path in ATOMS

    def err_ret(self, b, L):
        return False

    def drop_scope(self, S, bs):
        for tk, st in list(S.items()):
            if st[2] & frozenset(bs):
                n = st[2] - frozenset(bs)
                S[tk] = (st[0], bool(n), n)

    def edges(self, b, i, disc):
        t = b.bbs[i].term
        if t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1] and t[1][1][0] in disc:
            pl = disc[t[1][1][0]]
            if all(e == "*" for e in pl[1]):
                ty = b.locals[pl[0]][0].peel()
                out = []
                if ty.kind == "adt" and ty.path == "core::option::Option":
                    ex = {v for v, _ in t[2]}
                    for v, s in t[2]:
                        out.append((s, (pl, 0) if v == 0 else None))
                    out.append((t[3], (pl, 0) if 0 not in ex and 1 in ex else None))
                    return out
                two = {"core::result::Result": (0, 1), "core::ops::control_flow::ControlFlow": (1, 0)}.get(ty.path) \
                    if ty.kind == "adt" else None
                if two and len(ty.args) >= 2:
                    none = {v for v in (0, 1) if not self.has(ty.args[two[v]])}
                    ex = {v for v, _ in t[2]}
                    for v, s in t[2]:
                        out.append((s, (pl, 0) if v in none else None))
                    rest = {0, 1} - ex
                    out.append((t[3], (pl, 0) if rest and rest <= none else None))
                    return out
                if ty.kind == "adt" and ty.path in self.F.adts and self.F.adts[ty.path].kind == "enum":
                    a = self.F.adts[ty.path]
                    nm = {int(v.discr): v.name for v in a.variants}
                    none = {v.name for v in a.variants if not any(self.has(f[1]) for f in v.fields)}
                    ex = set()
                    for v, s in t[2]:
                        ex.add(nm.get(v))
                        out.append((s, (pl, 0) if nm.get(v) in none else None))
                    rest = set(nm.values()) - ex
                    out.append((t[3], (pl, 0) if rest <= none else None))
                    return out
        return [(s, None) for s in b.bbs[i].succ()]
