"""B04: every expression is printed with the parentheses its position needs."""
from levels import Eval, Frame, TOP, slot
from tables import Consts
from props.operators import opname, OPN, HBIN, HASG, LEVEL, LEVELS

NODE_EXPR, HIR_ID = "parse_js::ast::expr::Expr", "hir_js::ids::ExprId"
OPT = "parse_js::operator::OperatorName"
HB, HA, HU, HP = ("hir_js::hir::" + x for x in ("BinaryOp", "AssignOp", "UnaryOp", "UpdateOp"))
EK = "hir_js::hir::ExprKind"
AE = "parse_js::ast::expr::Expr"
# positions whose grammar is Expression: a comma needs no parentheses
EXPR = {"ExprStmt.expr", "IfStmt.test", "WhileStmt.condition", "DoWhileStmt.condition", "ForTripleStmt.cond",
        "ForTripleStmt.post", "ForTripleStmtInit::Expr.0", "ForInStmt.rhs", "ReturnStmt.value", "SwitchStmt.test",
        "SwitchBranch.case", "ThrowStmt.value", "WithStmt.object", "ComputedMemberExpr.member",
        "LitTemplatePart::Substitution.0", "StmtKind::Expr.0", "StmtKind::Return.0", "StmtKind::If.test",
        "StmtKind::While.test", "StmtKind::DoWhile.test", "StmtKind::For.test", "StmtKind::For.update", "ForInit::Expr.0",
        "StmtKind::Switch.discriminant", "SwitchCase.test", "StmtKind::Throw.0", "StmtKind::With.object",
        "TemplateLiteralSpan.expr", "JsxExprContainer.value", "MemberExpr.key"}
LHS = {"CallExpr.callee", "MemberExpr.left", "ComputedMemberExpr.object", "TaggedTemplateExpr.function", "ClassDecl.extends",
       "ClassExpr.extends", "Decorator.expression", "NonNullAssertionExpr.expression", "InstantiationExpr.expression",
       "MemberExpr.object", "ExprKind::TaggedTemplate.tag", "ClassBody.extends", "Decorator.expr"}
UNARY = {"UnaryPostfixExpr.argument", "ExprKind::Unary.expr", "ExprKind::Update.expr", "ExprKind::Await.expr"}
# what is written right after the `(` of the construct itself
OWN_PAREN = {"CallArg.value", "CallArg.expr", "ImportExpr.module", "ExprKind::ImportCall.argument"}
# not the expression's own position: a target, a name, or a wrapper that is not written
SKIP = {"Pat::AssignTarget.0", "PatKind::AssignTarget.0", "ClassDecl.implements", "ClassExpr.implements",
        "ExprKind::TypeAssertion.expr", "ExprKind::NonNull.expr", "ExprKind::Satisfies.expr"}


BINARY = {n for i, (ns, a) in enumerate(LEVELS) if a for n in ns if i not in (2, 14)} - {"Yield", "YieldDelegated"}


class Need:
    def __init__(self, table):
        self.t = table
        self.A = table["Comma"] + 1

    def of(self, s, op, flags):
        """(strength the grammar asks for in this position, how to say it)"""
        t = self.t
        if s in SKIP:
            return None
        if s in EXPR:
            return 0, "Expression"
        if s.startswith("StmtKind::ForIn.right"):
            return (self.A, "AssignmentExpression") if flags.get("is_for_of", 1) else (0, "Expression")
        if s in LHS:
            return t["Call"], "LeftHandSideExpression"
        if s == "UnaryPostfixExpr.argument" and op not in ("PostfixIncrement", "PostfixDecrement"):
            return None
        if s in UNARY:
            return t["LogicalNot"], "UnaryExpression"
        if s == "UnaryExpr.argument":
            if op in ("Yield", "YieldDelegated"):
                return self.A, "AssignmentExpression"
            if op == "New":
                return t["Call"], "MemberExpression"
            return (t["LogicalNot"], "UnaryExpression") if op in LEVELS[2][0] else None
        if s in ("BinaryExpr.left", "BinaryExpr.right", "ExprKind::Binary.left", "ExprKind::Binary.right"):
            if op not in BINARY or op.startswith("Assignment") and (s.endswith("left") or s.startswith("ExprKind")):
                return None
            p, left = t[op], s.endswith("left")
            right = LEVEL[op][1] == "Right"
            return p + (1 if left == right else 0), "operand of `%s`" % OPN.get(op, op)
        if s in ("CondExpr.test", "ExprKind::Conditional.test"):
            return t["Conditional"] + 1, "ShortCircuitExpression"
        if s in ("TypeAssertionExpr.expression", "SatisfiesExpr.expression"):
            return t["LessThan"], "RelationalExpression"
        return self.A, "AssignmentExpression"


def operator(F, enum, v):
    """the ECMA-262 operator an operator enum's variant stands for, as a row of the table"""
    if enum == OPT:
        return v
    sp = {HB: HBIN, HA: HASG}.get(enum, {}).get(v)
    if sp is None:
        return None
    pre = "Assignment" if enum == HA else ""
    for n, s in OPN.items():
        if s == sp and (n.startswith("Assignment") == (enum == HA)) and not n.startswith(("Unary", "Pre", "Post", "Member", "Opt")):
            return n
    return None


class Printers:
    def __init__(self, F, table, assoc):
        self.F = F
        self.E = Eval(F, table, assoc, "parse_js::operator::OPERATORS", OPT, "parse_js::operator::Associativity")
        self.need = Need(table)
        for a in F.adts.values():
            if a.path.startswith(("parse_js::ast::", "hir_js::hir::")):
                for v in a.variants:
                    for nm, ty, *_ in v.fields:
                        ps = {t.path for t in ty.walk() if t.kind == "adt"} if not isinstance(ty, str) else set()
                        if NODE_EXPR in ps or HIR_ID in ps:
                            self.E.slots.add(slot((a.path, v.name if a.kind == "enum" else None, nm)))
        self.fns = {p: f for p, f in F.fns.items() if f.crate.name == "emit_js" and "::tests::" not in p}
        self.sites = {}
        for p, f in self.fns.items():
            for i, c in f.body.calls():
                for t in F.targets(c):
                    self.sites.setdefault(t, []).append((p, i, c))
        self._ctx, self._frames, self._pn, self._fixed, self._writes, self._inner, self._around = {}, {}, {}, {}, {}, {}, {}

    def is_expr(self, ty):
        t = ty.peel()
        if str(t) == HIR_ID or t.kind == "adt" and t.path == HIR_ID:
            return True
        return t.kind == "adt" and t.path.endswith("::Node") and t.args and t.args[0].kind == "adt" and t.args[0].path == NODE_EXPR

    def emits(self, ty):
        """the type is the writer"""
        s = str(ty)
        return s.startswith("&mut ") and ("Emitter" in s or s in ("&mut W", "&mut Self"))

    def bodies_of(self, p):
        yield p, self.fns[p]
        for q, f in self.fns.items():
            if q.startswith(p + "::{closure"):
                yield q, f

    def base(self):
        """functions that compare an expression's strength with the one asked for: {path: (expression, strength, raw callee)}"""
        out = {}
        for p, f in self.fns.items():
            if "{closure" in p:
                continue
            b = f.body
            es = [i for i in range(1, b.argc + 1) if self.is_expr(b.locals[i][0])]
            ms = [i for i in range(1, b.argc + 1) if str(b.locals[i][0]) in ("u8", "emit_js::precedence::Prec")]
            if len(es) != 1 or len(ms) != 1 or "Result" not in str(b.locals[0][0]):
                continue
            raw, compares = None, False
            for q, g in self.bodies_of(p):
                fr = self.E.bare(g)
                for i, c in g.body.calls():
                    roots = [fr.trail(a[1]) if a[0] in ("c", "m") else None for a in c.args]
                    names = [r[0] for r in roots if r and not self.E.bare(g).own(r[1])]
                    if "%s#%d" % (p, ms[0]) in names and (c.last in ("lt", "gt", "le", "ge") or
                                                         any(str(self.F.fns[t].body.locals[0][0]) == "bool" for t in self.F.targets(c))):
                        compares = True
                    if "%s#%d" % (p, es[0]) in names and any(t in self.fns for t in self.F.targets(c)) and \
                            any(self.emits(g.body.locals[a[1][0]][0]) for a in c.args if a[0] in ("c", "m") and not a[1][1]):
                        raw = next(iter(self.F.targets(c)))
                for i in g.body.reachable():
                    for s in g.body.bbs[i].stmts:
                        if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Gt", "Le", "Ge"):
                            for o in s[2][2:4]:
                                r = fr.trail(o[1]) if o[0] in ("c", "m") else None
                                if r and r[0] == "%s#%d" % (p, ms[0]):
                                    compares = True
            if compares and raw:
                out[p] = (es[0], ms[0], raw)
        return out

    # -- contexts
    def param_nodes(self, p):
        """which position each expression parameter of a function stands for"""
        p = p.split("::{closure")[0]
        if p not in self._pn:
            self._pn[p] = {}
            f = self.fns[p]
            out = {}
            for i in range(1, f.body.argc + 1):
                ss = set()
                if self.is_expr(f.body.locals[i][0]):
                    for q, _, c in self.sites.get(p, ()):
                        a = c.args[i - 1]
                        fr = self.E.bare(self.fns[q])
                        t = fr.trail(a[1]) if a[0] in ("c", "m") else None
                        fs = [slot(x) for x in fr.own(t[1]) if slot(x) in self.E.slots] if t else []
                        ss.add(fs[-1] if fs else "self")
                out[i] = next(iter(ss)) if len(ss) == 1 else "self"
            self._pn[p] = out
        return self._pn[p]

    def fixed(self, p):
        """parameters that every caller gives the same constant"""
        if p not in self._fixed:
            f, out = self.fns[p], {}
            for i in range(1, f.body.argc + 1):
                if str(f.body.locals[i][0]) in ("bool", "u8"):
                    vs = {str(c.args[i - 1][3]) if c.args[i - 1][0] == "k" else "?" for _, _, c in self.sites.get(p, ())}
                    if len(vs) == 1 and "?" not in vs:
                        out[i] = self.E.const(self.fns[self.sites[p][0][0]], self.sites[p][0][2].args[i - 1])
            self._fixed[p] = {i: v for i, v in out.items() if v is not TOP}
        return self._fixed[p]

    def contexts(self, p):
        """(label, enum -> variant for the node itself, flags) to tell apart in this function"""
        if p in self._ctx:
            return self._ctx[p]
        f = self.fns[p]
        enums = set()
        flags = False
        for b in (f.body,):
            for t, _ in b.locals:
                q = t.peel()
                if q.kind == "adt" and q.path in (OPT, HB, HA, HU):
                    enums.add(q.path)
            for i, line, pl, how in b.places_read():
                for e in pl[1]:
                    if isinstance(e, tuple) and e[0] == "f" and e[1] == "is_for_of":
                        flags = True
        out = [(None, {}, {})]
        if enums:
            e = sorted(enums, key=lambda x: (x == OPT, x))[0]
            out = [(operator(self.F, e, v.name) or v.name, {e: v.name}, {}) for v in self.F.adts[e].variants]
        if flags:
            out = [(o, t, {"is_for_of": x}) for o, t, _ in out for x in (0, 1)]
        self._ctx[p] = out
        return out

    def splits(self, p):
        """bool variables that more than one decision of the function reads"""
        b = self.fns[p].body
        n = {}
        src = {}
        for i in b.reachable():
            for s in b.bbs[i].stmts:
                if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] in ("c", "m") and not s[2][1][1][1]:
                    src.setdefault(s[1][0], set()).add(s[2][1][1][0])
        for i in b.reachable():
            t = b.bbs[i].term
            if t[0] == "switch" and str(t[4]) == "bool" and t[1][0] in ("c", "m") and not t[1][1][1]:
                l = t[1][1][0]
                for _ in range(3):
                    if len(src.get(l, ())) == 1:
                        l = next(iter(src[l]))
                n[l] = n.get(l, 0) + 1
        return [l for l, k in n.items() if k > 1 and l > b.argc][:2]

    def frames(self, p, ctx, child=None):
        key = (p, str(ctx), str(child))
        if key not in self._frames:
            op, tags, flags = ctx
            f = self.fns[p]
            fix = {i: frozenset([("V", e, v)]) for e, v in tags.items() for i in range(1, f.body.argc + 1)
                   if f.body.locals[i][0].peel().kind == "adt" and f.body.locals[i][0].peel().path == e}
            fix.update(self.fixed(p))
            tg = {"self": dict(tags)}
            if child:
                tg[child[0]] = child[1]
            out = []
            ls = self.splits(p)
            for m in range(2 ** len(ls)):
                fx = dict(fix)
                for k, l in enumerate(ls):
                    fx[l] = frozenset([(m >> k) & 1])
                # a split that contradicts what the assumptions decide
                if ls:
                    free = Frame(self.E, f, f.body, fix, self.param_nodes(p), tg, flags)
                    if any(free.local(l) is not TOP and not fx[l] <= free.local(l) for l in ls):
                        continue
                out.append(Frame(self.E, f, f.body, fx, self.param_nodes(p), tg, flags))
            self._frames[key] = out
        return self._frames[key]

    # -- `(` just written
    def writes(self, path, n=0):
        """the last text a function leaves behind: a text, "" when it writes nothing, "?" otherwise"""
        if path not in self._writes:
            self._writes[path] = "?"
            f = self.fns.get(path)
            if f is not None and n < 3 and not f.coroutine and len(f.body.bbs) < 60:
                fr = self.E.bare(f)
                inn = self.texts(fr, "", n + 1)
                ends = {inn[i] for i in inn if f.body.bbs[i].term[0] == "ret"}
                self._writes[path] = next(iter(ends)) if len(ends) == 1 else "?"
        return self._writes[path]

    def texts(self, fr, init="?", n=0):
        b = fr.body
        inn = {0: init}
        work = [0]
        while work:
            i = work.pop()
            st = inn[i]
            c = b.bbs[i].call
            if c is not None:
                w = None
                if c.last.startswith("write") and len(c.args) > 1:
                    v = fr.operand(c.args[1])
                    w = next(iter(v)) if v is not TOP and len(v) == 1 else "?"
                    w = chr(w) if isinstance(w, int) else w
                else:
                    ts = set(self.F.targets(c))
                    if c.args and not ts and c.last in ("call", "call_mut", "call_once"):
                        k = fr.closure(c.args[0])
                        ts = {k} if k else ts
                    if any(a[0] in ("c", "m") and not a[1][1] and self.emits(b.locals[a[1][0]][0]) for a in c.args) or \
                            any(t in self.fns and (c.last.startswith("emit") or "{closure" in t) for t in ts):
                        ws = {self.writes(t, n) for t in ts}
                        w = next(iter(ws)) if len(ws) == 1 else "?"
                        w = None if w == "" else w
                if w is not None:
                    st = w
            for s in b.bbs[i].succ():
                if s in fr.open:
                    x = st if s not in inn or inn[s] == st else "?"
                    if inn.get(s) != x:
                        inn[s] = x
                        work.append(s)
        return inn

    def opened(self, fr, init="?"):
        got = fr.__dict__.setdefault("_opened", {})
        if init not in got:
            got[init] = self.texts(fr, init)
        return got[init]

    # -- who asks for what
    def member_key(self, root, i):
        """every caller gives the key of a member access"""
        out = []
        for q, _, c in self.sites.get(root, ()):
            a = c.args[i - 1]
            t = self.E.bare(self.fns[q]).trail(a[1]) if a[0] in ("c", "m") else None
            out.append(bool(t and t[1] and any(f[0].rsplit("::", 1)[-1] == "MemberExpr" for f in t[1] if f[0])))
        return bool(out) and all(out)

    def inner(self, q, fr, c):
        """the body q of a function called by c in fr, under what is known at that call"""
        root = q.split("::{closure")[0]
        g, f = self.fns[q], self.fns[root]
        vals, nodes = {}, {}
        for i, a in enumerate(c.args[:f.body.argc]):
            v = fr.operand(a)
            ref = str(f.body.locals[i + 1][0]).startswith("&")
            n = fr.node(a[1]) if a[0] in ("c", "m") else None
            if n is not None:
                nodes[i + 1] = n
            if v is not TOP and not (ref and n is not None):
                vals[i + 1] = v
        key = (q, str(sorted(vals.items())), str(nodes), str(fr.tags), str(fr.flags))
        if key not in self._inner:
            self._inner[key] = Frame(self.E, g, g.body, vals if q == root else {}, nodes, fr.tags, fr.flags,
                                     up={"%s#%d" % (root, i): v for i, v in vals.items()})
        return self._inner[key]

    def requests(self):
        """every position printed: yields (position, operator, flags, strength, function, line, what is printed there)"""
        base = self.bases = self.base()
        # a way from a position to the printer: the calls, outermost last
        work = [(p, e, ()) for p, (e, m, raw) in base.items()]
        work += [(raw, self.raw_param(raw), ()) for p, (e, m, raw) in base.items() if self.raw_param(raw)]
        own = {(p, raw) for p, (e, m, raw) in base.items()}
        self.unresolved = 0
        while work:
            P, ei, way = work.pop()
            for q, blk, c in self.sites.get(P, ()):
                root = q.split("::{closure")[0]
                if (root, P) in own or len(way) > 4 or any(x[0] == q for x in way):
                    continue
                bare = self.E.bare(self.fns[q])
                a = c.args[ei - 1]
                t = bare.trail(a[1]) if a[0] in ("c", "m") else None
                fs = [slot(x) for x in bare.own(t[1]) if slot(x) in self.E.slots] if t else []
                s = fs[-1] if fs else None
                here = ((q, blk, c),) + way
                if s is None:
                    if t is None or t[0] == "?":
                        self.unresolved += 1
                    elif t[0].split("#")[0] == root and not bare.own(t[1]):
                        n = int(t[0].rsplit("#", 1)[1])
                        s = self.param_nodes(q).get(n)
                        if s not in self.E.slots:
                            s = None
                            work.append((root, n, here))
                if s is not None:
                    yield from self.judge(s, t, here, q, c.line)

    def judge(self, s, t, way, q, line):
        if s == "ObjectKey::Computed.0" and t[0] != "?" and self.member_key(t[0].rsplit("#", 1)[0], int(t[0].rsplit("#", 1)[1])):
            s_need = "MemberExpr.key"
        else:
            s_need = s
        for ctx in self.contexts(q):
            op, fl = ctx[0], ctx[2]
            need = self.need.of(s_need, op, fl)
            if need is None:
                continue
            for kid, ktags in [(None, None)] + self.children(s, op, need):
                for fr in self.frames(q, ctx, (s, ktags) if kid else None):
                    m, before = self.along(fr, way, s)
                    if m is None:
                        continue
                    nd = need
                    if before == "return":
                        nd = 0, "Expression"
                        if kid:
                            continue
                    yield s_need, op, fl, m, q, line, kid, nd

    def along(self, fr, way, s):
        """the strength asked for at the end of a way of calls, None when the way is closed"""
        text = "?"
        for k, (q, blk, c) in enumerate(way):
            if k:
                fr = self.inner(q, fr, way[k - 1][2])
            if blk not in fr.open:
                return None, None
            if "::{closure" in q and self.around(q) != "?":
                text = self.around(q)
            text = self.opened(fr, text).get(blk, "?")
            if text == "(" and s not in OWN_PAREN:
                return frozenset([100]), text
        last = next((x for x in self.F.targets(c) if x in self.bases), None)
        if last is None:
            return frozenset([0]), text
        return fr.operand(c.args[self.bases[last][1] - 1]), text

    def around(self, q):
        """the text before a closure's body, when the function it is handed to calls it"""
        if q not in self._around:
            self._around[q] = "?"
            root = q.rsplit("::{closure", 1)[0]
            if root != q and root in self.fns:
                bare = self.E.bare(self.fns[root])
                got = set()
                for blk in bare.body.reachable():
                    c = bare.body.bbs[blk].call
                    if c is None:
                        continue
                    at = [i for i, a in enumerate(c.args) if a[0] in ("c", "m", "k") and bare.closure(a) == q]
                    for g in self.F.targets(c) if at else ():
                        if g in self.fns and g != q:
                            fr = self.inner(g, bare, c)
                            ins = self.opened(fr)
                            for i in fr.open:
                                k = fr.body.bbs[i].call
                                if k is not None and k.last in ("call", "call_mut", "call_once") and k.args and k.args[0][0] in ("c", "m"):
                                    t = fr.trail(k.args[0][1])
                                    if t and t[0] == "%s#%d" % (g.split("::{closure")[0], at[0] + 1) or k.args[0][1][0] == at[0] + 1:
                                        got.add(ins.get(i, "?"))
                if len(got) == 1:
                    self._around[q] = got.pop()
        return self._around[q]

    def children(self, s, op, need):
        """operands that the order of strengths alone does not settle: (name, assumptions)"""
        hir = s.split(".")[0].endswith("ExprKind::Binary") or s.startswith("FunctionBody")
        def bin_(o):
            if hir:
                v = next(v.name for v in self.F.adts[HB].variants if operator(self.F, HB, v.name) == o)
                return {EK: "Binary", HB: v}
            return {AE: "Binary", OPT: o}
        if s in ("BinaryExpr.left", "BinaryExpr.right", "ExprKind::Binary.left", "ExprKind::Binary.right"):
            mix = {"NullishCoalescing": ("LogicalAnd", "LogicalOr"), "LogicalAnd": ("NullishCoalescing",),
                   "LogicalOr": ("NullishCoalescing",)}
            out = [("`%s`" % OPN[o], bin_(o)) for o in mix.get(op, ())]
            if op == "Exponentiation" and s.endswith("left"):
                out += [("unary `-`", {EK: "Unary", HU: "Minus"} if hir else {AE: "Unary", OPT: "UnaryNegation"}),
                        ("await", {EK: "Await"} if hir else {AE: "Unary", OPT: "Await"})]
            return out
        if s in ("FuncBody::Expression.0", "FunctionBody::Expr.0"):
            return [("`,`", bin_("Comma"))]
        return []

    def kid_strength(self, kid):
        t = self.need.t
        for n in ("LogicalAnd", "LogicalOr", "NullishCoalescing", "Comma"):
            if kid == "`%s`" % OPN[n]:
                return t[n]
        return t["LogicalNot"]

    def raws(self):
        return {raw for _, _, raw in self.bases.values()}

    def raw_param(self, raw):
        b = self.fns[raw].body
        es = [i for i in range(1, b.argc + 1) if self.is_expr(b.locals[i][0])]
        return es[0] if len(es) == 1 else None


def load(F):
    C = Consts(F)
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name == "parse_js" and fn.kind in ("const", "static"):
            v = C.local(fn, fn.body, 0)
            if isinstance(v, list) and len(v) > 5 and all(isinstance(l, list) and l and all(
                    isinstance(x, list) and len(x) >= 2 and opname(x[0]) for x in l) for l in v):
                table, assoc = {}, {}
                for i, l in enumerate(v):
                    for x in l:
                        n = opname(x[0])[1]
                        table[n] = len(v) - i
                        assoc[n] = next(y[2] for y in x if isinstance(y, tuple) and y[1].endswith("::Associativity"))
                return table, assoc
    return None


UNARY_KIND = {"Not": "LogicalNot", "BitNot": "BitwiseNot", "Plus": "UnaryPlus", "Minus": "UnaryNegation", "Typeof": "Typeof",
              "Void": "Void", "Delete": "Delete"}


def kinds(P, hir):
    """expressions by how strongly the grammar binds them: (name, assumptions, flags, level)"""
    t = P.need.t
    if hir:
        for enum, var in ((HB, "Binary"), (HA, "Assignment")):
            for v in P.F.adts[enum].variants:
                n = operator(P.F, enum, v.name)
                if n in t:
                    yield "`%s`" % OPN[n], {EK: var, enum: v.name}, {}, t[n]
        for v in P.F.adts[HU].variants:
            if v.name in UNARY_KIND:
                yield "unary " + v.name, {EK: "Unary", HU: v.name}, {}, t[UNARY_KIND[v.name]]
        for var, n in (("Conditional", "Conditional"), ("Await", "Await"), ("Yield", "Yield")):
            yield var.lower(), {EK: var}, {}, t[n]
        yield "arrow function", {EK: "FunctionExpr"}, {"is_arrow": 1}, t["Assignment"]
        return
    for n in sorted(t):
        if n in BINARY:
            yield "`%s`" % OPN.get(n, n), {AE: "Binary", OPT: n}, {}, t[n]
        elif n in LEVELS[2][0] or n in ("Yield", "YieldDelegated"):
            yield n, {AE: "Unary", OPT: n}, {}, t[n]
    for n in ("PostfixIncrement", "PostfixDecrement"):
        yield n, {AE: "UnaryPostfix", OPT: n}, {}, t[n]
    yield "conditional", {AE: "Cond"}, {}, t["Conditional"]
    yield "arrow function", {AE: "ArrowFunc"}, {}, t["Assignment"]


def asked(P, p):
    """an expression weaker than what is asked for is put between parentheses: yields (kind, ok, line)"""
    ei, mi, raw = P.bases[p]
    f = P.fns[p]
    hir = f.body.locals[ei][0].peel().path == HIR_ID
    sites = [(q, blk, c) for q, blk, c in P.sites[raw] if q.split("::{closure")[0] == p]
    for name, tags, flags, level in kinds(P, hir):
        res, line = None, 0
        for q, blk, c in sites:
            g = P.fns[q]
            m = frozenset([level + 1])
            fix = {mi: m} if q == p else {}
            fr = Frame(P.E, g, g.body, fix, {ei: "self"}, {"self": tags}, flags, up={"%s#%d" % (p, mi): m})
            line = c.line
            if blk in fr.open:
                ok = P.opened(fr).get(blk) == "("
                res = ok if res is None else res and ok
        yield name, res, line


def b04(chk, F):
    chk.rule("every place where an expression is printed asks for at least the strength the grammar wants there, or has just "
             "written `(`; a printer that is asked for more than an expression's own strength writes `(` first; `??` beside "
             "`&&`/`||` and a unary operator as the base of `**` are parenthesised whatever their strengths")
    chk.assume("the strengths are those of the operator table, whose agreement with ECMA-262 is the obligation of another check")
    chk.assume("where a parenthesis is needed because of the first token (statement start, `new`) is not decided here")
    got = load(F)
    chk.anchor("operator table", got is not None, "the operator table is a constant array of levels")
    if not got:
        return
    P = Printers(F, *got)
    n = 0
    slots, worst = set(), {}
    for s, op, fl, m, q, line, kid, need in P.requests():
        if need is None:
            continue
        if m is TOP or not m:
            chk.count("positions not evaluated")
            continue
        n += 1
        slots.add(s)
        root = q.split("::{closure")[0]
        lazy = s in ("FuncBody::Expression.0", "FunctionBody::Expr.0")
        if kid:
            ok = min(m) > P.kid_strength(kid)
        elif lazy:
            ok = True
        else:
            ok = min(m) >= need[0]
        label = op if ("inary" in s or "Unary" in s) else None
        key = "%s|%s%s%s" % (root, s, "|" + label if label else "", "|" + kid if kid else "")
        chk.ob(key, ok, P.fns[q].where(line),
               "%s prints %s%s where the grammar wants %s, but asks only for strength %s%s" % (
                   root, s, " of `%s`" % OPN.get(label, label) if label else "", need[1],
                   sorted(m), " (operand: %s)" % kid if kid else ""))
    chk.floor("printed positions", n, 1200)
    chk.floor("kinds of position", len(slots), 60)
    chk.floor("expression printers", len(P.bases), 4)
    k = 0
    for p in sorted(P.bases):
        seen = 0
        for name, ok, line in asked(P, p):
            if ok is None:
                continue
            seen += 1
            chk.ob("%s|weak|%s" % (p, name), ok, P.fns[p].where(line), "%s prints %s without `(` where more strength is asked for" % (p, name))
        k += seen
        chk.anchor("%s kinds" % p, seen >= 10, "the strengths of the expressions this printer handles are known")
    chk.count("kinds of expression", k)


PROPS = {"B04": b04}
