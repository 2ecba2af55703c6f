"""F01: what walks the parts of a type walks all of them."""
from cover import Cover, enum_switches
from props.vm_budget import sccs

P = "types_ts_interned::"
IDS = {P + "ids::TypeId", P + "ids::SignatureId", P + "ids::ShapeId", P + "ids::ObjectId"}
KIND = P + "kind::TypeKind"
PARTS = {KIND, P + "signature::Signature", P + "shape::Shape"}
GET = {"type_kind", "signature", "shape", "object"}
CRATES = ("types_ts_interned", "typecheck_ts")
# parts a walk leaves out on purpose: (function, part) -> why
LEFT_OUT = {
    ("conditional_is_indeterminate_operand_inner", "Infer.constraint"): "an `infer` that is not bound makes the operand indeterminate by itself",
    ("conditional_is_indeterminate_operand_inner", "Ref.args"): "a reference that did not expand is opaque; its arguments cannot make it reducible",
    ("conditional_is_indeterminate_operand_inner", "Intrinsic.ty"): "the evaluator's own operand check covers intrinsics",
    ("collect_variance_usage", "type_params.constraint"): "variance is measured by relating the types, which erases the constraints of a generic signature",
    ("collect_variance_usage", "type_params.default"): "as for the constraint",
    ("fmt_type", "Mapped.0.name_type"): "always the same as `as_type`, which is printed",
}
# parts a rebuilding walk needs on some paths only
SOMETIMES = {
    ("evaluate_with_subst", "Infer.constraint"): "replaced as a whole when the parameter is bound",
    ("evaluate_with_subst", "Mapped.0.value"): "evaluated once for each key; a type without keys has no value",
    ("evaluate_with_subst", "Mapped.0.name_type"): "evaluated once for each key",
    ("evaluate_with_subst", "Mapped.0.as_type"): "evaluated once for each key",
    ("substitute_type", "type_params.constraint"): "a type parameter that is bound is no longer declared",
    ("substitute_type", "type_params.default"): "a type parameter that is bound is no longer declared",
}


def leaf(t):
    return t.kind == "adt" and t.path in IDS


def show(path):
    return ".".join(x for v, n in path for x in ([v] if v else []) + [n] if not (x == "0" and v and len(path) == 1))


def model_paths(F, ty, path=(), seen=()):
    """every access path below `ty` through the type model, and whether it ends in an enum variant's or struct's field"""
    out = []
    if ty.kind == "adt" and ty.path in F.adts and ty.path.startswith(P) and ty.path not in IDS:
        if ty.path in seen:
            return []
        a = F.adts[ty.path]
        for v in a.variants:
            for n, t, _ in v.fields:
                q = path + ((v.name if a.kind == "enum" else None, n),)
                out.append((q, ty.path, v.name, n))
                out += model_paths(F, t, q, seen + (ty.path,))
        return out
    for x in ty.args:
        out += model_paths(F, x, path, seen)
    return out


def carried(ck, F, f, root, t, own, near):
    """what a rebuilding walk puts into a field of a new part comes from that field of the old part"""
    mp = model_paths(F, t)
    field = {}
    for q, adt, v, n in mp:
        field.setdefault((adt, v, n), set()).add(q)
    cv = Cover(F, lambda c, f, j: False, leaf, max_depth=1, descend=lambda c, fn: False)
    cv.prefixes = {q[a:k] for q, _, _, _ in mp for k in range(len(q) + 1) for a in range(k + 1)}
    n = 0
    todo, seen = [(f, root, None)], set()
    while todo:
        g, rr, uv = todo.pop()
        if g.path in seen:
            continue
        seen.add(g.path)
        der, events, _ = cv.analyze(g, rr, uv)
        for _, _, _, k in events:
            if k != "sink" and k[1].kind == "closure":
                todo.append((k[1], k[2], k[3]))

        def paths(o):
            if o[0] not in ("c", "m"):
                return None
            base, proj = o[1]
            if uv and base == 1 and g.kind == "closure":
                for j, e in enumerate(proj):
                    if isinstance(e, tuple) and e[0] == "f" and e[2] and e[2] not in F.adts and ":" in e[1]:
                        c = cv.comps(proj[j + 1:])
                        return {p + c for p in uv.get(int(e[1].split(":")[0]), ())}
            c = cv.comps(proj)
            return {p + c for p in der.get(base, ())}
        for _, c in g.body.calls():
            whole = {j + 1: {()} for j, o in enumerate(c.args) if () in (paths(o) or ())}
            if whole and near(c, g):
                todo += [(F.fns[x], whole, None) for x in F.targets(c)]
        for i in g.body.reachable():
            for s in g.body.bbs[i].stmts:
                if s[0] != "=" or s[2][0] != "agg":
                    continue
                _, adt, var, names, ops = s[2][:5]
                for nm, o in zip(names, ops):
                    want = field.get((adt, var or adt.rsplit("::", 1)[-1], nm)) or field.get((adt, var, nm))
                    if not want:
                        continue
                    ps = paths(o)
                    n += 1
                    ok = ps is not None and any(p[:len(w)] == w for p in ps for w in want)
                    ck.ob("field:%s:%s.%s.%s" % (own, adt.rsplit("::", 1)[-1], var, nm), ok, g.where(g.line),
                          "%s builds a %s whose `%s` does not come from `%s` of the one it takes apart" % (
                              own, var or adt.rsplit("::", 1)[-1], nm, nm))
    return n


def f01(ck, F):
    ck.rule("a function that takes a type apart and recurses into most of its kinds (or a signature's or a shape's parts) "
            "recurses into every part that holds a type: on some path for a search, comparison or printer, on every path "
            "on which the part exists for a walk that rebuilds the type")
    ck.assume("a walk that covers less than 80% of the parts is a question about particular kinds, not a walk")
    fns = {p: f for p, f in F.fns.items() if f.crate.name in CRATES}

    def owner(f):
        while f.kind == "closure" and f.parent in F.fns:
            f = F.fns[f.parent]
        return f.path
    own = {p: owner(f) for p, f in fns.items()}
    cg = {}
    for p, f in fns.items():
        for _, c in f.body.calls():
            for t in F.targets(c):
                if t in fns and fns[t].file == f.file:
                    cg.setdefault(own[p], set()).add(own[t])
    units = fields = 0
    families = set()
    for comp in sccs(sorted(set(own.values())), lambda p: sorted(cg.get(p, ()))):
        fam = set(comp)
        if len(fam) == 1 and not any(x in cg.get(x, ()) for x in fam):
            continue
        members = sorted(p for p in own if own[p] in fam)
        if not any(len(vs) >= 9 for p in members for vs in enum_switches(F, fns[p]).get(KIND, [])):
            continue

        def sink(c, f, j):
            return any(t in fns and own[t] in fam for t in F.targets(c)) or c.last in GET
        names = {x.rsplit("::", 1)[-1] for x in fam}
        for p in members:
            f, b = fns[p], fns[p].body
            for i, c in b.calls():
                if c.last not in GET or c.dest[1] or c.target is None or c.target < 0:
                    continue
                t = b.locals[c.dest[0]][0].peel()
                if t.kind != "adt" or t.path not in PARTS:
                    continue
                file = f.file

                def near(c, fn):
                    return all(x in own and fns[x].file == file for x in F.targets(c))
                cv = Cover(F, sink, leaf, max_depth=1, descend=near)
                cv.ends = lambda c, fn: sink(c, fn, 0)
                lv = cv.leaves(t)
                cv.prefixes = {pa[a:z] for pa, _ in lv for z in range(len(pa) + 1) for a in range(z + 1)}
                root = {c.dest[0]: {()}}
                res = {pa: cv.may(f, root, pa) for pa, _ in lv}
                if sum(res.values()) < 0.5 * len(res) or t.path == KIND and sum(res.values()) < 0.8 * len(res):
                    continue
                units += 1
                families.add(min(fam))
                rebuild = fns[own[p]].body.locals[0][0].peel() if own[p] in fns else b.locals[0][0].peel()
                rebuild = leaf(rebuild)
                if rebuild:
                    fields += carried(ck, F, f, root, t, own[p], near)
                for pa, ok in sorted(res.items(), key=repr):
                    part = show(pa)
                    why = next((LEFT_OUT[(nm, part)] for nm in names if (nm, part) in LEFT_OUT), None)
                    ck.ob("part:%s:%s:%s" % (own[p], t.path.rsplit("::", 1)[-1], part), ok or why is not None,
                          f.where(f.line), "%s does not recurse into `%s` of a %s" % (own[p], part, t.path.rsplit("::", 1)[-1]))
                    if rebuild and ok and not any((nm, part) in SOMETIMES for nm in names):
                        m = cv.must(f, root, pa, None, c.target)
                        ck.ob("always:%s:%s:%s" % (own[p], t.path.rsplit("::", 1)[-1], part), m is None, f.where(f.line),
                              "%s does not carry `%s` of a %s over on some path: %s" % (own[p], part, t.path.rsplit("::", 1)[-1], m))
    ck.count("fields rebuilt", fields)
    ck.floor("places where a type is taken apart", units, 16)
    ck.floor("families of walks", len(families), 5)


PROPS = {"F01": f01}
