"""B01: the emitters pass on every child of every tree node, and consult every modifier of it."""
from cover import TreeCover, NODE, enum_switches, tree_enums
from modflow import ModCover, tag_arms

S = (None, "stx")
# children whose presence is decided by another field of the same node, so that only "some path passes it
# on" can be asked; keyed by the tree's own fields (struct.field), never by emitter function
MAY = {
    "TypeAssertionExpr.type_annotation": "`as const` has no type",
    "CatchBlock.type_annotation": "annotates the optional catch parameter",
    "ClassMember.key": "a static block / index signature has a placeholder key",
    "ClassMember.type_annotation": "a method's annotation is its return type",
    "Func.return_type": "a member's return type may be written from the member's annotation",
    "JsxElem.attributes": "a fragment has no attributes",
    "JsxExprContainer.value": "the empty placeholder `{}` is written as such",
    "ClassMember.optional": "neither of a static block nor of an index signature",
    "ClassMember.definite_assignment": "only of a field",
    "JsxExprContainer.spread": "not of the empty placeholder",
    "NamespaceDecl.name": "written with the names of the namespaces nested in it",
    "ObjPatProp.target": "a shorthand property is written once",
}
# types are erased when JavaScript is written, by design (crate docs of the js_* emitters)
ERASED = {"InstantiationExpr.type_arguments"}
# scalar fields that are not part of the text, or whose value the node kind fixes
FIXED = {
    "Func.arrow": "the node kind says so", "ClassOrObjMemberDirectKey.tt": "token kind of the key text",
    "ModuleDecl.name_loc": "a position",
    "ClassOrObjGetter.async_": "a getter is never async", "ClassOrObjGetter.generator": "nor a generator",
    "ClassOrObjSetter.async_": "a setter is never async", "ClassOrObjSetter.generator": "nor a generator",
    "ArrowFuncExpr.generator": "an arrow function is never a generator",
    "VarDeclarator.definite_assignment": "type-level, erased in JavaScript output",
}


def ownerships(F, ty, path):
    """(struct.field) of each component of an access path starting at type `ty`"""
    out = []

    def strip(t):
        while True:
            t = t.peel()
            if t.kind == "adt" and t.path == NODE:
                return t
            if t.args and t.kind in ("slice", "array", "tuple") or (t.kind == "adt" and t.path not in F.adts and t.args):
                t = t.args[0]
            else:
                return t
    t = strip(ty)
    for v, f in path:
        t = strip(t)
        if (v, f) == S:
            if t.kind == "adt" and t.path == NODE:
                t = t.args[0]
            continue
        if t.kind == "adt" and t.path == NODE:
            t = strip(t.args[0])
        a = F.adts.get(t.path)
        if a is None:
            break
        nxt = None
        for x in a.variants:
            if v is None or x.name == v:
                for n, ft, _ in x.fields:
                    if n == f:
                        nxt = ft
        if nxt is None:
            break
        out.append(t.path.rsplit("::", 1)[-1] + "." + (v + "::" if v else "") + f)
        t = nxt
    return out


def show(path):
    return ".".join((v + "::" if v else "") + f for v, f in path if f != "stx")


def is_unit_result(t):
    return t.kind == "adt" and t.path == "core::result::Result" and str(t.args[0]) == "()"


def root_fn(F, p):
    f = F.fns[p]
    while f.kind == "closure":
        f = F.fns[f.parent]
    return f.path


def dispatchers(F, crate, E, share=0.2):
    D = {}
    for p, f in F.fns.items():
        if f.crate.name != crate or not is_unit_result(f.body.locals[0][0]):
            continue
        for e, sets in enum_switches(F, f).items():
            if e in E and max(map(len, sets)) >= share * len(F.adts[e].variants):
                D.setdefault(root_fn(F, p), {})[e] = max(map(len, sets))
    return D


def writes(c):
    return c.name.startswith("emit_js::emitter::Emitter") or "::write_" in c.name or "push_str" in c.name or \
        "Arguments" in c.name or "emit_" in c.last


def param_enum(F, ty, want):
    """(prefix, enum type) when the parameter is the dispatched node"""
    ty = ty.peel()
    if ty.kind == "adt" and ty.path == NODE and ty.args[0].kind == "adt" and ty.args[0].path in want:
        return (S,), ty.args[0]
    if ty.kind == "adt" and ty.path in want:
        return (), ty
    return None, None


def b01(ck, F):
    ck.rule("for each emitter entry that dispatches on a node kind, each kind and each child below it: on every "
            "non-error path on which the child exists it is handed to an emitter of its sort (a branch on the child's own "
            "presence is the only way around); on every such path a write or a written value depends on each flag, tag, "
            "operator and name of the node (with the right polarity for flags), and no two values of a tag are written alike")
    ck.assume("library iterators visit every element unless a partial adapter is used; an emitter that returns an error "
              "has reported that it cannot write the node")
    E = tree_enums(F)
    D = dispatchers(F, "emit_js", E)
    ck.floor("emitter dispatchers", len(D), 10)
    ck.floor("dispatched node kinds", len({e for v in D.values() for e in v}), 6)
    tc = TreeCover(F, E, set(D), max_depth=3)
    tc.writer = writes
    mc = ModCover(F, E, set(D), writes, max_depth=3)
    n = m = 0
    for p, es in sorted(D.items()):
        fn = F.fns[p]
        for k in range(1, fn.body.argc + 1):
            pre, ty = param_enum(F, fn.body.locals[k][0], es)
            if ty is None:
                continue
            for l, _ in tc.leaves(ty):
                n += 1
                own = ownerships(F, ty, l)
                if any(o in ERASED for o in own):
                    continue
                w = tc.must(fn, {k: {()}}, pre + l)
                if w and any(o in MAY for o in own) and tc.may(fn, {k: {()}}, pre + l):
                    ck.count("children passed on conditionally")
                    w = None
                ck.ob("child:%s:%s.%s" % (p, ty.path.rsplit("::", 1)[-1], show(l)), w is None, fn.where(fn.line),
                      "%s does not pass on `%s` of the tree on some path: %s" % (p, show(l), w))
            if es[ty.path] < 0.3 * len(F.adts[ty.path].variants):
                continue
            for v in F.adts[ty.path].variants:
                for nm, t2, _ in v.fields:
                    for l, lt in mc.leaves(t2, ((v.name, nm),), (), False):
                        own = ownerships(F, ty, l)
                        if not own or any(o in FIXED for o in own):
                            continue
                        kinds = [o.split(".")[0] for o in own]
                        if any(x + "." + own[-1].split(".")[1] in FIXED for x in kinds):
                            continue
                        m += 1
                        w = mc.must(fn, {k: {()}}, pre + l)
                        if w and any(o in MAY for o in own) and mc.may(fn, {k: {()}}, pre + l):
                            ck.count("modifiers written conditionally")
                            w = None
                        ck.ob("modifier:%s:%s.%s" % (p, ty.path.rsplit("::", 1)[-1], show(l)), w is None, fn.where(fn.line),
                              "%s emits the node, but on some path nothing depends on `%s`: %s" % (p, show(l), w))
    ck.floor("children", n, 600)
    ck.floor("modifiers", m, 600)
    g = 0
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name != "emit_js":
            continue
        pd = {}

        def stop_of(i, fn=fn, pd=pd):
            pd.setdefault(0, mc.ipdom(fn))
            return pd[0].get(i, set()) | mc.err_blocks(fn)
        for e, line, sig in tag_arms(F, fn, lambda x: x.startswith("parse_js::ast"), stop_of):
            by = {}
            for vs, a, text in sig:
                if text and "switch again" not in a:
                    by.setdefault(a, []).append("/".join(vs))
            g += 1
            for a, vs in by.items():
                ck.ob("tag:%s:%s:%s" % (p, e.rsplit("::", 1)[-1], "+".join(sorted(vs))), len(vs) == 1 and "/" not in vs[0],
                      fn.where(line), "%s writes the same text for %s" % (p, " and ".join(vs)))
    ck.floor("tags told apart", g, 6)
    w = 0
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name != "emit_js" or not fn.pub or p in D or fn.kind == "closure":
            continue
        for k in range(1, fn.body.argc + 1):
            t = fn.body.locals[k][0].peel()
            if not any(x.kind == "adt" and x.path.startswith("parse_js::ast") for x in t.walk()):
                continue
            for l, _ in tc.leaves(t, root=False):
                own = ownerships(F, t, l)
                if any(o in ERASED for o in own) or not tc.may(fn, {k: {()}}, l):
                    continue
                w += 1
                r = tc.must(fn, {k: {()}}, l)
                ck.ob("entry:%s:%s" % (p, show(l)), r is None or any(o in MAY for o in own), fn.where(fn.line),
                      "%s does not emit `%s` on some path: %s" % (p, show(l) or "its argument", r))
    ck.count("entry points' children", w)


PROPS = {"B01": b01}
