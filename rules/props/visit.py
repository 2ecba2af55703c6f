"""D02: the generic tree walk reaches every node, and calls every handler of a visitor.
D03: what the parser has read ends up in the tree."""
from cover import Cover, NODE, is_err_block
from linear import Drops

TRAITS = {"drive": "derive_visitor::Drive", "drive_mut": "derive_visitor::DriveMut"}
ITEM = ("alloc::", "core::", "std::", "derive_visitor")


def up(idom, b):
    out = {b}
    while idom[b] != b:
        b = idom[b]
        out.add(b)
    return out


def self_adt(f):
    t = f.body.locals[1][0].peel()
    return t if t.kind == "adt" else None


def bearing(F):
    """tree types that contain nodes"""
    bear = {NODE}
    ch = True
    while ch:
        ch = False
        for p in F.adts:
            if p in bear or not p.startswith("parse_js::"):
                continue
            if any(x.kind == "adt" and x.path in bear for v in F.adts[p].variants for _, t, _ in v.fields for x in t.walk()):
                bear.add(p)
                ch = True
    return bear


def d02(ck, F):
    ck.rule("for each tree type and both generic walks (shared and mutable): the walk tells the visitor on entering and on "
            "leaving, and between the two, on every path on which the variant exists, hands each field that contains nodes "
            "to the walk of that field; each enter_/exit_ handler of a visitor is called from its dispatch")
    ck.assume("the vendored derive-visitor crate's walks over Option, Vec, Box and tuples visit every element")
    drives = {}
    for p, f in F.fns.items():
        if f.kind == "closure" or f.name not in TRAITS or TRAITS[f.name] + ">" not in p:
            continue
        t = self_adt(f)
        if t is not None and t.path.startswith("parse_js::"):
            drives.setdefault(t.path, {})[f.name] = f
    ck.floor("tree types walked", len(drives), 150)
    bear = bearing(F)

    def leaf(t):
        return any(x.kind == "adt" and x.path in bear or x.kind == "param" for x in t.walk())

    def sink(c, f, j):
        return j == 0 and c.last in TRAITS
    n = 0
    for p in sorted(drives):
        for w in TRAITS:
            f = drives[p].get(w)
            ck.ob("walk:%s:%s" % (p, w), f is not None, F.adts[p].where() if hasattr(F.adts[p], "where") else p,
                  "%s has no %s" % (p, w))
            if f is None:
                continue
            cv = Cover(F, sink, leaf, max_depth=1)
            body = f.body
            vis = [i for i, c in body.calls() if c.last == "visit"]
            idom = body.dominators()
            dom = {b: up(idom, b) for b in body.reachable() if b in idom}
            kids = [i for i, c in body.calls() if c.last in TRAITS]
            ok = bool(vis) and all(any(v in dom[k] and v != k for v in vis) for k in kids)
            for r in body.reachable():
                if body.bbs[r].term[0] == "return":
                    ok = ok and len([v for v in vis if v in dom[r]]) >= 2
                    last = [v for v in vis if v in dom[r]]
                    ok = ok and any(not (set(kids) & body.reach_from(v)) for v in last)
            ck.ob("told:%s:%s" % (p, w), ok, f.where(f.line), "%s of %s does not tell the visitor on entering and on leaving" % (w, p))
            a = F.adts[p]
            for v in a.variants:
                for nm, t, _ in v.fields:
                    if not leaf(t):
                        continue
                    n += 1
                    comp = (v.name if a.kind == "enum" else None, nm)
                    m = cv.must(f, {1: {()}}, (comp,))
                    ck.ob("child:%s:%s%s:%s" % (p, v.name + "." if a.kind == "enum" else "", nm, w), m is None, f.where(f.line),
                          "the %s walk of %s does not reach `%s%s` on some path: %s" % (
                              w, p, v.name + "." if a.kind == "enum" else "", nm, m))
    ck.floor("fields with nodes", n, 500)
    # handlers
    h = 0
    for p, f in sorted(F.fns.items()):
        if f.kind == "closure" or f.name != "visit" or "derive_visitor::Visitor" not in p:
            continue
        t = self_adt(f)
        if t is None:
            continue
        called = {x for _, c in f.body.calls() for x in F.targets(c)}
        for q in F.methods_of(t.path):
            g = F.fns[q] if isinstance(q, str) else q
            if g.name.startswith(("enter_", "exit_")) and len(g.body.locals) > 1 and g.body.argc == 2:
                h += 1
                ck.ob("handler:%s" % g.path, g.path in called, g.where(g.line), "%s is never called by the visitor's dispatch" % g.path)
    ck.floor("handlers", h, 60)


RESTORE = {"restore_checkpoint", "reset_to"}
# what the parser reads on purpose only to skip it: (function, what is dropped) -> why
SKIPPED = {
    ("for_in_of_lhs", "TypeExpr"): "a type annotation in a for-in/of header is an error (TS2483) the parser recovers from",
    ("function_type_parameter", "Expr"): "a default value in a type is an error (TS2371) the parser recovers from",
    ("function_type_parameter", "PatDecl"): "the binding pattern of a parameter in a function type binds nothing",
    ("jsx_elem", "JsxElemName"): "the closing name, equal to the opening one",
    ("import_equals_decl", "PatDecl"): "its only part, the name, is kept",
}


def ok_none(F, body):
    """blocks in which the function returns Ok(None)"""
    out = set()
    none = set()
    for i in body.reachable():
        for s in body.bbs[i].stmts:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "core::option::Option" and s[2][2] == "None":
                none.add((i, s[1][0]))
            if s[0] == "=" and s[1] == (0, ()) and s[2][0] == "agg" and s[2][2] == "Ok" and s[2][4]:
                o = s[2][4][0]
                if o[0] in ("c", "m") and (i, o[1][0]) in none or o[0] == "k":
                    out.add(i)
    return out


def what(ty, bear):
    """the innermost name of what is dropped"""
    t = ty.peel()
    while t.kind == "adt" and t.args and t.path not in bear or t.kind == "adt" and t.path == NODE or t.kind == "tuple":
        n = [x for x in t.args if any(y.kind == "adt" and y.path in bear for y in x.walk())]
        if not n:
            if t.path == NODE:
                t = t.args[0]
            break
        t = n[0].peel()
    return (t.path or str(t)).rsplit("::", 1)[-1]


def avoids(body, a, goals, via):
    """can a goal be reached from the successors of `a` without passing `via`"""
    st, seen = [x for x in body.bbs[a].succ()], set()
    while st:
        b = st.pop()
        if b in seen or b in via:
            continue
        seen.add(b)
        if b in goals:
            return True
        st += body.bbs[b].succ()
    return False


def d03(ck, F):
    ck.rule("in every function of the parser, on every path that ends without an error, a value that contains nodes is moved "
            "on and not dropped, unless the parser goes back to where it started to read it, is recovering from an error in "
            "the source, or the value is known to be empty there (path-sensitive over drop flags and matched variants)")
    ck.assume("a value moved into a call or a structure is part of what is returned, unless that is dropped in turn")
    bear = bearing(F)

    def holds(t):
        return any(x.kind == "adt" and x.path in bear for x in t.walk())
    D = Drops(F, holds)
    rewound = {}
    fns = [f for p, f in sorted(F.fns.items()) if f.crate.name == "parse_js" and p.startswith("parse_js::parse")]
    ck.floor("parser functions", len(fns), 300)

    def errs(f):
        b = f.body
        e = {i for i in b.reachable() if is_err_block(F, b, i)}
        return e

    def rets(f):
        b = f.body
        return {i for i in b.reachable() if b.bbs[i].term[0] == "ret"}

    def restores(f):
        return {i for i, c in f.body.calls() if c.last in RESTORE}

    def all_callers_restore(f):
        if f.path not in rewound:
            n, ok = 0, True
            for g in fns:
                for i, c in g.body.calls():
                    if f.path in F.targets(c):
                        n += 1
                        ok = ok and not avoids(g.body, i, rets(g), restores(g) | errs(g))
            rewound[f.path] = ok and n > 0
        return rewound[f.path]

    def recovering(f, d):
        b = f.body
        flag = {c.dest[0]: i for i, c in b.calls() if c.last == "should_recover" and not c.dest[1]}
        idom = b.dominators()
        dom = up(idom, d) if d in idom else ()
        for i in dom:
            t = b.bbs[i].term
            if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][0] in flag and t[3] in dom and t[3] != i and \
                    [w for w, _ in t[2]] == [0]:
                return True
        return False
    n = 0
    for f in fns:
        b = f.body
        again = set()
        if f.kind == "closure":
            par = F.fns[f.parent]
            if any(c.last == "rewindable" for _, c in par.body.calls()):
                again = ok_none(F, b)
        tracked = [i for i, (t, _) in enumerate(b.locals) if i > 0 and holds(t) and t.kind != "ref"]
        n += len(tracked)
        r = D.lost(f, again)
        if r is None:
            ck.ob("paths:" + f.path, False, f.where(f.line), "%s has too many paths to decide" % f.path)
            continue
        R, E = restores(f), errs(f) | again
        seen = {}
        for d, pl, ty in r:
            defs = [i for i in b.reachable() for s in b.bbs[i].stmts if s[0] == "=" and s[1] == (pl[0], ())]
            defs += [i for i, c in b.calls() if c.dest == (pl[0], ())]
            line = f.line
            for i in defs:
                c = b.bbs[i].call
                if c is not None and c.dest == (pl[0], ()):
                    line = c.line
            w = what(ty, bear)
            name = f
            while name.kind == "closure":
                name = F.fns[name.parent]
            ok, why = False, ""
            if "*" in pl[1]:
                ok, why = True, "what is left of a box whose content was moved out"
            elif not avoids(b, d, rets(f), R | E) or defs and not any(i == d or avoids(b, i, {d}, R) for i in defs):
                ok, why = True, "goes back"
            elif all(recovering(f, i) for i in defs) and defs:
                ok, why = True, "recovers from an error"
            elif ty.path == NODE and not holds(ty.args[0]) and any(
                    s[0] == "=" and (s[2][0] == "ref" and s[2][2][0] == pl[0] or s[2][0] in ("use", "cast") and
                                     s[2][-1 if s[2][0] == "use" else 2][0] in ("c", "m") and
                                     s[2][-1 if s[2][0] == "use" else 2][1][0] == pl[0] and
                                     s[2][-1 if s[2][0] == "use" else 2][1][1])
                    for i in b.reachable() for s in b.bbs[i].stmts):
                ok, why = True, "a leaf that was read"
            elif "IntoIter" in str(ty)[:60] and one_left(F, f, pl[0]):
                ok, why = True, "the iterator of a sequence of one"
            elif all_callers_restore(f):
                ok, why = True, "all callers go back"
            elif (name.name, w) in SKIPPED:
                ok, why = True, SKIPPED[(name.name, w)]
            k = "%s:%s" % (f.path, w)
            seen[k] = seen.get(k, 0) + 1
            if ok and __import__("os").environ.get("DBG"):
                print(f.where(line), why)
            ck.count("dropped because: " + why[:60]) if ok else None
            ck.ob("kept:%s:%d" % (k, seen[k]), ok, f.where(line),
                  "%s reads %s and drops it on a path that succeeds" % (f.path, w))
        ck.ob("function:" + f.path, True, f.where(f.line))
    ck.floor("values with nodes", n, 1500)


def one_left(F, f, l):
    """the sequence the iterator runs over was tested to have length one"""
    b = f.body
    for i in b.reachable():
        t = b.bbs[i].term
        if t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1]:
            for s in b.bbs[i].stmts:
                if s[0] == "=" and s[1] == (t[1][1][0], ()) and s[2][0] == "bin" and s[2][1] == "Eq" and \
                        any(o[0] == "k" and o[3] == 1 or o[0] == "k" and str(o[3]) == "1" for o in s[2][2:]):
                    d = [j for j, c in b.calls() if c.dest == (l, ())]
                    idom = b.dominators()
                    if d and all(t[3] in up(idom, j) for j in d):
                        return True
    return False


PROPS = {"D02": d02, "D03": d03}
