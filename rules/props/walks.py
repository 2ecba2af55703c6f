"""E02: a hand-written walk over the program reaches every statement, expression and pattern nested in what it looks at."""
import re
from cover import TreeCover, enum_switches, tree_enums, NODE
from props.vm_budget import sccs

CRATES = ("minify_js", "hir_js", "typecheck_ts", "semantic_js", "optimize_js", "vm_js")


def prefixes(lv):
    return {pa[a:z] for pa, _ in lv for z in range(len(pa) + 1) for a in range(z + 1)}


def show(pa):
    return ".".join(x for v, m in pa for x in ([v] if v else []) + [m] if x not in ("stx", "0"))


def walks(F, crate):
    """the hand-written walks of a crate: (family, function, parameter, its type, leaves, {leaf: reached})"""
    EN = tree_enums(F)
    fns = {p: f for p, f in F.fns.items() if f.crate.name == crate}

    def owner(f):
        while f.kind == "closure" and f.parent in F.fns:
            f = F.fns[f.parent]
        return f.path
    own = {p: owner(f) for p, f in fns.items()}
    cg = {}
    for p, f in fns.items():
        for _, c in f.body.calls():
            for t in F.targets(c):
                if t in fns:
                    cg.setdefault(own[p], set()).add(own[t])
    for comp in sccs(sorted(set(own.values())), lambda p: sorted(cg.get(p, ()))):
        fam = set(comp)
        if len(fam) == 1 and not any(x in cg.get(x, ()) for x in fam):
            continue
        w = {}
        for p in sorted(p for p in own if own[p] in fam):
            for e, l in enum_switches(F, fns[p]).items():
                if e in EN and max(map(len, l)) >= 3:
                    w.setdefault(p, set()).add(e)
        roots = []
        for p in sorted(w):
            b = fns[p].body
            for l in range(1, b.argc + 1):
                t = b.locals[l][0].peel()
                t2 = t.args[0].peel() if t.kind == "adt" and t.path == NODE else t
                if t2.kind == "adt" and t2.path in w[p]:
                    roots.append((p, l, t, t2.path))
        if not roots:
            continue
        kinds = {e for _, _, _, e in roots}
        disp = {x for x in fns if own[x] in fam}
        for p, l, t, e in roots:
            cv = TreeCover(F, EN, disp, max_depth=3, descend=lambda c, fn: all(x in own for x in F.targets(c)))
            lv = cv.leaves(t.args[0].peel() if t.path == NODE else t, ((None, "stx"),) if t.path == NODE else (), (), True)
            lv = [x for x in lv if x[1].args[0].path in kinds]
            if not lv:
                continue
            cv.prefixes = prefixes(lv)
            cv.ends = lambda c, fn: False
            res = {pa: bool(cv.may(fns[p], {l: {()}}, pa)) for pa, _ in lv}
            yield sorted(fam), fns[p], e, res, kinds


# what no walk has to reach
NOTHING = [
    (r"(Import|ExportList)\.attributes", "import attributes are string literals"),
    (r"Import\.(default|names\.\w+(\.alias)?)\.pat", "the name an import binds: nothing is nested in it"),
    (r"(ClassDecl|Class)\.implements", "implements clauses hold types"),
    (r"LitObj\.members\.typ\.Valued\.val\.StaticBlock\.body", "the parser never makes one in an object literal"),
    (r"Jsx(ExprContainer|SpreadAttr)\.value", "as an expression of its own the parser never makes one: they live inside JsxElem"),
]
OWN = (r"(FunctionDecl|ClassDecl)\..*", "a walk over the statements of one function: nested functions are other walks")
ERASED = [(r"(NamespaceDecl|ModuleDecl|GlobalDecl|EnumDecl|ExportAssignmentDecl|Instantiation|TypeAssertion|"
           r"NonNullAssertion|SatisfiesExpr)\..*", "runs after TypeScript-only syntax is erased")]
OWN_BODY = (r"(FunctionDecl|ClassDecl|EnumDecl|ExportDefaultExpr|ExportAssignmentDecl|ModuleDecl|GlobalDecl)\..*",
            "has a body of its own, which is lowered and checked as such")
# (module or type the walk belongs to, what it may leave out, why)
LEFT = [
    ("minify_js::opt::", ERASED),
    ("minify_js::opt::const_fold::", [(r"UnaryPostfix\.argument", "the operand must stay a reference")]),
    ("minify_js::ts_erase::rewrite_enum_member_refs", ERASED + [
        (r"ExportDefaultExpr\..*", "rewrites bodies of enums and namespaces, which cannot hold a default export")]),
    ("minify_js::ts_erase::", [(r"(GlobalDecl)\.body", "an augmentation of the global scope declares types only")]),
    ("Inliner::collect_", ERASED), ("Rewriter", ERASED),
    ("hir_js::lower::", [OWN_BODY]),
    ("hir_js::lower::walk_stmt_children", [(r"(VarDecl|NamespaceDecl)\..*", "its caller walks these itself")]),
    ("hir_js::fingerprint::", [(r".*", "passes functions as values, which the dataflow does not follow")]),
    ("check::hir_body::Checker", [OWN_BODY]),
]
SHARE = 0.6


def e02(ck, F):
    ck.rule("a recursive function that switches over a kind of tree node and hands on more than %d%% of the statements, "
            "expressions, patterns or types nested in it hands on each of them" % (SHARE * 100))
    ck.assume("which parts of a node count follows from the kinds of node the walk and its siblings dispatch on")
    total = leaves = 0
    for crate in CRATES:
        for _, f, e, res, kinds in walks(F, crate):
            stmts_only = {x.rsplit("::", 1)[-1] for x in kinds} == {"Stmt"}
            drop = list(NOTHING)
            if stmts_only:
                drop.append(OWN)
                drop += [x for x in ERASED if "minify" in f.path]
            for pre, l in LEFT:
                if pre in f.path:
                    drop += l
            used = {pa: v for pa, v in res.items() if v or not any(re.fullmatch(r, show(pa)) for r, _ in drop)}
            n = sum(used.values())
            if not used or n < SHARE * len(used) or len(used) < 4:
                continue
            total += 1
            leaves += len(used)
            groups = {}
            for pa, v in used.items():
                g = next((v_ for v_, _ in pa if v_), "")
                groups.setdefault(g, {})[pa] = v
            for g, l in sorted(groups.items()):
                miss = [show(pa) for pa, v in sorted(l.items(), key=lambda x: show(x[0])) if not v]
                what = "*" if len(miss) == len(l) else ",".join(x[len(g) + 1:] for x in miss)
                ck.ob("walk:%s:%s:%s%s" % (f.path, e.rsplit("::", 1)[-1], g, ":" + what if miss else ""), not miss, f.where(f.line),
                      "%s does not reach %s" % (f.path, ", ".join(miss[:6]) + (" and %d more" % (len(miss) - 6) if len(miss) > 6 else "")))
    ck.floor("walks", total, 30)
    ck.floor("nested parts", leaves, 900)


PROPS = {"E02": e02}
