"""State that is changed for the duration of something is put back on every way out (execution state of the engine,
context flags of the parser, scope stacks of the analysers)."""
import re
from brackets import Analysis, Body, fields_written, last_field, swaps
from props.visit import avoids, ok_none
from rewind import attempts

# the types whose fields say where we are: inventory of the fields that are bracketed.  Further fields of these types are
# inferred; these are listed so that they stay under the rule when the only bracket is broken
CONTEXT = {
    "A07": {
        "crates": ("vm_js", "runtime_js", "webidl_vm_js"),
        "over": {("vm_js::vm::Vm", "budget"), ("vm_js::vm::Vm", "microtasks"), ("vm_js::vm::Vm", "host_hooks_override"),
                 ("vm_js::exec::RuntimeEnv", "lexical_env"), ("vm_js::exec::RuntimeEnv", "source"),
                 ("vm_js::exec::RuntimeEnv", "base_offset"), ("vm_js::exec::RuntimeEnv", "prefix_len"),
                 ("vm_js::exec::Evaluator", "strict")},
        "stack": {("vm_js::vm::Vm", "stack"), ("vm_js::vm::Vm", "execution_context_stack")},
        # released by the scope that recorded their length: see `marks`
        "not": {("vm_js::heap::Heap", "root_stack"), ("vm_js::heap::Heap", "env_root_stack")},
        "marks": 2,
        # functions that begin something new with the state they set: the host's own settings, the source of a new script
        # and of the callee's own environment
        "begins": {("vm_js::vm::Vm::set_budget", "budget"),
                   ("exec_script_source_with_hooks", "source"), ("exec_script_source_with_hooks", "base_offset"),
                   ("exec_script_source_with_hooks", "prefix_len"),
                   ("exec_script_source_with_host", "source"), ("exec_script_source_with_host", "base_offset"),
                   ("exec_script_source_with_host", "prefix_len"),
                   ("run_ecma_function", "source"), ("run_ecma_function", "base_offset"), ("run_ecma_function", "prefix_len")},
        "floors": (25, 8),
    },
    "D01": {
        "crates": ("parse_js",),
        "over": {("parse_js::parse::Parser", x) for x in (
            "labels", "in_iteration", "in_switch", "new_target_allowed", "super_prop_allowed", "super_call_allowed",
            "strict_mode", "allow_bare_ts_type_args", "in_function", "disallow_arguments_in_class_init")},
        "stack": {("parse_js::parse::Parser", "labels"), ("parse_js::parse::Parser", "class_is_derived")},
        # the whole program's mode, set before anything is parsed
        "begins": {("parse_top_level", "strict_mode")},
        # the position in the token stream moves forward by design
        "not": {("parse_js::parse::Parser", "next_tok_i")},
        "floors": (30, 4),
    },
    "E01": {
        "crates": ("semantic_js", "typecheck_ts", "minify_js", "optimize_js", "hir_js"),
        "over": {("typecheck_ts::program::state::check::hir_body::Checker", x) for x in (
            "expected_return", "in_async_function", "class_field_initializer", "current_class_field_param_props",
            "return_types")} | {
            ("typecheck_ts::program::state::check::hir_body::FlowBodyChecker", "widen_object_literals"),
            ("typecheck_ts::program::state::ProgramState", "current_file")},
        "stack": {("semantic_js::ts::locals::DeclarePass", "scope_stack"), ("semantic_js::ts::locals::DeclarePass", "decl_target"),
                  ("semantic_js::ts::locals::DeclareTablesPass", "scope_stack"),
                  ("semantic_js::ts::locals::DeclareTablesPass", "decl_target"),
                  ("typecheck_ts::program::state::check::hir_body::Checker", "scopes"),
                  ("typecheck_ts::program::state::check::hir_body::Checker", "type_param_scopes"),
                  ("typecheck_ts::program::state::check::hir_body::BindingCollector", "scopes"),
                  ("typecheck_ts::program::state::check::type_expr::TypeLowerer", "type_param_scopes"),
                  ("typecheck_ts::program::state::check::cfg::CfgBuilder", "breakables"),
                  ("minify_js::ts_erase::StripContext", "value_bindings_stack"),
                  ("minify_js::ts_erase::inline_const_enums::Inliner", "shadowed"),
                  ("minify_js::ts_erase::inline_const_enums::Inliner", "namespace_path"),
                  ("minify_js::ts_erase::inline_const_enums::Inliner", "const_enums"),
                  ("minify_js::ts_erase::rewrite_enum_member_refs::Rewriter", "shadowed"),
                  ("optimize_js::il::s2i::HirSourceToInst", "continue_stack"),
                  ("optimize_js::il::s2i::HirSourceToInst", "break_stack"),
                  ("optimize_js::il::s2i::HirSourceToInst", "label_stack"),
                  ("hir_js::lower::LoweringContext", "parent_stack")},
        # starting over
        "begins": {("reset_analysis_state", "current_file")},
        # an error ends the compilation of the program, and the compiler with it
        "errors_end": {"optimize_js"},
        # lazily entered scope: opened by the first branch, closed with the statement
        "merge": {"switch_branch_node": "switch_stmt_node"},
        # the end of the program
        "last": {"top_level_node"},
        "visitors": True,
        "floors": (12, 60),
    },
}


def marks(ck, F, A, least):
    """a type that records the length of a stack when it is built cuts the stack back to it when it is dropped"""
    n = 0
    want = {}
    for f in A.fns:
        B = None
        for i in f.body.reachable():
            for s in f.body.bbs[i].stmts:
                if s[0] != "=" or s[2][0] != "agg" or s[2][1].split("::")[0] not in A.crates or not s[2][3]:
                    continue
                B = B or Body(F, f, f.body)
                for name, o in zip(s[2][3], s[2][4]):
                    if o[0] not in ("c", "m") or o[1][1]:
                        continue
                    l = o[1][0]
                    for _ in range(4):
                        ds = B.defs.get(l, ())
                        if len(ds) == 1 and isinstance(ds[0][2], tuple) and ds[0][2][0] == "use" and ds[0][2][1][0] in ("c", "m") \
                                and not ds[0][2][1][1][1]:
                            l = ds[0][2][1][1][0]
                    ds = B.defs.get(l, ())
                    if len(ds) == 1 and not isinstance(ds[0][2], tuple) and ds[0][2].last == "len" and ds[0][2].args and \
                            ds[0][2].args[0][0] in ("c", "m"):
                        a = ds[0][2].args[0][1]
                        fld = last_field(B.canon((a[0], tuple(a[1]) + ("*",))))
                        if fld and fld[0] and fld[0] != s[2][1]:
                            want.setdefault((s[2][1], name), set()).add((fld, f.where(s[3])))
    for (t, name), flds in sorted(want.items()):
        d = [f for f in A.fns if f.path.endswith("as core::ops::drop::Drop>::drop") and f.body.locals[1][0].peel().path == t]
        if not d:
            continue
        f = d[0]
        B = Body(F, f, f.body)
        cut = set()
        for _, c in f.body.calls():
            if c.last == "truncate" and len(c.args) == 2 and c.args[0][0] in ("c", "m"):
                a = c.args[0][1]
                src = B.canon(c.args[1][1]) if c.args[1][0] in ("c", "m") else None
                if src:
                    cut.add((last_field(B.canon((a[0], tuple(a[1]) + ("*",)))), last_field(src)))
        for fld, w in sorted(flds):
            if any(e[0] in ("pop", "call") for e in A.events[f.path].ev.get(("field", fld), {}).values()) if f.path in A.events else False:
                continue        # takes its own element off
            n += 1
            ck.ob("mark:%s:%s.%s" % (t, fld[0], fld[1]), (fld, (t, name)) in cut, f.where(),
                  "%s: dropping it does not cut `%s` back to the length recorded in `%s` (%s)" % (t, fld[1], name, w))
    ck.floor("recorded_lengths", n, least)


class Effects(dict):
    def __init__(self, A):
        self.A = A

    def __missing__(self, k):
        self[k] = v = self.A.effects(*k)
        return v


def owner(F, path):
    return path.split("::")[0]


def context_type(F, t, crates):
    return t is not None and t.split("::")[0] in crates and "::ast::" not in t


def gives_guard(A, f):
    if any(t.path in A.guards for t in f.body.locals[0][0].walk() if t.kind == "adt"):
        return True
    return any(s[0] == "=" and s[2][0] == "agg" and s[2][1] in A.guards for i in f.body.reachable() for s in f.body.bbs[i].stmts)


def restored(pid):
    cfg = CONTEXT[pid]

    def check(ck, F):
        ck.rule("path-sensitive analysis of each function over MIR: per field of the state, the number of elements pushed and "
                "popped, and whether an overwritten value was put back, on every way out (result, error, early return); "
                "conditions tested twice are taken to agree; destructors of guards and small helpers are summarised")
        ck.assume("two tests of the same unmodified variable or field agree")
        A = Analysis(F, cfg["crates"])
        eff = Effects(A)
        popped, pushed = {}, {}
        for p, E in A.events.items():
            for key, ev in E.ev.items():
                for e in ev.values():
                    if e[0] in ("pop", "trunc") or e[0] == "call" and min(x[1] for x in e[2]) < 0:
                        popped.setdefault(key[1], set()).add(p)
                    elif e[0] in ("push", "call"):
                        pushed.setdefault(key[1], set()).add(p)
        over, stack = set(cfg["over"]), set(cfg["stack"])
        for p, E in A.events.items():
            for key, ev in E.ev.items():
                if not context_type(F, key[1][0], cfg["crates"]):
                    continue
                kinds = {e[0] for e in ev.values()}
                if "mod" in kinds and "restore" in kinds and self_type(F, p) == key[1][0] and \
                        not any(x[1] for x in eff[p, key]):
                    over.add(key[1])
                if kinds & {"push", "pop", "call", "trunc"} and key[1] in popped and key[1] not in stack:
                    sg = {e[0] == "pop" or e[0] == "call" and min(x[1] for x in e[2]) < 0 for e in ev.values()}
                    if "trunc" in kinds or len(sg) == 2 and {x[2] for x in eff[p, key] if x[0] != "err"} == {0}:
                        stack.add(key[1])
                    if any(q.split("::")[-1].startswith("exit_") for q in popped[key[1]]) and \
                            any(q.split("::")[-1].startswith("enter_") for q in pushed.get(key[1], ())):
                        stack.add(key[1])
        for t, d in A.guards.items():
            for key, ev in A.events[d].ev.items():
                if key[1][0] != t and context_type(F, key[1][0], cfg["crates"]):
                    (stack if any(e[0] in ("pop", "call", "trunc") for e in ev.values()) else over).add(key[1])
        over -= cfg.get("not", set())
        stack -= cfg.get("not", set())
        if "marks" in cfg:
            marks(ck, F, A, cfg["marks"])
        ends = cfg.get("errors_end", set())
        ck.notes.append("fields put back: " + ", ".join(sorted("%s.%s" % x for x in over)))
        ck.notes.append("stacks: " + ", ".join(sorted("%s.%s" % x for x in stack)))
        no = ns = 0
        visits = {}
        for p, E in sorted(A.events.items()):
            f = F.fns[p]
            drop = p.endswith("as core::ops::drop::Drop>::drop")
            last = p.split("::")[-1]
            for key, ev in E.ev.items():
                fld = key[1]
                if fld[0] is None:
                    continue
                kinds = {e[0] for e in ev.values()}
                if fld not in over and fld not in stack:
                    continue
                o = eff[p, key]
                if owner(F, p) in ends:
                    o = {x for x in o if x[0] != "err"}
                name = "%s.%s" % (fld[0].split("::")[-1], fld[1])
                if fld in over and kinds & {"mod", "restore"}:
                    no += 1
                    if drop or any(p.split("::<")[0].endswith(b) or last == b.split("::")[-1] and fld[1] == x
                                   for b, x in cfg["begins"] if x == fld[1]) or gives_guard(A, f):
                        ck.count("begins_or_guards")
                        continue
                    if any(fld in v for v in fields_written(F, p).values()) or fld in swaps(F, p):
                        ck.count("setters")
                        continue
                    bad = sorted((x for x in o if x[1]), key=str)
                    ok = not bad or A.excused(p, key)
                    ck.ob("restored:%s:%s" % (p, name), ok, f.where(bad[0][3] if bad else None),
                          bad and "%s: `%s`, overwritten at line %d, is not put back on %s" % (
                              p, name, bad[0][3], "an error return" if bad[0][0] == "err" else "a way out"))
                if fld in stack and kinds & {"push", "pop", "call", "trunc"}:
                    ns += 1
                    m = re.match(r"(.*)::(enter|exit)_(\w+)$", p)
                    if cfg.get("visitors") and m and m[1] + "::exit_" + m[3] in F.fns or m and m[3] in cfg.get("merge", {}):
                        node = cfg.get("merge", {}).get(m[3], m[3])
                        visits.setdefault((m[1], node, fld), {}).setdefault(m[2], []).append({x[2] for x in o})
                        continue
                    if drop or p in A.helpers or gives_guard(A, f) or m and m[3] in cfg.get("last", ()):
                        ck.count("helpers_and_guards")
                        continue
                    bad = sorted((x for x in o if x[2]), key=str)
                    ck.ob("balanced:%s:%s" % (p, name), not bad, f.where(bad[0][3] if bad else None),
                          bad and "%s: `%s` is left with %d element%s too %s on %s (line %d)" % (
                              p, name, abs(bad[0][2]), "s" * (abs(bad[0][2]) > 1), "many" if bad[0][2] > 0 else "few",
                              "an error return" if bad[0][0] == "err" else "a way out", bad[0][3]))
        nv = 0
        for (v, node, fld), d in sorted(visits.items()):
            if node in cfg.get("last", ()):
                continue
            nv += 1
            tot = {k: sums(d.get(k, [])) for k in ("enter", "exit")}
            a, b = tot["enter"], {-x for x in tot["exit"]}
            # what may be entered may be left, and the other way round
            ok = max(a) == max(b) and min(a) <= min(b) or a == b
            x = F.fns.get(v + "::exit_" + node) or F.fns.get(v + "::enter_" + node)
            ck.ob("visit:%s:%s:%s" % (v, node, fld[1]), ok, x.where() if x else "",
                  "%s: entering a `%s` adds %s to `%s` and leaving it removes %s" % (v, node, sorted(a), fld[1], sorted(b)))
        if cfg.get("visitors"):
            called = set()
            for f in F.fns.values():
                for _, c in f.body.calls():
                    if c.last.startswith(("enter_", "exit_")):
                        called.update(F.targets(c))
            for (v, node, fld) in visits:
                for k in ("enter_", "exit_"):
                    p = "%s::%s%s" % (v, k, node)
                    if p in F.fns:
                        ck.ob("visited:" + p, p in called, F.fns[p].where(), "%s is never called by the traversal" % p)
            ck.floor("visitor_pairs", nv, 40)
        ck.floor("functions_overwriting_state", no, cfg["floors"][0])
        ck.floor("functions_using_stacks", ns, cfg["floors"][1])
    return check


def sums(sets):
    out = {0}
    for s in sets:
        out = {a + b for a in out for b in s}
    return out


def self_type(F, p):
    f = F.fns[p]
    if f.body.argc < 1:
        return None
    t = f.body.locals[1][0].peel()
    while getattr(t, "path", None) == "alloc::boxed::Box":
        break
    if "{closure" in p:
        return self_type(F, p.split("::{closure")[0]) if p.split("::{closure")[0] in F.fns else None
    return getattr(t, "path", None)


PROPS = {k: restored(k) for k in CONTEXT}
_context = PROPS["D01"]


def d01(ck, F):
    _context(ck, F)
    attempts(ck, F, avoids, ok_none)


PROPS["D01"] = d01
