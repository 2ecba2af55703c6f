"""C01: nothing that keeps an order is fed from a hash container's iteration order.
C02: nothing but the input decides results: no clock, environment, thread identity, random state or address."""
import re
from order import Order

OK = {
    # the matcher prefers the longest match, so pattern order cannot matter; names and patterns stay aligned
    "PatternMatcher.patterns", "consumer:aho_corasick::ahocorasick::AhoCorasickBuilder::build",
    # only lists with exactly one element are looked at
    "optimize_js::analysis::single_use_insts::analyse_single_use_defs:[]",
    # maps written under keys that no two elements share (map[key variable])
    "sharedkey:replacements[tgt]",            # SSA: one definition per variable
    "sharedkey:initial_flow[id]",             # one binding per name
    "sharedkey:body_map[body]",               # a body belongs to one file; definitions are visited in id order
    "sharedkey:new_def_data[old_id]", "sharedkey:new_interned_def_types[old_id]",
    "sharedkey:new_interned_type_params[old_id]", "sharedkey:new_interned_type_param_decls[old_id]",  # queued once
    "sharedkey:def_types[hir_def]", "sharedkey:type_params[hir_def]",     # a definition is in one file's map
    "sharedkey:def_types[def_id]", "sharedkey:type_params[def_id]",       # a definition has one name
}


def c01(ck, F):
    ck.rule("every iterator obtained from a hash map or hash set (also through helpers that return one, and callbacks run "
            "per element) ends in an order-insensitive consumer: another unordered or sorted container, a commutative "
            "fold, a full-key minimum, a sequence that is sorted in the same function, or a loop whose effects commute")
    ck.assume("interning functions return the same id whatever the order they are called in (content-derived ids, C03)")
    o = Order(F, lambda f: "::tests::" not in f.path, OK).run()
    ck.floor("hash iterations", o.sites, 180)
    bad = {}
    for (p, kind), (where, what) in o.reports.items():
        bad[p] = bad.get(p, []) + [(kind, where, what)]
    for p, f in sorted(F.fns.items()):
        n = o.per_fn.get(p, 0)
        if not n and p not in bad:
            continue
        if p not in bad:
            ck.ob("order:%s" % p, True, f.where(), "")
        for kind, where, what in bad.get(p, ()):
            ck.ob("order:%s:%s" % (p, kind), False, where, "%s (in %s)" % (what, p))


LIBS = {"parse_js", "emit_js", "hir_js", "semantic_js", "minify_js", "optimize_js", "typecheck_ts", "types_ts_interned",
        "diagnostics", "vm_js", "webidl_vm_js", "webidl", "webidl_js", "runtime_js", "derive_visitor", "knowledge_base"}
AMBIENT = [
    ("clock", re.compile(r"time::(Instant|SystemTime)::now|Utc::now|Local::now|::elapsed$")),
    ("environment", re.compile(r"^std::env::")),
    ("thread identity", re.compile(r"thread::(current|id::|ThreadId)|current_thread_index|available_parallelism|num_cpus|current_num_threads")),
    ("process identity", re.compile(r"process::id$")),
    ("random state", re.compile(r"RandomState.*::(new|default|generate_with|hash_one)$|RandomState::new|^rand::|getrandom|fastrand")),
    ("address", re.compile(r"fmt::Pointer|ptr::.*::(addr|expose)|new_pointer")),
    ("arrival order", re.compile(r"mpsc::|crossbeam.*channel|find_any|try_for_each_any|position_any")),
]
# debugging switches: they only print (or keep a backtrace for the error report)
SWITCH = re.compile(r"^(DEBUG_|TRACE_|TYPECHECK_TS_CAPTURE_BACKTRACE$)")
# where an ambient value is the point: profiles, the deadline of a budget, resolving a relative path, a guard
# against re-entry by the same thread
MEANT = {
    ("clock", "typecheck-ts/src/profile.rs"), ("clock", "typecheck-ts/src/program/query_span.rs"),
    ("clock", "typecheck-ts/src/db/queries.rs"), ("clock", "vm-js/src/vm.rs"),
    ("thread identity", "typecheck-ts/src/profile.rs"), ("thread identity", "typecheck-ts/src/expand.rs"),
    ("environment", "typecheck-ts/src/resolve/path.rs"),
}


def ambient_kind(c):
    for k, rx in AMBIENT:
        if rx.search(c.path or "") or rx.search(c.res or ""):
            return k


def c02(ck, F):
    ck.rule("no function of a library crate reads the clock, the environment, a thread or process identity, a random hash "
            "state or an address, except in the named places whose purpose it is and for debugging switches that only print")
    n = 0
    for p, f in sorted(F.fns.items()):
        if f.crate.name not in LIBS or "::tests::" in p:
            continue
        n += 1
        for b in f.bodies():
            for i, c in b.calls():
                k = ambient_kind(c)
                if not k:
                    continue
                why = None
                if k == "environment" and c.last in ("var", "var_os") and c.args and c.args[0][0] == "k" and \
                        isinstance(c.args[0][3], str) and SWITCH.match(c.args[0][3]):
                    why = "switch"
                    ck.ob("switch:%s:%s" % (p, c.args[0][3]), only_asked(F, f, b, i, c), f.where(c.line),
                          "%s uses the value of a debugging switch, not only whether it is set" % p)
                elif (k, f.file) in MEANT:
                    why = "meant"
                ck.ob("ambient:%s:%s" % (p, k), why is not None, f.where(c.line),
                      "%s reads the %s (%s): results no longer depend on the input alone" % (p, k, c.path or c.res))
            for i in b.reachable():
                for s in b.bbs[i].stmts:
                    if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                        ck.ob("ambient:%s:address" % p, False, f.where(s[3]), "%s turns an address into a number" % p)
    ck.floor("library functions", n, 9000)
    # hash containers of the standard library seed themselves at random: only their order is affected (C01), but a
    # hash value taken from such a state would be visible
    m = 0
    for p, f in sorted(F.fns.items()):
        if f.crate.name not in LIBS:
            continue
        for b in f.bodies():
            for i, c in b.calls():
                if c.last in ("build_hasher", "hash_one"):
                    m += 1
                    st = [str(t) for t in c.targs[:1]]
                    ck.ob("hash state:%s" % p, not any("std::hash::random::RandomState" in t for t in st), f.where(c.line),
                          "%s takes a hash from a randomly seeded state" % p)
    ck.count("explicit hash computations", m)


def only_asked(F, f, b, i, c):
    """the result is only asked whether it is set"""
    l = c.dest[0]
    seen, st = {l}, [l]
    while st:
        x = st.pop()
        for bi in b.reachable():
            bb = b.bbs[bi]
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                r = s[2]
                src = r[2][0] if r[0] == "ref" else r[1][1][0] if r[0] == "use" and r[1][0] in ("c", "m") else \
                    None
                if src == x and s[1][0] not in seen:
                    if r[0] == "use" and r[1][1][1]:
                        return False
                    seen.add(s[1][0])
                    st.append(s[1][0])
            k = bb.call
            if k is not None and any(a[0] in ("c", "m") and a[1][0] == x for a in k.args):
                if k.last not in ("is_ok", "is_some", "is_err", "is_none", "drop", "as_ref", "as_deref", "ok", "is_ok_and", "is_some_and"):
                    return False
                if k.last in ("as_ref", "as_deref", "ok") and k.dest[0] not in seen:
                    seen.add(k.dest[0])
                    st.append(k.dest[0])
    return True


PROPS = {"C01": c01, "C02": c02}
