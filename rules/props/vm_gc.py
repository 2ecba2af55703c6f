"""vm-js garbage collection: completeness of tracing and of the root set."""
from flow import Flow
from facts import CheckError

HANDLES = {"vm_js::handle::GcObject", "vm_js::handle::GcString", "vm_js::handle::GcSymbol", "vm_js::handle::GcEnv",
           "vm_js::handle::HeapId"}
VALUE = "vm_js::value::Value"


def is_handle(ty):
    return ty.kind == "adt" and (ty.path in HANDLES or ty.path == VALUE)


def trace_flow(F):
    tracer = {p for p in F.fns if p.startswith("vm_js::heap::Tracer") and p.rsplit("::", 1)[-1].startswith("trace_")}

    def sink(call, fn, j):
        n = call.name
        return n in tracer and j == 1
    return Flow(F, sink, is_handle, descend=lambda c, f: c.name not in tracer, atoms=HANDLES)


def trace_complete(ck, F):
    ck.rule("for every `impl Trace for T` in vm-js: each handle-bearing part of T (GcObject, GcString, GcSymbol, GcEnv, "
            "HeapId, Value; found through nested workspace types and std containers) reaches `Tracer::trace_*` on every "
            "path of `trace` on which that part is present")
    fl = trace_flow(F)
    n = 0
    impls = 0
    for im in F.impls:
        if im["trait"] != "vm_js::heap::Trace":
            continue
        impls += 1
        it = [x for x in im["items"] if x.endswith("::trace")]
        if not it:
            continue
        fn = F.fn(it[0])
        ty = im["selfty"]
        for leaf, lt in fl.leaves(ty):
            n += 1
            why = fl.must(fn, {1: {()}}, leaf)
            name = ".".join(("%s::" % v if v else "") + f for v, f in leaf)
            ck.ob("trace:%s:%s" % (ty, name), why is None, fn.where(fn.line),
                  "`%s` of %s is not passed to the tracer: %s" % (name, ty, why))
    ck.floor("trace_impls", impls, 10)
    ck.floor("handle_fields", n, 20)


COLLECT = "vm_js::heap::Heap::collect_garbage_with_extra_roots"
# containers of the heap that are not roots: the slots being collected and the marker's own scratch list
NOT_ROOTS = {"slots", "gc_worklist", "marks", "free_list"}


def root_set(ck, F):
    ck.rule("every handle-bearing container of the heap other than the slots themselves, and every extra-root parameter, "
            "is handed element by element to the tracer on every path of the collector; `trace_value` hands every "
            "handle-bearing kind of value to the mark routine; every collection goes through that one routine")
    fl = trace_flow(F)
    fn = F.fn(COLLECT)
    heap = F.adt("vm_js::heap::Heap")
    n = 0
    for f, ty, _ in heap.variants[0].fields:
        if f in NOT_ROOTS or not fl.has_leaf(ty):
            continue
        for leaf, lt in fl.leaves(ty, root=False):
            lf = ((None, f),) + leaf
            n += 1
            why = fl.must(fn, {1: {()}}, lf)
            ck.ob("root:%s" % ".".join(x for _, x in lf), why is None, fn.where(fn.line),
                  "the collector does not trace `Heap.%s`: %s" % (".".join(x for _, x in lf), why))
    for p in range(2, fn.body.argc + 1):
        ty = fn.body.locals[p][0]
        if fl.has_leaf(ty):
            n += 1
            why = fl.must(fn, {p: {()}}, ())
            ck.ob("root-param:%d" % p, why is None, fn.where(fn.line),
                  "the collector does not trace its parameter `%s`: %s" % (fn.body.locals[p][1], why))
    ck.floor("root_containers", n, 8)
    # trace_value reaches the mark routine for every kind of handle
    tv = F.fn("vm_js::heap::Tracer::<'a>::trace_value")
    atoms = HANDLES - {"vm_js::handle::HeapId"}
    fv = Flow(F, lambda c, f, j: c.name == "vm_js::heap::Tracer::<'a>::trace_heap_id" and j == 1,
              lambda t: t.kind == "adt" and t.path in atoms, descend=lambda c, f: False, atoms=atoms)
    k = 0
    for v in F.adt(VALUE).variants:
        for f, ty, _ in v.fields:
            if fv.has_leaf(ty):
                k += 1
                why = fv.must(tv, {2: {()}}, ((v.name, f),))
                ck.ob("trace_value:%s" % v.name, why is None, tv.where(tv.line),
                      "`trace_value` drops Value::%s: %s" % (v.name, why))
    ck.floor("handle_value_kinds", k, 3)
    # who clears slots: only the sweep of the collector
    for f in F.fns.values():
        if f.crate.name != "vm_js" or "::tests::" in f.path:
            continue
        for _, line, pl in f.body.places_written():
            if pl[1] and isinstance(pl[1][-1], tuple) and pl[1][-1][0] == "f" and pl[1][-1][2] == "vm_js::heap::Slot" \
                    and pl[1][-1][1] == "generation":
                ck.ob("generation-writer:" + f.path, f.path == COLLECT or f.path in F.reachable_from([COLLECT]), f.where(line),
                      "a slot's generation changes outside the collector")


def rooting(ck, F):
    from hazard import Hazards, ROOT_PRIMS
    ck.rule("interprocedural forward dataflow over MIR of every vm-js function: a handle created or received by native "
            "code, and not reachable from a root (stack root of a live scope, persistent root, or a reachable heap "
            "object), is never used after a call that may run a collection")
    ck.assume("arguments of native handlers are rooted by the dispatcher for the whole call")
    ck.assume("the resolving functions of %Promise% keep their promise alive")
    hz = Hazards(F, {"vm_js"}).run()
    n = sites = roots = 0
    for f in hz.fns:
        if f.path in hz.maygc:
            n += 1
        for _, c in f.body.calls():
            if hz.gc_call(f, c):
                sites += 1
            if c.name in ROOT_PRIMS:
                roots += 1
        for (tk, what), line in hz.reports.get(f.path, {}).items():
            if "::tests::" in f.path:
                continue
            src = tk[2] if len(tk) > 2 else "parameter"
            ck.ob("hazard:%s:%s:%s" % (f.path, src, what), False, f.where(line),
                  "%s uses (in `%s`) the handle made by `%s`%s although a collection may have run since and nothing "
                  "roots it" % (f.path, what, src, "" if len(tk) < 4 else " field " + tk[3][1]))
        else:
            ck.ob("fn:" + f.path, True, f.where(f.line))
    ck.floor("functions_that_may_collect", n, 300)
    ck.floor("calls_that_may_collect", sites, 800)
    ck.floor("root_sites", roots, 300)


PROPS = {"A01": trace_complete, "A02": root_set, "A03": rooting}
