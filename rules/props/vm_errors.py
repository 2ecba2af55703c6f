"""vm-js: failures no script may catch, and the budgets that raise them."""
from errs import ErrFlow

ERR = "vm_js::error::VmError"
HARD = {"Termination", "OutOfMemory"}
CRATES = ("vm_js", "runtime_js", "webidl_vm_js")
WORKSPACE = {"vm_js", "runtime_js", "webidl_vm_js", "webidl_js_runtime"}
# documented best effort: (function, callee).  The failure is that a root for an error message or a rejected
# promise could not be recorded; the run has failed already and its own error is reported
BEST_EFFORT = {
    ("vm_js::agent::Agent::run_script", "add_root"),
    ("vm_js::agent::Agent::value_to_error_string", "to_string"),
    ("vm_js::promise_rejection_tracker", "add_root"),
}


def uncatchable(ck, F):
    ck.rule("path-sensitive forward dataflow over MIR: at each call that may fail with a termination or out-of-memory "
            "error, the error value is followed along every path to the function's return; it must be returned, stored in "
            "the caller's data or handed to a function that keeps it")
    E = ErrFlow(F, ERR, HARD, CRATES)
    mf = E.may_fail()
    n = fns = 0
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name not in CRATES or fn.derived or "::tests::" in p:
            continue
        b = fn.body
        k = 0
        seen = {}
        for i in sorted(b.reachable()):
            c = b.bbs[i].call
            if c is None or c.target is None or c.dest[1]:
                continue
            if not E.mentions(b.locals[c.dest[0]][0]):
                continue
            tg = F.targets(c)
            if tg:
                if not any(t in mf for t in tg):
                    continue
            elif c.name != "<fnptr>" and c.name.split("::")[0] not in WORKSPACE and c.last not in ("call", "call_mut", "call_once"):
                continue
            n += 1
            k += 1
            r = E.follow(fn, c.target, {c.dest[0]})
            m = seen[c.last] = seen.get(c.last, 0) + 1
            if r and any(p.startswith(a) and c.last == x for a, x in BEST_EFFORT):
                ck.count("best_effort_sites")
                continue
            ck.ob("lost:%s:%s:%d" % (p, c.last, m), r is None, fn.where(c.line),
                  r and "%s: a termination or out-of-memory error of `%s` is lost: %s (line %s)" % (p, c.last, r[1], r[0]))
        fns += k > 0
    ck.floor("calls_that_may_fail_hard", n, 1900)
    ck.floor("functions", fns, 400)


PROPS = {"A04": uncatchable}
