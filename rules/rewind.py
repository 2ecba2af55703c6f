"""What is left of the position after an attempt that failed: from each parse call whose failure is looked at, follow the
failure; it is returned, or the parser goes back before it goes on."""
from cover import is_err_block
from errs import ErrFlow

RESTORE = {"restore_checkpoint", "reset_to"}
ERR = "parse_js::error::SyntaxError"


class Rewind(ErrFlow):
    def __init__(self, F, again):
        super().__init__(F, ERR, {v.name for v in F.adt(ERR).variants} or {""}, ("parse_js",))
        self.stop = {}
        self.again = again
        # helpers that put the position back to the checkpoint they are given
        self.helpers = set()
        for p, f in F.fns.items():
            if f.crate.name == "parse_js" and any("ParserCheckpoint" in str(f.body.locals[j][0]) for j in range(1, f.body.argc + 1)):
                b = f.body
                r = {i for i, c in b.calls() if c.last in RESTORE}
                if r and not passes(b, r):
                    self.helpers.add(p)

    def restores(self, c):
        t = self.F.targets(c)
        return c.last in RESTORE or bool(t) and all(x in self.helpers for x in t)

    def call(self, fn, body, b, c, H, flags, depth, stack):
        if self.restores(c):
            return "kept"
        if c.last in ("unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default") and \
                any(a[0] in ("c", "m") and a[1][0] in H for a in c.args):
            # a panic; or a stand-in takes the place of what was missing, nothing is tried again
            return "kept"
        return super().call(fn, body, b, c, H, flags, depth, stack)

    def arms(self, ty, t):
        if ty is not None and ty.kind == "adt" and ty.path == self.err:
            return sorted({x for _, x in t[2]} | {t[3]})
        return super().arms(ty, t)

    def halt(self, fn, b):
        r = self.stop.get(fn.path)
        if r is None:
            r = {i for i in fn.body.reachable() if is_err_block(self.F, fn.body, i)}
            if fn.kind == "closure" and any(c.last == "rewindable" for _, c in self.F.fns[fn.parent].body.calls()):
                r |= self.again(self.F, fn.body)
            self.stop[fn.path] = r
        return b in r


def passes(body, via):
    """a return can be reached without one of the blocks `via`"""
    st, seen = [0], set()
    while st:
        b = st.pop()
        if b in seen or b in via:
            continue
        seen.add(b)
        if body.bbs[b].term[0] == "ret":
            return True
        st += body.bbs[b].succ()
    return False


def looked_at(body, l):
    """anything but a drop happens to the local"""
    for i in body.reachable():
        bb = body.bbs[i]
        for s in bb.stmts:
            if s[0] == "=":
                r = s[2]
                p = [r[2]] if r[0] == "ref" else [r[1]] if r[0] == "discr" else \
                    [o[1] for o in r[1:] if isinstance(o, tuple) and o and o[0] in ("c", "m")] + \
                    [o[1] for x in r[1:] if isinstance(x, list) for o in x if isinstance(o, tuple) and o[0] in ("c", "m")]
                if any(x[0] == l for x in p):
                    return True
        if bb.call is not None and any(a[0] in ("c", "m") and a[1][0] == l for a in bb.call.args):
            return True
        if bb.term[0] == "switch" and bb.term[1][0] in ("c", "m") and bb.term[1][1][0] == l:
            return True
    return False


def attempts(ck, F, avoids, again):
    ck.rule("from each call that may fail to parse and whose failure is looked at, on every path the failure takes: an error is "
            "returned, the position is put back (`restore_checkpoint`, `reset_to`, a `rewindable` closure that gives nothing), "
            "or a stand-in replaces the missing part; a function with a checkpoint that answers a yes-no question puts "
            "it back on every path")
    R = Rewind(F, again)
    fns = [f for p, f in sorted(F.fns.items()) if f.crate.name == "parse_js" and "::tests::" not in p and
           (p.startswith("parse_js::parse") or p.startswith("parse_js::lex"))]

    def rets(b):
        return {i for i in b.reachable() if b.bbs[i].term[0] == "ret"}

    def restores(b):
        return {i for i, c in b.calls() if R.restores(c)}

    def errs(b):
        return {i for i in b.reachable() if is_err_block(F, b, i)}

    def callers_restore(f, seen=()):
        n = 0
        for g in fns:
            for i, c in g.body.calls():
                if f.path in F.targets(c):
                    n += 1
                    if avoids(g.body, i, rets(g.body), restores(g.body) | errs(g.body)):
                        return False
        return n > 0
    n = q = 0
    for f in fns:
        b = f.body
        k = {}
        for i in sorted(b.reachable()):
            c = b.bbs[i].call
            if c is None or c.target is None or c.dest[1] or not F.targets(c) or not R.mentions(b.locals[c.dest[0]][0]):
                continue
            if not any(F.fns[t].crate.name == "parse_js" for t in F.targets(c)) or \
                    c.dest[0] != 0 and not looked_at(b, c.dest[0]):
                continue
            n += 1
            r = R.follow(f, c.target, {c.dest[0]})
            m = k[c.last] = k.get(c.last, 0) + 1
            ck.ob("attempt:%s:%s:%d" % (f.path, c.last, m), r is None or callers_restore(f), f.where(c.line),
                  "%s: when `%s` fails, the parser goes on from where it failed instead of going back" % (f.path, c.last))
        if str(b.locals[0][0]) == "bool":
            for i, c in b.calls():
                if c.last == "checkpoint":
                    q += 1
                    ck.ob("lookahead:%s" % f.path, not avoids(b, i, rets(b), restores(b)), f.where(c.line),
                          "%s looks ahead, and on some path does not go back" % f.path)
    ck.floor("parse calls that may fail", n, 900)
    ck.floor("yes-no lookaheads", q, 4)
