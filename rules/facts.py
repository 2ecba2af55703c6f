"""Loads the facts that driver/ dumps about every workspace crate, and offers the views the
rules need: resolved types, impls, MIR bodies, CFGs and a call graph.  Everything is derived
from /repo's current source on each run (see `ensure_facts`)."""
import json, zlib, os, subprocess, sys, glob, fcntl, hashlib, re, shutil
from functools import lru_cache

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TARGET = os.path.join(BUILD, "facts")
DRIVER = os.path.join(BUILD, "driver", "release", "factdump")


class CheckError(Exception):
    """The check could not do its work (missing anchor, facts not available)."""


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, cwd="/").strip()


def driver_stamp():
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        h.update(open(os.path.join(VERIF, "driver", f), "rb").read())
    return h.hexdigest()


def build_driver():
    stamp = os.path.join(BUILD, "driver.stamp")
    cur = driver_stamp()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == cur:
        return
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"), RUSTUP_TOOLCHAIN="nightly",
               CARGO_NET_OFFLINE="true")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("driver does not build:\n" + r.stdout[-3000:])
    # facts of another driver version are of no use
    shutil.rmtree(TARGET, ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(cur)


def norm_hash(path):
    """Same normalisation as rustc (BOM stripped, CRLF -> LF)."""
    data = open(path, "rb").read()
    if data.startswith(b"\xef\xbb\xbf"):
        data = data[3:]
    data = data.replace(b"\r\n", b"\n")
    return data


def run_cargo():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUSTC_WORKSPACE_WRAPPER=DRIVER,
               CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN="nightly",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    r = subprocess.run(["cargo", "-Zchecksum-freshness", "check", "--offline", "--workspace", "--keep-going"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def ensure_facts():
    """Brings the facts up to date with REPO's working tree.  Returns the fact files."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        rc, out = run_cargo()
        files = current_fact_files()
        stale = stale_files(files)
        if stale:
            # content differs from what the driver saw: never trust it, analyse again
            shutil.rmtree(os.path.join(TARGET, "debug"), ignore_errors=True)
            rc, out = run_cargo()
            files = current_fact_files()
            stale = stale_files(files)
            if stale:
                raise CheckError("facts do not describe the current source: %s" % stale[:5])
        return files, rc, out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def current_fact_files():
    """newest fact file per (crate, root file)"""
    best = {}
    for f in glob.glob(os.path.join(TARGET, "debug", "build", "*", "*", "out", "*.facts")) + \
            glob.glob(os.path.join(TARGET, "debug", "deps", "*.facts")):
        with open(f) as fh:
            h = json.loads(fh.readline().split("\t", 1)[1])
        roots = [x for x in h["files"] if x.endswith(("lib.rs", "main.rs"))]
        key = (h["crate"], tuple(sorted(r for r in roots if r.count("/") <= 3))[:1])
        m = os.path.getmtime(f)
        if key not in best or best[key][0] < m:
            best[key] = (m, f, h)
    return {k: (v[1], v[2]) for k, v in sorted(best.items())}


def stale_files(files):
    todo = {}
    for key, (f, h) in files.items():
        for p, hv in h["files"].items():
            ap = p if os.path.isabs(p) else os.path.join(REPO, p)
            if "/registry/" in ap or "/rustlib/" in ap or "/target/" in ap or "/build/facts/" in ap:
                continue
            todo.setdefault(ap, set()).add(hv)
    bad = []
    for ap, hvs in todo.items():
        if not os.path.exists(ap):
            bad.append(ap)
            continue
        data = norm_hash(ap)
        hv = "%016x" % ((len(data) << 32) | zlib.crc32(data))
        if hvs != {hv}:
            bad.append(ap)
    return bad


# --------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("kind", "path", "args", "mut", "_s", "name")

    def __init__(self, kind, path=None, args=(), mut=0, name=None):
        self.kind, self.path, self.args, self.mut, self.name = kind, path, args, mut, name
        self._s = None

    def __str__(self):
        if self._s is None:
            k = self.kind
            if k == "adt":
                s = self.path + ("<%s>" % ", ".join(map(str, self.args)) if self.args else "")
            elif k == "ref":
                s = "&" + ("mut " if self.mut else "") + str(self.args[0])
            elif k == "ptr":
                s = "*" + ("mut " if self.mut else "const ") + str(self.args[0])
            elif k in ("slice", "array"):
                s = "[%s%s]" % (self.args[0], "; _" if k == "array" else "")
            elif k == "tuple":
                s = "(%s)" % ", ".join(map(str, self.args))
            elif k == "fndef":
                s = "fn " + self.path
            elif k == "closure":
                s = "closure " + self.path
            else:
                s = self.name or k
            self._s = s
        return self._s

    __repr__ = __str__

    def peel(self):
        t = self
        while t.kind in ("ref", "ptr"):
            t = t.args[0]
        return t

    def walk(self, seen=None):
        """this type and every type written inside it"""
        st = [self]
        seen = set()
        while st:
            t = st.pop()
            if id(t) in seen:
                continue
            seen.add(id(t))
            yield t
            st.extend(t.args)

    def adts(self):
        return [t.path for t in self.walk() if t.kind == "adt"]


class Variant:
    __slots__ = ("name", "fields", "discr")

    def __init__(self, name, fields, discr):
        self.name, self.fields, self.discr = name, fields, discr


class Adt:
    def __init__(self, crate, row):
        self.crate, self.path, self.kind = crate.name, row["path"], row["kind"]
        self.file, self.line = crate.strs[row["file"]], row["line"]
        self.pub = row["pub"]
        self.variants = [Variant(v["name"], [(n, crate.ty(t), p) for n, t, p in v["fields"]], v.get("discr"))
                         for v in row["variants"]]

    def variant(self, name):
        for v in self.variants:
            if v.name == name:
                return v


class Call:
    __slots__ = ("path", "res", "kind", "targs", "args", "dest", "target", "line", "fnptr")

    @property
    def name(self):
        return self.res or self.path or "<%s>" % self.kind

    @property
    def last(self):
        return (self.path or "").rsplit("::", 1)[-1]


class BB:
    __slots__ = ("stmts", "term", "call")

    def succ(self):
        t = self.term
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[1].target] if t[1].target >= 0 else []
        if k == "assert":
            return [t[4]]
        return []


class Body:
    """One MIR body.  stmts: ('=', place, rvalue, line) | ('sd', place, variant) | ('d', local).
    term: ('goto',b) ('switch',op,[(v,b)],otherwise,ty,line) ('ret',) ('unreach',)
          ('drop',place,b,line) ('call',Call) ('assert',op,expected,kind,b,line)"""

    def __init__(self, crate, raw, fn):
        self.fn = fn
        self.argc = raw["argc"]
        S, T = crate.strs, crate.ty
        self.locals = [(T(l[0]), S[l[1]] if len(l) > 1 else None) for l in raw["locals"]]

        def place(p):
            if len(p) == 1:
                return (p[0], ())
            pr = []
            for e in p[1:]:
                if e == 0:
                    pr.append("*")
                elif e[0] == 0:
                    pr.append(("f", S[e[1]], S[e[2]] if e[2] >= 0 else None, S[e[3]] if len(e) > 3 else None))
                elif e[0] == 1:
                    pr.append(("v", S[e[1]]))
                elif e[0] == 2:
                    pr.append(("i", e[1]))
                elif e[0] == 3:
                    pr.append(("c", e[1], e[2]))
                elif e[0] == 4:
                    pr.append(("s", e[1], e[2], e[3]))
                else:
                    pr.append(("?",))
            return (p[0], tuple(pr))

        def op(o):
            if o[0] in ("c", "m"):
                return (o[0], place(o[1]))
            if o[0] == "k":
                return ("k", T(o[1]), o[2], o[3] if len(o) > 3 else None, o[4] if len(o) > 4 else None)
            return ("rt",)

        def rv(r):
            k = r[0]
            if k in ("use", "rep"):
                return (k, op(r[1]))
            if k == "ref":
                return (k, r[1], place(r[2]))
            if k == "cast":
                return (k, r[1], op(r[2]), T(r[3]))
            if k == "bin":
                return (k, r[1], op(r[2]), op(r[3]))
            if k == "un":
                return (k, r[1], op(r[2]))
            if k == "discr":
                return (k, place(r[1]))
            if k == "agg":
                return (k, S[r[1]], S[r[2]], [S[x] for x in r[3]], [op(x) for x in r[4]])
            if k in ("arr", "tup"):
                return (k, [op(x) for x in r[1]])
            if k == "clo":
                return (k, S[r[1]], [op(x) for x in r[2]])
            return tuple(r)

        self.bbs = []
        for b in raw["bbs"]:
            x = BB()
            x.call = None
            if b == 0:
                x.stmts, x.term = [], ("unreach",)
                self.bbs.append(x)
                continue
            st = []
            for s in b[0]:
                if s[0] == "=":
                    st.append(("=", place(s[1]), rv(s[2]), s[3]))
                elif s[0] == "sd":
                    st.append(("sd", place(s[1]), s[2]))
                else:
                    st.append(tuple(s))
            x.stmts = st
            t = b[1]
            k = t[0]
            if k == "switch":
                x.term = ("switch", op(t[1]), [(v, tb) for v, tb in t[2]], t[3], T(t[4]), t[5])
            elif k == "drop":
                x.term = ("drop", place(t[1]), t[2], t[3])
            elif k == "assert":
                x.term = ("assert", op(t[1]), t[2], t[3], t[4], t[5])
            elif k == "call":
                c = Call()
                ce = t[1]
                c.path = S[ce[0]] if ce[0] >= 0 else None
                c.res = S[ce[1]] if ce[1] >= 0 else None
                c.kind = ce[2]
                c.targs = [T(i) for i in ce[3]]
                c.fnptr = op(ce[4]) if len(ce) > 4 else None
                c.args = [op(a) for a in t[2]]
                c.dest = place(t[3])
                c.target = t[4]
                c.line = t[5]
                x.call = c
                x.term = ("call", c)
            else:
                x.term = tuple(t)
            self.bbs.append(x)
        self._preds = None
        self._reach = None

    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.bbs]
            for i in self.reachable():
                for s in self.bbs[i].succ():
                    p[s].append(i)
            self._preds = p
        return self._preds

    def reachable(self):
        if self._reach is None:
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in self.bbs[b].succ():
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = sorted(seen)
        return self._reach

    def calls(self):
        for i in self.reachable():
            c = self.bbs[i].call
            if c is not None:
                yield i, c

    def reach_from(self, start, avoid=()):
        """blocks reachable from `start` (inclusive) without entering `avoid`"""
        if start in avoid:
            return set()
        seen = {start}
        st = [start]
        while st:
            b = st.pop()
            for s in self.bbs[b].succ():
                if s not in seen and s not in avoid:
                    seen.add(s)
                    st.append(s)
        return seen

    def dominators(self):
        r = self.reachable()
        preds = self.preds()
        idom = {}
        # simple iterative on RPO
        order, seen = [], set()
        st = [(0, iter(self.bbs[0].succ()))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.bbs[s].succ())))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom[0] = 0
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def operands(self):
        """every operand in the body: (bb, line, operand)"""
        for i in self.reachable():
            bb = self.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        yield i, s[3], o
            t = bb.term
            if t[0] == "call":
                for a in t[1].args:
                    yield i, t[1].line, a
                if t[1].fnptr:
                    yield i, t[1].line, t[1].fnptr
            elif t[0] == "switch":
                yield i, t[5], t[1]
            elif t[0] == "assert":
                yield i, t[5], t[1]

    def places_read(self):
        """every place read, borrowed or discriminated: (bb, line, place, how)"""
        for i in self.reachable():
            bb = self.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    r = s[2]
                    if r[0] == "ref":
                        yield i, s[3], r[2], "refmut" if r[1] == 1 else "ref"
                    elif r[0] == "discr":
                        yield i, s[3], r[1], "discr"
                    for o in rv_operands(r):
                        if o[0] in ("c", "m"):
                            yield i, s[3], o[1], "use"
            t = bb.term
            if t[0] == "call":
                for a in t[1].args:
                    if a[0] in ("c", "m"):
                        yield i, t[1].line, a[1], "use"
            elif t[0] in ("switch", "assert") and t[1][0] in ("c", "m"):
                yield i, t[-1], t[1][1], "use"

    def places_written(self):
        for i in self.reachable():
            bb = self.bbs[i]
            for s in bb.stmts:
                if s[0] == "=":
                    yield i, s[3], s[1]
                elif s[0] == "sd":
                    yield i, 0, s[1]
            if bb.call is not None:
                yield i, bb.call.line, bb.call.dest


def rv_operands(r):
    k = r[0]
    if k in ("use", "rep"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[4]
    if k in ("arr", "tup"):
        return r[1]
    if k == "clo":
        return r[2]
    return []


def const_int(o):
    return o[3] if o[0] == "k" and o[2] == "i" else None


class Fn:
    def __init__(self, crate, head, rawtext):
        self.crate = crate
        self.path = head["path"]
        self.kind = head["kind"]
        self.file = crate.strs[head["file"]]
        self.line, self.end = head["line"], head["end"]
        self.parent = head.get("parent")
        self.self_ty = crate.ty(head["self"]) if "self" in head else None
        self.trait = head.get("trait")
        self.in_trait = head.get("in_trait")
        self.derived = bool(head.get("derived"))
        self.pub = head.get("pub", False)
        self.reach = head.get("reach", False)
        self.name = head.get("name") or self.path.rsplit("::", 1)[-1]
        self.unsafe = head.get("unsafe", False)
        self.unsafe_blocks = head.get("unsafe_blocks", [])
        self.coroutine = head.get("coroutine", False)
        self.macro = head.get("macro", 0)
        self._raw = rawtext
        self._bodies = None

    def bodies(self):
        if self._bodies is None:
            raw = json.loads(self._raw)
            self._bodies = [Body(self.crate, b, self) for b in raw]
        return self._bodies

    @property
    def body(self):
        return self.bodies()[0]

    def promoted(self, i):
        return self.bodies()[1 + i]

    def where(self, line=None):
        return "%s:%s" % (self.file, line or self.line)

    def __repr__(self):
        return "<Fn %s>" % self.path


class Crate:
    def __init__(self, name):
        self.name = name
        self.strs, self._tyrows, self._tys = [], [], {}
        self.root = None

    def ty(self, i):
        t = self._tys.get(i)
        if t is not None:
            return t
        r = self._tyrows[i]
        k = r[0]
        t = Ty(k)
        self._tys[i] = t
        if k == "prim":
            t.name = r[1]
        elif k == "adt":
            t.path, t.args = self.strs[r[1]], tuple(self.ty(x) for x in r[2])
        elif k in ("ref", "ptr"):
            t.mut, t.args = r[1], (self.ty(r[2]),)
        elif k in ("slice", "array"):
            t.args = (self.ty(r[1]),)
        elif k == "tuple":
            t.args = tuple(self.ty(x) for x in r[1])
        elif k in ("fndef", "closure"):
            t.path, t.args = self.strs[r[1]], tuple(self.ty(x) for x in r[2])
        else:
            t.name = self.strs[r[1]]
        return t


class Facts:
    def __init__(self, only=None):
        files, rc, out = ensure_facts()
        self.cargo_rc, self.cargo_out = rc, out
        self.crates, self.adts, self.fns, self.impls, self.traits, self.statics = {}, {}, {}, [], {}, {}
        self.children = {}
        for (cname, root), (f, h) in files.items():
            if only and cname not in only:
                continue
            c = Crate(cname)
            key = cname
            if key in self.crates:
                key = cname + "#bin"
            self.crates[key] = c
            c.key = key
            c.files = h["files"]
            with open(f) as fh:
                lines = fh.read().split("\n")
            for ln in lines:
                k = ln[:2]
                if k == "Y\t":
                    c._tyrows = json.loads(ln[2:])
                elif k == "X\t":
                    c.strs = json.loads(ln[2:])
            for ln in lines:
                k = ln[:2]
                if k == "A\t":
                    a = Adt(c, json.loads(ln[2:]))
                    self.adts[a.path] = a
                elif k == "I\t":
                    r = json.loads(ln[2:])
                    r["crate"] = c
                    r["selfty"] = c.ty(r["self"])
                    r["file"] = c.strs[r["file"]]
                    self.impls.append(r)
                elif k == "T\t":
                    r = json.loads(ln[2:])
                    self.traits[r["path"]] = r
                elif k == "S\t":
                    r = json.loads(ln[2:])
                    r["crate"] = c
                    r["ty"] = c.ty(r["ty"])
                    r["file"] = c.strs[r["file"]]
                    self.statics[r["path"]] = r
                elif k == "F\t":
                    _, head, body = ln.split("\t", 2)
                    fn = Fn(c, json.loads(head), body)
                    p = fn.path
                    if p in self.fns:
                        n = 2
                        while "%s#%d" % (p, n) in self.fns:
                            n += 1
                        p = "%s#%d" % (p, n)
                        fn.path = p
                    self.fns[p] = fn
                    if fn.parent:
                        self.children.setdefault(fn.parent, []).append(fn)
        self._impl_methods = None
        self._cg = None
        self._rcg = None

    # ---- lookups that fail closed
    def fn(self, path):
        f = self.fns.get(path)
        if f is None:
            raise CheckError("anchor function not found: " + path)
        return f

    def adt(self, path):
        a = self.adts.get(path)
        if a is None:
            raise CheckError("anchor type not found: " + path)
        return a

    def find(self, regex, crate=None):
        rx = re.compile(regex)
        return [f for p, f in self.fns.items() if rx.search(p) and (crate is None or f.crate.name == crate)]

    def methods_of(self, adt_path):
        return [f for f in self.fns.values() if f.self_ty is not None and f.self_ty.kind == "adt"
                and f.self_ty.path == adt_path and f.kind == "method"]

    # ---- call graph
    def impl_methods(self):
        """trait method path -> [impl method paths in the workspace]"""
        if self._impl_methods is None:
            m = {}
            for im in self.impls:
                if im["trait"]:
                    for it in im["items"]:
                        m.setdefault((im["trait"], it.rsplit("::", 1)[-1]), []).append(it)
            self._impl_methods = m
        return self._impl_methods

    def targets(self, call):
        """possible workspace callees of a call (paths in self.fns)"""
        out = []
        if call.res and call.res in self.fns:
            return [call.res]
        if call.res and call.kind in ("fn",):
            return []
        if call.path:
            if call.path in self.fns:
                out.append(call.path)
            if call.kind in ("trait", "virtual"):
                tr, _, nm = call.path.rpartition("::")
                out.extend(x for x in self.impl_methods().get((tr, nm), []) if x in self.fns)
        return out

    def callgraph(self):
        """fn path -> set of workspace fn paths it may call, incl. closures it creates and
        functions whose address it takes"""
        if self._cg is None:
            cg = {}
            for p, f in self.fns.items():
                s = set()
                for b in f.bodies():
                    for _, c in b.calls():
                        s.update(self.targets(c))
                    for i in b.reachable():
                        for st in b.bbs[i].stmts:
                            if st[0] == "=" and st[2][0] == "clo" and st[2][1] in self.fns:
                                s.add(st[2][1])
                    for _, _, o in b.operands():
                        if o[0] == "k" and o[1].kind in ("fndef", "closure") and o[1].path in self.fns:
                            s.add(o[1].path)
                cg[p] = s
            self._cg = cg
        return self._cg

    def rcallgraph(self):
        if self._rcg is None:
            r = {}
            for a, bs in self.callgraph().items():
                for b in bs:
                    r.setdefault(b, set()).add(a)
            self._rcg = r
        return self._rcg

    def reachable_from(self, starts, stop=()):
        cg = self.callgraph()
        seen = set(s for s in starts if s not in stop)
        st = list(seen)
        while st:
            x = st.pop()
            for y in cg.get(x, ()):
                if y not in seen and y not in stop:
                    seen.add(y)
                    st.append(y)
        return seen

    def callers_of(self, targets):
        r = self.rcallgraph()
        seen = set(targets)
        st = list(seen)
        while st:
            x = st.pop()
            for y in r.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
