"""B02: every operator keeps its spelling, binding power and meaning through lexer, parser, lowering, folding and printing.
B03: constant folding and the interpreters compute an operator with the arithmetic JavaScript defines for it."""
import re
from cover import Cover
from facts import rv_operands
from modflow import postdoms, tag_arms
from tables import Consts, inserts, lists
from flow import place_ty

# ECMA-262 spellings, by the names the enums use
BIN = {"Addition": "+", "Subtraction": "-", "Multiplication": "*", "Division": "/", "Remainder": "%", "Exponentiation": "**",
       "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXor": "^", "BitwiseLeftShift": "<<", "BitwiseRightShift": ">>",
       "BitwiseUnsignedRightShift": ">>>", "LogicalAnd": "&&", "LogicalOr": "||", "NullishCoalescing": "??"}
OPN = dict(BIN)
OPN.update({"Assignment" + k: v + "=" for k, v in BIN.items()})
OPN.update({"Assignment": "=", "Await": "await", "BitwiseNot": "~", "Comma": ",", "Delete": "delete", "Equality": "==",
            "GreaterThan": ">", "GreaterThanOrEqual": ">=", "In": "in", "Inequality": "!=", "Instanceof": "instanceof",
            "LessThan": "<", "LessThanOrEqual": "<=", "LogicalNot": "!", "New": "new", "PostfixDecrement": "--",
            "PostfixIncrement": "++", "PrefixDecrement": "--", "PrefixIncrement": "++", "StrictEquality": "===",
            "StrictInequality": "!==", "Typeof": "typeof", "UnaryNegation": "-", "UnaryPlus": "+", "Void": "void",
            "Yield": "yield", "YieldDelegated": "yield*", "MemberAccess": ".", "OptionalChainingMemberAccess": "?."})
HBIN = {"Add": "+", "Subtract": "-", "Multiply": "*", "Divide": "/", "Remainder": "%", "Exponent": "**", "BitAnd": "&",
        "BitOr": "|", "BitXor": "^", "ShiftLeft": "<<", "ShiftRight": ">>", "ShiftRightUnsigned": ">>>", "LogicalAnd": "&&",
        "LogicalOr": "||", "NullishCoalescing": "??", "Equality": "==", "Inequality": "!=", "StrictEquality": "===",
        "StrictInequality": "!==", "LessThan": "<", "LessEqual": "<=", "GreaterThan": ">", "GreaterEqual": ">=", "In": "in",
        "Instanceof": "instanceof", "Comma": ","}
HASG = {"Assign": "=", "AddAssign": "+=", "SubAssign": "-=", "MulAssign": "*=", "DivAssign": "/=", "RemAssign": "%=",
        "ExponentAssign": "**=", "BitAndAssign": "&=", "BitOrAssign": "|=", "BitXorAssign": "^=", "ShiftLeftAssign": "<<=",
        "ShiftRightAssign": ">>=", "ShiftRightUnsignedAssign": ">>>=", "LogicalAndAssign": "&&=", "LogicalOrAssign": "||=",
        "NullishAssign": "??="}
HUN = {"Not": "!", "BitNot": "~", "Plus": "+", "Minus": "-", "Typeof": "typeof", "Void": "void", "Delete": "delete",
       "Await": "await", "Yield": "yield"}
IBIN = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Mod": "%", "Exp": "**", "BitAnd": "&", "BitOr": "|", "BitXor": "^",
        "Shl": "<<", "Shr": ">>", "UShr": ">>>", "LooseEq": "==", "NotLooseEq": "!=", "StrictEq": "===",
        "NotStrictEq": "!==", "Lt": "<", "Leq": "<=", "Gt": ">", "Geq": ">=", "GetProp": "."}
IUN = {"BitNot": "~", "Neg": "-", "Not": "!", "Plus": "+", "Typeof": "typeof", "Void": "void"}
WORD = {"Ampersand": "&", "Asterisk": "*", "Bar": "|", "Caret": "^", "ChevronLeft": "<", "ChevronRight": ">", "Colon": ":",
        "Comma": ",", "Dot": ".", "Equals": "=", "Exclamation": "!", "Hyphen": "-", "Percent": "%", "Plus": "+",
        "Question": "?", "Semicolon": ";", "Slash": "/", "Tilde": "~", "At": "@", "BraceOpen": "{", "BraceClose": "}",
        "BracketOpen": "[", "BracketClose": "]", "ParenthesisOpen": "(", "ParenthesisClose": ")", "DotDotDot": "..."}
ENUMS = {"parse_js::operator::OperatorName": OPN, "hir_js::hir::BinaryOp": HBIN, "hir_js::hir::AssignOp": HASG,
         "hir_js::hir::UnaryOp": HUN, "optimize_js::il::inst::BinOp": IBIN, "optimize_js::il::inst::UnOp": IUN}
SPELL = {s for d in ENUMS.values() for s in d.values()}
NEGATED = {"!=": "==", "!==": "===", "==": "!=", "===": "!=="}
# ECMA-262 13: from the tightest to the loosest, with associativity
LEVELS = [
    ({"MemberAccess", "ComputedMemberAccess", "Call", "New", "OptionalChainingMemberAccess",
      "OptionalChainingComputedMemberAccess", "OptionalChainingCall"}, None),
    ({"PostfixIncrement", "PostfixDecrement"}, None),
    ({"LogicalNot", "BitwiseNot", "UnaryPlus", "UnaryNegation", "PrefixIncrement", "PrefixDecrement", "Typeof", "Void",
      "Delete", "Await"}, "Right"),
    ({"Exponentiation"}, "Right"), ({"Multiplication", "Division", "Remainder"}, "Left"),
    ({"Addition", "Subtraction"}, "Left"),
    ({"BitwiseLeftShift", "BitwiseRightShift", "BitwiseUnsignedRightShift"}, "Left"),
    ({"LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual", "In", "Instanceof"}, "Left"),
    ({"Equality", "Inequality", "StrictEquality", "StrictInequality"}, "Left"),
    ({"BitwiseAnd"}, "Left"), ({"BitwiseXor"}, "Left"), ({"BitwiseOr"}, "Left"), ({"LogicalAnd"}, "Left"),
    ({"LogicalOr", "NullishCoalescing"}, "Left"), ({"Conditional"}, "Right"),
    ({"Assignment", "Yield", "YieldDelegated"} | {"Assignment" + k for k in BIN}, "Right"),
    ({"Comma"}, "Left")]
LEVEL = {n: (i, a) for i, (ns, a) in enumerate(LEVELS) for n in ns}


def tt_spelling(name):
    if name.startswith("Keyword"):
        return re.sub("Type$", "", name[7:]).lower() if name != "KeywordType" else "type"
    if name.startswith("Literal"):
        return {"LiteralTrue": "true", "LiteralFalse": "false", "LiteralNull": "null"}.get(name)
    out, rest = "", name
    while rest:
        for w in sorted(WORD, key=len, reverse=True):
            if rest.startswith(w):
                out += WORD[w]
                rest = rest[len(w):]
                break
        else:
            return None
    return out


def opname(v):
    while isinstance(v, tuple) and v and v[0] == "index":
        v = v[2]
    if isinstance(v, tuple) and v and v[0] == "V" and v[1] in ENUMS:
        return v[1], v[2]
    return None


def arms_of(F, fn, want, cov):
    pd = {}

    def stop_of(i):
        if not pd:
            pd[0] = postdoms(fn.body)
        return pd[0].get(i, set()) | cov.err_blocks(fn)
    return tag_arms(F, fn, want, stop_of)


def b02(ck, F):
    ck.rule("every (token, text), (token, operator) and (operator, operator) pair of the lexer's, the parser's and the lowering "
            "tables, and every arm of a match on an operator that writes text or builds another stage's operator, agrees with "
            "the ECMA-262 spelling of that operator; the precedence table has ECMA-262's levels in order with its associativity")
    ck.assume("an enum variant means the operator it is named after; arms that build no operator and write no operator text "
              "are not judged")
    C = Consts(F)
    seen = {"token spelling": 0, "token to operator": 0, "arms to another operator": 0, "arms writing an operator": 0}
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name != "parse_js":
            continue
        ins = inserts(F, C, fn)
        for k, v, line in ins:
            if not (isinstance(k, tuple) and k[0] == "V" and k[1] == "parse_js::token::TT"):
                continue
            sp = tt_spelling(k[2])
            if sp is None:
                continue
            if isinstance(v, str):
                seen["token spelling"] += 1
                ck.ob("token:%s" % k[2], v == sp, fn.where(line), "the lexer reads `%s` as the token %s (`%s`)" % (v, k[2], sp))
            o = opname(v)
            if o:
                seen["token to operator"] += 1
                want = ENUMS[o[0]].get(o[1])
                alt = {"OptionalChainingComputedMemberAccess": "?.[", "OptionalChainingCall": "?.(", "Call": "(",
                       "ComputedMemberAccess": "[", "Conditional": "?"}.get(o[1])
                ck.ob("operator:%s:%s" % (p.rsplit("::{", 1)[0].rsplit("::", 1)[-1], k[2]), sp in (want, alt) or want is alt is None,
                      fn.where(line), "the parser takes the token `%s` for the operator %s (`%s`)" % (sp, o[1], want or alt))
    # precedence
    rows = None
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name != "parse_js" or fn.kind not in ("const", "static"):
            continue
        v = C.local(fn, fn.body, 0)
        if not isinstance(v, list):
            continue

        def row(x):
            return isinstance(x, list) and len(x) >= 2 and opname(x[0]) and \
                any(isinstance(y, tuple) and y[0] == "V" and y[1].endswith("::Associativity") for y in x)
        if all(isinstance(l, list) and l and all(row(x) for x in l) for l in v) and len(v) > 5:
            rows = [[(opname(x[0])[1], next(y[2] for y in x if isinstance(y, tuple) and y[1].endswith("::Associativity")))
                     for x in l] for l in v]
            where = fn.where(fn.line)
            break
    if rows is None:
        ck.notes.append("no precedence table of (operator, arity, associativity) rows was found; levels not judged")
    else:
        pos = {n: (i, a) for i, l in enumerate(rows) for n, a in l}
        ck.count("precedence rows", len(pos))
        names = [n for n in pos if n in LEVEL]
        for n in LEVEL:
            ck.ob("precedence:present:" + n, n in pos, where, "the operator %s has no precedence" % n)
        for n in names:
            if LEVEL[n][1]:
                ck.ob("precedence:associativity:" + n, pos[n][1] == LEVEL[n][1], where,
                      "%s (`%s`) associates to the %s" % (n, OPN.get(n, "?"), pos[n][1].lower()))
            bad = [m for m in names if (LEVEL[n][0] < LEVEL[m][0] and not pos[n][0] < pos[m][0]) or
                   (LEVEL[n][0] == LEVEL[m][0] and pos[n][0] != pos[m][0])]
            ck.ob("precedence:level:" + n, not bad, where, "%s does not bind relative to %s as ECMA-262 says" %
                  (n, ", ".join(bad[:4])))
    # arms
    cov = Cover(F, lambda c, f, j: False, lambda t: False)
    for p, fn in sorted(F.fns.items()):
        if fn.derived or "::_::" in p or fn.trait in ("core::fmt::Debug",) and fn.derived:
            continue
        for e, line, sig in arms_of(F, fn, lambda x: x in ENUMS or x == "parse_js::token::TT", cov):
            for vs, a, text in sig:
                if len(vs) != 1:
                    continue
                s = tt_spelling(vs[0]) if e.endswith("::TT") else ENUMS[e].get(vs[0])
                if s is None or any("panic" in x or "unsupported" in x for x in a):
                    continue
                ok = {s}
                if s.endswith("=") and s[:-1] in BIN.values():
                    ok.add(s[:-1])
                if s in ("++", "--"):
                    ok |= {s[0], s[0] + "="}
                if s in ("??", "??="):
                    ok.add("==")  # `x == null` is what `??` tests
                if s in NEGATED:
                    ok.add(NEGATED[s])
                built = {}
                for x in a:
                    ty, _, v = x.rpartition("::")
                    if ty in ENUMS and ty != e and v in ENUMS[ty]:
                        built.setdefault(ty, set()).add(v)
                nm = "%s:%s" % (p, vs[0])
                if e.endswith("::TT"):
                    if len(built) == 1 and len(next(iter(built.values()))) == 1 and len(sig) < 60:
                        ty, v = next((t, next(iter(x))) for t, x in built.items())
                        if ENUMS[ty][v] in SPELL and (s in SPELL):
                            seen["arms to another operator"] += 1
                            good = ENUMS[ty][v] == s or (v == "YieldDelegated") or tok_ok(s, v)
                            ck.ob("arm:" + nm, good, fn.where(line), "%s takes the token `%s` for %s" % (p, s, v))
                    continue
                for ty, bs in sorted(built.items()):
                    seen["arms to another operator"] += 1
                    ck.ob("arm:%s:%s" % (nm, ty.rsplit("::", 1)[-1]), any(ENUMS[ty][b] in ok for b in bs), fn.where(line),
                          "%s turns `%s` (%s) into %s" % (p, s, vs[0], ", ".join(sorted(bs))))
                t = [x.strip() for x in text if isinstance(x, str) and x.strip()]
                if t and all(x in SPELL or x in "*=" for x in t) and fn.crate.name != "vm_js":
                    seen["arms writing an operator"] += 1
                    ck.ob("text:" + nm, s in t or "".join(t) == s or (s == "yield*" and t in (["yield"], ["*"])), fn.where(line),
                          "%s writes `%s` for `%s` (%s)" % (p, " ".join(t), s, vs[0]))
    for k, n in sorted(seen.items()):
        ck.count(k, n)
    ck.floor("operator pairs", sum(seen.values()), 350)


def tok_ok(s, v):
    return {"?": "Conditional", "(": "Call", "[": "ComputedMemberAccess", "?.[": "OptionalChainingComputedMemberAccess",
            "?.(": "OptionalChainingCall"}.get(s) == v


PROPS = {"B02": b02}


# ---------------------------------------------------------------- B03
TOKEN = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=",
         "BitAnd": "&", "BitOr": "|", "BitXor": "^", "Shl": "<<", "Shr": ">>"}
CALLTOK = {"powf": "**", "wrapping_shl": "<<", "wrapping_shr": ">>", "is_lt": "<", "is_le": "<=", "is_gt": ">",
           "is_ge": ">=", "wrapping_add": "+", "wrapping_sub": "-", "wrapping_mul": "*"}
NUMERIC = {"f64", "i32", "u32"}
OPERAND_TY = {"&": {"i32"}, "|": {"i32"}, "^": {"i32"}, "<<": {"i32"}, ">>": {"i32"}, ">>>": {"u32"}}
DIRECTED = {"-", "/", "%", "**", "<<", ">>", ">>>", "<", "<=", ">", ">="}
MATH = {"abs": "abs", "acos": "acos", "acosh": "acosh", "asin": "asin", "asinh": "asinh", "atan": "atan", "atanh": "atanh",
        "cbrt": "cbrt", "ceil": "ceil", "cos": "cos", "cosh": "cosh", "exp": "exp", "expm1": "exp_m1", "floor": "floor",
        "log": "ln", "log10": "log10", "log1p": "ln_1p", "log2": "log2", "sin": "sin", "sinh": "sinh", "sqrt": "sqrt",
        "tan": "tan", "tanh": "tanh", "trunc": "trunc", "atan2": "atan2", "hypot": "hypot"}
TYPEOF = {"Undefined": {"undefined"}, "Null": {"object"}, "Bool": {"boolean"}, "Boolean": {"boolean"}, "Num": {"number"},
          "Number": {"number"}, "Str": {"string"}, "String": {"string"}, "BigInt": {"bigint"}, "Symbol": {"symbol"},
          "Object": {"object", "function"}}
# what Rust's f64 does differently from JavaScript's Number
DIFFERENT = {"round": "rounds halves away from zero (Math.round rounds them up)", "max": "ignores NaN", "min": "ignores NaN",
             "signum": "gives 1 for 0", "powi": "truncates the exponent", "total_cmp": "orders -0 before 0"}
BOOLS = {"bool", "core::result::Result<bool, vm_js::error::VmError>"}
CRATES = ("minify_js", "optimize_js", "vm_js", "runtime_js", "typecheck_ts")


def opty(F, b, o):
    if o[0] == "k":
        return str(o[1])
    t = place_ty(F, b, o[1])
    return str(t) if t is not None else "?"


class Arith:
    def __init__(self, F):
        self.F = F
        self._defs = {}

    def defs(self, body):
        r = self._defs.get(id(body))
        if r is None:
            d = {}
            for i in body.reachable():
                for s in body.bbs[i].stmts:
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append((s[1][1], s[2]))
                c = body.bbs[i].call
                if c is not None:
                    d.setdefault(c.dest[0], []).append((c.dest[1], c))
            r = self._defs[id(body)] = (d, body)
        return r[0]

    def source(self, body, o, comps=(), seen=None, n=0):
        """names of the operands an operand derives from: {"left", "right", ("arg", k)}"""
        if o[0] not in ("c", "m") or n > 60:
            return set()
        seen = seen if seen is not None else set()
        local, proj = o[1]
        comps = tuple(e[1] for e in proj if isinstance(e, tuple) and e[0] == "f") + comps
        for x in comps:
            if x in ("left", "right"):
                return {x}
        if (local, comps) in seen:
            return set()
        seen.add((local, comps))
        if 1 <= local <= body.argc:
            return {("arg", local)}
        out = set()
        for pr, r in self.defs(body).get(local, ()):
            want = comps
            pc = tuple(e[1] for e in pr if isinstance(e, tuple) and e[0] == "f")
            if pc:
                if comps[:len(pc)] != pc:
                    if comps and len(comps) >= len(pc):
                        continue
                else:
                    want = comps[len(pc):]
            if not isinstance(r, tuple):
                for a in r.args:
                    t = opty(self.F, body, a)
                    if t.startswith("&mut") and len(r.args) > 1:
                        continue
                    out |= self.source(body, a, (), seen, n + 1)
                continue
            if r[0] == "use" or r[0] == "rep":
                out |= self.source(body, r[1], want, seen, n + 1)
            elif r[0] == "ref":
                out |= self.source(body, ("c", r[2]), want, seen, n + 1)
            elif r[0] == "cast":
                out |= self.source(body, r[2], want, seen, n + 1)
            elif r[0] in ("tup", "arr"):
                if want and want[0].isdigit() and int(want[0]) < len(r[1]):
                    out |= self.source(body, r[1][int(want[0])], want[1:], seen, n + 1)
                else:
                    for x in r[1]:
                        out |= self.source(body, x, (), seen, n + 1)
            elif r[0] == "agg":
                if want and want[0] in r[3]:
                    out |= self.source(body, r[4][r[3].index(want[0])], want[1:], seen, n + 1)
                else:
                    for x in r[4]:
                        out |= self.source(body, x, (), seen, n + 1)
            else:
                for x in rv_operands(r):
                    out |= self.source(body, x, (), seen, n + 1)
        return out

    def order(self, body, l, r):
        """+1 left to right, -1 swapped, 0 unknown"""
        a, b = self.source(body, l), self.source(body, r)
        if a == {"left"} and b == {"right"}:
            return 1
        if a == {"right"} and b == {"left"}:
            return -1
        if len(a) == len(b) == 1 and a != b:
            x, y = next(iter(a)), next(iter(b))
            if isinstance(x, tuple) and isinstance(y, tuple):
                return 1 if x[1] < y[1] else -1
        return 0

    def tokens(self, fn, blocks, depth=0):
        """[(token, operand type, order, line)] of the arithmetic done in blocks"""
        F, b = self.F, fn.body
        out = []
        for y in sorted(blocks):
            bb = b.bbs[y]
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "bin":
                    op = re.sub("WithOverflow|Unchecked", "", r[1])
                    ty = opty(F, b, r[2])
                    if ty in NUMERIC and op in TOKEN and r[3][0] != "k" and r[2][0] != "k":
                        t = TOKEN[op]
                        if t == ">>" and ty == "u32":
                            t = ">>>"
                        out.append((t, ty, self.order(b, r[2], r[3]), s[3]))
                elif r[0] == "un" and opty(F, b, r[2]) in NUMERIC:
                    out.append(({"Neg": "-x", "Not": "~"}[r[1]], opty(F, b, r[2]), 0, s[3]))
                elif r[0] == "un" and r[1] == "Not" and opty(F, b, r[2]) == "bool":
                    out.append(("!", "bool", 0, s[3]))
                elif r[0] == "clo" and depth < 2 and r[1] in F.fns:
                    f2 = F.fns[r[1]]
                    out += [(t, ty, 0, s[3]) for t, ty, _, _ in self.tokens(f2, f2.body.reachable(), depth + 1)]
            c = bb.call
            if c is None:
                continue
            if c.last in CALLTOK and not F.targets(c):
                m = re.search(r"impl (f64|i32|u32)>", c.name)
                o = self.order(b, c.args[0], c.args[1]) if len(c.args) == 2 else 0
                if c.last.startswith("is_"):
                    # the comparison whose outcome is tested
                    o = self.cmp_order(b, c.args[0])
                t = CALLTOK[c.last]
                if t == ">>" and m and m.group(1) == "u32":
                    t = ">>>"
                out.append((t, m.group(1) if m else "ord", o, c.line))
            for a in c.args:
                if a[0] == "k" and getattr(a[1], "kind", "") == "closure" and a[1].path in F.fns:
                    f2 = F.fns[a[1].path]
                    o = self.cmp_order(b, c.args[0]) if c.args else 0
                    out += [(t, ty, o if ty == "ord" else 0, c.line)
                            for t, ty, _, _ in self.tokens(f2, f2.body.reachable(), depth + 1)]
            tg = list(F.targets(c))
            if len(tg) == 1 and depth < 2:
                f2 = F.fns[tg[0]]
                if f2.crate is fn.crate and f2.body.argc and \
                        all(str(f2.body.locals[k][0]) in NUMERIC for k in range(1, f2.body.argc + 1)):
                    call_o = self.order(b, c.args[0], c.args[1]) if len(c.args) == 2 else 0
                    out += [(t, ty, o * call_o, c.line) for t, ty, o, _ in self.tokens(f2, f2.body.reachable(), depth + 1)]
        return out

    def cmp_order(self, body, o, n=0):
        """order of the two values whose comparison gave o"""
        if o[0] not in ("c", "m") or n > 10:
            return 0
        for pr, r in self.defs(body).get(o[1][0], ()):
            if isinstance(r, tuple):
                for x in rv_operands(r):
                    k = self.cmp_order(body, x, n + 1)
                    if k:
                        return k
                if r[0] == "ref":
                    k = self.cmp_order(body, ("c", r[2]), n + 1)
                    if k:
                        return k
                continue
            if len(r.args) >= 2 and not any(a[0] == "k" and getattr(a[1], "kind", "") == "closure" for a in r.args):
                return self.order(body, r.args[-2], r.args[-1])
            if r.args:
                k = self.cmp_order(body, r.args[0], n + 1)
                if k:
                    return k
        return 0


class Finite:
    """Interprets one arm of a match over a finite domain: numbers {nan, zero, other}, texts {empty, other},
    BigInts {zero, other}.  Gives the boolean the function returns, or None when the code is outside the domain."""

    def __init__(self, F, C):
        self.F, self.C = F, C

    def run(self, fn, block, cls, kind, depth=0, env=None):
        body = fn.body
        env = dict(env or {})
        P = ("P", cls)

        def val(o):
            if o[0] == "k":
                v = self.C.operand(fn, body, o)
                t = str(o[1])
                if t == "bool":
                    return bool(v) if v is not None else None
                if t == "f64":
                    return ("Z",) if o[3] in (0, 0.0, "0", "0f64") or str(o[3]) in ("0.0", "-0.0") else None
                if isinstance(v, int):
                    return ("Z",) if v == 0 else None
                if isinstance(v, str):
                    return ("S", v)
                return None
            base, proj = o[1]
            if any(isinstance(e, tuple) and e[0] == "v" for e in proj) and base not in env:
                return P
            v = env.get(base)
            if isinstance(v, tuple) and v and v[0] == "B" and proj:
                return v[1]
            return v

        def cmp(op, a, b):
            if a == P and b in (("Z",), ("S", ""), ("S", "0")):
                if kind == "num":
                    z = cls == "zero"
                    return {"Eq": z, "Ne": not z}.get(op)
                z = cls == "zero"
                if kind == "str" and b != ("S", "") and b != ("Z",):
                    return None
                return {"Eq": z, "Ne": not z, "Gt": not z}.get(op)
            if b == P:
                return cmp(op, b, a)
            if isinstance(a, bool) and isinstance(b, bool):
                return {"Eq": a == b, "Ne": a != b}.get(op)
            return None
        steps = 0
        b = block
        while steps < 400:
            steps += 1
            bb = body.bbs[b]
            for s in bb.stmts:
                if s[0] != "=":
                    continue
                d, r = s[1][0], s[2]
                if r[0] == "use":
                    v = val(r[1])
                elif r[0] == "ref":
                    v = val(("c", r[2]))
                elif r[0] == "cast":
                    v = val(r[2])
                elif r[0] == "bin":
                    x, y = val(r[2]), val(r[3])
                    v = cmp(r[1], x, y)
                    if v is None and isinstance(x, bool) and isinstance(y, bool):
                        v = {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}.get(r[1])
                elif r[0] == "un" and r[1] == "Not":
                    v = val(r[2])
                    v = (not v) if isinstance(v, bool) else None
                elif r[0] == "agg" and r[2] in ("Some", "Ok") and r[4]:
                    v = ("B", val(r[4][0]))
                elif r[0] == "discr":
                    v = val(("c", r[1]))
                    v = ("D",) if v == P or isinstance(v, tuple) and v and v[0] == "B" else None
                elif r[0] == "un" and r[1] == "PtrMetadata":
                    v = val(r[2])
                else:
                    v = None
                env[d] = v
            t = bb.term
            if t[0] == "ret":
                v = env.get(0)
                return v[1] if isinstance(v, tuple) and v and v[0] == "B" else v
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "drop":
                b = t[2]
            elif t[0] == "assert":
                b = t[4]
            elif t[0] == "switch":
                v = val(t[1])
                if isinstance(v, bool):
                    b = dict(t[2]).get(int(v), t[3])
                elif v == ("D",):
                    b = dict(t[2]).get(0, t[3])
                elif v == P and kind != "num":
                    b = dict(t[2]).get(0, t[3]) if cls == "zero" else t[3]
                else:
                    return None
            elif t[0] == "call":
                c = bb.call
                a = [val(x) for x in c.args]
                v = None
                if a and a[0] == P:
                    if c.last == "is_nan":
                        v = cls == "nan"
                    elif c.last in ("is_empty", "is_zero"):
                        v = cls == "zero"
                    elif c.last in ("eq", "ne") and len(a) == 2:
                        v = cmp(c.last.capitalize(), a[0], a[1])
                    elif str(self.F and body.locals[c.dest[0]][0]) == "bool":
                        v = None
                    else:
                        v = P
                elif len(a) > 1 and P in a and str(body.locals[c.dest[0]][0]) != "bool":
                    v = P
                elif len(a) == 2 and c.last in ("eq", "ne"):
                    v = cmp(c.last.capitalize(), a[0], a[1])
                elif len(a) == 1 and c.last in ("from", "into", "zero", "default"):
                    v = a[0]
                elif not a and c.last == "zero":
                    v = ("Z",)
                elif len(a) == 1 and isinstance(a[0], tuple) and a[0] and a[0][0] == "B":
                    v = a[0]
                env[c.dest[0]] = v
                if c.target is None:
                    return None
                b = c.target
            else:
                return None
        return None


TRUTH = {"Num": ("num", {"nan": False, "zero": False, "other": True}), "Number": ("num", {"nan": False, "zero": False, "other": True}),
         "LitNum": ("num", {"nan": False, "zero": False, "other": True}),
         "Str": ("str", {"zero": False, "other": True}), "String": ("str", {"zero": False, "other": True}),
         "LitStr": ("str", {"zero": False, "other": True}),
         "BigInt": ("big", {"zero": False, "other": True}), "LitBigInt": ("big", {"zero": False, "other": True}),
         "Null": ("none", {"other": False}), "Undefined": ("none", {"other": False}), "LitNull": ("none", {"other": False})}


def arms(F, fn, want, cov):
    """(adt, line, {variant or tuple of variants: arm block}, stop)"""
    b = fn.body
    disc, pd = {}, None
    for i in b.reachable():
        for s in b.bbs[i].stmts:
            if s[0] == "=" and s[2][0] == "discr" and not s[1][1]:
                disc[s[1][0]] = s[2][1]
    for i in sorted(b.reachable()):
        t = b.bbs[i].term
        if t[0] != "switch" or t[1][0] not in ("c", "m") or t[1][1][0] not in disc or t[1][1][1]:
            continue
        ty = place_ty(F, b, disc[t[1][1][0]])
        ty = ty.peel() if ty is not None else None
        if ty is None or ty.kind != "adt" or not want(ty.path):
            continue
        if pd is None:
            pd = postdoms(b)
        nm = {int(v.discr): v.name for v in F.adts[ty.path].variants}
        by = {}
        for v, x in t[2]:
            if v in nm:
                by.setdefault(x, []).append(nm[v])
        yield ty.path, t[-1], by, pd.get(i, set()) | (cov.err_blocks(fn) if cov else set())


def region(b, x, stop):
    reg, st = set(), [x]
    while st:
        y = st.pop()
        if y in reg or y in stop:
            continue
        reg.add(y)
        st.extend(b.bbs[y].succ())
    return reg


def b03(ck, F):
    ck.rule("in every arm of a match on one operator that computes on f64, i32 or u32 (the arm's blocks, the closures it "
            "passes, and helpers that take only numbers), the machine operation is the one ECMA-262 gives that operator, on the "
            "right integer type (`>>>` on u32, the other bitwise operators on i32) and with the left operand first")
    ck.rule("an arm of `!=`/`!==` computes something else than the arm of `==`/`===` of the same match; the arm of a `Math` "
            "function name calls that function's f64 primitive; f64 methods that differ from JavaScript (%s, powf without a "
            "test for a NaN and an infinite exponent) and comparison of Rust strings by UTF-8 are not used to fold; the folders turn a number into a 32-bit integer only by reduction modulo 2^32" %
            ", ".join(sorted(DIFFERENT)))
    ck.rule("every function from a value or literal enum to bool or Option<bool> that is false for null is ToBoolean: its arms, "
            "interpreted over {NaN, 0, other}, {empty, other} and {0n, other}, give false exactly for null, undefined, 0, NaN, "
            "the empty string and 0n; every arm from a value kind to a typeof name gives that kind's typeof")
    ck.assume("an enum variant means the operator or the kind of value it is named after; the f64 primitives of Rust and the "
              "`Math` functions of JavaScript agree except for those listed; arms that do no arithmetic are not judged")
    A = Arith(F)
    C = Consts(F)
    cov = Cover(F, lambda c, f, j: False, lambda t: False)
    n_ar = n_ord = n_truth = n_typeof = n_math = n_pair = n_prim = n_conv = 0
    KINDS = {"Null", "Undefined"}

    def value_enum(p):
        a = F.adts.get(p)
        return a is not None and a.kind == "enum" and a.path.split("::")[0] in CRATES + ("hir_js", "types_ts_interned") and \
            KINDS <= {v.name for v in a.variants}
    for p, fn in sorted(F.fns.items()):
        if fn.crate.name not in CRATES or fn.derived:
            continue
        b = fn.body
        for e, line, by, stop in arms(F, fn, lambda x: x in ENUMS, cov):
            toks = {}
            for x, vs in sorted(by.items()):
                if len(vs) > 1:
                    continue
                s = ENUMS[e].get(vs[0])
                reg = region(b, x, stop)
                tk = A.tokens(fn, reg)
                calls = sorted([b.bbs[y].call.name for y in reg if b.bbs[y].call is not None] +
                               [str(st[2][1:]) for y in reg for st in b.bbs[y].stmts
                                if st[0] == "=" and (st[2][0] == "agg" or st[2][0] == "use" and st[2][1][0] == "k")])
                if not any(str(b.locals[b.bbs[y].call.dest[0]][0]) in BOOLS for y in reg if b.bbs[y].call is not None):
                    calls = []
                toks[vs[0]] = (s, sorted((t, ty) for t, ty, o, l in tk) if calls else [], calls)
                if s is None:
                    continue
                if s.endswith("=") and s[:-1] in BIN.values():
                    s = s[:-1]
                ar = [k for k in tk if k[0] != "!"]
                un = vs[0] in ("UnaryNegation", "Neg", "Minus", "BitNot", "BitwiseNot")
                if un:
                    ar = [k for k in ar if k[0] in ("-x", "~")]
                else:
                    ar = [k for k in ar if k[0] not in ("-x", "~")]
                if not ar:
                    continue
                # an arm holding a further match on an operator is judged there
                want = {"UnaryNegation": "-x", "Neg": "-x", "Minus": "-x"}.get(vs[0], s)
                if want in ("++", "--"):
                    want = want[0]
                if want not in set(TOKEN.values()) | {"**", ">>>", "-x", "~"}:
                    continue
                n_ar += 1
                good = [k for k in ar if k[0] == want and (k[1] == "ord" or k[1] in OPERAND_TY.get(want, NUMERIC)) and
                        (want != "~" or k[1] == "i32")]
                nm = "%s:%s" % (p, vs[0])
                ck.ob("arith:" + nm, bool(good), fn.where(ar[0][3]), "%s computes `%s` with %s" %
                      (p, s, ", ".join("`%s` on %s" % (t, ty) for t, ty, o, l in ar[:3])))
                if want in DIRECTED:
                    od = [k[2] for k in good if k[2]]
                    if od:
                        n_ord += 1
                        ck.ob("operands:" + nm, 1 in od, fn.where(good[0][3]),
                              "%s computes `%s` with its operands swapped" % (p, s))
            for v, (s, tk, calls) in sorted(toks.items()):
                if s in ("!=", "!=="):
                    for w, (s2, tk2, calls2) in sorted(toks.items()):
                        if s2 == NEGATED[s] and (tk or calls or tk2 or calls2):
                            n_pair += 1
                            ck.ob("negation:%s:%s" % (p, v), (tk, calls) != (tk2, calls2), fn.where(line),
                                  "%s computes `%s` exactly as `%s`" % (p, s, s2))
        # truthiness and typeof
        ret = str(b.locals[0][0])
        boolish = ret == "bool" or re.fullmatch(r"(core::option::Option|core::result::Result)<bool(, .*)?>", ret)
        for e, line, by, stop in arms(F, fn, lambda x: value_enum(x) or x.endswith("::expr::Expr") and fn.crate.name == "minify_js",
                                      None):
            fin = Finite(F, C)
            names = {v: x for x, vs in by.items() for v in vs}
            if boolish and fn.kind != "closure" and (fin.run(fn, names["Null"], "other", "none") is False if "Null" in names else
                                                     "LitNull" in names and fin.run(fn, names["LitNull"], "other", "none") is False):
                res = {}
                for v, x in sorted(names.items()):
                    if v in TRUTH:
                        kind, exp = TRUTH[v]
                        for cls, want in exp.items():
                            res[v, cls] = (fin.run(fn, x, cls, kind), want)
                # ToBoolean, not a predicate such as "is a string": booleans keep their value and something is true
                if sum(1 for g, w in res.values() if g == w) >= max(3, len(res) // 2) and any(g is True for g, w in res.values()) \
                        and ("LitNull" in names or res.get(("Undefined", "other"), (False, False))[0] is False) and len(res) >= 4:
                    for (v, cls), (g, w) in sorted(res.items()):
                        if g is not None:
                            n_truth += 1
                            ck.ob("truthiness:%s:%s:%s" % (p, v, cls), g == w, fn.where(line), "%s takes %s for %s" % (
                                p, {"nan": "NaN", "zero": {"num": "0", "str": "the empty string", "big": "0n"}.get(TRUTH[v][0], v),
                                    "other": {"num": "a number other than 0", "str": "a non-empty string",
                                              "big": "a BigInt other than 0n"}.get(TRUTH[v][0], v.lower())}[cls],
                                "true" if g else "false"))
        for e, line, by, stop in arms(F, fn, lambda x: value_enum(x) or x in ("hir_js::hir::Literal",), None):
            texts = {}
            for x, vs in sorted(by.items()):
                tx = {v for y in region(b, x, stop) for st in b.bbs[y].stmts if st[0] == "=" and st[2][0] in ("use", "ref", "cast")
                      for o in rv_operands(st[2]) if o[0] == "k" for v in [C.operand(fn, b, o)] if isinstance(v, str)} | \
                     {v for y in region(b, x, stop) if b.bbs[y].call is not None for a in b.bbs[y].call.args
                      for v in [C.operand(fn, b, a)] if isinstance(v, str)}
                texts[x] = tx & set().union(*TYPEOF.values())
            if len(set().union(*texts.values(), set())) < 4 or fn.crate.name == "typecheck_ts":
                continue
            for x, vs in sorted(by.items()):
                for v in vs:
                    if v in TYPEOF and texts[x] and len(texts[x]) < 4:
                        n_typeof += 1
                        ck.ob("typeof:%s:%s" % (p, v), bool(texts[x] & TYPEOF[v]), fn.where(line), "%s gives `%s` for %s" %
                              (p, "/".join(sorted(texts[x])), v))
        # Math and primitives
        if fn.crate.name in ("typecheck_ts",):
            continue
        pw = set()
        for i in sorted(b.reachable()):
            c = b.bbs[i].call
            if c is None:
                continue
            if c.last == "eq" and c.target is not None:
                nm = next((v for v in (C.operand(fn, b, a) for a in c.args) if isinstance(v, str) and v.startswith("Math.")), None)
                t = b.bbs[c.target].term
                if nm and t[0] == "switch":
                    stops = {x for x in b.reachable() if b.bbs[x].call is not None and b.bbs[x].call.last == "eq"} | \
                        pdsets(fn).get(c.target, set())
                    reg = region(b, t[3], stops)
                    prims = {b.bbs[x].call.last for x in reg if b.bbs[x].call is not None and "impl f64>" in b.bbs[x].call.name}
                    f = nm[5:]
                    if f in MATH and prims:
                        n_math += 1
                        ck.ob("math:%s:%s" % (p, nm), MATH[f] in prims, fn.where(c.line), "%s evaluates %s with f64::%s" %
                              (p, nm, ", f64::".join(sorted(prims))))
            if "impl f64>" in c.name:
                n_prim += 1
                if c.last in DIFFERENT and fn.crate.name in ("minify_js", "optimize_js", "vm_js", "runtime_js"):
                    ck.ob("f64:%s:%s" % (p, c.last), False, fn.where(c.line), "%s uses f64::%s, which %s" % (p, c.last, DIFFERENT[c.last]))
                pw.add(c.last)
        if "powf" in pw:
            ck.ob("pow:" + p, pow_ok(F, fn), fn.where(fn.line), "%s uses f64::powf without a test for a NaN and for "
                  "an infinite exponent: JavaScript gives NaN for 1 ** NaN and (+-1) ** (+-Infinity)" % p)
        # ToInt32 and ToUint32
        if fn.crate.name in ("minify_js", "optimize_js"):
            for i in sorted(b.reachable()):
                for st in b.bbs[i].stmts:
                    if st[0] != "=" or st[2][0] != "cast" or opty(F, b, st[2][2]) != "f64":
                        continue
                    ty = str(st[2][3])
                    if ty in ("i32", "u32"):
                        n_conv += 1
                        ck.ob("toint:%s:%s" % (p, ty), ty == "u32" and modular(A, b, st[2][2]), fn.where(st[3]),
                              "%s converts a number to %s with `as`, which saturates; ToInt32 wraps modulo 2^32" % (p, ty))
                    elif ty in ("i64", "u64", "i128", "u128", "isize", "usize") and narrowed(b, st[1]):
                        n_conv += 1
                        ck.ob("toint:%s:%s" % (p, ty), modular(A, b, st[2][2], rem=ty[0] == "i") or bounded(F, b), fn.where(st[3]),
                              "%s converts a number to a 32-bit integer through %s, where `as` saturates from 2^%d on; ToInt32 wraps "
                              "modulo 2^32" % (p, ty, 127 if "128" in ty else 63))
        # strings
        if fn.crate.name in ("minify_js", "optimize_js") and re.search(r"::(eval|const_fold|consteval)", p):
            for i in sorted(b.reachable()):
                c = b.bbs[i].call
                if c is not None and c.last in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") and \
                        any(opty(F, b, a).replace("&", "") in ("str", "alloc::string::String") for a in c.args[:1]):
                    ck.ob("strcmp:" + p, False, fn.where(c.line), "%s orders JavaScript strings by UTF-8, not by UTF-16 code unit" % p)
    for k, n in (("operator arms with arithmetic", n_ar), ("operand orders", n_ord), ("negations", n_pair),
                 ("ToBoolean cases", n_truth), ("typeof cases", n_typeof), ("Math functions", n_math), ("f64 primitives", n_prim), ("number to integer conversions", n_conv)):
        ck.count(k, n)
    ck.floor("semantic facts of operators and values", n_ar + n_truth + n_typeof + n_math, 60)


_PD = {}


def pdsets(fn):
    r = _PD.get(fn.path)
    if r is None:
        r = _PD[fn.path] = postdoms(fn.body)
    return r


def modular(A, body, o, n=0, rem=False):
    """the number comes from a reduction modulo 2^32; with `rem`, one that keeps the sign will do"""
    if o[0] not in ("c", "m") or n > 8:
        return False
    for pr, r in A.defs(body).get(o[1][0], ()):
        if not isinstance(r, tuple):
            if r.last == "rem_euclid" and two32(r.args[1]) or \
                    r.last in ("trunc", "floor") and modular(A, body, r.args[0], n + 1, rem):
                return True
            continue
        if rem and r[0] == "bin" and r[1] == "Rem" and two32(r[3]):
            return True
        if r[0] != "bin" and any(modular(A, body, x, n + 1, rem) for x in rv_operands(r)):
            return True
    return False


def two32(o):
    """2^32, or a value that is not written out here"""
    if o[0] != "k" or o[2] != "f":
        return True
    try:
        return float(o[3]) == 4294967296.0
    except ValueError:
        return True


def narrowed(b, place):
    """the integer stored there is cast to a 32-bit one"""
    if place[1]:
        return False
    live = {place[0]}
    ch = True
    while ch:
        ch = False
        for i in b.reachable():
            for s in b.bbs[i].stmts:
                if s[0] != "=" or not any(o[0] in ("c", "m") and o[1][0] in live for o in rv_operands(s[2])):
                    continue
                if s[2][0] == "cast" and str(s[2][3]) in ("i32", "u32"):
                    return True
                if s[2][0] in ("use", "cast", "bin") and not s[1][1] and s[1][0] not in live and s[1][0] != 0:
                    live.add(s[1][0])
                    ch = True
    return False


def bounded(F, b):
    """a number is compared with a constant"""
    return any(s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge") and
               any(o[0] == "k" and o[2] == "f" for o in s[2][2:4]) for i in b.reachable() for s in b.bbs[i].stmts)


def pow_ok(F, fn):
    """powf is reached only past a test for a NaN exponent and one for an infinite exponent, in fn or in each caller"""
    b = fn.body
    need = {"is_nan": {"is_nan"}, "inf": {"is_infinite", "is_finite"}}
    sites = [i for i in b.reachable() if b.bbs[i].call is not None and b.bbs[i].call.last == "powf" and "impl f64>" in b.bbs[i].call.name]
    tests = {"is_nan": set(), "inf": set()}
    for i in b.reachable():
        c = b.bbs[i].call
        if c is None or "impl f64>" not in c.name:
            continue
        if c.last == "is_nan":
            tests["is_nan"].add(i)
        elif c.last in ("is_infinite",):
            tests["inf"].add(i)
        elif c.last == "is_finite":
            tests["inf"].add(i)
            tests["is_nan"].add(i)
    return all(tests.values())


PROPS["B03"] = b03
