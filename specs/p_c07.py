"""C07: literal tokens (their shape is what the scanner's contract, C06, promises) and the values made of them."""
from scanlib import *

TITLE = "Literal tokens convert to the right value"
AST = ["bant/frontend/ast.cc"]
ASSUME = ["std::from_chars as specified (longest run of digits of the base; out-of-range is an error)",
          "Arena::New constructs the object with the given arguments (C01)",
          "the token has the shape the scanner gives literals (C06)"]
VAL = z3.Function("digits.value", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # base, first digit, how many


def too_big(base, p, k):
    return VAL(base, p, k) > (1 << 63) - 1


def dig(base, c):
    return z3.If(base == 8, z3.And(c >= 48, c <= 55), z3.If(base == 16, is_xdigit(c), is_digit(c)))


def run_of(eng, p, end, base, k):
    """k is the number of digits of the base that [p, end) starts with"""
    i = z3.Int("i!dr")
    return z3.And(k >= 0, p + k <= end, z3.ForAll([i], z3.Implies(z3.And(p <= i, i < p + k), dig(base, M(eng, i))), patterns=[M(eng, i)]),
                  z3.Implies(p + k < end, z3.Not(dig(base, M(eng, p + k)))))


def models(eng, prog):
    def new(eng, st, e, _):
        cls = strip(pointee(strip(e["t"])))
        outs = []
        for vs, s in eng.evs(e["args"], st):
            c = [f for f in prog.by_q.get(cls + "::" + cls.split("::")[-1], []) if not f["implicit"] and len(f["params"]) == len(vs)]
            if len(c) != 1:
                raise Unsupported("constructor of " + cls)
            for v, s2 in eng.run_ctor(c[0], cls, [eng.val(x, s) for x in vs], s):
                outs.append((PtrV(eng.new_cell(s2, eng.val(v, s2), cls, "node")), s2))
        return outs

    def fc(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            p, end = eng.num(eng.val(vs[0], s)), eng.num(eng.val(vs[1], s))
            base = eng.num(eng.val(vs[3], s)) if len(vs) > 3 else I(10)
            eng.oblige(s, p <= end, "from_chars() range")
            eng.oblige(s, z3.Or(base == 8, base == 10, base == 16), "number base of a literal")
            k = z3.Int(E.uid("run"))
            s.assume(run_of(eng, p, end, base, k), VAL(base, p, k) >= 0)
            rg = int_range(strip(e["args"][2]["t"]))
            if rg is None:
                raise Unsupported("from_chars into " + e["args"][2]["t"])
            big = VAL(base, p, k) > rg[1]
            t = strip(e["t"])
            mkr = lambda ptr, ec: StructV(t, {"ptr": simp(ptr), "ec": I(ec)})
            for case, g in (("none", z3.And(k == 0)), ("big", z3.And(k > 0, big)), ("ok", z3.And(k > 0, z3.Not(big)))):
                a = s.fork().assume(g)
                if not eng.feasible(a):
                    continue
                if case == "none":
                    outs.append((mkr(p, 22), a))
                elif case == "big":
                    outs.append((mkr(p + k, 34), a))
                else:
                    eng.wr(a, vs[2], VAL(base, p, k))
                    outs.append((mkr(p + k, 0), a))
        return outs
    eng.overrides["bant::Arena::New"] = new
    eng.overrides["std::from_chars"] = fc


def begin(prog, q):
    fn = fn_of(prog, q)
    eng = E.Engine(prog, "flat")
    eng.opts["termination"] = True
    models(eng, prog)
    st = start(eng, fn)
    p, n = z3.Ints("text length")
    st.assume(p > 0, n >= 1, p + n < 1 << 62)
    st.g["$bufs"] = ((p, p + n),)
    return fn, eng, st, p, n


def node(eng, s, r):
    """The object a result points to, or None."""
    r = eng.val(r, s)
    if isinstance(r, PtrV):
        return eng.rd(s, r.lv)
    if isinstance(r, z3.ExprRef) and z3.is_int_value(simp(r)) and simp(r).as_long() == 0:
        return None
    raise Unsupported("result of FromLiteral")


def u_int(prog):
    fn, eng, st, p, n = begin(prog, "bant::IntScalar::FromLiteral")
    i = z3.Int("i!tk")
    c1 = M(eng, p + 1)
    hexa = z3.And(n >= 2, c1 == 120)
    octa = z3.And(n >= 2, c1 == 111)
    off = z3.If(z3.Or(hexa, octa), I(2), I(0))
    base = z3.If(hexa, I(16), z3.If(octa, I(8), I(10)))
    # shape of a number token: digits (hexadecimal ones behind 0x) with at most one dot, after an optional 0x or 0o
    st.assume(is_digit(M(eng, p)), z3.Implies(z3.Or(hexa, octa), M(eng, p) == 48),
              z3.ForAll([i], z3.Implies(z3.And(p + off <= i, i < p + n), z3.Or(M(eng, i) == 46, is_digit(M(eng, i)), z3.And(hexa, is_xdigit(M(eng, i))))), patterns=[M(eng, i)]))
    k = z3.Int("digits")
    st.assume(run_of(eng, p + off, p + n, base, k))
    end = p + off + k
    ok = z3.And(k > 0, z3.Not(too_big(base, p + off, k)), z3.Or(end == p + n, M(eng, end) == 46))
    for r, s in run(eng, fn, None, [OpaqueV("bant::Arena *"), FlatSV(p, n)], st):
        v = node(eng, s, r)
        if v is None:
            post(eng, s, z3.Not(ok), "only what is no number of its base, or out of range, is rejected")
            continue
        post(eng, s, ok, "digits that do not exist in the base, and values out of range, are rejected")
        post(eng, s, v.f["value_"] == VAL(base, p + off, k), "the value is that of the digits in the base of the literal")
        t = v.f["string_rep_"]
        post(eng, s, z3.And(t.p == p, t.n == n), "the text of the literal is kept")
    return eng


def u_str(prog):
    fn, eng, st, p, n = begin(prog, "bant::StringScalar::FromLiteral")
    raw = z3.Or(M(eng, p) == 114, M(eng, p) == 82)
    o = z3.If(raw, I(1), I(0))
    q = M(eng, p + o)
    e = p + n
    # shape of a string token: optional r/R, quote(s), content, the same quote(s); two quotes at the start and one more make it a triple quoted one
    tri = z3.And(n - o >= 3, M(eng, p + o + 1) == q, M(eng, p + o + 2) == q)
    st.assume(z3.Or(q == 34, q == 39), n - o >= 2, M(eng, e - 1) == q, z3.Implies(tri, z3.And(n - o >= 6, M(eng, e - 2) == q, M(eng, e - 3) == q)))
    w = z3.If(tri, I(3), I(1))
    for r, s in run(eng, fn, None, [OpaqueV("bant::Arena *"), FlatSV(p, n)], st):
        v = node(eng, s, r)
        post(eng, s, z3.BoolVal(v is not None), "every string token has a value")
        if v is None:
            continue
        t = v.f["string_rep_"]
        post(eng, s, z3.And(t.p == p + o + w, t.n == n - o - 2 * w), "the value is the text between the quotes")
        post(eng, s, eng.bool(v.f["is_raw_"]) == raw, "raw strings are remembered as raw")
        post(eng, s, eng.bool(v.f["is_triple_quoted_"]) == tri, "triple quoted strings are remembered as such")
    return eng


def units(tier):
    return [Unit("number literals", AST, u_int), Unit("string literals", AST, u_str)]


witness = W.searcher("c07.cc", ["bant/frontend/ast.cc", "bant/frontend/print-visitor.cc", "bant/frontend/scanner.cc", "bant/frontend/named-content.cc", "bant/frontend/linecolumn-map.cc", "bant/frontend/source-locator.cc"])
