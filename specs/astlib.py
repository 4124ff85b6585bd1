"""The syntax tree as the tools see it: nodes are addresses; their kind, text, children are functions of the address."""
from speclib import *

B, Z, SS = z3.BoolSort(), z3.IntSort(), z3.StringSort()
KIND = z3.Function("node.kind", Z, Z)
KINDS = {"Identifier": 1, "Assignment": 2, "Scalar": 3, "List": 4, "BinOp": 5}     # an assignment is a BinOp, too
TEXT = z3.Function("node.text", Z, SS)          # of scalars and identifiers
INTV = z3.Function("node.int", Z, Z)
LEFT = z3.Function("node.left", Z, Z)
RIGHT = z3.Function("node.right", Z, Z)
LEN = z3.Function("list.length", Z, Z)
ITEM = z3.Function("list.item", Z, Z, Z)
AST_ASSUME = ["syntax tree nodes are immutable while they are looked at; accessors (AsString, id, left, right, CastAs...) return what the node was made with; list elements are never null"]


def is_kind(n, k):
    c = KIND(n) == KINDS[k]
    return z3.Or(c, KIND(n) == KINDS["Assignment"]) if k == "BinOp" else c


def install(eng):
    """Calls of the accessors by their meaning."""
    def on(f):
        def ov(eng, st, e, _):
            outs = []
            for o, s in eng.ev(e["obj"], st):
                if e.get("arrow"):
                    a = eng.val(o, s)
                    if isinstance(a, PtrV) and isinstance(a.lv, HeapLV):
                        a = a.lv.addr
                    eng.oblige(s, a != 0, "non-null node is asked")
                else:
                    if not isinstance(o, HeapLV):
                        raise Unsupported("node that is not in the heap")
                    a = o.addr
                r = f(a, s)
                outs.append((r, s))
            return outs
        return ov
    for k in KINDS:
        for cls in ("Node", "Identifier", "Assignment", "Scalar", "List", "BinOpNode", "FunCall", "StringScalar", "IntScalar"):
            eng.overrides["bant::%s::CastAs%s" % (cls, k)] = on(lambda a, s, k=k: simp(z3.If(is_kind(a, k), a, I(0))))

    def text(a, s):
        s.assume(z3.Length(TEXT(a)) < 1 << 59)
        return StrV(TEXT(a))

    def ptr(f):
        def g(a, s):
            s.assume(f(a) >= 0, f(a) < E.TWO64)
            return f(a)
        return g

    def ln(a, s):
        s.assume(LEN(a) >= 0, LEN(a) < 1 << 60)
        return LEN(a)

    def intv(a, s):
        s.assume(INTV(a) >= -(1 << 63), INTV(a) < 1 << 63)
        return INTV(a)
    eng.overrides["bant::Scalar::AsString"] = eng.overrides["bant::Identifier::id"] = on(text)
    eng.overrides["bant::Scalar::AsInt"] = eng.overrides["bant::IntScalar::AsInt"] = on(intv)
    for n, f in (("left", LEFT), ("right", RIGHT)):
        eng.overrides["bant::BinNode::" + n] = on(ptr(f))
    eng.overrides["bant::FunCall::identifier"] = on(ptr(LEFT))
    eng.overrides["bant::FunCall::argument"] = on(ptr(RIGHT))
    eng.overrides["bant::Assignment::value"] = on(ptr(RIGHT))
    eng.overrides["bant::Assignment::maybe_identifier"] = on(lambda a, s: simp(z3.If(z3.And(LEFT(a) != 0, is_kind(LEFT(a), "Identifier")), LEFT(a), I(0))))
    eng.overrides["bant::List::size"] = on(ln)
    eng.overrides["bant::List::empty"] = on(lambda a, s: ln(a, s) == 0)
    eng.opts.setdefault("range_hooks", {})["bant::List"] = list_loop
    eng.assumed.add("syntax tree accessors")


def list_loop(eng, n, st, r):
    if not isinstance(r, HeapLV):
        raise Unsupported("list that is not in the heap")
    L = r.addr
    idx = eng.new_cell(st, I(0), "unsigned long", "idx")
    st.assume(LEN(L) >= 0, LEN(L) < 1 << 60)

    def step(s0):
        exits, backs = [], []
        i = eng.rd(s0, idx)
        for b, s in eng.split(i < LEN(L), s0):
            if not b:
                exits.append(("next", s, None))
                continue
            el = ITEM(L, i)
            s.assume(el > 0, el < E.TWO64)
            for s1 in loops.bind_var(eng, n, s, ValLV(el)):
                for k, s3, x in eng.exec(n["body"], s1):
                    if k == "break":
                        exits.append(("next", s3, None))
                    elif k == "return":
                        exits.append((k, s3, x))
                    else:
                        eng.wr(s3, idx, simp(i + 1))
                        backs.append(s3)
        return exits, backs
    return loops.run_loop(eng, n, st, step, hidden={"idx": idx, "list": L})
