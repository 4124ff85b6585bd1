"""Contracts of the parser. The token sequence is a function of the position; nodes are addresses; $pos is the number of
tokens consumed. Shared by C23 (safety, termination, complete trees) and C30 (the tree spells out the tokens)."""
from speclib import *
from astlib import KIND, LEFT, RIGHT, ITEM

B, Z = z3.BoolSort(), z3.IntSort()
P = "bant::Parser::Impl"
SRC = ["bant/frontend/parser.cc"]
TOK, TT = "bant::Token", "bant::TokenType"
TYP, TB, TL = z3.Function("token.type", Z, Z), z3.Function("token.begin", Z, Z), z3.Function("token.length", Z, Z)
NLB = z3.Function("token.newline", Z, B)
N = z3.Int("tokens")
XB, XL, OPF, LTYPE = (z3.Function("node." + s, Z, Z) for s in ("text.begin", "text.length", "op", "listtype"))
LEN = z3.Function("list.finallength", Z, Z)
NEG = z3.Function("node.negative", Z, Z)
KN = {"Identifier": 1, "Assignment": 2, "StringScalar": 3, "IntScalar": 4, "List": 5, "BinOpNode": 6, "FunCall": 7, "UnaryExpr": 8, "Ternary": 9, "ListComprehension": 10}

SUF, EX, ARG, MAPT = (z3.Function(s, Z, Z, Z, B) for s in ("value-with-suffixes", "expression", "argument", "map-entry"))
ELT = z3.Function("element", Z, Z, Z, Z, B)                 # tag, node, from, to
SEQ = z3.Function("elements", Z, Z, Z, Z, Z, B)             # tag, list, count, from, to: each followed by a comma
AFT = z3.Function("elements-before-comma", Z, Z, Z, Z, Z, B)      # the same, the last one not yet followed by a comma
LST = z3.Function("list-read", Z, Z, Z, Z, Z, Z, B)         # tag, list, count, close, from, to
LOC = z3.Function("list-or-comprehension", Z, Z, Z, Z, Z, B)   # tag, node, listtype, from, to
CALL = z3.Function("call-read", Z, Z, Z, Z, Z, B)           # node, name begin, name length, from, to
FORS = z3.Function("for-clauses", Z, Z, Z, Z, B)            # start, node, from, to
VARS, ACC = z3.Function("variables", Z, Z, Z, B), z3.Function("access", Z, Z, Z, B)
STM = z3.Function("statements", Z, Z, Z, B)                 # list, count, to
T_EX, T_ARG, T_MAP, T_ID = 0, 1, 2, 3
RANK = {"ParseIntFromToken": 0, "ParseOptionalIdentifier": 0, "ParseValueOrIdentifier": 1, "ParseParenExpressionOrTuple": 1, "ParseExpression": 2,
        "ParseMapTuple": 3, "ExpressionOrAssignment": 3, "ParseNodeAssignRhs": 3, "ParseIdAssignRhs": 4, "ParseArrayOrSliceAccess": 3, "ParseIfElse": 3,
        "ParseComprehensionFor": 4, "ParseListComprehension": 5, "ParseListOrListComprehension": 6, "ParseList": 4, "ParseFunCall": 5, "parse": 9}
ELEMENT = "std::function<bant::Node *()>::operator()"
PASSUME = ["the scanner delivers a fixed sequence of tokens, the last one end-of-file, then again end-of-file (C05, C06); their texts follow one another in the content",
           "a node made in the arena has an address of its own, not null; IntScalar::FromLiteral may be null (C07)",
           "messages are only written, never read back; nesting of the text is limited by the stack of the process, which is not modelled"]


def rules(en):
    """Introduction rules of the grammar (only these: a derivation is never assumed, it is built)."""
    n, a, b, m, l, i, m2, m3, t, f, c, r, x = z3.Ints("n a b m l i m2 m3 t f c r x")
    T = lambda p, *ks: z3.Or(*[TYP(p) == en[k] for k in ks])
    K = lambda p, k: KIND(p) == KN[k]
    txt = lambda n, a: z3.And(XB(n) == TB(a), XL(n) == TL(a))
    ops = ["kPlus", "kMinus", "kMultiply", "kDivide", "kLessThan", "kLessEqual", "kEqualityComparison", "kGreaterEqual", "kGreaterThan", "kNotEqual",
           "kIn", "kNotIn", "kAnd", "kOr", "kPipeOrBitwiseOr", "kDot", "kPercent"]
    FA = lambda vs, pre, con, *pats: z3.ForAll(vs, z3.Implies(z3.And(*pre), con), patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
    close = lambda ty: z3.If(ty == 0, en["kCloseSquare"], z3.If(ty == 1, en["kCloseBrace"], en["kCloseParen"]))
    R = [
        # values
        FA([n, a], [K(n, "Identifier"), T(a, "kIdentifier"), z3.Not(T(a + 1, "kOpenParen")), txt(n, a)], SUF(n, a, a + 1), XB(n), TB(a)),
        FA([n, a], [K(n, "StringScalar"), T(a, "kStringLiteral"), txt(n, a)], SUF(n, a, a + 1), XB(n), TB(a)),
        FA([n, a], [K(n, "IntScalar"), T(a, "kNumberLiteral"), txt(n, a)], SUF(n, a, a + 1), XB(n), TB(a)),
        FA([n, a, m, b], [m == a + 2, T(a, "kIdentifier"), T(a + 1, "kOpenParen"), CALL(n, TB(a), TL(a), m, b)], SUF(n, a, b), CALL(n, TB(a), TL(a), m, b)),
        FA([n, m, b], [T(m - 1, "kOpenSquare"), LOC(T_EX, n, 0, m, b)], SUF(n, m - 1, b), LOC(T_EX, n, 0, m, b)),
        FA([n, m, b], [T(m - 1, "kOpenBrace"), LOC(T_MAP, n, 1, m, b)], SUF(n, m - 1, b), LOC(T_MAP, n, 1, m, b)),
        FA([n, m, b], [K(n, "UnaryExpr"), T(m - 1, "kMinus", "kNot"), OPF(n) == TYP(m - 1), EX(LEFT(n), m, b)], SUF(n, m - 1, b), EX(LEFT(n), m, b)),
        # parentheses and tuples
        FA([n, m, b], [T(m - 1, "kOpenParen"), EX(n, m, b), T(b, "kCloseParen")], SUF(n, m - 1, b + 1), EX(n, m, b)),
        FA([n, m], [K(n, "List"), LTYPE(n) == 2, LEN(n) == 0, T(m - 1, "kOpenParen"), T(m, "kCloseParen"), SEQ(T_EX, n, 0, m, m)], SUF(n, m - 1, m + 1), SEQ(T_EX, n, 0, m, m)),
        FA([n, i, m, m2], [K(n, "List"), LTYPE(n) == 2, LEN(n) == i, i >= 1, T(m - 1, "kOpenParen"), SEQ(T_EX, n, i, m, m2), T(m2, "kCloseParen")], SUF(n, m - 1, m2 + 1), SEQ(T_EX, n, i, m, m2)),
        FA([n, i, m, b], [K(n, "List"), LTYPE(n) == 2, LEN(n) == i, i >= 2, T(m - 1, "kOpenParen"), AFT(T_EX, n, i, m, b), T(b, "kCloseParen")], SUF(n, m - 1, b + 1), AFT(T_EX, n, i, m, b)),
        # element access
        FA([n, l, a, m, b], [K(n, "BinOpNode"), OPF(n) == en["kOpenSquare"], LEFT(n) == l, SUF(l, a, m), T(m, "kOpenSquare"), z3.Not(NLB(m)), ACC(RIGHT(n), m + 1, b)],
           SUF(n, a, b), LEFT(n), SUF(l, a, m), ACC(RIGHT(n), m + 1, b)),
        FA([n, a, b], [EX(n, a, b), T(b, "kCloseSquare")], ACC(n, a, b + 1), EX(n, a, b)),
        FA([n, a, m, b], [K(n, "BinOpNode"), OPF(n) == en["kColon"], EX(LEFT(n), a, m), T(m, "kColon"), EX(RIGHT(n), m + 1, b), T(b, "kCloseSquare")], ACC(n, a, b + 1),
           EX(LEFT(n), a, m), EX(RIGHT(n), m + 1, b)),
        FA([n, a, m], [K(n, "BinOpNode"), OPF(n) == en["kColon"], EX(LEFT(n), a, m), T(m, "kColon"), RIGHT(n) == 0, T(m + 1, "kCloseSquare")], ACC(n, a, m + 2), EX(LEFT(n), a, m)),
        FA([n, m, b], [K(n, "BinOpNode"), OPF(n) == en["kColon"], LEFT(n) == 0, T(m - 1, "kColon"), EX(RIGHT(n), m, b), T(b, "kCloseSquare")], ACC(n, m - 1, b + 1), EX(RIGHT(n), m, b)),
        # expressions
        FA([n, a, b], [SUF(n, a, b), z3.Not(T(b, "kIf", *ops)), z3.Or(z3.Not(T(b, "kOpenSquare")), NLB(b))], EX(n, a, b), SUF(n, a, b)),
        FA([n, l, a, m, b], [K(n, "BinOpNode"), LEFT(n) == l, SUF(l, a, m), T(m, *ops), OPF(n) == TYP(m), EX(RIGHT(n), m + 1, b)], EX(n, a, b), LEFT(n), SUF(l, a, m), EX(RIGHT(n), m + 1, b)),
        FA([n, l, a, m, m2, b], [K(n, "Ternary"), LEFT(n) == l, SUF(l, a, m), T(m, "kIf"), EX(RIGHT(n), m + 1, m2), T(m2, "kElse"), EX(NEG(n), m2 + 1, b)], EX(n, a, b),
           LEFT(n), SUF(l, a, m), EX(RIGHT(n), m + 1, m2), EX(NEG(n), m2 + 1, b)),
        FA([n, l, a, m, b], [K(n, "Ternary"), LEFT(n) == l, SUF(l, a, m), T(m, "kIf"), EX(RIGHT(n), m + 1, b), z3.Not(T(b, "kElse")), NEG(n) == 0], EX(n, a, b), LEFT(n), SUF(l, a, m), EX(RIGHT(n), m + 1, b)),
        # elements
        FA([n, a, b], [EX(n, a, b), z3.Not(z3.And(K(n, "Identifier"), T(b, "kAssign")))], ELT(T_ARG, n, a, b), EX(n, a, b)),
        FA([n, l, a, m, b], [K(n, "Assignment"), LEFT(n) == l, K(l, "Identifier"), EX(l, a, m), T(m, "kAssign"), EX(RIGHT(n), m + 1, b)], ELT(T_ARG, n, a, b), LEFT(n), EX(l, a, m), EX(RIGHT(n), m + 1, b)),
        FA([n, a, m, b], [K(n, "BinOpNode"), OPF(n) == en["kColon"], EX(LEFT(n), a, m), T(m, "kColon"), EX(RIGHT(n), m + 1, b)], ELT(T_MAP, n, a, b), EX(LEFT(n), a, m), EX(RIGHT(n), m + 1, b)),
        FA([n, a], [K(n, "Identifier"), T(a, "kIdentifier"), txt(n, a)], ELT(T_ID, n, a, a + 1), XB(n), TB(a)),
        FA([n, a, b], [EX(n, a, b)], ELT(T_EX, n, a, b), EX(n, a, b)),
        # lists
        FA([t, l, i, a, m, b], [SEQ(t, l, i, a, m), ELT(t, ITEM(l, i), m, b)], AFT(t, l, i + 1, a, b), SEQ(t, l, i, a, m), ELT(t, ITEM(l, i), m, b)),
        FA([t, l, i, a, b], [AFT(t, l, i, a, b), T(b, "kComma")], SEQ(t, l, i, a, b + 1), AFT(t, l, i, a, b)),
        FA([l, i, a, m], [SEQ(T_ID, l, i, a, m), T(m, "kComma")], SEQ(T_ID, l, i, a, m + 1), SEQ(T_ID, l, i, a, m)),
        FA([t, l, i, a, m], [SEQ(t, l, i, a, m)], LST(t, l, i, TYP(m), a, m + 1), SEQ(t, l, i, a, m)),
        FA([t, l, i, a, b], [AFT(t, l, i, a, b)], LST(t, l, i, TYP(b), a, b + 1), AFT(t, l, i, a, b)),
        FA([t, n, c, i, a, b], [K(n, "List"), LEN(n) == i, LST(t, n, i, c, a, b), c == close(LTYPE(n))], LOC(t, n, LTYPE(n), a, b), LST(t, n, i, c, a, b)),
        FA([t, n, f, a, m, b], [K(n, "ListComprehension"), ELT(t, f, a, m), FORS(f, LEFT(n), m, b), TYP(b) == close(LTYPE(n))], LOC(t, n, LTYPE(n), a, b + 1), ELT(t, f, a, m), FORS(f, LEFT(n), m, b)),
        FA([n, x, c, a, b], [K(n, "FunCall"), K(LEFT(n), "Identifier"), LTYPE(RIGHT(n)) == 2, LST(T_ARG, RIGHT(n), LEN(RIGHT(n)), c, a, b), c == en["kCloseParen"]],
           CALL(n, XB(LEFT(n)), XL(LEFT(n)), a, b), LST(T_ARG, RIGHT(n), x, c, a, b)),
        # comprehensions
        FA([t, a, m, b], [K(t, "BinOpNode"), OPF(t) == en["kFor"], K(RIGHT(t), "BinOpNode"), OPF(RIGHT(t)) == en["kIn"], T(a - 1, "kFor"), VARS(LEFT(RIGHT(t)), a, m), EX(RIGHT(RIGHT(t)), m, b)],
           FORS(LEFT(t), t, a - 1, b), VARS(LEFT(RIGHT(t)), a, m), EX(RIGHT(RIGHT(t)), m, b)),
        FA([f, r, t, a, m, b], [FORS(f, r, a, m), FORS(r, t, m, b)], FORS(f, t, a, b), FORS(f, r, a, m), FORS(r, t, m, b)),
        FA([l, i, c, a, b], [LST(T_ID, l, i, c, a, b), LEN(l) == i, LTYPE(l) == 2, c == en["kIn"], z3.Not(T(a, "kOpenParen"))], VARS(l, a, b), LST(T_ID, l, i, c, a, b)),
        FA([l, i, c, a, b], [LST(T_ID, l, i, c, a, b), LEN(l) == i, LTYPE(l) == 2, c == en["kCloseParen"], T(a - 1, "kOpenParen"), T(b, "kIn")], VARS(l, a - 1, b + 1), LST(T_ID, l, i, c, a, b)),
        # statements
        FA([l, i, m], [STM(l, i, m), T(m, "kStringLiteral")], STM(l, i, m + 1), STM(l, i, m)),
        FA([l, i, m, b], [STM(l, i, m), T(m, "kOpenSquare"), LOC(T_EX, ITEM(l, i), 0, m + 1, b)], STM(l, i + 1, b), STM(l, i, m), LOC(T_EX, ITEM(l, i), 0, m + 1, b)),

        FA([l, i, m, c, r, m2, b], [STM(l, i, m), T(m, "kOpenParen"), K(ITEM(l, i), "Assignment"), LST(T_ID, LEFT(ITEM(l, i)), r, c, m + 1, m2), r == LEN(LEFT(ITEM(l, i))), LTYPE(LEFT(ITEM(l, i))) == 2,
                                    c == en["kCloseParen"], T(m2, "kAssign"), EX(RIGHT(ITEM(l, i)), m2 + 1, b)], STM(l, i + 1, b),
           STM(l, i, m), LST(T_ID, LEFT(ITEM(l, i)), r, c, m + 1, m2), EX(RIGHT(ITEM(l, i)), m2 + 1, b)),
        FA([l, i, m, b], [STM(l, i, m), T(m, "kIdentifier"), T(m + 1, "kAssign"), K(ITEM(l, i), "Assignment"), K(LEFT(ITEM(l, i)), "Identifier"), txt(LEFT(ITEM(l, i)), m), EX(RIGHT(ITEM(l, i)), m + 2, b)],
           STM(l, i + 1, b), STM(l, i, m), EX(RIGHT(ITEM(l, i)), m + 2, b)),
        FA([l, i, m, b], [STM(l, i, m), T(m, "kIdentifier"), T(m + 1, "kDot"), K(ITEM(l, i), "BinOpNode"), OPF(ITEM(l, i)) == en["kDot"], K(LEFT(ITEM(l, i)), "Identifier"), txt(LEFT(ITEM(l, i)), m),
                          EX(RIGHT(ITEM(l, i)), m + 2, b)], STM(l, i + 1, b), STM(l, i, m), EX(RIGHT(ITEM(l, i)), m + 2, b)),
        FA([l, i, m, b], [STM(l, i, m), T(m, "kIdentifier"), T(m + 1, "kOpenParen"), CALL(ITEM(l, i), TB(m), TL(m), m + 2, b)], STM(l, i + 1, b), STM(l, i, m), CALL(ITEM(l, i), TB(m), TL(m), m + 2, b)),
    ]
    return R


class Parse:
    """The engine for one function of the parser: every other production by its contract."""
    def __init__(self, prog, name, structure):
        self.prog, self.name, self.structure = prog, name, structure
        eng = self.eng = E.Engine(prog, "flat")
        en = self.en = {k: int(v) for k, v in prog.enums[TT].items()}
        eng.opts["termination"] = True
        eng.opts["quick_ms"] = 800 if structure else 3000
        if structure:
            eng.opts["fast"] = True
        i = z3.Int("i!t")
        eng.axioms += [z3.ForAll([i], z3.Implies(i >= 0, (TYP(i) == en["kEof"]) == (i >= N)), patterns=[TYP(i)]),
                       z3.ForAll([i], z3.And(TYP(i) >= 0, TYP(i) < 1 << 31), patterns=[TYP(i)])]
        if structure:
            eng.axioms += rules(en)
        self.fn = fn_of(prog, P + "::" + name)
        st = self.st = start(eng, self.fn)
        st.assume(N >= 0, N < 1 << 60)
        self.p0 = z3.Int("position")
        self.top0 = z3.Int("newest node")
        st.assume(self.p0 >= 0, self.p0 <= N, self.top0 >= 0)
        st.g.update({"$pos": self.p0, "$top": self.top0, "$len": z3.Const("lengths", z3.ArraySort(Z, Z)), "$open": z3.K(Z, z3.BoolVal(False))})
        self.errf = field_of_type(prog, P, lambda t: t == "bool", "error flag")
        self.impl = eng.fresh_st(st, P, "parser")
        self.err0 = self.impl.f[self.errf]
        self.this = eng.new_cell(st, self.impl, P, "parser")
        for f, v in self.impl.f.items():
            if z3.is_expr(v) and z3.is_int(v):
                st.assume(v > 0, v < 1 << 62)
        self.open, self.nodes, self.origin = [], [], None
        self.text0 = z3.Int("text before")      # everything up to here lies before the next token
        self.link(st, self.p0)
        st.assume(self.text0 > 0, self.text0 <= TB(self.p0))
        eng.opts["measures"] = [lambda eng, s, ctx: N - s.g["$pos"]]
        eng.loop_templates.append(self.templates)
        self.install()

    # ------------------------------------------------------------- state
    def link(self, s, p):
        """Ground facts about the token at p."""
        s.assume(TB(p) > 0, TL(p) >= 0, TB(p) + TL(p) < 1 << 62, z3.Implies(p < N, TB(p) + TL(p) <= TB(p + 1)))

    def token(self, s, p):
        self.link(s, p)
        return StructV(TOK, {f: {"type": TYP(p), "text": FlatSV(TB(p), TL(p))}.get(f, NLB(p)) for f, t in self.eng.so.fields(TOK)})

    def err(self, s):
        return self.eng.rd(s, self.this).f[self.errf]

    def advance(self, s, progress=False):
        """A production was parsed: the position moved, an error may have been found."""
        old, e0 = s.g["$pos"], self.err(s)
        p, e = z3.Int(E.uid("pos")), z3.Bool(E.uid("err"))
        s.assume(p >= old, p <= N, z3.Implies(e0, e))
        self.link(s, old)
        self.link(s, p)
        s.assume(TB(old) <= TB(p), z3.Implies(p > old, TB(old) + TL(old) <= TB(p)))
        s.g["$pos"] = p
        top = z3.Int(E.uid("top"))
        s.assume(top >= s.g["$top"])
        s.g["$top"] = top
        self.eng.wr(s, self.this.sub(self.errf), e)
        return old, p, e

    def node(self, s, kind=None):
        n = z3.Int(E.uid("node"))
        s.assume(n > s.g["$top"], n > 0, n < 1 << 62)
        s.g["$top"] = n
        if kind:
            s.assume(KIND(n) == KN[kind])
        return n

    def close_list(self, s, v):
        """A list that became part of something is not extended any more: its length is final."""
        if self.structure and z3.is_expr(v) and z3.is_int(v):
            s.assume(z3.Implies(s.g["$open"][v], LEN(v) == s.g["$len"][v]))
            s.g["$open"] = z3.Store(s.g["$open"], v, False)

    # ------------------------------------------------------------- overrides
    def install(self):
        eng, en = self.eng, self.en
        ov = eng.overrides

        def obj(f):
            def g(eng, st, e, _):
                outs = []
                for o, s in eng.ev(e["obj"], st):
                    for vs, s2 in eng.evs(e["args"], s):
                        if e.get("arrow") and z3.is_expr(eng.val(o, s2)):
                            eng.oblige(s2, eng.val(o, s2) != 0, "the object of the call exists")
                        outs += f(eng, s2, e, eng.val(o, s2) if e.get("arrow") else o, [eng.val(v, s2) for v in vs])
                return outs
            return g

        def peek(eng, s, e, o, vs):
            return [(self.token(s, s.g["$pos"]), s)]

        def nxt(eng, s, e, o, vs):
            p = s.g["$pos"]
            t = self.token(s, p)
            q = z3.Int(E.uid("pos"))
            s.assume(q == z3.If(p < N, p + 1, p), TYP(p) == TYP(p), TYP(q) == TYP(q), TB(q) >= TB(p))
            self.link(s, q)
            s.g["$pos"] = q
            return [(t, s)]
        ov["bant::Scanner::Peek"], ov["bant::Scanner::Next"] = obj(peek), obj(nxt)
        ov["bant::Scanner::source"] = obj(lambda eng, s, e, o, vs: [(OpaqueV("source"), s)])
        for c in ("SourceLocator", "NamedLineIndexedContent"):
            ov["bant::%s::Loc" % c] = lambda eng, st, e, _: [(OpaqueV("std::ostream"), s) for vs, s in eng.evs(e["args"], st)]
        ov["bant::operator<<"] = lambda eng, st, e, _: [(vs[0], s) for vs, s in eng.evs(e["args"], st)]

        def make(eng, s, e, o, vs):
            t = pointee(e["t"])
            k = t.split("::")[-1]
            n = self.node(s, k if k in KN else None)
            er = self.err(s)
            for v, a in zip(vs, e["args"]):
                if is_ptr(a["t"]) or is_ptr(pointee(a["t"]) or ""):
                    self.close_list(s, v)

            def need(c, what):
                eng.oblige(s, c, what)
            present = lambda v, what: need(z3.Or(v != 0, er), what)
            if k == "Identifier":
                s.assume(XB(n) == vs[0].p, XL(n) == vs[0].n)
            elif k == "List":
                s.assume(LTYPE(n) == eng.num(vs[0]))
                s.g["$len"] = z3.Store(s.g["$len"], n, 0)
                s.g["$open"] = z3.Store(s.g["$open"], n, True)
                if self.structure:
                    a = z3.Int("a!new")
                    nl = z3.Const(E.uid("lengths"), z3.ArraySort(Z, Z))
                    s.assume(nl == s.g["$len"])
                    s.g["$len"] = nl
                    for t in [T_EX, T_ID] + ([self.tag] if self.name == "ParseListOrListComprehension" else []):
                        s.assume(z3.ForAll([a], SEQ(t, n, 0, a, a), patterns=[TYP(a)]))
                    s.assume(STM(n, 0, 0))
                self.open.append(n)
            elif k == "BinOpNode":
                op = eng.num(vs[2])
                s.assume(LEFT(n) == vs[0], RIGHT(n) == vs[1], OPF(n) == op)
                for v, w in ((vs[0], "left"), (vs[1], "right")):
                    need(z3.Or(v != 0, er, op == en["kColon"]), "an operator has its %s operand unless an error is reported" % w)
                need(z3.Or(vs[0] != 0, vs[1] != 0, er), "a slice or an entry has at least one side unless an error is reported")
            elif k == "Assignment":
                s.assume(LEFT(n) == vs[0], RIGHT(n) == vs[1], OPF(n) == en["kAssign"])
                need(vs[0] != 0, "an assignment has something to assign to")
                present(vs[1], "an assignment has a value unless an error is reported")
            elif k == "FunCall":
                s.assume(LEFT(n) == vs[0], RIGHT(n) == vs[1])
                need(vs[0] != 0, "a call has a name")
                need(KIND(vs[0]) == KN["Identifier"], "the name of a call is an identifier")
                need(vs[1] != 0, "a call has a list of arguments")
            elif k == "UnaryExpr":
                s.assume(OPF(n) == eng.num(vs[0]), LEFT(n) == vs[1])
                present(vs[1], "a unary operator has its operand unless an error is reported")
            elif k == "Ternary":
                s.assume(RIGHT(n) == vs[0], LEFT(n) == vs[1], NEG(n) == vs[2])
                present(vs[0], "a conditional expression has a condition unless an error is reported")
                present(vs[1], "a conditional expression has a value unless an error is reported")
            elif k == "ListComprehension":
                s.assume(LTYPE(n) == eng.num(vs[0]), LEFT(n) == vs[1])
                present(vs[1], "a list comprehension has its loop unless an error is reported")
            else:
                raise Unsupported("making a " + t)
            return [(n, s)]
        ov[P + "::Make"] = obj(make)

        def literal(kind):
            def g(eng, st, e, _):
                outs = []
                for vs, s in eng.evs(e["args"], st):
                    v = eng.val(vs[1], s)
                    n = self.node(s, kind)
                    s.assume(XB(n) == v.p, XL(n) == v.n)
                    if kind == "IntScalar":
                        n = simp(z3.If(z3.Bool(E.uid("valid")), n, I(0)))
                    outs.append((n, s))
                return outs
            return g
        ov["bant::StringScalar::FromLiteral"], ov["bant::IntScalar::FromLiteral"] = literal("StringScalar"), literal("IntScalar")

        def append(eng, s, e, l, vs):
            v = vs[1]
            eng.oblige(s, s.g["$open"][l], "only lists under construction are extended")
            self.close_list(s, v)
            n = s.g["$len"][l]
            s.assume(n >= 0, z3.Implies(v != 0, ITEM(l, n) == v))
            s.g["$len"] = z3.If(v != 0, z3.Store(s.g["$len"], l, n + 1), s.g["$len"])
            if self.structure:
                nl = z3.Const(E.uid("lengths"), z3.ArraySort(Z, Z))
                s.assume(nl == s.g["$len"])
                s.g["$len"] = nl
            return [(VOID, s)]
        ov["bant::List::Append"] = obj(append)

        def cast(k):
            def g(eng, s, e, o, vs):
                if not z3.is_expr(o):
                    raise Unsupported("cast of a node")
                return [(simp(z3.If(KIND(o) == KN[k], o, I(0))), s)]
            return g
        for c in ("Node", "Identifier", "List", "BinOpNode", "Assignment", "Scalar"):
            ov["bant::%s::CastAsIdentifier" % c] = obj(cast("Identifier"))
            ov["bant::%s::CastAsList" % c] = obj(cast("List"))

        def ident(eng, s, e, o, vs):
            s.assume(XB(o) > 0, XL(o) >= 0, XB(o) + XL(o) < 1 << 62)
            return [(FlatSV(XB(o), XL(o)), s)]
        ov["bant::Identifier::id"] = obj(ident)
        ov[ELEMENT] = self.element
        for c in list(RANK):
            if c != "parse" and c != self.name and self.prog.by_q.get(P + "::" + c):
                ov[P + "::" + c] = obj(lambda eng, s, e, o, vs, c=c: self.production(c, s, vs, e))
            elif c == self.name:
                ov[P + "::" + c] = obj(lambda eng, s, e, o, vs, c=c: self.production(c, s, vs, e))

    def element(self, eng, st, e, _):
        """The element parser given to ParseList / ParseListOrListComprehension."""
        outs = []
        for vs, s in eng.evs(e["args"], st):
            outs.append((self.given(s), s))
        return outs

    def given(self, s):
        top = s.g["$top"]
        old, p, er = self.advance(s)
        n = z3.Int(E.uid("element"))
        s.assume(n >= 0, n < 1 << 62, n <= s.g["$top"], z3.Implies(n != 0, z3.And(p > old, n > top)))
        if self.name == "ParseListOrListComprehension":
            s.assume(z3.Implies(n == 0, er))
        if self.structure:
            s.assume(z3.Implies(z3.And(n != 0, z3.Not(er)), ELT(self.tag, n, old, p)))
            s.assume(z3.Implies(z3.And(n == 0, z3.Not(er)), z3.And(self.tag == T_ID, p == old)))
        return n

    def decreases(self, s, c):
        p = s.g["$pos"]
        self.eng.oblige(s, z3.Or(p > self.p0, z3.And(p == self.p0, z3.BoolVal(RANK[c] < RANK.get(self.name, 9)))), "%s is only entered with fewer tokens or at a lower production (termination)" % c)

    def check_lambda(self, s, f, c):
        """What is handed over as an element parser has the contract of one; its kind of elements."""
        eng = self.eng
        if not isinstance(f, LamV):
            if isinstance(f, OpaqueV) and self.name in ("ParseList", "ParseListOrListComprehension"):
                return self.tag       # handed on
            raise Unsupported("element parser of kind " + type(f).__name__)
        t = s.fork()
        old, p, er = self.advance(t)
        top = t.g["$top"]
        runs = []
        for r, u in eng.call_lambda(f, [], t.fork()):
            n = eng.val(r, u)
            q = u.g["$pos"]
            eng.oblige(u, z3.Implies(n != 0, q > p), "an element takes at least one token")
            eng.oblige(u, z3.Implies(n != 0, z3.And(n > top, n <= u.g["$top"])), "an element is a new node")
            if c == "ParseListOrListComprehension":
                eng.oblige(u, z3.Implies(n == 0, self.err(u)), "a missing element is reported")
            runs.append((n, u, q))
        if not self.structure:
            return I(T_EX)
        good = lambda tag: [(u, z3.And(z3.Implies(z3.And(n != 0, z3.Not(self.err(u))), ELT(tag, n, p, q)),
                                       z3.Implies(z3.And(n == 0, z3.Not(self.err(u))), z3.And(z3.BoolVal(tag == T_ID), q == p)))) for n, u, q in runs]
        order = [T_EX, T_ID, T_MAP, T_ARG]
        plain = lambda tag: [(u, z3.And(z3.Implies(z3.And(n != 0, z3.Not(self.err(u))), EX(n, p, q) if tag == T_EX else ELT(tag, n, p, q)),
                                        z3.Implies(z3.And(n == 0, z3.Not(self.err(u))), z3.And(z3.BoolVal(tag == T_ID), q == p)))) for n, u, q in runs]
        sure = [tag for tag in order if all(E.euf.unsat(u.pc, simp(g), 500, eng.abs) for u, g in plain(tag))]
        for tag in sure[:1] or order:
            if all(eng.valid(u.pc, g, 3000) for u, g in good(tag)):
                break
        else:
            tag = T_EX
        for u, g in good(tag):
            eng.oblige(u, g, "the elements handed over are of one kind")
        return I(tag)

    def production(self, c, s, vs, e):
        eng, en = self.eng, self.en
        s = s.fork()
        st = self.structure
        self.decreases(s, c)
        p = s.g["$pos"]
        tag = None
        ints = [v for v in vs if z3.is_expr(v)]
        if c == "ParseIfElse":
            eng.oblige(s, TYP(p) == en["kIf"], "'if' is next")
            eng.oblige(s, vs[0] != 0, "there is a value before 'if'")
        elif c == "ParseParenExpressionOrTuple":
            eng.oblige(s, TYP(p) == en["kOpenParen"], "'(' is next")
        elif c in ("ParseListComprehension", "ParseComprehensionFor"):
            eng.oblige(s, TYP(p) == en["kFor"], "'for' is next")
            eng.oblige(s, (vs[1] if c == "ParseListComprehension" else vs[0]) != 0, "there is an expression before 'for'")
            if c == "ParseComprehensionFor":
                eng.oblige(s, eng.num(vs[1]) != en["kEof"], "a comprehension ends before the end of the file")
        elif c == "ParseNodeAssignRhs":
            eng.oblige(s, vs[0] != 0, "there is something to assign to")
            eng.oblige(s, z3.And(vs[1].p > 0, vs[1].p <= vs[2].p + vs[2].n), "the assignment is a range of the text")
        elif c == "ParseIdAssignRhs":
            eng.oblige(s, z3.And(vs[0] != 0, KIND(vs[0]) == KN["Identifier"]), "there is an identifier to assign to")
            eng.oblige(s, z3.And(XB(vs[0]) > 0, XB(vs[0]) <= vs[1].p + vs[1].n), "the assignment is a range of the text")
        elif c == "ParseList":
            eng.oblige(s, vs[0] != 0, "there is a list to extend")
            eng.oblige(s, s.g["$open"][vs[0]], "only lists under construction are extended")
            eng.oblige(s, eng.num(vs[2]) != en["kEof"], "a list ends before the end of the file")
            tag = self.check_lambda(s, vs[1], c)
        elif c == "ParseListOrListComprehension":
            tag = self.check_lambda(s, vs[1], c)
        for v, a in zip(vs, e["args"]):
            if c != "ParseList" and is_ptr(a["t"]):
                self.close_list(s, v)
        self.link(s, p)
        len0, top0 = s.g["$len"], s.g["$top"]
        old, q, er = self.advance(s)
        ok = z3.Not(er)
        if c in ("ParseList",):
            r = vs[0]
            nl = z3.Const(E.uid("lengths"), z3.ArraySort(Z, Z))
            k = z3.Int(E.uid("length"))
            s.assume(nl == z3.Store(len0, r, k), k >= len0[r])
            s.g["$len"] = nl
            if st:
                a = z3.Int("a!pl")
                cl = eng.num(vs[2])
                l0, tg = z3.Int(E.uid("length")), z3.Int(E.uid("kind"))
                s.assume(l0 == len0[r], tg == tag, SEQ(tg, r, I(0), p, p))
                s.assume(z3.Implies(ok, z3.ForAll([a], z3.Implies(SEQ(tg, r, l0, a, p), LST(tg, r, k, cl, a, q)), patterns=[SEQ(tg, r, l0, a, p)])))
                s.assume(z3.Implies(z3.And(ok, TYP(p) == cl), z3.ForAll([a], z3.Implies(AFT(tg, r, l0, a, p), LST(tg, r, k, cl, a, q)), patterns=[AFT(tg, r, l0, a, p)])))
                s.assume(z3.Implies(ok, q > p))
            return [(r, s)]
        r = z3.Int(E.uid("result"))
        s.assume(r >= 0, r < 1 << 62, r <= s.g["$top"], z3.Implies(r != 0, r > top0))
        for f in self.posts(c, r, s, p, q, vs, er, tag, entry=s):
            s.assume(f[1])
        return [(r, s)]

    def posts(self, c, r, s, p, q, vs, er, tag, entry):
        """The postconditions of production c: (name, formula)."""
        en, ok, st = self.en, z3.Not(er), self.structure
        out = []
        A = lambda n, f: out.append((n, f))
        always = ("ParseFunCall", "ParseIfElse", "ParseNodeAssignRhs", "ParseIdAssignRhs", "ParseListComprehension", "ParseParenExpressionOrTuple")
        if c in always:
            A("the result is a node", r != 0)
        if c in ("ParseExpression", "ParseValueOrIdentifier"):
            opt = self.eng.num(vs[0]) if not z3.is_bool(vs[0]) else vs[0]
            A("a node takes at least one token", z3.Implies(r != 0, q > p))
            A("a missing value is reported where one is needed", z3.Implies(r == 0, z3.Or(er, opt)))
            if st:
                A("what was left out took no token", z3.Implies(z3.And(r == 0, ok), q == p))
                A("the node spells out its tokens", z3.Implies(z3.And(r != 0, ok), (EX if c == "ParseExpression" else SUF)(r, p, q)))
        elif c in ("ParseParenExpressionOrTuple", "ExpressionOrAssignment", "ParseOptionalIdentifier", "ParseMapTuple"):
            A("a node takes at least one token", z3.Implies(r != 0, q > p))
        if c in ("ExpressionOrAssignment", "ParseIntFromToken", "ParseMapTuple", "ParseListOrListComprehension", "ParseComprehensionFor", "ParseArrayOrSliceAccess"):
            A("a missing result is reported", z3.Implies(r == 0, er))
        kinds = {"ParseFunCall": ("FunCall",), "ParseIntFromToken": ("IntScalar",), "ParseOptionalIdentifier": ("Identifier",), "ParseMapTuple": ("BinOpNode",), "ParseComprehensionFor": ("BinOpNode",),
                 "ParseNodeAssignRhs": ("Assignment",), "ParseIdAssignRhs": ("Assignment",), "ParseIfElse": ("Ternary",), "ParseListComprehension": ("ListComprehension",),
                 "ParseListOrListComprehension": ("List", "ListComprehension")}.get(c)
        if kinds:
            A("the result is of its kind", z3.Implies(r != 0, z3.Or(*[KIND(r) == KN[k] for k in kinds])))
        if c == "ParseMapTuple":
            A("an entry of a map has a key and a value unless an error is reported", z3.Implies(z3.And(r != 0, ok), z3.And(LEFT(r) != 0, RIGHT(r) != 0)))
        if c == "ParseOptionalIdentifier" and st:
            A("only an identifier is taken", z3.If(TYP(p) == en["kIdentifier"], z3.And(r != 0, ELT(T_ID, r, p, q)), z3.And(r == 0, q == p)))
        if c in ("ParseExpression", "ParseValueOrIdentifier", "ExpressionOrAssignment", "ParseOptionalIdentifier", "ParseParenExpressionOrTuple"):
            A("an identifier lies before the next token", z3.Implies(z3.And(r != 0, KIND(r) == KN["Identifier"]), z3.And(XB(r) > 0, XB(r) <= TB(q))))
        if not st:
            return out
        good = lambda f: z3.Implies(z3.And(r != 0, ok), f)
        if c == "ParseParenExpressionOrTuple":
            A("the node spells out its tokens", good(SUF(r, p, q)))
        elif c == "ExpressionOrAssignment":
            A("the node spells out its tokens", good(ELT(T_ARG, r, p, q)))
        elif c == "ParseMapTuple":
            A("the node spells out its tokens", good(ELT(T_MAP, r, p, q)))
        elif c == "ParseArrayOrSliceAccess":
            A("the node spells out its tokens", good(ACC(r, p, q)))
        elif c == "ParseIntFromToken":
            t = vs[0].f["text"]
            A("the literal of the token", z3.And(q == p, good(z3.And(KIND(r) == KN["IntScalar"], XB(r) == t.p, XL(r) == t.n))))
        elif c == "ParseFunCall":
            t = vs[0].f["text"]
            A("the node spells out its tokens", good(CALL(r, t.p, t.n, p, q)))
        elif c == "ParseIfElse":
            m = z3.Int("m!if")
            l = vs[0]
            a = z3.Int("a!if")
            A("the node spells out its tokens", z3.ForAll([a], z3.Implies(z3.And(ok, SUF(l, a, p)), EX(r, a, q)), patterns=[SUF(l, a, p)]))
        elif c == "ParseNodeAssignRhs":
            A("the node spells out its tokens", good(z3.And(KIND(r) == KN["Assignment"], LEFT(r) == vs[0], EX(RIGHT(r), p, q))))
        elif c == "ParseIdAssignRhs":
            A("the node spells out its tokens", good(z3.And(KIND(r) == KN["Assignment"], LEFT(r) == vs[0], EX(RIGHT(r), p, q))))
        elif c == "ParseListOrListComprehension":
            A("the node spells out its tokens", good(LOC(tag, r, self.eng.num(vs[0]), p, q)))
        elif c == "ParseListComprehension":
            A("the node spells out its tokens", good(z3.And(KIND(r) == KN["ListComprehension"], LTYPE(r) == self.eng.num(vs[0]), FORS(vs[1], LEFT(r), p, q - 1),
                                                           TYP(q - 1) == self.close(self.eng.num(vs[0])))))
        elif c == "ParseComprehensionFor":
            A("the node spells out its tokens", good(z3.And(FORS(vs[0], r, p, q - 1), TYP(q - 1) == self.eng.num(vs[1]))))
        return out

    def close(self, ty):
        en = self.en
        return z3.If(ty == 0, en["kCloseSquare"], z3.If(ty == 1, en["kCloseBrace"], en["kCloseParen"]))

    # ------------------------------------------------------------- loops
    def templates(self, eng, ctx):
        e = ctx.entry
        pos = lambda s: s.g["$pos"]
        out = [("the position only moves forward", lambda s: z3.And(pos(s) >= pos(e), pos(s) <= N)),
               ("tokens move forward in the text", lambda s: z3.And(TB(pos(s)) >= TB(pos(e)), TB(pos(s)) > 0, TL(pos(s)) >= 0, TB(pos(s)) + TL(pos(s)) < 1 << 62)),
               ("the first token is left behind", lambda s: z3.Implies(pos(s) > self.p0, TB(pos(s)) >= TB(self.p0) + TL(self.p0))),
               ("no error without report", lambda s: z3.Implies(self.err(e), self.err(s))),
               ("no error so far", lambda s: z3.Not(self.err(s))),
               ("new nodes are newer", lambda s: s.g["$top"] >= e.g["$top"])]
        for lv, v in ctx.mods:
            if isinstance(v, StructV) and v.cls == TOK:
                R = lambda s, lv=lv: eng.rd(s, lv)
                out.append(("the token looked at is the next", lambda s, R=R: z3.And(R(s).f["type"] == TYP(pos(s)), R(s).f["text"].p == TB(pos(s)), R(s).f["text"].n == TL(pos(s)))))
        for o in self.open:
            out.append(("a list stays under construction", lambda s, o=o: s.g["$open"][o]))
        for lv, v in ctx.mods:
            if isinstance(lv, Cell) and lv.path and lv.path[-1] == "type":
                R = lambda s, lv=lv: eng.rd(s, lv)
                out.append(("the token looked at is the next", lambda s, R=R: R(s) == TYP(pos(s))))
        a = self.p0
        for lv in ctx.ints():
            if isinstance(lv, Cell) and not lv.path and lv.cid != self.this.cid:
                R = lambda s, lv=lv: eng.rd(s, lv)
                out.append(("the node exists", lambda s, R=R: R(s) != 0))
                out.append(("the node is of its kind", lambda s, R=R: z3.Implies(R(s) != 0, KIND(R(s)) == KN["BinOpNode"])))
                out.append(("the node exists once something was read", lambda s, R=R: z3.Implies(pos(s) > pos(e), R(s) != 0)))
                out.append(("the node is older than the next", lambda s, R=R: z3.And(R(s) >= 0, R(s) <= s.g["$top"], R(s) < 1 << 62)))
                out.append(("a node is made here", lambda s, R=R: z3.Implies(R(s) != 0, R(s) > self.top0)))
                out.append(("a node is made in the loop", lambda s, R=R: z3.Implies(pos(s) > pos(e), R(s) > self.top0)))
                out.append(("a node takes at least one token", lambda s, R=R: z3.Implies(R(s) != 0, pos(s) > a)))
                out.append(("an identifier lies before the next token", lambda s, R=R: z3.Implies(KIND(R(s)) == KN["Identifier"], z3.And(XB(R(s)) > 0, XB(R(s)) <= TB(pos(s))))))
        out += self.more(eng, ctx) if self.structure else []
        return out

    def more(self, eng, ctx):
        """What has been read so far is what has been built so far."""
        pos, ok, a = lambda s: s.g["$pos"], lambda s: z3.Not(self.err(s)), self.p0
        out = []
        for lv in ctx.ints():
            if isinstance(lv, Cell) and not lv.path and lv.cid != self.this.cid:
                R = lambda s, lv=lv: eng.rd(s, lv)
                out.append(("the value so far spells out the tokens so far", lambda s, R=R: z3.Implies(ok(s), SUF(R(s), a, pos(s)))))
                for o in self.nodes:
                    out.append(("the clauses so far spell out the tokens so far", lambda s, R=R, o=o: z3.Implies(ok(s), z3.If(pos(s) == a, z3.Or(R(s) == 0, R(s) == o), FORS(o, R(s), a, pos(s))))))
                    for lv2 in ctx.ints():
                        if isinstance(lv2, Cell) and not lv2.path and lv2.cid not in (lv.cid, self.this.cid):
                            out.append(("both are the same once something was read", lambda s, R=R, lv2=lv2: z3.Implies(pos(s) > a, R(s) == eng.rd(s, lv2))))
                    out.append(("nothing was read", lambda s, R=R, o=o: z3.Implies(pos(s) == a, R(s) == o)))
                    out.append(("nothing was made", lambda s, R=R: z3.Implies(pos(s) == a, R(s) == 0)))
        for l in self.open:
            n = lambda s, l=l: s.g["$len"][l]
            out.append(("the number of elements", lambda s, n=n: n(s) >= 0))
            out.append(("there is an element", lambda s, n=n: n(s) >= 1))
            out.append(("one element alone is not closed", lambda s, n=n: z3.Implies(z3.And(n(s) == 1, ok(s)), TYP(pos(s)) != self.en["kCloseParen"])))
            out.append(("the statements so far", lambda s, n=n, l=l: z3.Implies(ok(s), STM(l, n(s), pos(s)))))
            for t, b, cl in [(I(T_EX), a, None), (I(T_EX), a + 1, None)] + ([(self.tag, self.origin, self.closing)] if self.origin is not None else []):
                out.append(("the elements and commas so far", lambda s, n=n, l=l, t=t, b=b: z3.Implies(ok(s), SEQ(t, l, n(s), b, pos(s)))))
                out.append(("the elements so far", lambda s, n=n, l=l, t=t, b=b: z3.Implies(ok(s), AFT(t, l, n(s), b, pos(s)))))
                if cl is not None:
                    out.append(("the elements so far, or all of them", lambda s, n=n, l=l, t=t, b=b, cl=cl: z3.Implies(ok(s), z3.Or(SEQ(t, l, n(s), b, pos(s)), z3.And(AFT(t, l, n(s), b, pos(s)), TYP(pos(s)) == cl)))))
        return out


def check(prog, c, structure=False):
    """The production c against its contract (if it is there: otherwise its text is part of its callers')."""
    if c not in ("parse", "ParseExpression") and not prog.by_q.get(P + "::" + c):
        eng = E.Engine(prog, "flat")
        post(eng, E.St(), z3.BoolVal(True), "part of its callers")
        return eng
    x = Parse(prog, c, structure)
    eng, st, en, fn = x.eng, x.st, x.en, x.fn
    p = x.p0
    vs = []
    tag = x.tag = z3.Int("kind of elements")
    for i, prm in enumerate(fn["params"]):
        t = strip(prm["t"])
        if t.startswith("std::function"):
            vs.append(eng.new_cell(st, OpaqueV(t), t, prm["n"] or "element"))
        else:
            v = eng.fresh_st(st, t, prm["n"] or "arg%d" % i)
            if is_ptr(t):
                x.nodes.append(v)
                st.assume(v >= 0, v <= x.top0, v < 1 << 62)
            if t == TOK:
                st.assume(v.f["text"].p > 0, v.f["text"].p + v.f["text"].n < 1 << 62)
            vs.append(v)
    vv = [eng.val(v, st) for v in vs]
    if c == "ParseIfElse":
        st.assume(TYP(p) == en["kIf"], vv[0] != 0)
    elif c == "ParseParenExpressionOrTuple":
        st.assume(TYP(p) == en["kOpenParen"])
    elif c in ("ParseListComprehension", "ParseComprehensionFor"):
        st.assume(TYP(p) == en["kFor"], (vv[1] if c == "ParseListComprehension" else vv[0]) != 0)
        if c == "ParseComprehensionFor":
            st.assume(eng.num(vv[1]) != en["kEof"])
    elif c == "ParseNodeAssignRhs":
        st.assume(vv[0] != 0, vv[1].p > 0, vv[1].p <= vv[2].p + vv[2].n)
    elif c == "ParseIdAssignRhs":
        st.assume(vv[0] != 0, KIND(vv[0]) == KN["Identifier"], XB(vv[0]) > 0, XB(vv[0]) <= vv[1].p + vv[1].n)
    elif c == "ParseList":
        st.assume(vv[0] != 0, eng.num(vv[2]) != en["kEof"])
        st.g["$open"] = z3.Store(st.g["$open"], vv[0], True)
        st.assume(st.g["$len"][vv[0]] >= 0)
        x.open.append(vv[0])
        if structure:
            x.origin, x.closing = z3.Int("begin of the list"), eng.num(vv[2])
            l0 = st.g["$len"][vv[0]]
            st.assume(z3.Or(SEQ(tag, vv[0], l0, x.origin, p), z3.And(AFT(tag, vv[0], l0, x.origin, p), TYP(p) == x.closing)))
    elif c == "parse" and structure:
        st.assume(p == 0)
    for r, s in run(eng, fn, x.this, vs, st):
        r = eng.val(r, s)
        q, er = s.g["$pos"], x.err(s)
        x.link(s, q)
        for o in x.open:
            if c != "ParseList":
                s.assume(z3.Implies(s.g["$open"][o], LEN(o) == s.g["$len"][o]))
        post(eng, s, z3.And(q >= p, q <= N, TB(q) >= TB(p), z3.Implies(q > p, TB(q) >= TB(p) + TL(p))), "the position only moves forward")
        post(eng, s, z3.Implies(x.err0, er), "a reported error is not forgotten")
        if c == "ParseList":
            post(eng, s, r == vv[0], "the list is handed back")
            if structure:
                post(eng, s, z3.Implies(z3.Not(er), z3.And(q > p, LST(tag, r, s.g["$len"][r], x.closing, x.origin, q))), "the list spells out its tokens")
            continue
        if c == "parse":
            post(eng, s, r != 0, "there is a tree")
            post(eng, s, z3.Or(er, q == N), "either all text is read or an error is reported")
            if structure:
                post(eng, s, z3.Implies(z3.Not(er), STM(r, s.g["$len"][r], q)), "the statements spell out all tokens")
            continue
        post(eng, s, z3.And(r >= 0, r <= s.g["$top"], z3.Implies(r != 0, r > x.top0)), "the result is one of the nodes made here")
        for nm, f in x.posts(c, r, s, p, q, vv, er, tag, st):
            post(eng, s, f, nm)
    return eng
