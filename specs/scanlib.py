"""Contract of the scanner: gap, token extent, classification, line index - shared by C05 and C06."""
from textlib import *

SC = "bant::Scanner"
NC = "bant::NamedLineIndexedContent"
MAP = "bant::LineColumnMap"
TOK = "bant::Token"
SRC = ["bant/frontend/scanner.cc"]
TT = "bant::TokenType"
SCAN_SRC = ["bant/frontend/scanner.cc", "bant/frontend/named-content.cc", "bant/frontend/linecolumn-map.cc", "bant/frontend/source-locator.cc"]

ESC = z3.Function("ESC", z3.IntSort(), z3.IntSort(), z3.BoolSort())   # ESC(b, i): character i is escaped by a backslash (text starting at b)
CMT = z3.Function("CMT", z3.IntSort(), z3.IntSort(), z3.BoolSort())   # CMT(b, i): position i is inside a comment begun in [b, i)


def esc_def(eng, b, i):
    return z3.And(z3.Not(ESC(b, b)), z3.Implies(i >= b, ESC(b, i + 1) == z3.And(M(eng, i) == 92, z3.Not(ESC(b, i)))))


def cmt_def(eng, b, i):
    return z3.And(z3.Not(CMT(b, b)), z3.Implies(i >= b, CMT(b, i + 1) == z3.If(M(eng, i) == 10, z3.BoolVal(False), z3.Or(M(eng, i) == 35, CMT(b, i)))))


def is_space(c):
    return z3.Or(z3.And(c >= 9, c <= 13), c == 32)


def is_digit(c):
    return z3.And(c >= 48, c <= 57)


def is_xdigit(c):
    return z3.Or(is_digit(c), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def is_alpha(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))


def is_ident(c):
    return z3.Or(is_alpha(c), c == 95, is_digit(c))


def allin(eng, a, b, pred, nm):
    i = z3.Int("i!%s" % nm)
    return z3.ForAll([i], z3.Implies(z3.And(a <= i, i < b), pred(M(eng, i), i)), patterns=[M(eng, i)])


def blank(eng, a, b, origin):
    """[a, b) consists of whitespace, backslashes and comments (comment state tracked from origin)."""
    i = z3.Int("i!bl")
    c = M(eng, i)
    return z3.ForAll([i], z3.Implies(z3.And(a <= i, i < b), z3.Or(is_space(c), c == 92, c == 35, CMT(origin, i))), patterns=[c])


CLASSES = [("identifier characters", lambda c, i: is_ident(c)), ("whitespace", lambda c, i: is_space(c)),
           ("digits or dots", lambda c, i: z3.Or(is_digit(c), c == 46)), ("hex digits or dots", lambda c, i: z3.Or(is_xdigit(c), c == 46)),
           ("not newline", lambda c, i: c != 10)]


def uq(eng, b, q, i):
    """An unescaped quote q at i, in the string body starting at b."""
    return z3.And(i >= b, M(eng, i) == q, z3.Not(ESC(b, i)))


def closes(eng, b, q, triple, i):
    return z3.And(uq(eng, b, q, i), z3.Implies(triple, z3.And(uq(eng, b, q, i - 1), uq(eng, b, q, i - 2))))


def unclosed(eng, b, q, triple, hi):
    i = z3.Int("i!uc")
    return z3.ForAll([i], z3.Implies(z3.And(b <= i, i < hi), z3.Not(closes(eng, b, q, triple, i))), patterns=[M(eng, i)])


class Setup:
    def __init__(self, prog, fname, upcoming=False, indexed=True, classify=False):
        self.classify = classify
        eng = self.eng = E.Engine(prog, "flat")
        self.prog = prog
        eng.opts["termination"] = True
        eng.opts["quick_ms"] = 2000
        fn = self.fn = fn_of(prog, SC + "::" + fname)
        st = self.st = start(eng, fn)
        base, end = z3.Ints("base end")
        self.base, self.end = base, end
        st.assume(base > 0, base <= end, end < E.TWO64 - 8, end - base < 1 << 31)
        st.g["$bufs"] = ((base, end),)
        i = z3.Int("i!mem")
        eng.axioms.append(z3.ForAll([i], z3.And(M(eng, i) >= -128, M(eng, i) <= 127), patterns=[M(eng, i)]))
        fs = prog.records[SC]["fields"]
        cp = [f for f in fs if f["t"] in ("const char *", "const char *const")]
        self.endf = ([f["n"] for f in cp if f.get("const")] or [f["n"] for f in cp if "end" in f["n"]])[0]
        self.posf = [f["n"] for f in cp if f["n"] != self.endf][0]
        self.upf = field_of_type(prog, SC, lambda t: t == TOK, "look-ahead token")
        self.hasf = field_of_type(prog, SC, lambda t: t == "bool", "look-ahead flag")
        self.srcf = [f["n"] for f in fs if is_ref(f["t"])][0]
        self.mapf = field_of_type(prog, NC, lambda t: t == MAP, "line index")
        self.vecf = field_of_type(prog, MAP, lambda t: split_targs(t)[0] == "std::vector", "vector of line starts")
        conf = field_of_type(prog, NC, lambda t: t == "std::string_view", "content view")
        src = eng.fresh_st(st, NC, "source")
        st.assume(src.f[conf].p == base, src.f[conf].n == end - base)
        self.src = eng.new_cell(st, src, NC, "source")
        if fname != "Scanner":
            sc = eng.fresh_st(st, SC, "scanner").set(self.srcf, PtrV(self.src)).set(self.hasf, z3.BoolVal(upcoming))
            self.this = eng.new_cell(st, sc, SC, "scanner")
            self.sc = sc
            self.pos0 = sc.f[self.posf]
            st.assume(sc.f[self.endf] == end, base <= self.pos0, self.pos0 <= end)
            st.assume(z3.Not(CMT(self.pos0, self.pos0)))
            if indexed:
                st.assume(index_inv(eng, src.f[self.mapf].f[self.vecf], base, self.pos0))
        self.indexed = indexed
        b = z3.Int("b!esc")
        eng.axioms.append(z3.ForAll([b], z3.Not(ESC(b, b)), patterns=[ESC(b, b)]))
        eng.loop_templates.append(self.templates)
        eng.opts["back_hooks"] = [self.back]
        eng.overrides[MAP + "::PushNewline"] = self.push

    def index(self, s):
        return self.eng.rd(s, self.src.sub(self.mapf).sub(self.vecf))

    def push(self, eng, st, e, _):
        """PushNewline by its contract (proved in C03)."""
        outs = []
        for o, s in eng.ev(e["obj"], st):
            if e.get("arrow"):
                lv = eng.deref(eng.val(o, s), s, MAP)
            else:
                lv = eng.obj_lv(o, e, s)
            for vs, s2 in eng.evs(e["args"], s):
                p = eng.num(eng.val(vs[0], s2))
                m = eng.rd(s2, lv.sub(self.vecf))
                if self.indexed:
                    eng.oblige(s2, z3.Or(m.n == 0, z3.Select(m.a, m.n - 1) <= p), "line starts are pushed in order")
                s2 = eng.wr(s2, lv.sub(self.vecf), VecV(m.n + 1, z3.Store(m.a, m.n, p), m.ety)) or s2
                outs.append((VOID, s2))
        return outs

    def back(self, eng, b, ctx):
        """Definitional unfoldings of the ghost functions at the positions just passed."""
        for lv in ctx.ints():
            e0 = eng.rd(ctx.entry, lv)
            y = eng.rd(b, lv)
            b.assume(esc_def(eng, e0, y - 1), cmt_def(eng, e0, y - 1))

    def templates(self, eng, ctx):
        out = []
        base, end = self.base, self.end
        bools = [lv for lv, v in ctx.mods if isinstance(v, z3.ExprRef) and z3.is_bool(v)]
        ints = ctx.ints()
        quotes = [v for cid, v in ctx.entry.cells.items() if eng.types.get(cid) == "char" and isinstance(v, z3.ExprRef)]
        fixed_bools = [v for cid, v in ctx.entry.cells.items() if eng.types.get(cid) in ("bool", "const bool") and isinstance(v, z3.ExprRef) and not any(isinstance(l, Cell) and l.cid == cid for l in bools)]
        modc = {l.cid for l in ints if isinstance(l, Cell)}
        marks = {}
        for cid, v in ctx.entry.cells.items():
            if eng.types.get(cid) in ("const char *", "const char *const") and cid not in modc and z3.is_expr(v) and z3.is_int(v):
                marks[v.get_id()] = v
        marks = list(marks.values())
        for lv in ints:
            e0 = eng.rd(ctx.entry, lv)
            R = lambda s, lv=lv: eng.rd(s, lv)
            out.append(("entry <= location <= end", lambda s, R=R, e0=e0: z3.And(e0 <= R(s), R(s) <= end)))
            for v in marks:
                out.append(("location <= earlier mark", lambda s, R=R, v=v: R(s) <= v))
            if self.indexed:
                out.append(("index exact up to location", lambda s, R=R: z3.And(R(s) >= base, index_inv(eng, self.index(s), base, R(s)))))
            out.append(("[entry, location): blank", lambda s, R=R, e0=e0: blank(eng, e0, R(s), e0)))
            for z in bools:
                out.append(("flag = in comment", lambda s, R=R, z=z, e0=e0: eng.rd(s, z) == CMT(e0, R(s))))
            if not self.classify:
                continue
            for nm, pr in CLASSES:
                out.append(("[entry, location): " + nm, lambda s, R=R, e0=e0, pr=pr, nm=nm: allin(eng, e0, R(s), pr, nm[:3])))
            for z in bools:
                Z = lambda s, z=z: eng.rd(s, z)
                out.append(("flag = escaped", lambda s, R=R, Z=Z, e0=e0: Z(s) == ESC(e0, R(s))))
                i, j = z3.Ints("i!dt j!dt")
                out.append(("flag clear: no dot", lambda s, R=R, Z=Z, e0=e0: z3.Implies(z3.Not(Z(s)), allin(eng, e0, R(s), lambda c, i: c != 46, "nod"))))
                out.append(("flag set: a dot", lambda s, R=R, Z=Z, e0=e0: z3.Implies(Z(s), z3.Exists([i], z3.And(e0 <= i, i < R(s), M(eng, i) == 46)))))
            i, j = z3.Ints("i!dt j!dt")
            out.append(("at most one dot", lambda s, R=R, e0=e0: z3.ForAll([i, j], z3.Implies(z3.And(e0 <= i, i < j, j < R(s)), z3.Or(M(eng, i) != 46, M(eng, j) != 46)), patterns=[z3.MultiPattern(M(eng, i), M(eng, j))])))
            for q in quotes:
                for tr in fixed_bools + [z3.BoolVal(True), z3.BoolVal(False)]:
                    out.append(("string not closed before location", lambda s, R=R, e0=e0, q=q, tr=tr: unclosed(eng, e0, q, tr, R(s))))
                    for x in ints:
                        if x is lv:
                            continue
                        X = lambda s, x=x: eng.rd(s, x)
                        u = lambda s, d, R=R, e0=e0, q=q: uq(eng, e0, q, R(s) - d)
                        out.append(("remaining quotes to close", lambda s, X=X, u=u, tr=tr: z3.If(tr, z3.And(
                            X(s) >= 1, X(s) <= 3, (X(s) == 3) == z3.Not(u(s, 1)), (X(s) == 1) == z3.And(u(s, 1), u(s, 2))), X(s) == 1)))
        return out


def tok_spec(S, s, t, p, strict=True):
    """What the token t (type, text) starting at p must be; list of (name, formula)."""
    eng, end = S.eng, S.end
    en = S.prog.enums[TT]
    K = lambda n: I(int(en[n]))
    ty, n = t.f["type"], t.f["text"].n
    c = lambda d: M(eng, p + d)
    c0 = c(0)
    has = lambda d: p + d < end
    in_ = lambda cs: z3.Or([c0 == ord(x) for x in cs])
    out = []
    single = in_("(){}[],:+-*/.%|")
    out.append(("punctuation is a one-character token of its own", z3.Implies(single, z3.And(n == 1, ty == c0))))
    rel = in_("!<>=")
    eq = z3.And(has(1), c(1) == ord("="))
    out.append(("'=', '<', '>', '!' join with a following '='", z3.Implies(rel, z3.And(n == z3.If(eq, 2, 1), ty == z3.If(eq, c0 + 256, c0)))))
    # strings
    raw = z3.And(z3.Or(c0 == ord("r"), c0 == ord("R")), p + 2 < end, z3.Or(c(1) == 34, c(1) == 39))
    is_str = z3.Or(c0 == 34, c0 == 39, raw)
    r = z3.If(raw, I(1), I(0))
    q = z3.If(raw, c(1), c0)
    o = p + r + 1                       # after the opening quote
    triple = z3.And(o + 1 < end, M(eng, o) == q, M(eng, o + 1) == q)
    b = z3.If(triple, o + 2, o)
    last = p + n - 1
    out.append(("a quote starts a string or an error", z3.Implies(is_str, z3.Or(ty == K("kStringLiteral"), ty == K("kError")))))
    out.append(("a string ends at its first matching closing quote", z3.Implies(z3.And(is_str, ty == K("kStringLiteral")), z3.And(last >= b, closes(eng, b, q, triple, last), unclosed(eng, b, q, triple, last)))))
    out.append(("an error in place of a string means it is unterminated", z3.Implies(z3.And(is_str, ty == K("kError")), z3.And(p + n == end, unclosed(eng, b, q, triple, end)))))
    # numbers
    num = is_digit(c0)
    hexa = z3.And(c0 == 48, has(1), c(1) == ord("x"))
    octa = z3.And(c0 == 48, has(1), c(1) == ord("o"))
    nb = p + z3.If(z3.Or(hexa, octa), I(2), I(1))
    dig = lambda ch: z3.Or(z3.If(hexa, is_xdigit(ch), is_digit(ch)), ch == 46)
    i, j = z3.Ints("i!nd j!nd")
    one_dot = z3.ForAll([i, j], z3.Implies(z3.And(nb <= i, i < j, j < p + n), z3.Or(M(eng, i) != 46, M(eng, j) != 46)), patterns=[z3.MultiPattern(M(eng, i), M(eng, j))])
    out.append(("a digit starts a number or an error", z3.Implies(num, z3.And(p + n >= nb, z3.Or(ty == K("kNumberLiteral"), ty == K("kError"))))))
    out.append(("a number consists of its digits and at most one dot", z3.Implies(num, z3.And(allin(eng, nb, p + n, lambda ch, i: dig(ch), "num"), one_dot))))
    out.append(("a number extends as far as possible", z3.Implies(z3.And(num, ty == K("kNumberLiteral"), p + n < end), z3.Not(dig(M(eng, p + n))))))
    out.append(("an error in place of a number means a second dot follows", z3.Implies(z3.And(num, ty == K("kError")),
                z3.And(p + n < end, M(eng, p + n) == 46, z3.Exists([i], z3.And(nb <= i, i < p + n, M(eng, i) == 46))))))
    # identifiers and keywords
    ident = z3.And(z3.Or(is_alpha(c0), c0 == 95), z3.Not(raw))
    word = lambda at, w: z3.And(*[M(eng, at + k) == ord(ch) for k, ch in enumerate(w)])
    kw = {"in": "kIn", "for": "kFor", "and": "kAnd", "or": "kOr", "if": "kIf", "else": "kElse"}
    notin = ty == K("kNotIn")
    exact = z3.And(allin(eng, p, p + n, lambda ch, i: is_ident(ch), "idn"), z3.Or(p + n == end, z3.Not(is_ident(M(eng, p + n)))))
    iskw = lambda w: z3.And(n == len(w), word(p, w))
    out.append(("words extend as far as possible", z3.Implies(z3.And(ident, z3.Not(notin)), exact)))
    typ = K("kIdentifier")
    for w, k in kw.items():
        typ = z3.If(iskw(w), K(k), typ)
    typ = z3.If(iskw("not"), K("kNot"), typ)
    out.append(("words are keywords exactly when they spell one", z3.Implies(z3.And(ident, z3.Not(notin)), ty == typ)))
    out.append(("'not in' is the words 'not' and 'in' separated by whitespace", z3.Implies(notin, z3.And(
        ident, n >= 6, word(p, "not"), allin(eng, p + 3, p + n - 2, lambda ch, i: is_space(ch), "nis"), word(p + n - 2, "in"),
        z3.Or(p + n == end, z3.Not(is_ident(M(eng, p + n))))))))
    w = z3.Int("w!in")
    out.append(("'not' is only left alone when no complete word 'in' follows on", z3.Implies(z3.And(ident, ty == K("kNot"), w > p + 3, w + 2 <= end,
                allin(eng, p + 3, w, lambda ch, i: is_space(ch), "nib"), word(w, "in")), z3.And(w + 2 < end, is_ident(M(eng, w + 2))))))
    other = z3.Not(z3.Or(single, rel, is_str, num, ident))
    out.append(("any other character is a one-character error", z3.Implies(other, z3.And(n == 1, ty == K("kError")))))
    return out
