"""Ghost vocabulary about byte content in flat memory: newline count and line starts; loop-invariant templates."""
from speclib import *

NLF = z3.Function("NL", z3.IntSort(), z3.IntSort(), z3.IntSort())     # NL(base, p): newlines in [base, p)


def M(eng, i):
    return z3.Select(eng.mem, i)


def nonl(eng, a, b):
    """No newline in [a, b)."""
    i = z3.Int("i!nonl")
    return z3.ForAll([i], z3.Implies(z3.And(a <= i, i < b), M(eng, i) != 10), patterns=[M(eng, i)])


def nl_axioms(eng, base):
    """Definition of NL and the lemma that it is constant over newline-free text (proved in lemma_unit)."""
    p, q = z3.Ints("p!nl q!nl")
    return [NLF(base, base) == 0]


def nl_step(eng, base, p):
    """NL(base, p+1) by definition (p >= base)."""
    return z3.Implies(p >= base, NLF(base, p + 1) == NLF(base, p) + z3.If(M(eng, p) == 10, I(1), I(0)))


def nl_const(eng, base):
    p, q = z3.Ints("p!nc q!nc")
    return z3.ForAll([p, q], z3.Implies(z3.And(base <= p, p <= q, nonl(eng, p, q)), NLF(base, q) == NLF(base, p)),
                     patterns=[z3.MultiPattern(NLF(base, p), NLF(base, q))])


def lemma_unit(prog):
    """Lemma: NL does not change over newline-free text - by induction on the length (base and step discharged)."""
    eng = E.Engine(prog, "flat")
    base, p, q = z3.Ints("base p q")
    st = E.St()
    st.fn = "lemma"
    st.assume(base <= p)
    post(eng, st, NLF(base, p) == NLF(base, p), "lemma NL-constant: base case")
    s = st.fork()
    s.assume(p <= q, nonl(eng, p, q + 1), z3.Implies(nonl(eng, p, q), NLF(base, q) == NLF(base, p)), nl_step(eng, base, q))
    i = z3.Int("i!w")
    s.assume(M(eng, q) == M(eng, q))
    post(eng, s, NLF(base, q + 1) == NLF(base, p), "lemma NL-constant: induction step")
    st2 = E.St()
    st2.fn = "lemma"
    index_lemma(eng, st2, z3.Int("base2"), z3.Int("upto2"))
    return eng


def index_inv(eng, m, base, upto):
    """m (vector of positions) is exactly the ordered list of line starts of [base, upto]: base, and every position after a newline."""
    a, n = m.a, m.n
    i, j = z3.Ints("i!ix j!ix")
    el = lambda k: z3.Select(a, k)
    return z3.And(
        n >= 1, el(I(0)) == base, el(n - 1) <= upto,
        z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), el(i) < el(j)), patterns=[z3.MultiPattern(el(i), el(j))]),
        z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < n), z3.And(el(i) > base, el(i) <= upto, M(eng, el(i) - 1) == 10)), patterns=[el(i)]),
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i + 1 < n), nonl(eng, el(i), el(i + 1) - 1)), patterns=[el(i)]),
        nonl(eng, el(n - 1), upto))


def index_count(eng, m, base):
    """Consequence of index_inv (proved in lemma_unit): entry i starts the line that i newlines precede."""
    i = z3.Int("i!ic")
    el = lambda k: z3.Select(m.a, k)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m.n), z3.And(NLF(base, el(i)) == i, el(i) >= base + i)), patterns=[el(i)])


def index_lemma(eng, st, base, upto):
    """By induction over the entries, using the definition of NL and lemma NL-constant."""
    m = eng.fresh_st(st, "std::vector<const char *>", "ix")
    i = z3.Int("i0")
    el = lambda k: z3.Select(m.a, k)
    st.assume(base <= upto, index_inv(eng, m, base, upto), nl_const(eng, base), NLF(base, base) == 0)
    H = lambda k: z3.And(NLF(base, el(k)) == k, el(k) >= base + k)
    post(eng, st, H(I(0)), "lemma line-index counts newlines: base case")
    s = st.fork()
    s.assume(i >= 0, i + 1 < m.n, H(i), nl_step(eng, base, el(i + 1) - 1), el(i) < el(i + 1), nonl(eng, el(i), el(i + 1) - 1))
    s.assume(NLF(base, el(i + 1) - 1) == NLF(base, el(i + 1) - 1))
    post(eng, s, NLF(base, el(i + 1) - 1) == NLF(base, el(i)), "lemma line-index counts newlines: step, inside the line")
    s.assume(NLF(base, el(i + 1) - 1) == NLF(base, el(i)))
    post(eng, s, H(i + 1), "lemma line-index counts newlines: step")


def scan_templates(eng, ctx):
    """Name-independent invariants for pointer walks over text."""
    out = []
    for lv in ctx.ints():
        e0 = eng.rd(ctx.entry, lv)
        out.append(("location <= entry", lambda s, lv=lv, e0=e0: eng.rd(s, lv) <= e0))
        out.append(("location >= entry", lambda s, lv=lv, e0=e0: eng.rd(s, lv) >= e0))
        out.append(("no newline between location and entry", lambda s, lv=lv, e0=e0: nonl(eng, eng.rd(s, lv), e0)))
        out.append(("no newline between entry and location", lambda s, lv=lv, e0=e0: nonl(eng, e0, eng.rd(s, lv))))
        out.append(("entry - location = k", lambda s, lv=lv, e0=e0: e0 - eng.rd(s, lv) == ctx.k(s)))
        out.append(("location - entry = k", lambda s, lv=lv, e0=e0: eng.rd(s, lv) - e0 == ctx.k(s)))
        for lo, hi in ctx.entry.g.get("$bufs", ()):
            out.append(("location <= end of text", lambda s, lv=lv, hi=hi: eng.rd(s, lv) <= hi))
            out.append(("location >= start of text", lambda s, lv=lv, lo=lo: eng.rd(s, lv) >= lo))
            out.append(("index <= length", lambda s, lv=lv, lo=lo, hi=hi: eng.rd(s, lv) <= hi - lo))
    return out
