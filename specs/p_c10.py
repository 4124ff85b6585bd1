"""C10: looking up a header by the end of its path."""
from speclib import *

TITLE = "Header lookup by path suffix finds the entry agreeing on most path elements"
HP = ["bant/explore/header-providers.cc"]
BT = "bant::BazelTarget"
S = z3.StringVal
SS, Z, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
LCP = z3.Function("common prefix", SS, SS, SS)
CNT = z3.Function("slashes", SS, Z)
ASSUME = ["the ordered map (lower_bound, neighbours) with texts in lexicographic order", "index keys are reversed paths followed by '/' (KeyTransform, which makes them, is checked here)",
          "std::count_if", "reading a text backwards twice gives the text"]


def cnt_step(x, i):
    """Definition of the number of slashes, one character further."""
    return z3.Implies(z3.And(0 <= i, i < z3.Length(x)), CNT(z3.SubString(x, 0, i + 1)) == CNT(z3.SubString(x, 0, i)) + z3.If(z3.SubString(x, i, 1) == S("/"), I(1), I(0)))


def is_lcp(r, a, b):
    n = z3.Length(r)
    return z3.And(z3.PrefixOf(r, a), z3.PrefixOf(r, b), z3.Or(n == z3.Length(a), n == z3.Length(b), z3.SubString(a, n, 1) != z3.SubString(b, n, 1)))


def u_prefix(prog):
    fn = fn_of(prog, "bant::CommonPrefix")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["second"] = True
    eng.opts["houdini_ms"] = 10000
    st = start(eng, fn)
    a, b = eng.fresh_st(st, "std::string_view", "a"), eng.fresh_st(st, "std::string_view", "b")
    st.assume(z3.Length(a.s) < 1 << 60, z3.Length(b.s) < 1 << 60)

    def T(eng, ctx):
        out = []
        for lv in ctx.ints():
            i = lambda s, lv=lv: eng.rd(s, lv)
            out.append(("inside both", lambda s, i=i: z3.And(i(s) >= 0, i(s) <= z3.Length(a.s), i(s) <= z3.Length(b.s))))
            out.append(("equal so far", lambda s, i=i: z3.SubString(a.s, 0, i(s)) == z3.SubString(b.s, 0, i(s))))
        return out
    eng.loop_templates.append(T)
    for r, s in run(eng, fn, None, [a, b], st):
        r = eng.val(r, s).s
        post(eng, s, is_lcp(r, a.s, b.s), "the longest common beginning")
    return eng


def u_count(prog):
    fn = fn_of(prog, "bant::CommonSlashes")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    st = start(eng, fn)
    a, b = eng.fresh_st(st, "std::string_view", "a"), eng.fresh_st(st, "std::string_view", "b")
    common = LCP(a.s, b.s)
    st.assume(z3.Length(a.s) < 1 << 60, z3.Length(b.s) < 1 << 60, z3.PrefixOf(common, a.s), CNT(common) >= 0, CNT(common) <= z3.Length(common))

    def prefix(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            x, y = lib.to_string(eng, s, vs[0]).s, lib.to_string(eng, s, vs[1]).s
            post(eng, s, z3.Or(z3.And(x == a.s, y == b.s), z3.And(x == b.s, y == a.s)), "the common beginning of the two texts")
            outs.append((StrV(common), s))
        return outs
    eng.overrides["bant::CommonPrefix"] = prefix

    def rng(eng, s, vs):
        f, l = eng.val(vs[0], s), eng.val(vs[1], s)
        if not (isinstance(f, IterV) and f.kind == "str" and l.kind == "str"):
            raise Unsupported("counting in something else than a text")
        x = eng.rd(s, f.cont).s
        post(eng, s, z3.And(f.pos == 0, l.pos == z3.Length(x), x == eng.rd(s, l.cont).s), "the whole text is counted")
        return x

    def count_if(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            x = rng(eng, s, vs)
            c = z3.Const(E.uid("c"), SS)
            s2 = s.fork().assume(z3.Length(c) == 1)
            for r, s3 in eng.call_value(eng.val(vs[2], s), [CharV(c)], s2, e):
                post(eng, s3, eng.bool(eng.val(r, s3)) == (c == S("/")), "slashes are counted")
            outs.append((CNT(x), s))
        return outs

    def count(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            x = rng(eng, s, vs)
            post(eng, s, lib.chr_s(eng, eng.val(vs[2], s)) == S("/"), "slashes are counted")
            outs.append((CNT(x), s))
        return outs
    eng.overrides["std::count_if"], eng.overrides["std::count"] = count_if, count
    eng.axioms.append(CNT(S("")) == 0)

    def T(eng, ctx):
        out = []
        for lv in ctx.ints():
            for lw in ctx.ints():
                if lw is not lv:
                    out.append(("counted so far", lambda s, lv=lv, lw=lw: z3.And(eng.rd(s, lv) >= 0, eng.rd(s, lv) <= z3.Length(common), eng.rd(s, lw) == CNT(z3.SubString(common, 0, eng.rd(s, lv))))))
        return out
    eng.loop_templates.append(T)
    for r, s in run(eng, fn, None, [a, b], st):
        post(eng, s, eng.val(r, s) == CNT(common), "the number of complete path elements in common")
    return eng


def u_lemma(prog):
    """In lexicographic order, what lies between two texts shares at least what they share; so it has at least as many slashes in common."""
    eng = E.Engine(prog, "flat")
    st = E.St()
    st.fn = "lemma"
    j = z3.Int("j!lm")
    T = [(z3.Array("t%d" % i, Z, Z), z3.Int("n%d" % i)) for i in range(3)]
    for _, n in T:
        st.assume(n >= 0)

    def islcp(x, y, l):
        (a, n), (b, m) = x, y
        return z3.And(0 <= l, l <= n, l <= m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l), a[j] == b[j]), patterns=[a[j], b[j]]), z3.Or(l == n, l == m, a[l] != b[l]))

    def leq(x, y, l):
        (a, n), (b, m) = x, y
        return z3.Or(l == n, z3.And(l < m, a[l] < b[l]))
    l01, l12, l02 = z3.Ints("l01 l12 l02")
    x, y, w = T
    st.assume(islcp(x, y, l01), islcp(y, w, l12), islcp(x, w, l02), leq(x, y, l01), leq(y, w, l12))
    post(eng, st, z3.And(l02 <= l01, l02 <= l12), "lemma: what lies between shares at least as much")
    # counting slashes in the first k characters: more characters never give fewer; equal beginnings give equal counts
    C = z3.Function("C", z3.ArraySort(Z, Z), Z, Z)
    step = lambda a, k: C(a, k + 1) == C(a, k) + z3.If(a[k] == 47, I(1), I(0))
    a, b = T[0][0], T[1][0]
    k, n = z3.Ints("k n")
    s = E.St()
    s.fn = "lemma"
    s.assume(0 <= k, k <= n, C(a, k) <= C(a, n), step(a, n))
    post(eng, s, C(a, k) <= C(a, n + 1), "lemma: counts grow with the text (step)")
    s = E.St()
    s.fn = "lemma"
    s.assume(0 <= n, C(a, n) == C(b, n), a[n] == b[n], step(a, n), step(b, n))
    post(eng, s, C(a, n + 1) == C(b, n + 1), "lemma: equal beginnings have equal counts (step)")
    return eng


def u_find(prog):
    fn = fn_of(prog, "bant::FindBySuffix")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    eng.opts["text_order"] = True
    st = start(eng, fn)
    index = eng.fresh_st(st, strip(fn["params"][0]["t"]), "index")
    ic = eng.new_cell(st, index, strip(fn["params"][0]["t"]), "index")
    key = eng.fresh_st(st, "std::string_view", "key")
    least = eng.fresh_st(st, "unsigned long", "least")
    search = z3.Concat(lib.REV(key.s), S("/"))
    st.assume(z3.Length(key.s) < 1 << 30, index.n >= 0)
    lt = lib.key_less(eng, "std::string")
    M = z3.Function("common slashes", SS, SS, Z)
    PATH = z3.Function("path of key", SS, SS)
    x, y, w = z3.Consts("x!fs y!fs w!fs", SS)
    ind = lambda k: z3.Select(index.dom, k)
    eng.axioms += [
        # keys are made by KeyTransform
        z3.ForAll([x], z3.Implies(ind(x), z3.And(x == z3.Concat(lib.REV(PATH(x)), S("/")), lib.REV(lib.REV(PATH(x))) == PATH(x), z3.Length(x) < (1 << 30) + 1, z3.Length(x) >= 1)), patterns=[ind(x)]),
        # the lemma
        z3.ForAll([x, y], z3.Implies(z3.And(z3.Not(lt(y, x)), z3.Not(lt(search, y))), M(search, x) <= M(search, y)), patterns=[z3.MultiPattern(M(search, x), M(search, y))]),
        z3.ForAll([x, y], z3.Implies(z3.And(z3.Not(lt(x, search)), z3.Not(lt(y, x))), M(search, y) <= M(search, x)), patterns=[z3.MultiPattern(M(search, x), M(search, y))]),
        z3.ForAll([x], z3.And(M(search, x) >= 0, M(search, x) < 1 << 31), patterns=[M(search, x)])]

    def slashes(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            a, b = simp(lib.to_string(eng, s, vs[0]).s), simp(lib.to_string(eng, s, vs[1]).s)
            for p, q in ((a, b), (b, a)):
                if z3.eq(p, simp(search)):
                    break
            else:
                eng.oblige(s, z3.Or(a == search, b == search), "compared with what is looked for", "post")
                q = z3.If(a == search, b, a)
            outs.append((M(search, q), s))
        return outs
    eng.overrides["bant::CommonSlashes"] = slashes
    exact = ind(search)
    k = z3.Const("k!any", SS)
    R = strip(fn["ret"])
    for r, s in run(eng, fn, None, [ic, key, least], st):
        o = eng.val(r, s)
        has = eng.bool(o.has)
        post(eng, s.fork().assume(exact), has, "an entry with that path is found")
        s0 = s.fork().assume(z3.Not(has))
        if eng.feasible(s0):
            post(eng, s0.fork().assume(ind(k)), M(search, k) < least, "nothing found: no entry agrees on enough path elements")
        s1 = s.fork().assume(has)
        if not eng.feasible(s1) or o.val is None:
            continue
        v = o.val.f
        ts = v["target_set"]
        if not isinstance(ts, PtrV):
            raise Unsupported("target set pointer %s" % ts)
        got = eng.val(eng.rd(s1, ts.lv), s1)
        kk = entry_key(ts.lv)
        post(eng, s1, ind(kk), "what is returned is an entry of the index")
        post(eng, s1, z3.Select(index.val, kk) == eng.so.reify(got, index.vty), "with its providers")
        se = s1.fork().assume(exact)
        post(eng, se, z3.And(kk == search, v["fuzzy_score"] == 0, v["match"].s == key.s), "the entry with that path, not called fuzzy")
        sf = s1.fork().assume(z3.Not(exact))
        post(eng, sf, v["match"].s == PATH(kk), "the path of the entry is given")
        post(eng, sf, v["fuzzy_score"] == M(search, kk), "with the number of path elements agreed on")
        post(eng, sf, v["fuzzy_score"] >= least, "at least as many as asked for")
        post(eng, sf.fork().assume(ind(k)), M(search, k) <= v["fuzzy_score"], "no other entry agrees on more path elements")
    return eng


def entry_key(lv):
    import lib as L
    while lv is not None:
        if isinstance(lv, L.EntryLV):
            return lv.key
        if isinstance(lv, Cell):
            for step in lv.path:
                if isinstance(step, tuple) and step[0] == "k":
                    return step[1]
        lv = getattr(lv, "base", None) or getattr(lv, "ent", None)
    raise Unsupported("which entry is returned")


def units(tier):
    return [Unit("common beginning", HP, u_prefix), Unit("common path elements", HP, u_count), Unit("neighbours share most", HP, u_lemma), Unit("find by suffix", HP, u_find)]


witness = W.searcher("c10.cc", ALL_SRC)
