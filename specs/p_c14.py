"""C14: minimal dependency sets. Input and output are sequences of sets of candidate targets."""
from speclib import *

TITLE = "Minimal dependency sets keep exactly one way to reach everything needed"
SRC = ["bant/tool/dwyu.cc"]
ASSUME = ["every set given is non-empty (what the callers establish, C15)", "std::set_intersection of two ordered sets is their intersection",
          "a std::set of numbers that holds exactly 0..n-1 has n elements"]


def subset(a, b):
    x = z3.Const("x!ss", a.sort().domain())
    return z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.Select(b, x)), patterns=[z3.Select(a, x)])


def u_min(prog):
    fns = [f for q, fs in prog.by_q.items() if q.endswith("MinimizeDependencySet") for f in fs]
    if len(fns) != 1:
        raise Unsupported("MinimizeDependencySet")
    fn = fns[0]
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    st = start(eng, fn)
    T = eng.fresh_st(st, strip(fn["params"][0]["t"]), "sets")
    D = eng.so.datatype(strip(T.ety))
    so = eng.so.sort(split_targs(strip(T.ety))[1][0])
    i, x = z3.Int("i!t"), z3.Const("x!t", so)
    dom = lambda s: D.sa(s)
    k0 = z3.Int("needed")                 # any one of the sets given
    q = z3.Int("q!r")
    el = lambda r, q: dom(z3.Select(r.a, q))
    SETS_ = z3.ArraySort(so, z3.BoolSort())
    # "all its members are among those of the needed set" / "all its members are candidates": both pass to smaller sets,
    # which is what the contract of intersect() (proved below) says about its result
    HIT = z3.Function("serves the needed one", SETS_, z3.BoolSort())
    CLEAN = z3.Function("holds only candidates", SETS_, z3.BoolSort())
    K0 = dom(z3.Select(T.a, k0))
    st.assume(HIT(K0), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), z3.And(D.sn(z3.Select(T.a, i)) > 0, CLEAN(dom(z3.Select(T.a, i))))), patterns=[z3.Select(T.a, i)]))
    some = lambda r: z3.Exists([q], z3.And(q >= 0, q < r.n, HIT(el(r, q))), patterns=[el(r, q)])
    clean = CLEAN

    def isect(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            a, b = eng.val(vs[0], s), eng.val(vs[1], s)
            r = eng.fresh_st(s, strip(e["t"]), "isect")
            s.assume(z3.Implies(z3.Or(HIT(a.a), HIT(b.a)), HIT(r.a)), z3.Implies(z3.Or(CLEAN(a.a), CLEAN(b.a)), CLEAN(r.a)))
            outs.append((r, s))
        return outs
    isq = [q_ for q_ in prog.by_q if q_.split("::")[-1] == "intersect"]
    if len(isq) != 1:
        raise Unsupported("intersect")
    eng.overrides[isq[0]] = isect

    def sound(r):
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < r.n), z3.And(D.sn(z3.Select(r.a, q)) > 0, clean(el(r, q)))), patterns=[z3.Select(r.a, q)])

    def templ(eng, ctx):
        out = []
        vecs = [lv for lv, v in ctx.mods if isinstance(v, VecV)]
        idxs = [lv for lv, v in ctx.mods if isinstance(v, SetV) and strip(v.ety) in INTS]
        curs = [lv for lv, v in ctx.mods if isinstance(v, SetV) and strip(v.ety) not in INTS]
        R = lambda s, lv: eng.rd(s, lv)
        # every vector of the result's type in scope may be the result
        allvec = [Cell(c) for c, v in ctx.entry.cells.items() if isinstance(v, VecV) and strip(v.ety) == strip(T.ety) and not v.a.eq(T.a)]
        for v in vecs:
            out.append(("every set kept is non-empty and holds only candidates", lambda s, v=v: sound(R(s, v))))
        for iv in ctx.ints():
            out.append(("at most all sets", lambda s, iv=iv: z3.And(R(s, iv) >= 0, R(s, iv) <= T.n)))
            e0 = eng.rd(ctx.entry, iv)
            out.append(("counts up", lambda s, iv=iv, e0=e0: R(s, iv) >= e0))
        for c in idxs:
            y = z3.Int("y!c")
            out.append(("covered sets exist", lambda s, c=c: z3.ForAll([y], z3.Implies(z3.Select(R(s, c).a, y), z3.And(y >= 0, y < T.n)), patterns=[z3.Select(R(s, c).a, y)])))
            c0 = eng.rd(ctx.entry, c).a
            out.append(("covered stays covered", lambda s, c=c, c0=c0: z3.ForAll([y], z3.Implies(z3.Select(c0, y), z3.Select(R(s, c).a, y)), patterns=[z3.Select(c0, y)])))
            for iv in ctx.ints():
                out.append(("all sets looked at are covered", lambda s, c=c, iv=iv: z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < R(s, iv)), z3.Select(R(s, c).a, y)), patterns=[z3.Select(R(s, c).a, y)])))
            for v in allvec:
                out.append(("a covered set is served by a set kept", lambda s, c=c, v=v: z3.Implies(z3.Select(R(s, c).a, k0), some(R(s, v)))))
                for u in curs:
                    out.append(("a covered set is served by a set kept or the current one", lambda s, c=c, v=v, u=u: z3.Implies(z3.Select(R(s, c).a, k0), z3.Or(some(R(s, v)), HIT(R(s, u).a)))))
        for u in curs:
            u0 = eng.rd(ctx.entry, u).a
            out.append(("the current set holds candidates", lambda s, u=u: clean(R(s, u).a)))
            out.append(("the current set is not empty", lambda s, u=u: R(s, u).n > 0))
            out.append(("the current set serves what it served", lambda s, u=u, u0=u0: z3.Implies(HIT(u0), HIT(R(s, u).a))))
        return out
    eng.loop_templates.append(templ)
    eng.opts["quick_ms"] = 3000

    def size(eng, st, v):
        if isinstance(v, SetV) and strip(v.ety) in INTS:
            y = z3.Int(E.uid("differs"))      # "exactly 0..n-1 implies n elements", with the difference named
            st.assume(z3.Or(v.n == T.n, z3.Select(v.a, y) != z3.And(y >= 0, y < T.n)))
    eng.opts["set_size"] = [size]
    for r, s in run(eng, fn, None, [eng.new_cell(st, T, strip(fn["params"][0]["t"]), "sets")], st):
        r = eng.val(r, s)
        post(eng, s, sound(r), "every set kept is non-empty and holds only candidates")
        s2 = s.fork().assume(k0 >= 0, k0 < T.n)
        post(eng, s2, some(r), "every set given has a set kept all of whose members are among its own")
    return eng


def u_disjoint(prog):
    """No target is in two of the sets kept."""
    fns = [f for q, fs in prog.by_q.items() if q.endswith("MinimizeDependencySet") for f in fs]
    if len(fns) != 1:
        raise Unsupported("MinimizeDependencySet")
    fn = fns[0]
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["fast"] = True
    st = start(eng, fn)
    T = eng.fresh_st(st, strip(fn["params"][0]["t"]), "sets")
    D = eng.so.datatype(strip(T.ety))
    x0 = z3.Const("any target", eng.so.sort(split_targs(strip(T.ety))[1][0]))
    w = z3.Const("w!d", T.a.sort().range())
    j1, j2, y = z3.Ints("j1!d j2!d y!d")
    holds = lambda v, j: z3.Select(D.sa(z3.Select(v.a, j)), x0)
    eng.axioms.append(z3.ForAll([w], z3.Implies(z3.Select(D.sa(w), x0), D.sn(w) > 0), patterns=[z3.Select(D.sa(w), x0)]))
    st.assume(z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < T.n), D.sn(z3.Select(T.a, y)) > 0), patterns=[z3.Select(T.a, y)]))

    def isect(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            a, b = eng.val(vs[0], s), eng.val(vs[1], s)
            r = eng.fresh_st(s, strip(e["t"]), "isect")
            s.assume(z3.Select(r.a, x0) == z3.And(z3.Select(a.a, x0), z3.Select(b.a, x0)), r.n >= 0, z3.Implies(z3.Select(r.a, x0), r.n > 0))
            outs.append((r, s))
        return outs
    isq = [q_ for q_ in prog.by_q if q_.split("::")[-1] == "intersect"]
    if len(isq) != 1:
        raise Unsupported("intersect")
    eng.overrides[isq[0]] = isect
    once = lambda v: z3.ForAll([j1, j2], z3.Implies(z3.And(0 <= j1, j1 < v.n, 0 <= j2, j2 < v.n, holds(v, j1), holds(v, j2)), j1 == j2), patterns=[z3.MultiPattern(z3.Select(v.a, j1), z3.Select(v.a, j2))])
    none = lambda v: z3.ForAll([j1], z3.Implies(z3.And(0 <= j1, j1 < v.n), z3.Not(holds(v, j1))), patterns=[z3.Select(v.a, j1)])
    left = lambda c, lo, hi: z3.ForAll([y], z3.Implies(z3.And(lo <= y, y < hi, holds(T, y)), z3.Select(c.a, y)), patterns=[z3.Select(c.a, y), z3.Select(T.a, y)])

    def templ(eng, ctx):
        out = []
        R = lambda s, lv: eng.rd(s, lv)
        isres = lambda v: isinstance(v, VecV) and strip(v.ety) == strip(T.ety) and not v.a.eq(T.a)
        allvec = [Cell(c) for c, v in ctx.entry.cells.items() if isres(v)]
        idxs = [lv for lv, v in ctx.mods if isinstance(v, SetV) and strip(v.ety) in INTS]
        curs = [lv for lv, v in ctx.mods if isinstance(v, SetV) and strip(v.ety) not in INTS]
        for v in [lv for lv, v in ctx.mods if isres(v)]:
            out.append(("no target in two sets kept", lambda s, v=v: z3.And(R(s, v).n >= 0, once(R(s, v)))))
        for iv in ctx.ints():
            e0 = eng.rd(ctx.entry, iv)
            out.append(("at most all sets", lambda s, iv=iv, e0=e0: z3.And(R(s, iv) >= e0, R(s, iv) <= T.n)))
        for c in idxs:
            c0 = eng.rd(ctx.entry, c).a
            out.append(("covered stays covered", lambda s, c=c, c0=c0: z3.ForAll([y], z3.Implies(z3.Select(c0, y), z3.Select(R(s, c).a, y)), patterns=[z3.Select(R(s, c).a, y)])))
            out.append(("covered sets exist", lambda s, c=c: z3.ForAll([y], z3.Implies(z3.Select(R(s, c).a, y), z3.And(y >= 0, y < T.n)), patterns=[z3.Select(R(s, c).a, y)])))
            for iv in ctx.ints():
                out.append(("all sets looked at are covered", lambda s, c=c, iv=iv: z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < R(s, iv)), z3.Select(R(s, c).a, y)), patterns=[z3.Select(R(s, c).a, y)])))
            for v in allvec:
                out.append(("what a set kept holds is in covered sets only", lambda s, c=c, v=v: z3.Or(none(R(s, v)), left(R(s, c), 0, T.n))))
            for u in curs:
                for iv in ctx.ints():
                    out.append(("what the current set holds is in covered sets only", lambda s, c=c, u=u, iv=iv: z3.Implies(z3.Select(R(s, u).a, x0), left(R(s, c), 0, R(s, iv)))))
        for u in curs:
            u0 = eng.rd(ctx.entry, u).a
            out.append(("the current set shrinks", lambda s, u=u, u0=u0: z3.And(z3.Implies(z3.Select(R(s, u).a, x0), z3.Select(u0, x0)), R(s, u).n > 0)))
        return out
    eng.loop_templates.append(templ)
    eng.opts["quick_ms"], eng.opts["houdini_ms"] = 3000, 1000

    def size(eng, st, v):
        if isinstance(v, SetV) and strip(v.ety) in INTS:
            y = z3.Int(E.uid("differs"))      # "exactly 0..n-1 implies n elements", with the difference named
            st.assume(z3.Or(v.n == T.n, z3.Select(v.a, y) != z3.And(y >= 0, y < T.n)))
    eng.opts["set_size"] = [size]
    for r, s in run(eng, fn, None, [eng.new_cell(st, T, strip(fn["params"][0]["t"]), "sets")], st):
        post(eng, s, once(eng.val(r, s)), "no target is in two of the sets kept")
    return eng


def u_intersect(prog):
    fns = [f for q, fs in prog.by_q.items() if q.split("::")[-1] == "intersect" for f in fs]
    if len(fns) != 1:
        raise Unsupported("intersect")
    fn = fns[0]
    eng = E.Engine(prog, "seq")
    st = start(eng, fn)
    a, b = [eng.fresh_st(st, strip(p["t"]), p["n"]) for p in fn["params"]]
    x = z3.Const("x!q", a.a.sort().domain())
    other = z3.Const("any set", a.a.sort())
    for r, s in run(eng, fn, None, args_for(eng, st, fn, {0: a, 1: b}), st):
        r = eng.val(r, s)
        post(eng, s, z3.Select(r.a, x) == z3.And(z3.Select(a.a, x), z3.Select(b.a, x)), "the intersection of two sets")
        post(eng, s, z3.Implies(z3.Or(subset(a.a, other), subset(b.a, other)), subset(r.a, other)), "what all members of one of two sets have in common, all members of the intersection have")
    return eng


def u_meaning(prog):
    """Lemma: what the postconditions of MinimizeDependencySet mean for the choices left."""
    eng = E.Engine(prog, "seq")
    st = E.St()
    st.fn = "lemma"
    so = z3.DeclareSort("Target")
    given, kept = z3.Consts("given kept", z3.ArraySort(so, z3.BoolSort()))
    only, w = z3.Consts("only w", so)
    x = z3.Const("x!m", so)
    st.assume(subset(kept, given), z3.Select(kept, w), z3.ForAll([x], z3.Select(given, x) == (x == only)))
    post(eng, st, z3.And(z3.Select(kept, only), z3.Select(kept, x) == (x == only)), "a target that is the only one to provide something is kept, alone")
    return eng


def units(tier):
    return [Unit("minimise", SRC, u_min), Unit("disjoint", SRC, u_disjoint), Unit("intersection", SRC, u_intersect), Unit("only providers", SRC, u_meaning)]


witness = W.searcher("c14.cc", [f for f in ALL_SRC if f != "bant/tool/dwyu.cc"])
