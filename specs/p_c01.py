"""C01: memory handed out by the arena is valid, of the requested size, and never handed out twice."""
from speclib import *

TITLE = "Arena allocations are valid, big enough and never overlap"
INST = "/verif/specs/arena_inst.cc"
SRC = [INST]
CLS = "bant::Arena"
ASSUME = ["allocation requests are at most 2^62 bytes and the configured block size is not negative",
          "a moved-from arena is not used again"]
TRUST = ["operator new[]: returns a fresh region of the requested size, disjoint from every live region"]
A = z3.ArraySort(z3.IntSort(), z3.BoolSort())


def fields(prog):
    vec = field_of_type(prog, CLS, lambda t: split_targs(t)[0] in VEC, "block list")
    ends = [f["n"] for f in prog.records[CLS]["fields"] if is_ptr(f["t"])]
    if len(ends) != 2:
        raise Unsupported("Arena: expected two pointers")
    endf = [f["n"] for f in prog.records[CLS]["fields"] if is_ptr(f["t"]) and is_constptr(f["t"])]
    if len(endf) != 1:
        # fall back to the documented name
        endf = [n for n in ends if "end" in n]
    end = endf[0]
    pos = [n for n in ends if n != end][0]
    return vec, pos, end


def new_model(eng, st, e, vs):
    """new char[n]"""
    if e["at"] != "char" or not e.get("asize") or e.get("nplace"):
        raise Unsupported("new " + e["at"])
    outs = []
    for n, s in eng.rv(e["asize"], st):
        n = eng.num(n)
        p = z3.Int(E.uid("block"))
        a = z3.Int("a!n")
        s.assume(p > 0, p + n < E.TWO64, n >= 0,
                 z3.ForAll([a], z3.Implies(z3.And(p <= a, a < p + n), z3.And(z3.Not(s.g["live"][a]), z3.Not(s.g["used"][a]))), patterns=[s.g["live"][a], s.g["used"][a]]))
        L2 = z3.Const(E.uid("live"), A)
        s.assume(z3.ForAll([a], L2[a] == z3.Or(s.g["live"][a], z3.And(p <= a, a < p + n)), patterns=[L2[a]]),
                 z3.ForAll([a], L2[a] == z3.Or(s.g["live"][a], z3.And(p <= a, a < p + n)), patterns=[s.g["live"][a]]))
        s.g["live"] = L2
        s.g["news"] = s.g["news"] + (p,)
        outs.append((p, s))
    return outs


def inv(eng, s, obj, F):
    vec, pos, end = F
    a = z3.Int("a!i")
    P, En = obj.f[pos], obj.f[end]
    return z3.And(P >= 0, P <= En,
                  z3.Implies(P == 0, En == 0),
                  z3.ForAll([a], z3.Implies(z3.And(P != 0, P <= a, a < En), z3.And(s.g["live"][a], z3.Not(s.g["used"][a])))),
                  z3.ForAll([a], z3.Implies(s.g["used"][a], s.g["live"][a]), patterns=[s.g["used"][a]]))


def setup(prog):
    eng = E.Engine(prog, "flat")
    eng.overrides["new"] = new_model
    return eng


def u_alloc(prog):
    eng = setup(prog)
    F = fields(prog)
    fn = fn_of(prog, CLS + "::Alloc")
    st = start(eng, fn)
    st.g["live"], st.g["used"], st.g["news"] = z3.Const("live0", A), z3.Const("used0", A), ()
    obj = eng.fresh_st(st, CLS, "this")
    this = eng.new_cell(st, obj, CLS, "this")
    for f in prog.records[CLS]["fields"]:
        if f["n"] not in F and strip(f["t"]) == "unsigned long" and f["t"].startswith("const "):
            st.assume(obj.f[f["n"]] <= E.SMAX)
    st.assume(inv(eng, st, obj, F))
    size = eng.fresh_st(st, "unsigned long", "size")
    st.assume(size <= E.SMAX)
    vs = args_for(eng, st, fn, {0: size})
    live0, used0, v0 = st.g["live"], st.g["used"], obj.f[F[0]]
    for r, s in run(eng, fn, this, vs, st):
        r = eng.val(r, s)
        o2 = eng.rd(s, this)
        x = z3.Int(E.uid("x"))
        s.assume()
        inr = z3.And(r <= x, x < r + size)
        post(eng, s, r != 0, "the returned pointer is not null")
        post(eng, s, z3.Implies(inr, s.g["live"][x]), "every byte of the allocation lies in memory the arena owns")
        post(eng, s, z3.Implies(inr, z3.Not(used0[x])), "no byte of the allocation was handed out before")
        post(eng, s, z3.Implies(live0[x], s.g["live"][x]), "memory owned before stays owned")
        used2 = z3.Const(E.uid("used"), A)
        a = z3.Int("a!u")
        s2 = s.fork()
        s2.assume(z3.ForAll([a], used2[a] == z3.Or(used0[a], z3.And(r <= a, a < r + size)), patterns=[used2[a]]))
        s2.g["used"] = used2
        # invariant, clause by clause
        for i, c in enumerate(inv(eng, s2, o2, F).children()):
            post(eng, s2, c, "arena invariant, clause %d" % (i + 1))
        v2 = o2.f[F[0]]
        i = z3.Int(E.uid("i"))
        post(eng, s, z3.And(v2.n >= v0.n, z3.Implies(z3.And(0 <= i, i < v0.n), v2.a[i] == v0.a[i])), "blocks allocated earlier are never released or replaced")
        for b in s.g["news"]:
            j = z3.Int("j!own")
            post(eng, s, z3.Exists([j], z3.And(j >= 0, j < v2.n, v2.a[j] == b)), "a new block is owned by the arena")
    return eng


def u_ctor(prog):
    eng = setup(prog)
    F = fields(prog)
    fn = fn_of(prog, CLS + "::Arena")
    st = start(eng, fn)
    st.g["live"], st.g["used"], st.g["news"] = z3.K(z3.IntSort(), z3.BoolVal(False)), z3.K(z3.IntSort(), z3.BoolVal(False)), ()
    bs = z3.Int("block_size")
    st.assume(bs >= 0, bs < (1 << 31))
    for v, s in eng.run_ctor(fn, CLS, args_for(eng, st, fn, {0: bs}), st):
        for i, c in enumerate(inv(eng, s, v, F).children()):
            post(eng, s, c, "a new arena satisfies the invariant, clause %d" % (i + 1))
        post(eng, s, v.f[F[0]].n == 0, "a new arena owns no blocks")
        post(eng, s, v.f[F[1]] == 0, "a new arena has no current block")
    return eng


def u_new(prog):
    """Arena::New<T>: the object is placed in an allocation of at least sizeof(T) bytes."""
    eng = E.Engine(prog, "flat")
    fns = [f for q, fs in prog.by_q.items() for f in fs if q.startswith("bant::Arena::New<") or q == "bant::Arena::New"]
    if not fns:
        raise Unsupported("no instantiation of Arena::New")
    seen = []

    def alloc(eng, st, e, vs):
        outs = []
        for vs2, s in eng.evs(e["args"], st):
            r = z3.Int(E.uid("alloc"))
            s.assume(r > 0)
            s.g["alloc"] = (r, eng.num(eng.val(vs2[0], s)))
            outs.append((r, s))
        return outs

    def new(eng, st, e, vs):
        if e.get("nplace") != 1:
            raise Unsupported("new outside the arena")
        outs = []
        for p, s in eng.rv(e["place"][0], st):
            if "alloc" not in s.g:
                raise Unsupported("placement target is not an allocation")
            r, n = s.g["alloc"]
            sz = prog.records[strip(e["at"])]["size"]
            s.g["placed"] = True
            post(eng, s, z3.And(p == r, n >= sz), "object of type %s fits its allocation" % e["at"])
            outs.append((p, s))
        return outs
    eng.overrides["bant::Arena::Alloc"] = alloc
    eng.overrides["new"] = new
    for fn in fns:
        st = start(eng, fn)
        this = eng.new_cell(st, eng.fresh_st(st, CLS, "this"), CLS, "this")
        vs = []
        for i, p in enumerate(fn["params"]):
            v = OpaqueV("?")
            vs.append(eng.new_cell(st, v, "?", "a%d" % i) if is_ref(p["t"]) else v)
        for r, s in run(eng, fn, this, vs, st):
            post(eng, s, z3.And(z3.BoolVal(bool(s.g.get("placed"))), eng.val(r, s) == s.g["alloc"][0]), "New returns the placed object")
    return eng


def units(tier):
    return [Unit("Alloc", SRC, u_alloc), Unit("construct", SRC, u_ctor), Unit("New", ["bant/frontend/parser.cc", "bant/frontend/elaboration.cc"], u_new)]

witness = W.searcher("c01.cc", [])
