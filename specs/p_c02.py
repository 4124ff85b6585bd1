"""C02: ArenaDeque behaves as an append-only sequence for every history."""
from speclib import *

TITLE = "The arena deque is a faithful append-only sequence with stable elements"
SRC = ["/verif/specs/arena_inst2.cc"]
INSTS = ["bant::ArenaDeque<int *, 1, 64>", "bant::ArenaDeque<int, 3, 96>", "bant::ArenaDeque<int, 1, 1>", "bant::ArenaDeque<char, 5, 23>", "bant::ArenaDeque<short, 2, 1024>"]
ASSUME = ["the arena obeys its contract (property C01)", "the deque is not copied or moved while in use, and not appended to while an iterator is at its end",
          "proved per instantiation (element type, MIN, MAX) listed in the units, for every history and every length up to 2^48 elements"]
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())


class D:
    """The abstraction: blocks B[0..nb), sequence C[0..size)."""
    def __init__(self, prog, cls):
        import re
        m = re.match(r"bant::ArenaDeque<(.*), (\d+), (\d+)>$", cls)
        self.cls, self.T, self.MIN, self.MAX = cls, m.group(1), int(m.group(2)), int(m.group(3))
        self.S = 0
        while self.MIN << (self.S + 1) <= self.MAX:
            self.S += 1
        self.prog = prog
        self.blk = cls + "::Block"
        rec = prog.records[self.blk]
        self.nextf = field_of_type(prog, self.blk, lambda t: t.endswith("*") and strip(t) == self.blk + " *", "link")
        self.valf = [f["n"] for f in rec["fields"] if f["t"].endswith("]")][0]
        self.off = [f["off"] for f in rec["fields"] if f["n"] == self.valf][0]
        self.esz = {"int": 4, "char": 1, "short": 2}.get(self.T, 8)
        dr = prog.records[cls]
        self.topf = [f["n"] for f in dr["fields"] if strip(f["t"]) == self.blk][0]
        self.curf = [f["n"] for f in dr["fields"] if strip(f["t"]) == self.blk + " *"][0]
        ints = [f for f in dr["fields"] if strip(f["t"]) in INTS]
        if len(ints) != 2:
            raise Unsupported("deque representation: expected an element count and a fill position")
        # the element count: the wider field (same width: the one named after the size)
        ints.sort(key=lambda f: (INTS[strip(f["t"])][0], "size" in f["n"]))
        self.posf, self.sizef = ints[0]["n"], ints[1]["n"]
        self.trk = [f for f in dr["fields"] if strip(f["t"]).endswith("BlockSizeTracker")][0]["n"]
        self.trkcls = cls + "::BlockSizeTracker"
        self.shf = prog.records[self.trkcls]["fields"][0]["n"]

    def sz(self, k):
        x = I(self.MIN << self.S)
        for i in range(self.S - 1, -1, -1):
            x = z3.If(k == i, I(self.MIN << i), x)
        return x

    def start(self, k):
        x = I(self.MIN * ((1 << self.S) - 1)) + (k - self.S) * (self.MIN << self.S)
        for i in range(self.S - 1, -1, -1):
            x = z3.If(k == i, I(self.MIN * ((1 << i) - 1)), x)
        return x

    def shift(self, k):
        return z3.If(k < self.S, k, I(self.S))


def make(prog, cls, fname, np=None, const=None, cls2=None):
    d = D(prog, cls)
    eng = E.Engine(prog, "flat")
    eng.d = d
    eng.opts["quick_ms"] = 1500
    eng.tparams = {}
    fn = fn_of(prog, (cls2 or cls) + "::" + fname, np=np, const=const)
    st = start(eng, fn)
    top = z3.Int("top")
    nb = z3.Int("nb")
    B, C, bytes_ = z3.Const("B", ARR), z3.Const("C", ARR), z3.Const("bytes", ARR)
    st.g.update(B=B, C=C, nb=nb, bytes=bytes_)
    st.assume(top > 0, top < E.TWO64)
    obj = eng.fresh_st(st, cls, "this")
    eng.top = top

    def bounds(eng, s, lv, k):
        if isinstance(lv, HeapLV) and lv.path and lv.path[-1] == d.valf:
            eng.oblige(s, z3.And(k >= 0, d.off + (k + 1) * d.esz <= z3.Select(s.g["bytes"], lv.addr)), "element lies inside its block's memory")
            return True
        return False
    eng.opts["array_bounds"] = bounds
    eng.loop_templates.append(templates(d))
    return eng, d, fn, st, obj


def emb(d, obj, top):
    return obj.set(d.topf, EmbV(d.blk, top))


def nxt(eng, st, b):
    return eng.rd(st, HeapLV(eng.d.blk, b, (eng.d.nextf,)))


def val(eng, st, b, j):
    a = eng.heap_arr(st, eng.d.blk, eng.d.valf)
    return z3.Select(z3.Select(a, b), j)


def inv_clauses(eng, st, obj):
    d = eng.d
    B, C, nb, by = st.g["B"], st.g["C"], st.g["nb"], st.g["bytes"]
    k, j = z3.Ints("k!d j!d")
    na = eng.heap_arr(st, d.blk, d.nextf)
    size, pos = obj.f[d.sizef], obj.f[d.posf]
    return [
        ("at least one block", z3.And(nb >= 1, nb <= 1 << 48)),
        ("growth step matches the block count", obj.f[d.trk].f[d.shf] == d.shift(nb - 1)),
        ("current block is the last", obj.f[d.curf] == B[nb - 1]),
        ("first block is embedded", B[0] == eng.top),
        ("fill position within the last block", z3.And(pos >= 0, pos <= d.sz(nb - 1), z3.Implies(nb > 1, pos >= 1))),
        ("size counts the elements", z3.And(size == d.start(nb - 1) + pos, size >= 0)),
        ("blocks are linked in order", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nb - 1), na[B[k]] == B[k + 1]), patterns=[B[k]])),
        ("the last block ends the chain", na[B[nb - 1]] == 0),
        ("blocks are distinct", z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < j, j < nb), B[k] != B[j]), patterns=[z3.MultiPattern(B[k], B[j])])),
        ("blocks are non-null and big enough", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nb), z3.And(B[k] > 0, by[B[k]] >= d.off + d.sz(k) * d.esz)), patterns=[B[k]])),
        ("contents", contents(eng, st, obj)),
    ]


def contents(eng, st, obj):
    d = eng.d
    B, C, nb = st.g["B"], st.g["C"], st.g["nb"]
    k, j = z3.Ints("k!c j!c")
    va = eng.heap_arr(st, d.blk, d.valf)
    return z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < nb, j >= 0, j < d.sz(k), d.start(k) + j < obj.f[d.sizef]),
                                        va[B[k]][j] == C[d.start(k) + j]), patterns=[va[B[k]][j]])


def templates(d):
    def t(eng, ctx):
        out = []
        g = ctx.entry.g
        if "B" not in g:
            return out
        B, nb = g["B"], g["nb"]
        for lv in ctx.ints():
            e0 = eng.rd(ctx.entry, lv)
            out.append(("location = B[k]", lambda s, lv=lv: eng.rd(s, lv) == B[ctx.k(s)]))
            out.append(("location = entry - start(k)", lambda s, lv=lv, e0=e0: eng.rd(s, lv) + d.start(ctx.k(s)) == e0))
            out.append(("location = entry + start(k)", lambda s, lv=lv, e0=e0: eng.rd(s, lv) == e0 + d.start(ctx.k(s))))
            out.append(("location = start(k)", lambda s, lv=lv: eng.rd(s, lv) == d.start(ctx.k(s))))
            out.append(("location = min(k,S)", lambda s, lv=lv: eng.rd(s, lv) == d.shift(ctx.k(s))))
            out.append(("location = size(k)", lambda s, lv=lv: eng.rd(s, lv) == d.sz(ctx.k(s))))
            out.append(("location = k", lambda s, lv=lv: eng.rd(s, lv) == ctx.k(s)))
            out.append(("location >= 0", lambda s, lv=lv: eng.rd(s, lv) >= 0))
        out.append(("k < nb", lambda s: ctx.k(s) < nb))
        q = g.get("query")
        if q is not None:
            out.append(("start(k) <= index", lambda s: d.start(ctx.k(s)) <= q))
        return out
    return t


def assume_inv(eng, st, obj):
    for nm, c in inv_clauses(eng, st, obj):
        st.assume(c)
    st.assume(obj.f[eng.d.sizef] < 1 << 48)


def check_inv(eng, s, obj, what):
    for nm, c in inv_clauses(eng, s, obj):
        post(eng, s, c, "%s: %s" % (what, nm))


def u_append(cls):
    def f(prog):
        eng, d, fn, st, obj = make(prog, cls, "Append")
        this = eng.new_cell(st, emb(d, obj, eng.top), cls, "this")
        assume_inv(eng, st, obj)
        calls = []

        def alloc(eng, st, e, vs):
            outs = []
            for vs2, s in eng.evs(e["args"], st):
                n = eng.num(eng.val(vs2[0], s))
                r = z3.Int(E.uid("mem"))
                k = z3.Int("k!al")
                B, nb = s.g["B"], s.g["nb"]
                # contract of Arena::Alloc (C01): fresh, disjoint memory of at least n bytes
                s.assume(r > 0, r < E.TWO64, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nb), B[k] != r), patterns=[B[k]]))
                s.g["bytes"] = z3.Store(s.g["bytes"], r, n)
                s.g["fresh"] = s.g.get("fresh", ()) + (r,)
                outs.append((r, s))
            return outs
        eng.overrides["bant::Arena::Alloc"] = alloc
        v = eng.fresh_st(st, d.T, "value")
        arena = z3.Int("arena")
        st.assume(arena > 0)
        nb0, size0 = st.g["nb"], obj.f[d.sizef]
        vs = args_for(eng, st, fn, {0: v, 1: arena})
        for r, s in run(eng, fn, this, vs, st):
            o2 = eng.rd(s, this)
            fresh = s.g.get("fresh", ())
            s2 = s.fork()
            if len(fresh) == 1:
                s2.g["B"] = z3.Store(s.g["B"], nb0, fresh[0])
                s2.g["nb"] = nb0 + 1
            elif fresh:
                raise Unsupported("several blocks allocated in one Append")
            s2.g["C"] = z3.Store(s.g["C"], size0, v)
            check_inv(eng, s2, o2, "invariant after Append")
            post(eng, s2, o2.f[d.sizef] == size0 + 1, "size grows by one")
            if isinstance(r, LV):
                post(eng, s2, eng.num(eng.rd(s2, r)) == v, "the returned reference holds the appended value")
                if isinstance(r, HeapLV):
                    post(eng, s2, z3.And(r.addr == s2.g["B"][s2.g["nb"] - 1], d.start(s2.g["nb"] - 1) + r.path[-1][1] == size0), "the returned reference is the stored element")
        return eng
    return f


def u_ctor(cls):
    def f(prog):
        d = D(prog, cls)
        eng = E.Engine(prog, "flat")
        eng.d = d
        fn = fn_of(prog, cls + "::ArenaDeque", np=0)
        st = start(eng, fn)
        eng.top = z3.Int("top")
        st.assume(eng.top > 0, eng.top < E.TWO64)
        st.g.update(B=z3.Const("B", ARR), C=z3.Const("C", ARR), nb=I(1), bytes=z3.Const("bytes", ARR))
        # the object occupies sizeof(Block) bytes for its embedded block
        st.assume(st.g["B"][0] == eng.top, st.g["bytes"][eng.top] == prog.records[d.blk]["size"])
        cell = eng.new_cell(st, StructV(cls, {d.topf: EmbV(d.blk, eng.top)}), cls, "this")
        for v, s in eng.run_ctor(fn, cls, [], st, target=cell):
            o = eng.rd(s, cell)
            check_inv(eng, s, o, "new deque")
            post(eng, s, o.f[d.sizef] == 0, "a new deque is empty")
        return eng
    return f


def u_index(cls):
    def f(prog):
        eng, d, fn, st, obj = make(prog, cls, "operator[]")
        this = eng.new_cell(st, emb(d, obj, eng.top), cls, "this")
        assume_inv(eng, st, obj)
        pos = eng.fresh_st(st, "unsigned long", "pos")
        st.g["query"] = pos
        st.assume(pos < obj.f[d.sizef])
        vs = args_for(eng, st, fn, {0: pos})
        for r, s in run(eng, fn, this, vs, st):
            post(eng, s, eng.num(eng.val(r, s)) == s.g["C"][pos], "element at index pos of the sequence")
        return eng
    return f


def u_size(cls):
    def f(prog):
        eng, d, fn, st, obj = make(prog, cls, "size")
        this = eng.new_cell(st, emb(d, obj, eng.top), cls, "this")
        assume_inv(eng, st, obj)
        for r, s in run(eng, fn, this, [], st):
            post(eng, s, eng.num(eng.val(r, s)) == obj.f[d.sizef], "size() is the number of elements")
        return eng
    return f


def it_fields(prog, cls):
    ic = cls + "::iterator"
    fs = prog.records[ic]["fields"]
    b = [f["n"] for f in fs if is_ptr(f["t"])][0]
    p = [f["n"] for f in fs if strip(f["t"]) in INTS][0]
    t = [f["n"] for f in fs if strip(f["t"]).endswith("BlockSizeTracker")][0]
    return ic, b, p, t


def at(eng, st, obj, it, i):
    """The iterator value stands for index i."""
    d = eng.d
    ic, b, p, t = it_fields(eng.prog, d.cls)
    k = z3.Int("k!it")
    B, nb, size = st.g["B"], st.g["nb"], obj.f[d.sizef]
    inb = lambda k: z3.And(k >= 0, k < nb, it.f[b] == B[k], it.f[p] >= 0, it.f[p] < d.sz(k), d.start(k) + it.f[p] == i,
                           it.f[t].f[d.shf] == d.shift(k))
    return inb, z3.And(it.f[b] == 0, it.f[p] == 0, i == size, size == d.start(nb - 1) + d.sz(nb - 1))


def at_ok(eng, st, obj, it, i, cands):
    inb, past = at(eng, st, obj, it, i)
    return z3.Or(past, *[inb(c) for c in cands])


def u_begin_end(cls):
    def f(prog):
        engs = []
        for nm in ("begin", "end"):
            eng, d, fn, st, obj = make(prog, cls, nm)
            this = eng.new_cell(st, emb(d, obj, eng.top), cls, "this")
            assume_inv(eng, st, obj)
            nb, size = st.g["nb"], obj.f[d.sizef]
            for r, s in run(eng, fn, this, [], st):
                it = eng.val(r, s)
                inb, past = at(eng, s, obj, it, size)
                ic, b, p, t = it_fields(prog, cls)
                if nm == "begin":
                    post(eng, s, at_ok(eng, s, obj, it, I(0), [I(0)]), "begin() stands for index 0")
                else:
                    # the tracker of an end iterator is not looked at
                    post(eng, s, z3.Or(past, z3.And(it.f[b] == s.g["B"][nb - 1], d.start(nb - 1) + it.f[p] == size, it.f[p] < d.sz(nb - 1))), "end() stands for one past the last element")
                o2 = eng.rd(s, this)
                check_inv(eng, s, o2, "%s() leaves the deque unchanged" % nm)
            engs.append(eng)
        return engs
    return f


def it_setup(prog, cls, fname, end):
    ic, b, p, t = it_fields(prog, cls)
    eng, d, fn, st, obj = make(prog, cls, fname, cls2=ic)
    assume_inv(eng, st, obj)
    it = eng.fresh_st(st, ic, "it")
    i, k = z3.Ints("i k0")
    inb, past = at(eng, st, obj, it, i)
    st.assume(i >= 0, i <= obj.f[d.sizef])
    if end:
        st.assume(z3.Or(past, inb(k)))
    else:
        st.assume(inb(k), i < obj.f[d.sizef])
    this = eng.new_cell(st, it, ic, "it")
    return eng, d, fn, st, obj, this, i, k


def u_iter(cls):
    def f(prog):
        engs = []
        ic, b, p, t = it_fields(prog, cls)
        eng, d, fn, st, obj, this, i, k = it_setup(prog, cls, "operator*", False)
        for r, s in run(eng, fn, this, [], st):
            post(eng, s, eng.num(eng.val(r, s)) == s.g["C"][i], "dereferencing yields the element at the iterator's index")
        engs.append(eng)
        eng, d, fn, st, obj, this, i, k = it_setup(prog, cls, "operator++", False)
        for r, s in run(eng, fn, this, [], st):
            it2 = eng.rd(s, this)
            post(eng, s, at_ok(eng, s, obj, it2, i + 1, [k, k + 1]), "++ moves to the next index")
        engs.append(eng)
        for op in ("operator==", "operator!="):
            eng, d, fn, st, obj, this, i, k = it_setup(prog, cls, op, True)
            nb, size = st.g["nb"], obj.f[d.sizef]
            oth = eng.fresh_st(st, ic, "end")
            inb, past = at(eng, st, obj, oth, size)
            st.assume(z3.Or(past, z3.And(oth.f[b] == st.g["B"][nb - 1], d.start(nb - 1) + oth.f[p] == size, oth.f[p] >= 0, oth.f[p] < d.sz(nb - 1))))
            for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: oth}), st):
                eq = eng.bool(eng.val(r, s))
                post(eng, s, (eq if op == "operator==" else z3.Not(eq)) == (i == size), "comparison with end() tells whether the sequence is exhausted")
            engs.append(eng)
        return engs
    return f


def units(tier):
    us = []
    for c in INSTS:
        n = c[6:]
        us += [Unit(n + "::Append", SRC, u_append(c)), Unit(n + "::operator[]", SRC, u_index(c)), Unit(n + " construct", SRC, u_ctor(c)),
               Unit(n + "::begin/end", SRC, u_begin_end(c)), Unit(n + "::iterator", SRC, u_iter(c)), Unit(n + "::size", SRC, u_size(c))]
    return us

witness = W.searcher("c02.cc", [])
