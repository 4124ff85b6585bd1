"""Loop rule: modified-set discovery, invariant inference (Houdini over name-independent templates), and the
entry / preservation obligations. What is inferred is only a guess: the obligations are discharged separately."""
import z3
from values import *
import engine as _e
import lib


def I(x):
    return z3.IntVal(x)


class Ctx:
    """What a template sees: the entry state, the modified locations, and accessors valid in any later state."""
    def __init__(self, eng, entry, n):
        self.eng, self.entry, self.node = eng, entry, n
        self.mods = []      # [(lv, type or None)]
        self.gmods = []     # ghost keys
        self.hmods = []     # heap keys
        self.kkey = None    # ghost iteration counter key
        self.hidden = {}

    def k(self, st):
        return st.g[self.kkey]

    def ints(self, ptr=False):
        """Modified integer-valued scalar locations (readable in any state)."""
        out = []
        for lv, v in self.mods:
            if isinstance(v, z3.ExprRef) and z3.is_int(v):
                out.append(lv)
        return out


def leaves(eng, v):
    """Decompose a value into (path, leaf) pairs, struct fields separately."""
    if isinstance(v, StructV):
        for n in v.f:
            for p, x in leaves(eng, v.f[n]):
                yield (n,) + p, x
    else:
        yield (), v


def diff_paths(eng, a, b):
    if a is b:
        return []
    if isinstance(a, StructV) and isinstance(b, StructV) and a.f.keys() == b.f.keys():
        out = []
        for n in a.f:
            for p in diff_paths(eng, a.f[n], b.f[n]):
                out.append((n,) + p)
        return out
    if eng.same(a, b):
        return []
    return [()]


def get_path(v, path):
    for p in path:
        v = v.f[p]
    return v


def set_path(v, path, x):
    if not path:
        return x
    return v.set(path[0], set_path(v.f[path[0]], path[1:], x))


def havoc_like(eng, st, v, name):
    """Fresh value of the same shape."""
    if isinstance(v, z3.ExprRef):
        return z3.Const(_e.uid(name), v.sort())
    if isinstance(v, StructV):
        return StructV(v.cls, {n: havoc_like(eng, st, x, name + "." + n) for n, x in v.f.items()})
    if isinstance(v, StrV):
        r = StrV(z3.String(_e.uid(name)))
        st.assume(z3.Length(r.s) <= _e.SMAX)
        return r
    if isinstance(v, CharV):
        c = z3.String(_e.uid(name))
        st.assume(z3.Length(c) == 1)
        return CharV(c)
    if isinstance(v, FlatSV):
        u = _e.uid(name)
        r = FlatSV(z3.Int(u + ".p"), z3.Int(u + ".n"))
        st.assume(*eng.so.ranges(r, "std::string_view"))
        return r
    if isinstance(v, OptV):
        return OptV(z3.Bool(_e.uid(name + ".has")), havoc_like(eng, st, v.val, name + ".val"), v.ty)
    if isinstance(v, VecV):
        n = z3.Int(_e.uid(name + ".n"))
        st.assume(n >= 0, n <= _e.SMAX)
        return VecV(n, z3.Const(_e.uid(name + ".a"), v.a.sort()), v.ety)
    if isinstance(v, SetV):
        n = z3.Int(_e.uid(name + ".n"))
        st.assume(n >= 0, n <= _e.SMAX)
        return SetV(z3.Const(_e.uid(name + ".s"), v.a.sort()), v.ety, n, v.ordered)
    if isinstance(v, MapV):
        n = z3.Int(_e.uid(name + ".n"))
        st.assume(n >= 0, n <= _e.SMAX)
        return MapV(z3.Const(_e.uid(name + ".d"), v.dom.sort()), z3.Const(_e.uid(name + ".v"), v.val.sort()), v.kty, v.vty, n)
    if isinstance(v, ArrV):
        return ArrV(z3.Const(_e.uid(name + ".a"), v.a.sort()), v.ety, v.size)
    if isinstance(v, IterV):
        return IterV(v.kind, v.cont, z3.Const(_e.uid(name + ".pos"), v.pos.sort()),
                     z3.Bool(_e.uid(name + ".end")) if v.end is not None else None)
    if isinstance(v, OpaqueV):
        return v
    raise Unsupported("a loop modifies a value of kind %s" % type(v).__name__)


def scalar_type(eng, st, lv, path):
    t = eng.types.get(lv)
    return t


def type_at(eng, t, path):
    for p in path:
        if t is None:
            return None
        s = strip(t)
        h, a = split_targs(s)
        if h == "std::pair":
            t = a[0] if p == "first" else a[1]
        elif s in eng.prog.records:
            t = dict(eng.so.fields(s)).get(p)
        else:
            return None
    return t


def inward(v):
    """A pointer into a local object."""
    return isinstance(v, PtrV) and isinstance(v.lv, Cell) or isinstance(v, LostV)


def run_loop(eng, n, st, step, hidden=None, label=None):
    ln = n.get("ln", eng.cur_ln)
    entry = st
    name = "loop in %s" % (entry.fn or "?")
    kkey = "$k%d" % (len([k for k in entry.g if str(k).startswith("$k")]))
    entry = entry.fork()
    entry.g[kkey] = I(0)
    ctx = Ctx(eng, entry, n)
    ctx.kkey = kkey
    ctx.hidden = hidden or {}

    cellmods, heapmods, gmods = set(), set(), {kkey}
    lost = set()         # modified pointers that a round leaves pointing into a local object

    def make_head():
        h = entry.fork()
        ctx.mods, ctx.hmods, ctx.gmods = [], [], []
        for cid, path in sorted(cellmods, key=str):
            v = h.cells[cid]
            old = get_path(v, path)
            nm = cid.split("!")[0] + "".join("." + p for p in path)
            nv = LostV() if (cid, path) in lost or isinstance(old, (PtrV, LostV)) else havoc_like(eng, h, old, nm)
            t = None if isinstance(nv, LostV) else type_at(eng, eng.types.get(cid), path)
            if t:
                h.assume(*eng.so.ranges(nv, t))
            h.cells[cid] = set_path(v, path, nv)
            for p2, leaf in leaves(eng, nv):
                ctx.mods.append((Cell(cid, path + p2), leaf))
        for hk in sorted(heapmods):
            old = eng.heap_arr(h, *hk)
            h.heap[hk] = z3.Const(_e.uid("H.%s" % hk[1]), old.sort())
            ctx.hmods.append(hk)
        for g in sorted(gmods, key=str):
            v = h.g[g]
            h.g[g] = havoc_like(eng, h, v, str(g))
            if g != kkey:
                ctx.gmods.append(g)
        h.assume(h.g[kkey] >= 0)
        for f in eng.opts.get("head_assume", []):
            f(eng, entry, h, ctx)
        return h

    def run_body(h):
        exits, backs = step(h.fork())
        for b in backs:
            b.env = dict(entry.env)
            b.g[kkey] = z3.simplify(h.g[kkey] + 1)
            for f in eng.opts.get("back_hooks", []):
                f(eng, b, ctx)
        return exits, backs

    eng.quiet += 1
    try:
        # -- 1. which locations does the body modify?
        for _ in range(12):
            h = make_head() if (cellmods or heapmods or len(gmods) > 1) else entry.fork()
            exits, backs = run_body(h)
            grew = False
            for b in backs:
                for cid, v in h.cells.items():
                    nv = b.cells.get(cid)
                    for p in diff_paths(eng, v, nv):
                        key = (cid, p)
                        if any(c == cid and p[:len(q)] == q for c, q in cellmods):
                            continue
                        for c, q in list(cellmods):
                            if c == cid and q[:len(p)] == p:
                                cellmods.discard((c, q))
                        cellmods.add(key)
                        grew = True
                for cid, p in cellmods:
                    if (cid, p) not in lost and inward(get_path(b.cells[cid], p)) and not isinstance(get_path(h.cells[cid], p), (PtrV, LostV)):
                        lost.add((cid, p))
                        grew = True
                for hk, arr in b.heap.items():
                    a0 = eng.heap_arr(h, *hk)
                    if not a0.eq(arr) and hk not in heapmods:
                        heapmods.add(hk)
                        grew = True
                for g, v in b.g.items():
                    if g in gmods or g not in h.g or g == "$rope":
                        continue
                    v0 = h.g[g]
                    if v0 is v:
                        continue
                    if isinstance(v, z3.ExprRef) and isinstance(v0, z3.ExprRef):
                        if v.eq(v0):
                            continue
                    elif not isinstance(v, Val) and not isinstance(v0, Val) and v == v0:
                        continue
                    elif isinstance(v, Val) and isinstance(v0, Val) and eng.same(v, v0):
                        continue
                    gmods.add(g)
                    grew = True
            if not grew:
                break
        else:
            raise Unsupported("modified set of loop does not stabilise")
        if not backs:
            # the body never reaches the loop head again: unroll once
            eng.quiet -= 1
            try:
                exits, backs = run_body(entry.fork())
            finally:
                eng.quiet += 1
            if backs:
                raise Unsupported("loop analysis")
            return finish(eng, entry, exits)
        # -- 2. invariants
        head = make_head()
        cands = []
        for tmpl in eng.loop_templates:
            cands += [(nm, f) for nm, f in tmpl(eng, ctx)]
        kept = []
        for nm, f in cands:
            try:
                g = f(entry)
            except (Unsupported, KeyError):
                continue
            if g is not None and eng.valid(entry.pc, g, eng.opts.get("entry_ms", eng.opts["quick_ms"])):
                kept.append((nm, f))
        for rnd in range(40):
            h = head.fork()
            for nm, f in kept:
                h.assume(f(h))
            exits, backs = run_body(h)
            bad = set()
            # check candidates against each back edge, dropping the failing ones
            for b in backs:
                for i, (nm, f) in enumerate(kept):
                    if i in bad:
                        continue
                    if not eng.valid(b.pc, f(b), eng.opts["houdini_ms"]):
                        bad.add(i)
                        if eng.opts.get("trace_loops"):
                            print("   drop", nm)
            if not bad:
                break
            kept = [c for i, c in enumerate(kept) if i not in bad]
        else:
            raise Unsupported("invariant inference does not converge")
    finally:
        eng.quiet -= 1
    if eng.opts.get("trace_loops"):
        print("loop line", ln, "mods", sorted(cellmods, key=str), sorted(heapmods), sorted(gmods, key=str), "inv", [nm for nm, f in kept])
    eng.loop_invs.setdefault("%s:%s" % (entry.fn, ln), sorted({nm for nm, f in kept}))
    # -- 3. the recorded run
    eng.cur_ln = ln
    for nm, f in kept:
        eng.oblige(entry.fork(), f(entry), "%s: invariant '%s' holds on entry" % (name, nm), "loop")
    h = head.fork()
    for nm, f in kept:
        h.assume(f(h))
    exits, backs = run_body(h)
    for b in backs:
        for nm, f in kept:
            eng.cur_ln = ln
            eng.oblige(b.fork(), f(b), "%s: invariant '%s' is preserved" % (name, nm), "loop")
    if eng.opts.get("termination") and not eng.quiet:
        ok = bool(ctx.hidden.get("vis"))  # range over a set or map: each round visits a further one of finitely many elements
        ms = []
        own = [repr(x) for x in ctx.hidden.values()]     # the position of a range loop is tried first
        for lv in [] if ok else sorted(ctx.ints(), key=lambda x: repr(x) not in own):
            ms += [(lv, 1), (lv, -1)]
        bounds = []
        for lv, d in ms:
            # measure: distance of a monotone integer to a loop-invariant-independent huge bound is well founded in
            # its type's range (the variable never overflows: checked separately), so strict monotonicity suffices.
            if all(eng.valid(b.pc, (eng.num(eng.rd(b, lv)) - eng.num(eng.rd(h, lv))) * d > 0, 2000) for b in backs):
                ok = True
                for b in backs:
                    eng.oblige(b.fork(), (eng.num(eng.rd(b, lv)) - eng.num(eng.rd(h, lv))) * d > 0,
                               "%s: terminates (a bounded integer moves strictly in one direction)" % name, "loop")
                break
        if not ok:
            lens = []
            for lv, v in ctx.mods:
                if isinstance(v, StrV):
                    lens.append(lambda eng, s, c, lv=lv: z3.Length(eng.rd(s, lv).s))
                elif isinstance(v, (VecV, FlatSV)):
                    lens.append(lambda eng, s, c, lv=lv: eng.rd(s, lv).n)
                elif isinstance(v, IterV) and v.kind == "vec":
                    lens.append(lambda eng, s, c, lv=lv: eng.rd(s, eng.rd(s, lv).cont).n - eng.rd(s, lv).pos)
            for f in lens + eng.opts.get("measures", []):
                if all(eng.valid(b.pc, z3.And(f(eng, b, ctx) < f(eng, h, ctx), f(eng, h, ctx) >= 0), 2000) for b in backs):
                    ok = True
                    for b in backs:
                        eng.oblige(b.fork(), z3.And(f(eng, b, ctx) < f(eng, h, ctx), f(eng, h, ctx) >= 0), "%s: terminates" % name, "loop")
                    break
        if not ok:
            eng.oblige(h.fork(), z3.BoolVal(False), "%s: terminates (no measure found)" % name, "loop")
    return finish(eng, entry, exits)


def finish(eng, entry, exits):
    outs = []
    for k, s, v in exits:
        if k == "next":
            s.env = dict(entry.env)
        outs.append((k, s, v))
    return eng.join(entry, outs)


# ---------------------------------------------------------------------------------------------- range-for
def range_for(eng, n, st):
    sts = [st]
    if n.get("rinit"):
        sts = [s for k, s, v in eng.exec(n["rinit"], st)]
    outs = []
    for s0 in sts:
        for r, s in eng.ev(n["range"], s0):
            outs += one_range(eng, n, s, r)
    return outs


def bind_var(eng, n, s, elt):
    """Bind the loop variable to an element (lvalue)."""
    v = dict(n["var"])
    var = n["var"]
    t = var["t"]
    if var.get("bindings") is not None:
        lv = elt if is_ref(t) else eng.new_cell(s, eng.val(elt, s), strip(t), "bind")
        s.env[var["id"]] = lv
        for i, b in enumerate(var["bindings"]):
            base = eng.rd(s, lv)
            names = ["first", "second"] if not isinstance(base, StructV) else list(base.f)
            l2 = lv.sub(names[i])
            s.env[b["id"]] = l2
            if b.get("holdid"):
                s.env[b["holdid"]] = l2
        return [s]
    if is_ref(t):
        s.env[var["id"]] = elt
        return [s]
    x = eng.val(elt, s)
    if strip(t) in ("std::string", "std::string_view"):
        x = lib.to_string(eng, s, x)
    s.env[var["id"]] = eng.new_cell(s, x, strip(t), var["n"])
    return [s]


def one_range(eng, n, st, r):
    v = eng.val(r, st)
    rt = strip(n["range"]["t"])
    hook = eng.opts.get("range_hooks", {}).get(rt)
    if hook:
        return hook(eng, n, st, r)
    if isinstance(v, TupV):
        outs, live = [], [st]
        for it in v.items:
            nxt = []
            for s in live:
                for s1 in bind_var(eng, n, s, it if isinstance(it, LV) else ValLV(it)):
                    for k, s2, x in eng.exec(n["body"], s1):
                        if k in ("next", "continue"):
                            nxt.append(s2)
                        elif k == "break":
                            outs.append(("next", s2, None))
                        else:
                            outs.append((k, s2, x))
            live = nxt
        return [("next", s, None) for s in live] + outs
    lv = r if isinstance(r, LV) else eng.new_cell(st, v, rt, "range")
    if isinstance(v, (VecV, StrV, FlatSV)):
        idx = eng.new_cell(st, I(0), "unsigned long", "idx")

        def size(s):
            x = eng.rd(s, lv)
            return x.n if isinstance(x, (VecV, FlatSV)) else z3.Length(x.s)
        n0 = size(st)
        n0s = z3.simplify(n0)
        if isinstance(v, VecV) and z3.is_int_value(n0s) and n0s.as_long() <= eng.opts.get("unroll_known", 0):
            # the length is known: every iteration is executed
            outs, live = [], [st]
            for i in range(n0s.as_long()):
                nxt = []
                for s in live:
                    for s1 in bind_var(eng, n, s, lv.sub(("i", I(i)))):
                        for k, s2, x in eng.exec(n["body"], s1):
                            eng.oblige(s2, size(s2) == n0, "sequence not resized while iterated")
                            if k in ("next", "continue"):
                                nxt.append(s2)
                            elif k == "break":
                                outs.append(("next", s2, None))
                            else:
                                outs.append((k, s2, x))
                live = nxt
            return [("next", s, None) for s in live] + outs

        def step(s0):
            exits, backs = [], []
            i = eng.rd(s0, idx)
            for b, s in eng.split(i < n0, s0):
                if not b:
                    exits.append(("next", s, None))
                    continue
                if isinstance(v, FlatSV):
                    elt = CharMemLV(z3.simplify(v.p + i))
                else:
                    elt = lv.sub(("i", i))
                for s1 in bind_var(eng, n, s, elt):
                    for k, s3, x in eng.exec(n["body"], s1):
                        if k == "break":
                            exits.append(("next", s3, None))
                        elif k == "return":
                            exits.append((k, s3, x))
                        else:
                            # the sequence must not change size under the iteration
                            eng.oblige(s3, size(s3) == n0, "sequence not resized while iterated")
                            eng.wr(s3, idx, z3.simplify(i + 1))
                            backs.append(s3)
            return exits, backs
        return run_loop(eng, n, st, step, hidden={"idx": idx, "n": n0, "cont": lv})
    if isinstance(v, MapV) and v.known is not None:
        return one_range(eng, n, st, TupV([lib.EntryLV(lv, k) for k in v.known]))
    if isinstance(v, (SetV, MapV)):
        dom, kty = lib.map_parts(v)
        so = eng.so.sort(kty)
        vk = _e.uid("$vis")
        st.g[vk] = z3.K(so, z3.BoolVal(False))
        ordered = (isinstance(v, SetV) and v.ordered) or (isinstance(v, MapV) and "unordered" not in rt and "hash" not in rt)
        lt = lib.key_less(eng, kty) if ordered else None
        x = z3.Const("x!vis", so)

        def step(s0):
            exits, backs = [], []
            vis = s0.g[vk]
            ex = s0.fork().assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.Select(vis, x)), patterns=[z3.Select(dom, x)]),
                                  z3.ForAll([x], z3.Implies(z3.Select(vis, x), z3.Select(dom, x)), patterns=[z3.Select(vis, x)]))
            if eng.feasible(ex):
                exits.append(("next", ex, None))
            key = z3.Const(_e.uid("key"), so)
            s = s0.assume(z3.Select(dom, key), z3.Not(z3.Select(vis, key)))
            if ordered:
                s.assume(z3.ForAll([x], z3.Implies(z3.And(z3.Select(dom, x), lt(x, key)), z3.Select(vis, x)), patterns=[z3.Select(dom, x)]))
            if not eng.feasible(s):
                return exits, backs
            if isinstance(v, MapV):
                elt = lib.EntryLV(lv, key)
            else:
                elt = ValLV(eng.so.reflect(key, kty))
                s.assume(*eng.so.ranges(elt.v, kty))
            for s1 in bind_var(eng, n, s, elt):
                for k, s3, xx in eng.exec(n["body"], s1):
                    if k == "break":
                        exits.append(("next", s3, None))
                    elif k == "return":
                        exits.append((k, s3, xx))
                    else:
                        d3, _ = lib.map_parts(eng.rd(s3, lv))
                        if not d3.eq(dom):
                            eng.oblige(s3, d3 == dom, "container keys not changed while iterated")
                        s3.g[vk] = z3.Store(vis, key, z3.BoolVal(True))
                        backs.append(s3)
            return exits, backs
        return run_loop(eng, n, st, step, hidden={"vis": vk, "dom": dom, "cont": lv, "kty": kty, "ordered": ordered})
    raise Unsupported("range-for over %s (%s)" % (rt, type(v).__name__))
