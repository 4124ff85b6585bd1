"""C15/C16: which edits are suggested for a target."""
from dwyulib import *
import p_c14

TITLE = "Dependency removal is only suggested when every include is accounted for"
ASSUME = AST_ASSUME + PROJ_ASSUME + ["labels, visibility and list texts by their contracts (C08, C29, C28)", "a set with one element has no second one"]


def choices(eng, V, sett):
    """What is known about the sets of alternatives: pairwise disjoint, non-empty, of visible targets."""
    D = eng.so.datatype(sett)
    return D, (lambda s: D.sa(s)), (lambda s: D.sn(s))


def u_target(prog):
    fn = fn_of(prog, GEN + "::CreateEditsForTarget")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["fast"] = eng.opts["second"] = True
    eng.opts["houdini_ms"] = 1000
    install(eng)
    st = start(eng, fn)
    install_project(eng, prog, st)
    V = install_labels(eng)
    PKG, TG = V.PKG, V.TG
    need_t = strip(fn_of(prog, GEN + "::DependenciesNeededBySources")["ret"])
    sett = split_targs(need_t)[1][0]
    D, dom, sn = choices(eng, V, sett)
    kinds = prog.enums["bant::EditRequest"]
    target = eng.fresh_st(st, BT, "target")
    tz = eng.so.reify(target, BT)
    info = eng.fresh_st(st, RES, "rule")
    for v in info.f.values():
        if isinstance(v, StrV):
            st.assume(z3.Length(v.s) < 1 << 40)
    L = info.f["deps_list"]
    pkg = TG.f_package(tz)
    x0 = z3.Const("any target", TG)
    j, k, j1, j2 = z3.Ints("j!c k!c j1!c j2!c")
    y = z3.Const("y!c", TG)
    item = lambda k: V.item(L, k)
    mean = lambda k: V.LBL(item(k), pkg)
    FLAG = z3.Bool("all headers known")
    NEED0 = z3.Bool("the target is among the reduced alternatives")
    R = eng.fresh_st(st, need_t, "alternatives")
    RED = eng.fresh_st(st, need_t, "reduced")
    holds = lambda v, j, x: z3.Select(dom(z3.Select(v.a, j)), x)
    once = lambda v, x: z3.ForAll([j1, j2], z3.Implies(z3.And(0 <= j1, j1 < v.n, 0 <= j2, j2 < v.n, holds(v, j1, x), holds(v, j2, x)), j1 == j2), patterns=[z3.MultiPattern(z3.Select(v.a, j1), z3.Select(v.a, j2))])
    KEPT = z3.Function("reduced set", eng.so.sort(sett), B)
    WIT = z3.Function("member", eng.so.sort(sett), TG)
    w = z3.Const("w!c", eng.so.sort(sett))
    eng.axioms += [z3.ForAll([w], z3.Implies(KEPT(w), z3.And(sn(w) >= 1, z3.Select(dom(w), WIT(w)))), patterns=[KEPT(w)]),
                   z3.ForAll([w, y], z3.Implies(z3.And(KEPT(w), z3.Select(dom(w), y)), V.VIS(tz, y)), patterns=[z3.MultiPattern(KEPT(w), z3.Select(dom(w), y))]),
                   z3.ForAll([w, y], z3.Implies(z3.And(KEPT(w), sn(w) <= 1, z3.Select(dom(w), y), z3.Select(dom(w), x0)), y == x0), patterns=[z3.MultiPattern(KEPT(w), z3.Select(dom(w), y))])]
    kept = lambda v: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), KEPT(z3.Select(v.a, j))), patterns=[z3.Select(v.a, j)])
    # x0 is in one of the first n sets: HAS(a, n), with AT(a, n) the position of one
    HAS, AT = z3.Function("any target is in", R.a.sort(), Z, B), z3.Function("any target is at", R.a.sort(), Z, Z)
    av = z3.Const("a!c", R.a.sort())
    in0 = lambda a, i: z3.Select(dom(z3.Select(a, i)), x0)
    eng.axioms += [z3.ForAll([av, k], z3.Implies(HAS(av, k), z3.And(AT(av, k) >= 0, AT(av, k) < k, in0(av, AT(av, k)))), patterns=[HAS(av, k)]),
                   z3.ForAll([av, k, j], z3.Implies(z3.And(0 <= j, j < k, in0(av, j)), HAS(av, k)), patterns=[z3.MultiPattern(HAS(av, k), z3.Select(av, j))])]
    some = lambda v, x: HAS(v.a, v.n)
    none = lambda v, x: z3.Not(HAS(v.a, v.n))
    st.g["$min"] = z3.BoolVal(False)

    def needed(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s in eng.evs(e["args"], s):
                post(eng, s, val_of(eng, s, vs[0], BT) == tz, "includes of this target are looked for")
                post(eng, s, eng.so.reify(eng.rd(s, vs[1].sub("package")), BP) == eng.so.reify(eng.rd(s, bf.sub("package")), BP), "in its own build file")
                src = eng.val(vs[2], s)
                a, b = info.f["srcs_list"], info.f["hdrs_list"]
                post(eng, s, z3.And(src.n == V.DEPN(a) + V.DEPN(b), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < src.n), z3.Select(src.a, k) == z3.If(k < V.DEPN(a), V.item(a, k), V.item(b, k - V.DEPN(a)))), patterns=[z3.Select(src.a, k)])), "in all its sources and headers")
                fl = eng.deref(eng.val(vs[3], s), s, "bool")
                eng.wr(s, fl, z3.And(eng.rd(s, fl), FLAG))
                outs.append((R, s))
        return outs

    def reduce_(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            v = eng.val(vs[0], s)
            post(eng, s, z3.And(v.n == R.n, v.a == R.a), "the alternatives found are reduced")
            s.assume(kept(RED), once(RED, x0), NEED0 == some(RED, x0))
            outs.append((RED, s))
        return outs
    eng.overrides[GEN + "::DependenciesNeededBySources"] = needed
    mq = [q for q in prog.by_q if q.split("::")[-1] == "MinimizeDependencySet"]
    if len(mq) != 1:
        raise Unsupported("MinimizeDependencySet")
    eng.overrides[mq[0]] = reduce_

    def see(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s in eng.evs(e["args"], s):
                outs.append((V.VIS(val_of(eng, s, vs[0], BT), val_of(eng, s, vs[1], BT)), s))
        return outs
    eng.overrides[GEN + "::CanSee"] = see
    LINE, KEEP = z3.Function("line around", SS, SS), z3.Function("regex found in", SS, SS, B)

    def surround(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s in eng.evs(e["args"], s):
                outs.append((StrV(LINE(lib.to_string(eng, s, vs[0]).s)), s))
        return outs
    for n in ("ParsedProject", "SourceLocator", "NamedLineIndexedContent"):
        eng.overrides["bant::%s::GetSurroundingLine" % n] = surround

    def partial(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            rx = eng.val(vs[1], s)
            if not isinstance(rx, OpaqueV) or not isinstance(rx.tag, StrV):
                raise Unsupported("unknown regular expression")
            outs.append((KEEP(rx.tag.s, lib.to_string(eng, s, vs[0]).s), s))
        return outs
    eng.overrides["re2::RE2::PartialMatch"] = partial

    eng.opts["tagged"] = {"re2::LazyRE2"}

    def emit(eng, s, vs, e):
        kind, tgt, old, new = eng.val(vs[0], s), val_of(eng, s, vs[1], BT), lib.to_string(eng, s, vs[2]).s, lib.to_string(eng, s, vs[3]).s
        known = s_known(s)
        is_known = lambda x: z3.Select(known.dom, x)
        about = lambda x, f: getattr(eng.so.datatype(RES), "f_" + f)(z3.Select(known.val, x))
        post(eng, s, tgt == tz, "the edit is for the target looked at")
        post(eng, s, z3.Or(kind == kinds["kRemove"], kind == kinds["kAdd"]), "a removal or an addition")
        rem = s.fork().assume(kind == kinds["kRemove"])
        if eng.feasible(rem):
            post(eng, rem, new == "", "a removal names no new dependency")
            post(eng, rem, z3.Exists([k], z3.And(0 <= k, k < V.DEPN(L), old == item(k), V.OKL(old, pkg)), patterns=[item(k)]), "the text removed is a label in the target's list")
            post(eng, rem, FLAG, "removal only when every include is accounted for")
            it = V.LBL(old, pkg)
            post(eng, rem, z3.Implies(it == x0, z3.Not(NEED0)), "removal only of what is in no set of alternatives")
            post(eng, rem, z3.And(is_known(it), z3.Not(about(it, "alwayslink"))), "removal only of a library that is known and not always linked")
            post(eng, rem, z3.Or(eng.rd(rem, flags.sub("ignore_keep_comment")), z3.Not(KEEP(z3.StringVal("#.*keep"), LINE(old)))), "no removal where a comment says keep")
        add = s.fork().assume(kind == kinds["kAdd"])
        if eng.feasible(add):
            x = add.g["$new"]
            post(eng, add, old == "", "an addition names no old dependency")
            post(eng, add, new == V.REL(x, pkg), "an addition is written canonically")
            if True:
                is0 = add.fork().assume(x == x0)
                post(eng, is0, z3.Exists([w], z3.And(KEPT(w), z3.Select(dom(w), x0), sn(w) <= 1), patterns=[KEPT(w)]), "addition only of the sole choice for something needed")
                post(eng, is0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < V.DEPN(L), V.OKL(item(k), pkg)), mean(k) != x0), patterns=[item(k)]), "addition only of what is not in the list yet")
            post(eng, add, x != tz, "no target is added to itself")
            post(eng, add, V.VIS(tz, x), "addition only of visible targets")
            post(eng, add, z3.Or(z3.Not(is_known(x)), z3.Not(about(x, "testonly")), eng.bool(info.f["testonly"]), info.f["rule"].s == z3.StringVal("cc_test")), "addition only of what is allowed for a non-test target")
        return [(VOID, s)]
    this, kf, flags = generator(eng, prog, st, emit)
    s_known = lambda s: eng.rd(s, this).f[kf]
    s_vecs = lambda s: [v for c, v in s.cells.items() if isinstance(v, VecV) and strip(v.ety) == strip(sett)]
    st.g["$new"] = z3.Const("none yet", TG)
    rel0 = eng.overrides[BT + "::ToStringRelativeTo"]

    def rel(eng, st, e, m):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            s.g["$new"] = val_of(eng, s, o, BT)
            outs += rel0(eng, s, e, m)
        return outs
    eng.overrides[BT + "::ToStringRelativeTo"] = rel
    bf = eng.new_cell(st, eng.fresh_st(st, "bant::ParsedBuildFile", "build file"), "bant::ParsedBuildFile", "build file")
    tc, dc = eng.new_cell(st, target, BT, "target"), eng.new_cell(st, info, RES, "rule")

    def T(eng, ctx):
        out = []
        isdep = lambda v: isinstance(v, VecV) and strip(v.ety) == strip(sett)
        allv = [Cell(c) for c, v in ctx.entry.cells.items() if isdep(v) and not v.a.eq(R.a)]
        vecs = [lv for lv, v in ctx.mods if isdep(v)]
        maps = [lv for lv, v in ctx.mods if isinstance(v, MapV) and strip(v.kty) == BT]
        allm = [Cell(c) for c, v in ctx.entry.cells.items() if isinstance(v, MapV) and strip(v.kty) == BT and strip(v.vty) == BT]
        for v in vecs:
            out.append(("what is left is from the reduced sets", lambda s, v=v: z3.And(eng.rd(s, v).n >= 0, kept(eng.rd(s, v)))))
            out.append(("what is left is disjoint", lambda s, v=v: once(eng.rd(s, v), x0)))
            out.append(("nothing left that was not needed", lambda s, v=v: z3.Implies(some(eng.rd(s, v), x0), NEED0)))
        for v in allv:
            for m in allm:
                if v in vecs or m in maps or True:
                    out.append(("needed: checked off or left", lambda s, v=v, m=m: z3.Implies(NEED0, z3.Or(z3.Select(eng.rd(s, m).dom, x0), some(eng.rd(s, v), x0)))))
        for m in maps:
            d0 = eng.rd(ctx.entry, m).dom
            out.append(("checked off stays checked off", lambda s, m=m, d0=d0: z3.Implies(z3.Select(d0, x0), z3.Select(eng.rd(s, m).dom, x0))))
            if ctx.hidden.get("vis"):
                vk = ctx.hidden["vis"]
                out.append(("members so far are checked off", lambda s, m=m: z3.Implies(z3.Select(s.g[vk], x0), z3.Select(eng.rd(s, m).dom, x0))))
        for iv in ctx.ints():
            ix = lambda s, iv=iv: eng.rd(s, iv)
            out.append(("position", lambda s, ix=ix: z3.And(ix(s) >= 0, ix(s) <= V.DEPN(L))))
            for v in allv:
                out.append(("labels so far are not left", lambda s, ix=ix, v=v: z3.Implies(z3.Exists([k], z3.And(0 <= k, k < ix(s), V.OKL(item(k), pkg), mean(k) == x0), patterns=[item(k)]), none(eng.rd(s, v), x0))))
        its = [lambda s, lv=lv: eng.rd(s, lv).pos for lv, v in ctx.mods if isinstance(v, IterV) and v.kind == "vec"]
        if not its and not ctx.hidden:
            its = [lambda s, lv=lv: eng.rd(s, lv) for lv in ctx.ints()]
        for pos in its:
            for v in allv:
                out.append(("position in what is left", lambda s, pos=pos, v=v: z3.And(pos(s) >= 0, pos(s) <= eng.rd(s, v).n)))
                for c, q in ctx.entry.cells.items():
                    if isinstance(q, StructV) and strip(q.cls) == BT:
                        t = eng.so.reify(q, BT)
                        out.append(("none so far holds it", lambda s, pos=pos, v=v, t=t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pos(s)), z3.Not(holds(eng.rd(s, v), j, t))), patterns=[z3.Select(eng.rd(s, v).a, j)])))
                    if isinstance(q, OptV) and strip(q.ty) == BT:
                        t = eng.so.reify(q.val, BT)
                        out.append(("none so far holds it", lambda s, pos=pos, v=v, t=t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pos(s)), z3.Not(holds(eng.rd(s, v), j, t))), patterns=[z3.Select(eng.rd(s, v).a, j)])))
        return out
    eng.loop_templates.append(T)
    for r, s in run(eng, fn, this, [tc, dc, bf], st):
        pass
    return eng


def u_needed(prog):
    """Which alternatives are found for the includes, and when all includes count as accounted for."""
    fn = fn_of(prog, GEN + "::DependenciesNeededBySources")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["fast"] = eng.opts["second"] = True
    eng.opts["houdini_ms"] = 1000
    install(eng)
    st = start(eng, fn)
    install_project(eng, prog, st)
    V = install_labels(eng)
    PKG, TG = V.PKG, V.TG
    need_t = strip(fn["ret"])
    sett = split_targs(need_t)[1][0]
    D = eng.so.datatype(sett)
    dom, sn = D.sa, D.sn
    SF = GEN + "::SourceFile"
    target = eng.fresh_st(st, BT, "target")
    tz = eng.so.reify(target, BT)
    bf = eng.new_cell(st, eng.fresh_st(st, "bant::ParsedBuildFile", "build file"), "bant::ParsedBuildFile", "build file")
    pkg = eng.so.reify(eng.rd(st, bf.sub("package")), BP)
    srcs = eng.fresh_st(st, "std::vector<std::string_view>", "sources")
    flag0 = z3.Bool("accounted for before")
    flag = eng.new_cell(st, flag0, "bool", "flag")
    this, kf, flags = generator(eng, prog, st)
    READ, CONTENT, PATHOF, GENR = z3.Function("readable", SS, B), z3.Function("content", SS, SS), z3.Function("found at", SS, SS), z3.Function("is generated", SS, B)
    INCN, INC = z3.Function("number of includes", SS, Z), z3.Function("includes", SS, z3.ArraySort(Z, SS))
    OWN = z3.Function("is in own list", SS, SS, B)
    FOUND, SETOF = z3.Function("providers known", SS, B), z3.Function("providers", SS, eng.so.sort(sett))
    NEED, GOOD = z3.Function("looked up for an include", SS, B), z3.Function("visible providers of some include", eng.so.sort(sett), B)
    DIFF = z3.Function("difference", eng.so.sort(sett), SS, TG)
    PREF = z3.Const("path of the target's package", SS)
    st.assume(PREF == PKG.f_path(TG.f_package(tz)))
    file = lambda k: V.FQ(pkg, z3.Select(srcs.a, k))
    text = lambda k: CONTENT(file(k))
    inc = lambda k, i: z3.Select(INC(text(k)), i)
    mine = lambda x: z3.Or(OWN(x, PREF), OWN(x, z3.StringVal("")))
    alt = lambda x: V.QF(pkg, x)
    key = z3.Function("looked up as", SS, SS)
    found = lambda x: z3.Or(FOUND(x), FOUND(alt(x)))
    j, i, k = z3.Ints("j!c i!c k!c")
    w, q, y = z3.Const("w!c", eng.so.sort(sett)), z3.Const("q!c", SS), z3.Const("y!c", TG)
    like = lambda w, q, y: z3.Select(dom(w), y) == z3.And(z3.Select(dom(SETOF(q)), y), V.VIS(tz, y))
    s0, i0 = z3.Ints("any_source any_include")
    inc0 = inc(s0, i0)
    q0 = z3.Const("any lookup", SS)
    st.assume(q0 == key(inc0))
    ok0 = z3.And(0 <= s0, s0 < srcs.n, READ(file(s0)), 0 <= i0, i0 < INCN(text(s0)))
    LIKE0 = z3.Function("the alternatives for any include", eng.so.sort(sett), B)
    HAS0, AT0 = z3.Function("alternatives for any include in", z3.ArraySort(Z, eng.so.sort(sett)), Z, B), z3.Function("alternatives for any include at", z3.ArraySort(Z, eng.so.sort(sett)), Z, Z)
    av = z3.Const("a!c", z3.ArraySort(Z, eng.so.sort(sett)))
    VIS0, WHO = z3.Bool("any include has a visible provider"), z3.Const("visible provider", TG)
    st.assume(z3.Implies(VIS0, z3.And(z3.Select(dom(SETOF(q0)), WHO), V.VIS(tz, WHO))))
    eng.axioms += [
        z3.ForAll([q], key(q) == z3.If(FOUND(q), q, alt(q)), patterns=[key(q)]),
        z3.ForAll([w, q], z3.Implies(z3.And(NEED(q), like(w, q, DIFF(w, q))), GOOD(w)), patterns=[z3.MultiPattern(GOOD(w), NEED(q))]),
        z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < srcs.n, READ(file(k)), 0 <= i, i < INCN(text(k)), z3.Not(mine(inc(k, i))), found(inc(k, i))), NEED(key(inc(k, i)))), patterns=[inc(k, i)]),
        z3.ForAll([w], z3.Implies(like(w, q0, DIFF(w, q0)), LIKE0(w)), patterns=[LIKE0(w)]),
        z3.ForAll([av, k], z3.Implies(HAS0(av, k), z3.And(AT0(av, k) >= 0, AT0(av, k) < k, LIKE0(z3.Select(av, AT0(av, k))))), patterns=[HAS0(av, k)]),
        z3.ForAll([av, k, j], z3.Implies(z3.And(0 <= j, j < k, LIKE0(z3.Select(av, j))), HAS0(av, k)), patterns=[z3.MultiPattern(HAS0(av, k), z3.Select(av, j))]),
        z3.ForAll([av, k, j, w], z3.Implies(z3.And(HAS0(av, k), k <= j), HAS0(z3.Store(av, j, w), k)), patterns=[HAS0(z3.Store(av, j, w), k)]),
        z3.ForAll([av, k, j], z3.Implies(z3.And(HAS0(av, k), k <= j), HAS0(av, j)), patterns=[z3.MultiPattern(HAS0(av, k), HAS0(av, j))]),
        z3.ForAll([y], z3.Implies(z3.And(z3.Select(dom(SETOF(q0)), y), V.VIS(tz, y)), VIS0), patterns=[z3.MultiPattern(z3.Select(dom(SETOF(q0)), y), V.VIS(tz, y))])]

    def opened(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s in eng.evs(e["args"], s):
                f = lib.to_string(eng, s, vs[0]).s
                s.assume(z3.Length(CONTENT(f)) < 1 << 60)
                outs.append((OptV(READ(f), StructV(SF, {"content": StrV(CONTENT(f)), "path": StrV(PATHOF(f)), "is_generated": GENR(f)}), SF), s))
        return outs
    eng.overrides[GEN + "::TryOpenFile"] = opened
    cfn = fn_of(prog, "bant::NamedLineIndexedContent::content")

    def includes(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            o = eng.val(vs[0], s)
            for r, s2 in run(eng, cfn, o.lv if isinstance(o, PtrV) else o, [], s):
                t = lib.to_string(eng, s2, r).s
                s2.assume(INCN(t) >= 0, INCN(t) < 1 << 40)
                outs.append((VecV(INCN(t), INC(t), "std::string_view"), s2))
        return outs
    eng.overrides["bant::ExtractCCIncludes"] = includes

    def own(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            l = eng.val(vs[1], s)
            post(eng, s, z3.And(l.n == srcs.n, l.a == srcs.a), "own headers are looked for in the sources given")
            outs.append((OWN(lib.to_string(eng, s, vs[0]).s, lib.to_string(eng, s, vs[2]).s), s))
        return outs
    eng.overrides["bant::IsHeaderInList"] = own

    def lookup(eng, st, e, _):
        outs = []
        rt = "bant::FindResult"
        for vs, s in eng.evs(e["args"], st):
            x = lib.to_string(eng, s, vs[1]).s
            c = eng.new_cell(s, eng.so.reflect(SETOF(x), sett), sett, "providers")
            r = eng.fresh_st(s, rt, "found")
            s.assume(*[z3.Length(v.s) < 1 << 60 for v in r.f.values() if isinstance(v, StrV)])
            r = StructV(rt, {n: (PtrV(c) if isinstance(v, (PtrV, z3.ExprRef)) and n == field_of_type(prog, rt, lambda t: "*" in t, "set found") else v) for n, v in r.f.items()})
            outs.append((OptV(FOUND(x), r, rt), s))
        return outs
    eng.overrides["bant::FindBySuffix"] = lookup

    def see(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s in eng.evs(e["args"], s):
                outs.append((V.VIS(val_of(eng, s, vs[0], BT), val_of(eng, s, vs[1], BT)), s))
        return outs
    eng.overrides[GEN + "::CanSee"] = see
    accounted = z3.Or(mine(inc0), z3.And(found(inc0), VIS0))
    fl = lambda s: eng.rd(s, flag)

    def T(eng, ctx):
        out = []
        res = [Cell(c) for c, v in ctx.entry.cells.items() if isinstance(v, VecV) and strip(v.ety) == strip(sett)]
        sets = [lv for lv, v in ctx.mods if isinstance(v, SetV) and strip(v.ety) == BT]
        vk = ctx.hidden.get("vis")
        out.append(("accounted for before", lambda s: z3.Implies(fl(s), flag0)))
        for r in res:
            out.append(("alternatives so far", lambda s, r=r: z3.And(eng.rd(s, r).n >= 0, quantified(z3.ForAll, [j], z3.Implies(z3.And(0 <= j, j < eng.rd(s, r).n), z3.And(GOOD(z3.Select(eng.rd(s, r).a, j)), sn(z3.Select(eng.rd(s, r).a, j)) >= 1)), z3.Select(eng.rd(s, r).a, j)))))
        for r in res:
            if vk and r.cid in [lv.cid for lv, v in ctx.mods if isinstance(lv, Cell)]:
                r0 = eng.rd(ctx.entry, r)
                last = lambda s, r=r: z3.Select(eng.rd(s, r).a, r0.n - 1)
                out.append(("one set of alternatives is being filled", lambda s, r=r, r0=r0: z3.And(eng.rd(s, r).n == r0.n, quantified(z3.ForAll, [j], z3.Implies(z3.And(0 <= j, j < r0.n - 1), z3.Select(eng.rd(s, r).a, j) == z3.Select(r0.a, j)), z3.Select(eng.rd(s, r).a, j)))))
                out.append(("alternatives of any include kept", lambda s, r=r, r0=r0: z3.Implies(HAS0(r0.a, r0.n - 1), HAS0(eng.rd(s, r).a, r0.n - 1))))
                out.append(("with the visible providers so far", lambda s, last=last: z3.And(sn(last(s)) >= 0, quantified(z3.ForAll, [y], z3.Select(dom(last(s)), y) == z3.And(z3.Select(s.g[vk], y), V.VIS(tz, y)), z3.Select(dom(last(s)), y)))))
                out.append(("not empty if there is one", lambda s, last=last: quantified(z3.ForAll, [y], z3.Implies(z3.Select(dom(last(s)), y), sn(last(s)) >= 1), z3.Select(dom(last(s)), y))))
                out.append(("if not empty there is one", lambda s, last=last: z3.Implies(sn(last(s)) >= 1, quantified(z3.Exists, [y], z3.Select(dom(last(s)), y), z3.Select(dom(last(s)), y)))))
        ixs = []
        for iv in ctx.ints():
            if vk or (ctx.hidden.get("n") is not None and not iv.cid.startswith("idx")):
                continue
            ix = lambda s, iv=iv: eng.rd(s, iv)
            out.append(("position", lambda s, ix=ix: ix(s) >= 0))
            cn = ctx.hidden.get("n")
            outer, inner = cn is None or cn.eq(srcs.n), cn is None or not cn.eq(srcs.n)
            if inner:
              for r in res:
                for c, v in ctx.entry.cells.items():
                    if isinstance(v, z3.ExprRef) and z3.is_int(v) and c != iv.cid and c.startswith("idx") == (cn is not None):
                        done = lambda s, ix=ix, c=c: z3.And(ok0, s0 == s.cells[c], i0 < ix(s))
                        out.append(("alternatives of this source's includes", lambda s, done=done, r=r: z3.Implies(z3.And(done(s), z3.Not(mine(inc0)), found(inc0), VIS0), HAS0(eng.rd(s, r).a, eng.rd(s, r).n))))
                        out.append(("this source's includes are accounted for", lambda s, done=done: z3.Implies(z3.And(fl(s), done(s)), accounted)))
            if not outer:
                for c, v in ctx.entry.cells.items():
                    if isinstance(v, z3.ExprRef) and z3.is_int(v) and c != iv.cid and c.startswith("idx"):
                        ixs.append(lambda s, c=c: s.cells[c])
            else:
                ixs.append(ix)
        for ix in ixs:
            out.append(("sources so far are read", lambda s, ix=ix: z3.Implies(z3.And(fl(s), 0 <= s0, s0 < ix(s), s0 < srcs.n), READ(file(s0)))))
            out.append(("includes so far are accounted for", lambda s, ix=ix: z3.Implies(z3.And(fl(s), ok0, s0 < ix(s)), accounted)))
            for r in res:
                out.append(("alternatives of includes so far", lambda s, ix=ix, r=r: z3.Implies(z3.And(ok0, s0 < ix(s), z3.Not(mine(inc0)), found(inc0), VIS0), HAS0(eng.rd(s, r).a, eng.rd(s, r).n))))
        return out
    eng.loop_templates.append(T)
    tc, vc_ = eng.new_cell(st, target, BT, "target"), eng.new_cell(st, srcs, "std::vector<std::string_view>", "sources")
    for r, s in run(eng, fn, this, [tc, bf, vc_, PtrV(flag)], st):
        v = eng.val(r, s)
        post(eng, s, z3.Implies(fl(s), flag0), "nothing is accounted for that was not before")
        post(eng, s, z3.Implies(z3.And(fl(s), 0 <= s0, s0 < srcs.n), READ(file(s0))), "accounted for only if every source is readable")
        post(eng, s, z3.Implies(z3.And(fl(s), ok0), accounted), "accounted for only if every include is an own header or has a visible provider")
        post(eng, s, z3.Implies(z3.And(ok0, z3.Not(mine(inc0)), found(inc0), VIS0), HAS0(v.a, v.n)), "the visible providers of every include are among the alternatives")
        post(eng, s, quantified(z3.ForAll, [j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(GOOD(z3.Select(v.a, j)), sn(z3.Select(v.a, j)) >= 1)), z3.Select(v.a, j)), "alternatives are the visible providers of some include")
    return eng


def u_own(prog):
    """A header is one of the target's own exactly if some file listed is it, by itself or in the directory given."""
    fn = fn_of(prog, "bant::IsHeaderInList")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    st = start(eng, fn)
    h, pre = eng.fresh_st(st, "std::string_view", "header"), eng.fresh_st(st, "std::string_view", "directory")
    lst = eng.fresh_st(st, "std::vector<std::string_view>", "files")
    k, x = z3.Int("k!c"), z3.String("x!c")
    item = lambda k: z3.Select(lst.a, k)
    IS = z3.Function("is the header", SS, B)
    st.assume(z3.Length(h.s) < 1 << 60, z3.Length(pre.s) < 1 << 60, z3.ForAll([k], z3.Length(item(k)) < 1 << 60, patterns=[item(k)]))
    eng.axioms.append(z3.ForAll([x], IS(x) == z3.Or(h.s == x, h.s == z3.Concat(pre.s, z3.StringVal("/"), x)), patterns=[IS(x)]))
    none = lambda n: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Not(IS(item(k)))), patterns=[item(k)])

    def T(eng, ctx):
        return [("none so far", lambda s, iv=iv: z3.And(eng.rd(s, iv) >= 0, none(eng.rd(s, iv)))) for iv in ctx.ints()]
    eng.loop_templates.append(T)
    lc = eng.new_cell(st, lst, "std::vector<std::string_view>", "files")
    for r, s in run(eng, fn, None, [h, lc, pre], st):
        v = eng.bool(eng.val(r, s))
        s2 = s.fork().assume(v)
        if eng.feasible(s2):
            post(eng, s2, z3.Exists([k], z3.And(0 <= k, k < lst.n, IS(item(k))), patterns=[item(k)]), "an own header is listed")
        s2 = s.fork().assume(z3.Not(v))
        if eng.feasible(s2):
            post(eng, s2, none(lst.n), "a header that is listed is an own one")
    return eng


def u_open(prog):
    """A source is its first readable location; everything but the plain path is generated."""
    fn = fn_of(prog, GEN + "::TryOpenFile")
    SF = GEN + "::SourceFile"
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    st = start(eng, fn)
    f = eng.fresh_st(st, "std::string_view", "file")
    st.assume(z3.Length(f.s) < 1 << 60)
    this = eng.new_cell(st, OpaqueV(GEN), GEN, "gen")
    READ, CONTENT = z3.Function("readable", SS, B), z3.Function("content", SS, SS)
    FP = "bant::FilesystemPath"

    def path(eng, st, e, vs):
        return [(StructV(FP, {"$text": lib.to_string(eng, st, vs[0])}), st)] if len(vs) == 1 and strip(e["args"][0]["t"]) != FP else None
    eng.overrides["ctor " + FP] = path

    def rdf(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            t = eng.val(vs[0], s).f["$text"].s
            s.assume(z3.Length(CONTENT(t)) < 1 << 60)
            outs.append((OptV(READ(t), StrV(CONTENT(t)), "std::string"), s))
        return outs
    eng.overrides["bant::ReadFileToString"] = rdf
    locs = [z3.Concat(z3.StringVal(p), f.s) if p else f.s for p in ("", "bazel-out/host/bin/", "bazel-bin/", "bazel-genfiles/")]
    for r, s in run(eng, fn, this, [f], st):
        o = eng.val(r, s)
        has = eng.bool(o.has)
        post(eng, s, has == z3.Or(*[READ(l) for l in locs]), "a file is found if it is readable in the tree or where generated files are")
        s2 = s.fork().assume(has)
        if o.val is None or not eng.feasible(s2):
            continue
        c, p, g = o.val.f["content"].s, o.val.f["path"].s, eng.bool(o.val.f["is_generated"])
        first = lambda i: z3.And(READ(locs[i]), *[z3.Not(READ(l)) for l in locs[:i]])
        post(eng, s2, z3.Or(*[z3.And(first(i), p == locs[i], c == CONTENT(locs[i])) for i in range(4)]), "it is what the first readable location holds")
        post(eng, s2, g == z3.Not(READ(locs[0])), "generated exactly if not in the tree itself")
    return eng


def u_all(prog):
    """Edits are created for exactly the C++ rules that the pattern matches."""
    fn = fn_of(prog, GEN + "::CreateEditsForPattern")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["fast"] = True
    install(eng)
    st = start(eng, fn)
    install_project(eng, prog, st)
    V = install_labels(eng)
    m, _, of = file_map(eng, st, prog)
    this, kf, flags = generator(eng, prog, st)
    x = z3.Const("x!all", eng.so.sort(m.kty))
    file = lambda s, k: HeapLV("bant::ParsedBuildFile", z3.Select(m.val, k))
    tree = lambda s, k: eng.rd(s, file(s, k).sub("ast"))
    st.g["$count"], st.g["$here"] = I(0), z3.BoolVal(False)
    st.g["$seen"] = z3.K(Z, z3.BoolVal(False))

    def mine(s):
        p, n = s.g["$pkg"], s.g["$name"]
        return z3.And(V.QOK(n, p), V.MT(V.QT(n, p)))

    def before(eng, s, r, ast):
        s.g["$here"], s.g["$name"], s.g["$pkg"], s.g["$rule"] = z3.BoolVal(False), r.f["name"].s, of(ast), eng.so.reify(r, RES)

    def after(eng, s, r, ast):
        post(eng, s, s.g["$here"] == mine(s), "edits are created for a rule exactly if the pattern matches it")

    def start_tree(eng, s, ast, e):
        w = wanted(eng, s, e)
        post(eng, s, z3.And(*[z3.Or(*[x == z3.StringVal(n) for x in w]) for n in ("cc_library", "cc_binary", "cc_test")]) if w else z3.BoolVal(True), "libraries, binaries and tests are asked for")
        post(eng, s, V.MP(of(ast)), "only packages that the pattern matches are looked at")
        s.g["$seen"] = z3.Store(s.g["$seen"], ast, z3.BoolVal(True))
    find_targets(eng, before, after, start_tree)

    def edits(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s in eng.evs(e["args"], s):
                post(eng, s, z3.And(mine(s), val_of(eng, s, vs[0], BT) == V.QT(s.g["$name"], s.g["$pkg"])), "edits for the rule at hand, which the pattern matches")
                post(eng, s, val_of(eng, s, vs[1], RES) == s.g["$rule"], "with what is known about it")
                bf = eng.val(vs[2], s) if not isinstance(vs[2], LV) else vs[2]
                bf = bf.lv if isinstance(bf, PtrV) else bf
                post(eng, s, val_of(eng, s, bf.sub("package"), BP) == s.g["$pkg"], "in its own build file")
                post(eng, s, z3.Not(s.g["$here"]), "once")
                s.g["$here"], s.g["$count"] = z3.BoolVal(True), simp(s.g["$count"] + 1)
                s.assume(s.g["$count"] < 1 << 62)
                outs.append((VOID, s))
        return outs
    eng.overrides[GEN + "::CreateEditsForTarget"] = edits

    def T(eng, ctx):
        out = [("targets counted", lambda s, lv=lv: z3.And(eng.rd(s, lv) == s.g["$count"], s.g["$count"] >= 0)) for lv in ctx.ints()]
        if ctx.hidden.get("vis"):
            vk = ctx.hidden["vis"]
            out.append(("packages looked at", lambda s: z3.ForAll([x], z3.Implies(z3.And(z3.Select(s.g[vk], x), z3.Select(m.dom, x), V.MP(of(tree(s, x)))), z3.Select(s.g["$seen"], tree(s, x))), patterns=[z3.Select(s.g[vk], x)])))
        return out
    eng.loop_templates.append(T)
    pat = eng.new_cell(st, OpaqueV(PAT), PAT, "pattern")
    for r, s in run(eng, fn, this, [pat], st):
        post(eng, s, eng.val(r, s) == s.g["$count"], "the number of targets looked at is returned")
        post(eng, s, z3.ForAll([x], z3.Implies(z3.And(z3.Select(m.dom, x), V.MP(of(tree(s, x)))), z3.Select(s.g["$seen"], tree(s, x))), patterns=[z3.Select(m.dom, x)]), "every package that the pattern matches is looked at")
    return eng


def u_known(prog):
    """A library is known only with what a rule of that name says."""
    fn = fn_of(prog, GEN + "::InitKnownLibraries")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["fast"] = True
    install(eng)
    st = start(eng, fn)
    install_project(eng, prog, st)
    V = install_labels(eng)
    m, _, of = file_map(eng, st, prog)
    this, kf, flags = generator(eng, prog, st)
    known = lambda s: eng.rd(s, this).f[kf]
    st.assume(known(st).n == 0, known(st).dom == z3.K(eng.so.sort(BT), z3.BoolVal(False)))
    x = z3.Const("x!kn", eng.so.sort(m.kty))
    tree = lambda s, k: eng.rd(s, HeapLV("bant::ParsedBuildFile", z3.Select(m.val, k)).sub("ast"))
    t = z3.Const("t!kn", eng.so.sort(BT))
    SAYS = z3.Function("a rule defines as", eng.so.sort(BT), eng.so.sort(RES), B)
    st.g["$seen"] = z3.K(Z, z3.BoolVal(False))
    kinds = ("cc_library", "alias", "cc_proto_library", "grpc_cc_library", "cc_test")

    def before(eng, s, r, ast):
        s.g["$name"], s.g["$pkg"], s.g["$rule"] = r.f["name"].s, of(ast), eng.so.reify(r, RES)
        s.assume(SAYS(V.QT(s.g["$name"], s.g["$pkg"]), s.g["$rule"]))

    def after(eng, s, r, ast):
        post(eng, s, z3.Implies(V.QOK(s.g["$name"], s.g["$pkg"]), z3.Select(known(s).dom, V.QT(s.g["$name"], s.g["$pkg"]))), "every rule found is known")

    def start_tree(eng, s, ast, e):
        w = wanted(eng, s, e)
        post(eng, s, z3.And(*[z3.Or(*[x == z3.StringVal(n) for x in w]) for n in kinds]) if w else z3.BoolVal(True), "all kinds of libraries are asked for")
        s.g["$seen"] = z3.Store(s.g["$seen"], ast, z3.BoolVal(True))
    find_targets(eng, before, after, start_tree)
    says = lambda s: z3.ForAll([t], z3.Implies(z3.Select(known(s).dom, t), SAYS(t, z3.Select(known(s).val, t))), patterns=[z3.Select(known(s).dom, t)])

    def T(eng, ctx):
        out = [("known is what rules say", says)]
        if ctx.hidden.get("vis"):
            vk = ctx.hidden["vis"]
            out.append(("packages looked at", lambda s: z3.ForAll([x], z3.Implies(z3.And(z3.Select(s.g[vk], x), z3.Select(m.dom, x)), z3.Select(s.g["$seen"], tree(s, x))), patterns=[z3.Select(s.g[vk], x)])))
        return out
    eng.loop_templates.append(T)
    for r, s in run(eng, fn, this, [], st):
        post(eng, s, says(s), "what is known about a target is what a rule of that name says")
        post(eng, s, z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), z3.Select(s.g["$seen"], tree(s, x))), patterns=[z3.Select(m.dom, x)]), "every package is looked at")
    return eng


def units(tier):
    return [Unit("edits for a target", DW, u_target, timeout=400), Unit("includes to alternatives", DW, u_needed, timeout=500), Unit("own headers", DW, u_own), Unit("source files", DW, u_open),
            Unit("targets of a pattern", DW, u_all), Unit("known libraries", DW, u_known)] + [u for u in p_c14.units(tier) if u.name == "disjoint"]


SRCS = [f for f in ALL_SRC if f != "bant/tool/dwyu.cc"]
witness = W.searcher("c15.cc", SRCS, extra=("-fno-access-control", "-DWHICH=15"))
