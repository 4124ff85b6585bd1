"""C29: visibility of one target from another."""
from astlib import *
from bazellib import *
import p_c09

TITLE = "Visibility is granted exactly when a visibility pattern matches the user"
DW = ["bant/tool/dwyu.cc"]
GEN = "bant::DWYUGenerator"
ASSUME = AST_ASSUME + ["the ordered map of known libraries (find)", "in CanSee, patterns by the contract of ParseVisibility and Match (proved here and in C09)"] + p_c09.ASSUME
SO = {}


def u_see(prog):
    fn = fn_of(prog, GEN + "::CanSee")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    install(eng)
    st = start(eng, fn)
    kf = field_of_type(prog, GEN, lambda t: split_targs(t)[0] in MAPS and split_targs(t)[1][0] == BT and "Result" in t, "map of known libraries")
    eng.so.field_override[GEN] = [(kf, [f["t"] for f in prog.records[GEN]["fields"] if f["n"] == kf][0])]
    obj = eng.fresh_st(st, GEN, "gen")
    this = eng.new_cell(st, obj, GEN, "gen")
    m = obj.f[kf]
    t, dep = eng.fresh_st(st, BT, "target"), eng.fresh_st(st, BT, "dep")
    for x in (t, dep):
        st.assume(z3.Length(x.f["target_name"].s) < 1 << 60)
    BTs, PKG = eng.so.sort(BT), eng.so.sort(BP)
    OKV = z3.Function("visibility is a pattern", SS, PKG, B)
    MV = z3.Function("visibility matches", SS, PKG, BTs, B)
    WHO = z3.Function("pattern of", Z, SS)
    pats = {}

    def pv(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            tx, pk = lib.to_string(eng, s, vs[0]).s, eng.so.reify(eng.val(vs[1], s), BP)
            h = z3.Int(E.uid("pat"))
            pats[h.get_id()] = (tx, pk, h)
            outs.append((OptV(OKV(tx, pk), OpaqueV(PAT, h), PAT), s))
        return outs

    def match(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            v = eng.val(o, s)
            if isinstance(v, PtrV):
                v = eng.rd(s, v.lv)
            for vs, s1 in eng.evs(e["args"], s):
                if not isinstance(v, OpaqueV) or v.tag is None:
                    raise Unsupported("unknown pattern %s" % v)
                if strip(e["args"][0]["t"]) != BT:
                    raise Unsupported("match of a package")
                tx, pk, h = pats[v.tag.get_id()]
                outs.append((MV(tx, pk, eng.so.reify(eng.val(vs[0], s1), BT)), s1))
        return outs
    eng.overrides[PAT + "::ParseVisibility"] = pv
    eng.overrides[PAT + "::Match"] = match
    tc, dc = eng.new_cell(st, t, BT, "target"), eng.new_cell(st, dep, BT, "dep")
    tz, dz = eng.so.reify(t, BT), eng.so.reify(dep, BT)
    known = z3.Select(m.dom, dz)
    R = eng.so.datatype(strip(m.vty))
    info = z3.Select(m.val, dz)
    L = R.f_visibility(info)
    pkg = eng.so.reify(dep.f["package"], BP)
    valid = lambda k: z3.And(is_kind(ITEM(L, k), "Scalar"), OKV(TEXT(ITEM(L, k)), pkg))
    hit = lambda k: z3.And(valid(k), MV(TEXT(ITEM(L, k)), pkg, tz))
    k = z3.Int("k!v")
    st.assume(L >= 0, L < E.TWO64)

    def T(eng, ctx):
        out = []
        for iv in ctx.ints():
            ix = lambda s, iv=iv: eng.rd(s, iv)
            out.append(("position in the list", lambda s, ix=ix: z3.And(ix(s) >= 0, ix(s) <= LEN(L))))
            out.append(("no entry so far matches", lambda s, ix=ix: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ix(s)), z3.Not(hit(k))), patterns=[ITEM(L, k)])))
            for lv, v in ctx.mods:
                if z3.is_expr(v) and z3.is_bool(v):
                    out.append(("a pattern was among the entries", lambda s, ix=ix, lv=lv: z3.Implies(eng.rd(s, lv), z3.Exists([k], z3.And(0 <= k, k < ix(s), valid(k)), patterns=[ITEM(L, k)]))))
                    out.append(("no pattern was among the entries", lambda s, ix=ix, lv=lv: z3.Implies(z3.Not(eng.rd(s, lv)), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ix(s)), z3.Not(valid(k))), patterns=[ITEM(L, k)]))))
        return out
    eng.loop_templates.append(T)
    inr = lambda k: z3.And(0 <= k, k < LEN(L))
    some = z3.Exists([k], z3.And(inr(k), hit(k)), patterns=[ITEM(L, k)])
    none = z3.ForAll([k], z3.Implies(inr(k), z3.Not(valid(k))), patterns=[ITEM(L, k)])
    deprecated = R.f_deprecation(info) != S("")
    same = pkg_eq(t.f["package"], dep.f["package"])
    hidden = dep.f["target_name"].s == S("protobuf_headers")
    for r, s in run(eng, fn, this, [tc, dc], st):
        r = eng.bool(eng.val(r, s))
        case = lambda c: s.fork().assume(c)
        post(eng, case(z3.Not(known)), r, "an unknown target counts as visible")
        post(eng, case(z3.And(known, deprecated)), z3.Not(r), "a deprecated target is not offered")
        c2 = z3.And(known, z3.Not(deprecated))
        post(eng, case(z3.And(c2, same)), r, "targets of the same package are visible")
        c3 = z3.And(c2, z3.Not(same))
        post(eng, case(z3.And(c3, hidden)), z3.Not(r), "the headers-only target of protobuf is not offered")
        c4 = z3.And(c3, z3.Not(hidden))
        post(eng, case(z3.And(c4, L == 0)), r, "without any visibility given a target counts as visible")
        c5 = z3.And(c4, L != 0)
        post(eng, case(z3.And(c5, r)), z3.Or(some, none), "visible only if an entry matches the user, or nothing is a pattern")
        post(eng, case(z3.And(c5, z3.Not(r))), z3.And(z3.Not(some), z3.Not(none)), "not visible only if there are patterns and none matches the user")
        after = eng.rd(s, this).f[kf]
        post(eng, s, z3.And(after.dom == m.dom, after.val == m.val), "asking changes nothing")
    return eng


def u_vis(prog):
    """Parsing a visibility entry in a package, then matching."""
    fn = fn_of(prog, PAT + "::ParseVisibility")
    eng, st = p_c09.setup(prog, fn)
    m_t = fn_of(prog, PAT + "::Match", pt=[BT])
    text = eng.fresh_st(st, "std::string_view", "entry")
    ctx = eng.fresh_st(st, BP, "context")
    t, u = eng.fresh_st(st, BT, "label"), eng.fresh_st(st, BT, "user")
    has = z3.Bool("label parses")
    for x in (t, u):
        p_c09.wf_target(st, x)
    st.assume(z3.Length(text.s) < 1 << 60, z3.Length(ctx.f["project"].s) < 1 << 60, z3.Length(ctx.f["path"].s) < 1 << 60)
    n = t.f["target_name"].s
    eng.axioms += [p_c09.gl_def(n, z3.BoolVal(True)), OK(GL_(n))]
    real = fn_of(prog, BT + "::ParseFrom")

    def parse(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            tx = simp(lib.to_string(eng, s, vs[0]).s)
            if z3.is_string_value(tx) and tx.as_string() == "":
                outs += eng.call_body(real, None, vs, s)      # the label of the package itself: the real code
                continue
            c = eng.val(vs[1], s)
            post(eng, s, tx == text.s, "the label parsed is the entry given")
            post(eng, s, pkg_eq(c, ctx), "the label is completed from the package of the target")
            outs.append((OptV(has, t, BT), s))
        return outs
    eng.overrides[BT + "::ParseFrom"] = parse
    valid, mt, mp = p_c09.spec(t, u)
    private = text.s == S("//visibility:private")
    pat = z3.Or(z3.SuffixOf(S("..."), text.s), z3.SuffixOf(S("__"), text.s))
    want_ok = z3.If(private, True, z3.If(pat, z3.And(has, valid), True))
    want = z3.If(private, pkg_eq(u.f["package"], ctx), z3.If(pat, mt, True))
    cc = eng.new_cell(st, ctx, BP, "context")
    for r, s in run(eng, fn, None, [text, cc], st):
        o = eng.val(r, s)
        post(eng, s, eng.bool(o.has) == want_ok, "an entry counts exactly when it denotes something")
        s2 = s.fork().assume(eng.bool(o.has))
        if o.val is None or not eng.feasible(s2):
            continue
        cell = eng.new_cell(s2, o.val, PAT, "pattern")
        uc = eng.new_cell(s2, u, BT, "user")
        for r2, s3 in run(eng, m_t, cell, [uc], s2):
            post(eng, s3, eng.bool(eng.val(r2, s3)) == want, "private: the own package; a package pattern: what it denotes; anything else: everyone")
    return eng


def GL_(n):
    return p_c09.GL(n, z3.BoolVal(True))


def units(tier):
    return [Unit("can see", DW, u_see), Unit("visibility entry", SRC, u_vis, timeout=300)]


witness = W.searcher("c29.cc", [f for f in ALL_SRC if f != "bant/tool/dwyu.cc"], extra=("-fno-access-control",))
