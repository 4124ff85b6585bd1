"""The dependency tool's own vocabulary: its known libraries, labels and visibility as functions, alternatives as disjoint sets."""
from projlib import *

DW = ["bant/tool/dwyu.cc"]
GEN = "bant::DWYUGenerator"


class Voc:
    """Labels, patterns and visibility as functions of texts, packages and targets (their contracts: C08, C09, C29)."""
    def __init__(self, eng):
        PKG, TG = eng.so.sort(BP), eng.so.sort(BT)
        self.PKG, self.TG = PKG, TG
        self.OKL, self.LBL = z3.Function("label parses", SS, PKG, B), z3.Function("label means", SS, PKG, TG)
        self.ABS = z3.Function("text of target", TG, SS)
        self.REL = lambda t, p: z3.If(TG.f_package(t) == p, z3.Concat(z3.StringVal(":"), TG.f_target_name(t)), self.ABS(t))
        self.QOK, self.QT = z3.Function("name is a target", SS, PKG, B), z3.Function("target of name", SS, PKG, TG)
        self.MT, self.MP = z3.Function("pattern matches target", TG, B), z3.Function("pattern matches package", PKG, B)
        self.QF = z3.Function("file of package", PKG, SS, SS)
        self.FQ = z3.Function("path of file of package", PKG, SS, SS)
        self.VIS = z3.Function("can see", TG, TG, B)
        self.DEPS = z3.Function("texts of list", Z, z3.ArraySort(Z, SS))
        self.DEPN = z3.Function("number of texts", Z, Z)

    def item(self, l, k):
        return z3.Select(self.DEPS(l), k)


z3.z3core.Z3_toggle_warning_messages(False)


def quantified(q, vs, body, pat):
    """With a pattern where there can be one (none for expressions, which occur as goals only)."""
    try:
        return q(vs, body, patterns=[pat])
    except z3.Z3Exception:
        return q(vs, body)


def val_of(eng, s, x, t):
    v = eng.val(x, s)
    if isinstance(v, PtrV):
        v = eng.rd(s, v.lv)
    return eng.so.reify(v, t)


def install_labels(eng):
    V = Voc(eng)

    def on_obj(f):
        def ov(eng, st, e, _):
            outs = []
            for o, s in eng.ev(e["obj"], st):
                for vs, s2 in eng.evs(e["args"], s):
                    outs.append((f(s2, o, vs, e), s2))
            return outs
        return ov

    def static(f):
        def ov(eng, st, e, _):
            return [(f(s, vs, e), s) for vs, s in eng.evs(e["args"], st)]
        return ov
    tx = lambda s, x: lib.to_string(eng, s, x).s

    def parse(s, vs, e):
        a, p = tx(s, vs[0]), val_of(eng, s, vs[1], BP)
        return OptV(V.OKL(a, p), eng.so.reflect(V.LBL(a, p), BT), BT)

    def qual(s, o, vs, e):
        p, a = val_of(eng, s, o, BP), tx(s, vs[0])
        return OptV(V.QOK(a, p), eng.so.reflect(V.QT(a, p), BT), BT)

    def match(s, o, vs, e):
        t = strip(e["args"][0]["t"])
        return (V.MT if t == BT else V.MP)(val_of(eng, s, vs[0], t))
    eng.overrides[BT + "::ParseFrom"] = static(parse)
    eng.overrides[BT + "::ToStringRelativeTo"] = on_obj(lambda s, o, vs, e: StrV(V.REL(val_of(eng, s, o, BT), val_of(eng, s, vs[0], BP))))
    eng.overrides[BT + "::ToString"] = on_obj(lambda s, o, vs, e: StrV(V.ABS(val_of(eng, s, o, BT))))
    eng.overrides[BP + "::QualifiedTarget"] = on_obj(qual)
    eng.overrides[BP + "::QualifiedFile"] = on_obj(lambda s, o, vs, e: StrV(V.QF(val_of(eng, s, o, BP), tx(s, vs[0]))))
    eng.overrides[BP + "::FullyQualifiedFile"] = on_obj(lambda s, o, vs, e: StrV(V.FQ(val_of(eng, s, o, BP), tx(s, vs[1]))))
    eng.overrides[PAT + "::Match"] = on_obj(match)

    def addr(s, x):
        l = eng.val(x, s)
        return l.lv.addr if isinstance(l, PtrV) else l

    def strings(s, vs, e):
        l = addr(s, vs[0])
        s.assume(V.DEPN(l) >= 0, V.DEPN(l) < 1 << 40, V.DEPN(0) == 0)
        return eng.so.reflect(eng.so.datatype("std::vector<std::string_view>").mk(V.DEPN(l), V.DEPS(l)), "std::vector<std::string_view>")

    def append(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            l, lv = addr(s, vs[0]), vs[1]
            s.assume(V.DEPN(l) >= 0, V.DEPN(l) < 1 << 40, V.DEPN(0) == 0)
            v = eng.rd(s, lv)
            a = z3.Const(E.uid("appended"), v.a.sort())
            j = z3.Int("j!ap")
            s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.n + V.DEPN(l)), z3.Select(a, j) == z3.If(j < v.n, z3.Select(v.a, j), V.item(l, j - v.n))), patterns=[z3.Select(a, j)]))
            eng.wr(s, lv, VecV(simp(v.n + V.DEPN(l)), a, v.ety))
            outs.append((VOID, s))
        return outs
    eng.overrides["bant::query::ExtractStringList"] = static(strings)
    eng.overrides["bant::query::AppendStringList"] = append
    eng.assumed.add("labels, patterns and list texts as functions (C08, C09, C28)")
    return V


def generator(eng, prog, st, emit=None):
    """The generator: its map of known libraries, its callback (emit), its session's flags; returns (cell, map field, flags)."""
    fs = {f["n"]: f["t"] for f in prog.records[GEN]["fields"]}
    is_known = lambda t: split_targs(t)[0] in MAPS and split_targs(t)[1][0] == BT and "Result" in t
    kf = field_of_type(prog, GEN, is_known, "map of known libraries")
    ff = field_of_type(prog, GEN, lambda t: t.startswith("std::function<"), "callback")
    d = {kf: eng.fresh_st(st, fs[kf], "known"), ff: OpaqueV(strip(fs[ff]))}
    flags = eng.new_cell(st, eng.fresh_st(st, "bant::CommandlineFlags", "flags"), "bant::CommandlineFlags", "flags")
    for n, t in fs.items():
        if n in d:
            continue
        if is_ref(t):
            d[n] = PtrV(eng.new_cell(st, OpaqueV(strip(t)), strip(t), n))
        else:
            d[n] = eng.fresh_st(st, t, n)
    eng.so.field_override[GEN] = [(n, t) for n, t in fs.items()]
    this = eng.new_cell(st, StructV(GEN, d), GEN, "gen")

    def get_flags(eng, st, e, _):
        return [(flags, s) for o, s in eng.ev(e["obj"], st)]
    eng.overrides["bant::Session::flags"] = get_flags
    if emit:
        def ov(eng, st, e, _):
            outs = []
            for vs, s in eng.evs(e["args"], st):
                outs += emit(eng, s, vs[1:], e)
            return outs
        eng.overrides[strip(fs[ff]) + "::operator()"] = ov
    return this, kf, flags
