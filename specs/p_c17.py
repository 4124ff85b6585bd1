"""C17: suggestions to write labels canonically."""
from projlib import *
import p_c08
import p_c09

TITLE = "Canonicalisation edits keep the meaning of every label"
CT = ["bant/tool/canon-targets.cc"]
ASSUME = AST_ASSUME + PROJ_ASSUME + ["ParseFrom, ToStringRelativeTo, QualifiedTarget and Match by their meaning as functions of label, package and pattern; their contracts (C08, C09) are proved with it",
                                     "ExtractStringList gives the texts of the list"]


def u_edits(prog):
    fn = fn_of(prog, "bant::CreateCanonicalizeEdits")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = eng.opts["fast"] = True
    install(eng)
    st = start(eng, fn)
    install_project(eng, prog, st)
    m, _, of = file_map(eng, st, prog)
    PKG, TG = eng.so.sort(BP), eng.so.sort(BT)
    OKL, LBL = z3.Function("label parses", SS, PKG, B), z3.Function("label means", SS, PKG, TG)
    ABS = z3.Function("text of target", TG, SS)
    REL = lambda t, p: z3.If(TG.f_package(t) == p, z3.Concat(z3.StringVal(":"), TG.f_target_name(t)), ABS(t))
    MT, MP = z3.Function("pattern matches target", TG, B), z3.Function("pattern matches package", PKG, B)
    QOK, QT = z3.Function("name is a target", SS, PKG, B), z3.Function("target of name", SS, PKG, TG)
    DEPS = z3.Function("texts of list", Z, z3.ArraySort(Z, SS))
    DEPN = z3.Function("number of texts", Z, Z)
    NEED = z3.Function("edits needed among the first", Z, PKG, Z, Z)

    def val(eng, s, x, t):
        v = eng.val(x, s)
        if isinstance(v, PtrV):
            v = eng.rd(s, v.lv)
        return eng.so.reify(v, t)

    def parse(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            a, p = lib.to_string(eng, s, vs[0]).s, val(eng, s, vs[1], BP)
            outs.append((OptV(OKL(a, p), eng.so.reflect(LBL(a, p), BT), BT), s))
        return outs

    def rel(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s2 in eng.evs(e["args"], s):
                outs.append((StrV(REL(val(eng, s2, o, BT), val(eng, s2, vs[0], BP))), s2))
        return outs

    def text(eng, st, e, _):
        return [(StrV(ABS(val(eng, s, o, BT))), s) for o, s in eng.ev(e["obj"], st)]

    def qual(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s2 in eng.evs(e["args"], s):
                p, a = val(eng, s2, o, BP), lib.to_string(eng, s2, vs[0]).s
                outs.append((OptV(QOK(a, p), eng.so.reflect(QT(a, p), BT), BT), s2))
        return outs

    def match(eng, st, e, _):
        t = strip(e["args"][0]["t"])
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s2 in eng.evs(e["args"], s):
                outs.append(((MT if t == BT else MP)(val(eng, s2, vs[0], t)), s2))
        return outs

    def strings(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            l = eng.val(vs[0], s)
            if isinstance(l, PtrV):
                l = l.lv.addr
            s.assume(DEPN(l) >= 0, DEPN(l) < 1 << 40)
            s.g["$list"] = l
            outs.append((eng.so.reflect(eng.so.datatype("std::vector<std::string_view>").mk(DEPN(l), DEPS(l)), "std::vector<std::string_view>"), s))
        return outs
    eng.overrides[BT + "::ParseFrom"], eng.overrides[BT + "::ToStringRelativeTo"] = parse, rel
    eng.overrides[BT + "::ToString"] = text
    eng.overrides[BP + "::QualifiedTarget"], eng.overrides[PAT + "::Match"] = qual, match
    eng.overrides["bant::query::ExtractStringList"] = strings
    item = lambda l, k: z3.Select(DEPS(l), k)
    need = lambda l, p, k: z3.And(OKL(item(l, k), p), REL(LBL(item(l, k), p), p) != item(l, k))
    l_, k_ = z3.Ints("l!n k!n")
    p_ = z3.Const("p!n", PKG)
    eng.axioms += [z3.ForAll([l_, p_], NEED(l_, p_, 0) == 0, patterns=[NEED(l_, p_, 0)])]
    kinds = prog.enums["bant::EditRequest"]
    st.g["$edits"] = I(0)            # edits emitted
    st.g["$seen"] = z3.K(Z, z3.BoolVal(False))
    x_ = z3.Const("x!seen", eng.so.sort(m.kty))
    tree = lambda s, k: eng.rd(s, HeapLV("bant::ParsedBuildFile", z3.Select(m.val, k)).sub("ast"))
    st.g["$here"] = I(0)             # of these, for the rule at hand

    def before(eng, s, r, ast):
        s.g["$here"], s.g["$name"], s.g["$deps"], s.g["$pkg"] = I(0), r.f["name"].s, r.f["deps_list"], of(ast)

    def mine(s):
        p, n = s.g["$pkg"], s.g["$name"]
        return z3.And(QOK(n, p), MT(QT(n, p)))

        s.assume(z3.Implies(mine(s), MP(s.g["$pkg"])))      # unit "pattern" below; the target is one of this package

    def start_tree(eng, s, ast, e):
        post(eng, s, z3.BoolVal(not wanted(eng, s, e)), "rules of every kind are asked for")
        post(eng, s, MP(of(ast)), "only packages that the pattern matches are looked at")
        s.g["$seen"] = z3.Store(s.g["$seen"], ast, z3.BoolVal(True))

    def after(eng, s, r, ast):
        l, p = s.g["$deps"], s.g["$pkg"]
        post(eng, s, s.g["$here"] == z3.If(mine(s), NEED(l, p, DEPN(l)), I(0)), "as many edits as the rule has labels that are not canonical, none for rules not asked for")
    find_targets(eng, before, after, start_tree)
    pat = eng.new_cell(st, OpaqueV(PAT), PAT, "pattern")

    def emit(eng, s, vs, e):
        kind, target, old, new = eng.val(vs[0], s), val(eng, s, vs[1], BT), lib.to_string(eng, s, vs[2]).s, lib.to_string(eng, s, vs[3]).s
        l, p, n = s.g["$deps"], s.g["$pkg"], s.g["$name"]
        k = z3.Int("k!e")
        post(eng, s, kind == kinds["kRename"], "a replacement is suggested")
        post(eng, s, z3.And(mine(s), target == QT(n, p)), "for the rule at hand, which the pattern matches")
        post(eng, s, z3.And(OKL(old, p), new == REL(LBL(old, p), p)), "the new text is the canonical text of what the old one means in its package")
        post(eng, s, old != new, "only where the text differs")
        post(eng, s, z3.Exists([k], z3.And(0 <= k, k < DEPN(l), old == item(l, k), NEED(l, p, k) == s.g["$here"]), patterns=[item(l, k)]), "the old text is the rule's next label that is not canonical")
        for g in ("$edits", "$here"):
            s.g[g] = simp(s.g[g] + 1)
        s.assume(s.g["$edits"] < 1 << 62)
        return [(VOID, s)]
    on_call_of(eng, fn, 3, emit)

    def T(eng, ctx):
        out = []
        for lv in ctx.ints():
            out.append(("edits counted", lambda s, lv=lv: eng.rd(s, lv) == s.g["$edits"]))
            if "$deps" in ctx.entry.g:
                def inv(s, lv=lv):
                    l, p, k = s.g["$deps"], s.g["$pkg"], eng.rd(s, lv)
                    s.assume(z3.Implies(z3.And(0 <= k, k < DEPN(l)), NEED(l, p, k + 1) == NEED(l, p, k) + z3.If(need(l, p, k), I(1), I(0))))
                    return z3.And(k >= 0, k <= DEPN(l), s.g["$here"] == NEED(l, p, k))
                out.append(("labels so far", inv))
        if ctx.hidden.get("vis"):
            vk = ctx.hidden["vis"]
            out.append(("packages looked at", lambda s: z3.ForAll([x_], z3.Implies(z3.And(z3.Select(s.g[vk], x_), z3.Select(m.dom, x_), MP(of(tree(s, x_)))), z3.Select(s.g["$seen"], tree(s, x_))), patterns=[z3.Select(s.g[vk], x_)])))
        out.append(("edits only grow", lambda s: s.g["$edits"] >= 0))
        return out
    eng.loop_templates.append(T)
    this = eng.new_cell(st, OpaqueV("bant::Session"), "bant::Session", "session")
    project = eng.new_cell(st, OpaqueV("bant::ParsedProject"), "bant::ParsedProject", "project")
    cb = eng.new_cell(st, OpaqueV(strip(fn["params"][3]["t"])), strip(fn["params"][3]["t"]), "callback")
    for r, s in run(eng, fn, None, [this, project, pat, cb], st):
        post(eng, s, eng.val(r, s) == s.g["$edits"], "the number of edits is returned")
        post(eng, s, z3.ForAll([x_], z3.Implies(z3.And(z3.Select(m.dom, x_), MP(of(tree(s, x_)))), z3.Select(s.g["$seen"], tree(s, x_))), patterns=[z3.Select(m.dom, x_)]), "every package that the pattern matches is looked at")
    return eng


def u_pattern(prog):
    """A pattern that matches a target matches its package: leaving out packages leaves out no target."""
    fn = fn_of(prog, PAT + "::Match", pt=[BT])
    eng = E.Engine(prog, "seq")
    re2_models(eng)
    st = start(eng, fn)
    cell = eng.new_cell(st, eng.fresh_st(st, PAT, "pattern"), PAT, "pattern")
    rx = z3.Int("regex")
    eng.wr(st, cell.sub("regex_pattern_"), rx)
    u = eng.new_cell(st, eng.fresh_st(st, BT, "target"), BT, "target")
    for x in ("path", "project"):
        st.assume(z3.Length(eng.rd(st, u.sub("package").sub(x)).s) < 1 << 60)
    k = eng.rd(st, cell.sub("kind_"))
    st.assume(z3.Implies(k == prog.enums[PAT + "::MatchKind"]["kTargetRegex"], rx > 0))
    for r, s in run(eng, fn, cell, [u], st):
        s2 = s.fork().assume(eng.val(r, s))
        if not eng.feasible(s2):
            continue
        for r2, s3 in run(eng, fn_of(prog, PAT + "::Match", pt=[BP]), cell, [u.sub("package")], s2):
            post(eng, s3, eng.val(r2, s3) == z3.BoolVal(True), "a pattern that matches a target matches its package")
    return eng


def units(tier):
    return [Unit("canonical edits", CT, u_edits), Unit("pattern", SRC, u_pattern)] + p_c08.units(tier) + p_c09.units(tier)     # the contracts used above


witness = W.searcher("c17.cc", ALL_SRC)
