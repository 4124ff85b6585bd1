"""Shared vocabulary for labels, packages, patterns; model of RE2 at the level of the pattern text."""
from speclib import *

BP, BT, PAT = "bant::BazelPackage", "bant::BazelTarget", "bant::BazelPattern"
SRC = ["bant/types-bazel.cc"]
S = z3.StringVal
QM = z3.Function("RE2.QuoteMeta", z3.StringSort(), z3.StringSort())
FM = z3.Function("RE2.FullMatch", z3.StringSort(), z3.StringSort(), z3.BoolSort())     # (regex text, text)
OK = z3.Function("RE2.ok", z3.StringSort(), z3.BoolSort())
TXT = z3.Function("RE2.text", z3.IntSort(), z3.StringSort())


def re2_models(eng):
    """RE2 objects are known by their pattern text; quoting and matching are uninterpreted functions of texts."""
    def mk(eng, st, e, _):
        if "RE2" not in e["t"]:
            raise Unsupported("make_unique of " + e["t"])
        outs = []
        for vs, s in eng.evs(e["args"], st):
            p = z3.Int(E.uid("re2"))
            s.assume(p > 0, TXT(p) == lib.to_string(eng, s, vs[0]).s)
            outs.append((p, s))
        return outs

    def qm(eng, st, e, _):
        return [(StrV(QM(lib.to_string(eng, s, vs[0]).s)), s) for vs, s in eng.evs(e["args"], st)]

    def re_id(eng, s, x, e):
        v = eng.val(x, s)
        if isinstance(v, OpaqueV) and v.tag is not None:
            return v.tag
        raise Unsupported("RE2 object of unknown pattern")

    def fm(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            outs.append((FM(TXT(re_id(eng, s, vs[1], e)), lib.to_string(eng, s, vs[0]).s), s))
        return outs

    def okk(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            v = eng.val(o, s)
            if isinstance(v, OpaqueV):
                v = re_id(eng, s, o, e)
            outs.append((OK(TXT(v)), s))
        return outs
    def piece(eng, st, e, vs):
        return [(lib.to_string(eng, st, vs[0]), st)]
    eng.overrides["re2::RE2::error"] = lambda eng, st, e, _: [(eng.fresh_st(st, "std::string", "err"), st)]
    eng.overrides["ctor re2::StringPiece"] = piece
    eng.overrides["std::make_unique"] = mk
    eng.overrides["std::make_shared"] = mk
    eng.overrides["re2::RE2::QuoteMeta"] = qm
    eng.overrides["re2::RE2::FullMatch"] = fm
    eng.overrides["re2::RE2::ok"] = okk
    eng.assumed.add("re2: QuoteMeta/FullMatch/ok as functions of the texts")


def pkg_eq(a, b):
    return z3.And(a.f["project"].s == b.f["project"].s, a.f["path"].s == b.f["path"].s)


def subtree(project, path, p):
    """Package p lies in the tree below path of the project."""
    q = p.f["path"].s
    return z3.And(p.f["project"].s == project, z3.Or(path == S(""), q == path, z3.PrefixOf(z3.Concat(path, S("/")), q)))
