"""C27: edit commands. The callback is built and called as the tools do; what it writes is compared as text."""
from speclib import *

TITLE = "Edit commands name exactly the requested change"
SRC = ["bant/tool/edit-callback.cc"]
S = z3.StringVal
BT = "bant::BazelTarget"
LABEL = z3.Function("label of target", z3.IntSort(), z3.StringSort())
ASSUME = ["printing a target gives its label (C08)", "operator<< appends the text to the stream"]


def begin(prog):
    fn = fn_of(prog, "bant::CreateBuildozerDepsEditCallback")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    st = start(eng, fn)
    out0 = eng.fresh_st(st, "std::string", "written before")
    out = eng.new_cell(st, StructV("std::ostream", {"text": out0}), "std::ostream", "out")
    lab = z3.String("label")

    def tostr(eng, st, e, _):
        return [(StrV(lab), s) for o, s in eng.ev(e["obj"], st)]
    eng.overrides[BT + "::ToString"] = tostr
    st.assume(z3.Length(out0.s) < 1 << 40, z3.Length(lab) < 1 << 40)
    return fn, eng, st, out, lab


def u_call(prog):
    fn, eng, st, out, lab = begin(prog)
    target = eng.new_cell(st, eng.fresh_st(st, BT, "target"), BT, "target")
    before, after = eng.fresh_st(st, "std::string_view", "before"), eng.fresh_st(st, "std::string_view", "after")
    st.assume(z3.Length(before.s) < 1 << 40, z3.Length(after.s) < 1 << 40)
    kinds = prog.enums["bant::EditRequest"]
    want = {"kRemove": [S("buildozer 'remove deps "), before.s, S("' "), lab, S("\n")],
            "kAdd": [S("buildozer 'add deps "), after.s, S("' "), lab, S("\n")],
            "kRename": [S("buildozer 'replace deps "), before.s, S(" "), after.s, S("' "), lab, S("\n")]}
    if set(kinds) != set(want):
        raise Unsupported("kinds of edits")
    for cb, s0 in run(eng, fn, None, [out], st):
        cb = eng.val(cb, s0)
        for k, line in want.items():
            # any history: the text written before is arbitrary
            s = s0.fork()
            t0 = eng.rd(s, out).f["text"].s
            node = {"ln": fn["line"], "args": []}
            for r, s2 in eng.call_value(cb, [I(kinds[k]), target, before, after], s, node):
                t = eng.rd(s2, out).f["text"].s
                post(eng, s2, t == z3.Concat(t0, *line), "%s: one line naming the edit, the target and the values is appended" % k)
    return eng


def units(tier):
    return [Unit("edit command", SRC, u_call)]


witness = W.searcher("c27.cc", ALL_SRC)
