"""C04: rendering of locations."""
from speclib import *

TITLE = "Locations print as file:line:column, one-based, with the last character as end"
SRC = ["bant/frontend/source-locator.cc"]
INTMAX = (1 << 31) - 1
S = z3.StringVal
dec = lib.DEC
ASSUME = ["line and column are non-negative and below 2^31-1", "iostream prints an int in decimal with default stream formatting (trusted)",
          "columns printed for an end position use the exclusive end column as one-based column of the last character"]


def setup(prog, fn):
    eng = E.Engine(prog, "seq")
    eng.opts["streams"] = True
    st = start(eng, fn)
    out = eng.fresh_st(st, "std::ostream", "out")
    cell = eng.new_cell(st, out, "std::ostream", "out")
    return eng, st, cell, out.f["text"].s


def lc_ok(st, v):
    for f in ("line", "col"):
        st.assume(v.f[f] >= 0, v.f[f] < INTMAX)


def lc_text(line, col):
    return z3.Concat(dec(line + 1), S(":"), dec(col + 1))


def range_text(r):
    s, e = r.f["start"], r.f["end"]
    same = s.f["line"] == e.f["line"]
    last = z3.If(same, z3.If(e.f["col"] - 1 > s.f["col"], z3.Concat(S("-"), dec(e.f["col"])), S("")),
                 z3.Concat(S(":"), dec(e.f["line"] + 1), S(":"), dec(e.f["col"])))
    return z3.Concat(lc_text(s.f["line"], s.f["col"]), last, S(":"))


def u_op(which, t):
    def f(prog):
        fn = fn_of(prog, "bant::operator<<", pt=["ostream", "=bant::" + t])
        eng, st, cell, before = setup(prog, fn)
        v = eng.fresh_st(st, "bant::" + t, "v")
        if which == "pos":
            lc_ok(st, v)
            want = lc_text(v.f["line"], v.f["col"])
        elif which == "range":
            lc_ok(st, v.f["start"])
            lc_ok(st, v.f["end"])
            want = range_text(v)
        else:
            lc_ok(st, v.f["line_column_range"].f["start"])
            lc_ok(st, v.f["line_column_range"].f["end"])
            want = z3.Concat(v.f["filename"].s, S(":"), range_text(v.f["line_column_range"]))
        vs = args_for(eng, st, fn, {0: cell, 1: v})
        for r, s in run(eng, fn, None, vs, st):
            post(eng, s, eng.rd(s, cell).f["text"].s == z3.Concat(before, want), "exactly the rendering of the %s is appended" % which)
            post(eng, s, z3.BoolVal(isinstance(r, Cell) and r.key() == cell.key()), "the stream is returned")
        return eng
    return f


def u_loc(prog):
    engs = []
    for np, pt in ((2, ["ostream", "string_view"]), (1, ["string_view"])):
        fn = fn_of(prog, "bant::SourceLocator::Loc", np=np)
        eng, st, cell, before = setup(prog, fn)
        loc = eng.fresh_st(st, "bant::FileLocation", "loc")
        lc_ok(st, loc.f["line_column_range"].f["start"])
        lc_ok(st, loc.f["line_column_range"].f["end"])
        text = eng.fresh_st(st, "std::string_view", "text")

        def getloc(eng, st, e, _, loc=loc, text=text):
            outs = []
            for vs, s in eng.evs(e["args"], st):
                eng.oblige(s, eng.val(vs[0], s).s == text.s, "the location of the given text is asked for", "post")
                outs.append((loc, s))
            return outs
        eng.overrides["bant::SourceLocator::GetLocation"] = getloc
        want = z3.Concat(loc.f["filename"].s, S(":"), range_text(loc.f["line_column_range"]))
        this = eng.new_cell(st, StructV("bant::SourceLocator", {}), "bant::SourceLocator", "this")
        vs = [cell, text] if np == 2 else [text]
        for r, s in run(eng, fn, this, vs, st):
            if np == 2:
                post(eng, s, eng.rd(s, cell).f["text"].s == z3.Concat(before, want), "Loc(stream) appends the rendering of the location")
            else:
                post(eng, s, eng.val(r, s).s == want, "Loc() returns the rendering of the location")
        engs.append(eng)
    return engs


def u_fixed(prog):
    """FixedSourceLocator: always its fixed location; the surrounding line is the text itself."""
    C = "bant::FixedSourceLocator"
    engs = []
    for nm in ("GetLocation", "GetSurroundingLine"):
        fn = fn_of(prog, C + "::" + nm)
        eng = E.Engine(prog, "seq")
        st = start(eng, fn)
        obj = eng.fresh_st(st, C, "this")
        this = eng.new_cell(st, obj, C, "this")
        text = eng.fresh_st(st, "std::string_view", "text")
        for r, s in run(eng, fn, this, [text], st):
            r = eng.val(r, s)
            if nm == "GetLocation":
                lf = field_of_type(prog, C, lambda t: t == "bant::FileLocation", "location")
                post(eng, s, eng.equal(r, obj.f[lf], "bant::FileLocation"), "the fixed location is returned")
            else:
                post(eng, s, r.s == text.s, "the text itself is the surrounding line")
        engs.append(eng)
    return engs


def units(tier):
    return [Unit("print position", SRC, u_op("pos", "LineColumn")), Unit("print range", SRC, u_op("range", "LineColumnRange")),
            Unit("print file location", SRC, u_op("file location", "FileLocation")), Unit("Loc", SRC, u_loc), Unit("FixedSourceLocator", SRC, u_fixed)]


witness = W.searcher("c04.cc", ["bant/frontend/source-locator.cc"])
