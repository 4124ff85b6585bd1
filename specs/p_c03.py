"""C03: line/column positions and surrounding lines."""
from textlib import *

TITLE = "Reported line/column positions and surrounding lines are exact"
SRC = ["bant/frontend/named-content.cc"]
SRC2 = ["bant/frontend/linecolumn-map.cc"]
MAP = "bant::LineColumnMap"
NC = "bant::NamedLineIndexedContent"
LIM = (1 << 31) - 2
ASSUME = ["the content is shorter than 2^31-2 bytes (line and column are ints)",
          "the line index is complete, as the scanner (property C05) and InitializeFromStringView leave it"]


def setup(prog, q, cls):
    eng = E.Engine(prog, "flat")
    eng.opts["termination"] = True
    eng.loop_templates.append(scan_templates)
    fn = fn_of(prog, q)
    st = start(eng, fn)
    base, end = z3.Ints("base end")
    st.assume(base > 0, base <= end, end < E.TWO64 - 8, end - base <= LIM)
    st.g["$bufs"] = ((base, end),)
    st.assume(*nl_axioms(eng, base))
    st.assume(nl_const(eng, base))
    return eng, fn, st, base, end


def mapfield(prog):
    return field_of_type(prog, MAP, lambda t: split_targs(t)[0] == "std::vector", "vector of line starts")


def line_of(eng, base, pos, line, col):
    """line is the number of newlines before pos, col the distance from the start of pos' line."""
    return [("line = number of newlines before the position", line == NLF(base, pos)),
            ("column = distance from the start of the line", z3.And(col >= 0, col <= pos - base, z3.Or(pos - col == base, M(eng, pos - col - 1) == 10), nonl(eng, pos - col, pos)))]


def u_getpos(prog):
    eng, fn, st, base, end = setup(prog, MAP + "::GetPos", MAP)
    f = mapfield(prog)
    obj = eng.fresh_st(st, MAP, "map")
    st.assume(index_inv(eng, obj.f[f], base, end), index_count(eng, obj.f[f], base), obj.f[f].n - 1 <= end - base)
    this = eng.new_cell(st, obj, MAP, "map")
    pos = z3.Int("pos")
    st.assume(base <= pos, pos <= end)
    for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: pos}), st):
        r = eng.val(r, s)
        (ln, lg), (cn, cg) = line_of(eng, base, pos, r.f["line"], r.f["col"])
        post(eng, s, cg, cn)
        m = obj.f[f]
        sol = pos - r.f["col"]
        # proof hint: the start of the line found is entry [line] of the index; then the lemma applies
        s2 = s.fork().assume(cg)
        post(eng, s2, z3.And(r.f["line"] >= 0, r.f["line"] < m.n, z3.Select(m.a, r.f["line"]) == sol), "the line's index entry is its start")
        s2.assume(z3.And(r.f["line"] >= 0, r.f["line"] < m.n, z3.Select(m.a, r.f["line"]) == sol), z3.Implies(nonl(eng, sol, pos), NLF(base, pos) == NLF(base, sol)))
        post(eng, s2, lg, ln)
        post(eng, s, z3.BoolVal(eng.same(eng.rd(s, this), obj)), "the index is unchanged")
    return eng


def getpos_contract(eng, base, end):
    """GetPos, used by its contract."""
    def apply(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            p = eng.num(eng.val(vs[0], s))
            eng.oblige(s, z3.And(base <= p, p <= end), "positions asked for lie within the content")
            l, c = z3.Int(E.uid("line")), z3.Int(E.uid("col"))
            for nm, g in line_of(eng, base, p, l, c):
                s.assume(g)
            outs.append((StructV("bant::LineColumn", {"line": l, "col": c}), s))
        return outs
    eng.overrides[MAP + "::GetPos"] = apply


def u_getrange(prog):
    eng, fn, st, base, end = setup(prog, MAP + "::GetRange", MAP)
    getpos_contract(eng, base, end)
    this = eng.new_cell(st, eng.fresh_st(st, MAP, "map"), MAP, "map")
    text = eng.fresh_st(st, "std::string_view", "text")
    st.assume(base <= text.p, text.p + text.n <= end)
    for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: text}), st):
        r = eng.val(r, s)
        check_range(eng, s, base, text, r)
    return eng


def check_range(eng, s, base, text, r):
    for nm, g in line_of(eng, base, text.p, r.f["start"].f["line"], r.f["start"].f["col"]):
        post(eng, s, g, "start " + nm)
    for nm, g in line_of(eng, base, text.p + text.n, r.f["end"].f["line"], r.f["end"].f["col"]):
        post(eng, s, g, "end " + nm)


def content_obj(eng, st, prog, base, end):
    c = eng.fresh_st(st, NC, "content")
    f = field_of_type(prog, NC, lambda t: t == "std::string_view", "content view")
    st.assume(c.f[f].p == base, c.f[f].n == end - base)
    return c, f


def u_location(prog):
    eng, fn, st, base, end = setup(prog, NC + "::GetLocation", NC)
    getpos_contract(eng, base, end)
    c, f = content_obj(eng, st, prog, base, end)
    nf = field_of_type(prog, NC, lambda t: t == "std::string", "name")
    this = eng.new_cell(st, c, NC, "content")
    text = eng.fresh_st(st, "std::string_view", "text")
    st.assume(base <= text.p, text.p + text.n <= end)
    for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: text}), st):
        r = eng.val(r, s)
        check_range(eng, s, base, text, r.f["line_column_range"])
        fname = r.f["filename"]
        post(eng, s, z3.And(fname.p == c.f[nf].p, fname.n == c.f[nf].n), "the file name is the content's name")
    return eng


def u_line(prog):
    eng, fn, st, base, end = setup(prog, NC + "::GetSurroundingLine", NC)
    c, f = content_obj(eng, st, prog, base, end)
    this = eng.new_cell(st, c, NC, "content")
    text = eng.fresh_st(st, "std::string_view", "text")
    st.assume(base <= text.p, text.p + text.n <= end)
    for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: text}), st):
        r = eng.val(r, s)
        a, b = r.p, r.p + r.n
        te = text.p + text.n
        post(eng, s, z3.And(base <= a, a <= text.p, te <= b, b <= end), "the line lies in the content and covers the text")
        post(eng, s, z3.Or(a == base, M(eng, a - 1) == 10), "the line starts at a line start")
        post(eng, s, z3.Or(b == end, M(eng, b) == 10), "the line ends at a newline or the end of the content")
        post(eng, s, nonl(eng, a, text.p), "no newline before the text in the line")
        post(eng, s, nonl(eng, te, b), "no newline after the text in the line")
    return eng


def u_init(prog):
    eng, fn, st, base, end = setup(prog, MAP + "::InitializeFromStringView", MAP)
    f = mapfield(prog)
    obj = eng.fresh_st(st, MAP, "map")
    st.assume(obj.f[f].n == 0)
    this = eng.new_cell(st, obj, MAP, "map")
    text = FlatSV(base, end - base)

    def tmpl(eng, ctx):
        out = []
        for lv in ctx.ints():
            out.append(("index exact up to location", lambda s, lv=lv: index_inv(eng, eng.rd(s, this.sub(f)), base, base + eng.rd(s, lv))))
            out.append(("index exact up to location (pointer)", lambda s, lv=lv: index_inv(eng, eng.rd(s, this.sub(f)), base, eng.rd(s, lv))))
        return out
    eng.loop_templates.append(tmpl)
    eng.overrides[MAP + "::PushNewline"] = push_contract(eng, prog, base, end)
    for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: text}), st):
        m = eng.rd(s, this.sub(f))
        post(eng, s, index_inv(eng, m, base, end), "the index holds exactly the line starts of the text")
    return eng


def push_contract(eng, prog, base, end):
    """PushNewline by its contract (proved in unit PushNewline): appends the position; requires order."""
    f = mapfield(prog)

    def apply(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            lv = eng.obj_lv(o, e, s)
            for vs, s2 in eng.evs(e["args"], s):
                p = eng.num(eng.val(vs[0], s2))
                m = eng.rd(s2, lv.sub(f))
                eng.oblige(s2, z3.Or(m.n == 0, z3.Select(m.a, m.n - 1) <= p), "line starts are pushed in order")
                s2 = eng.wr(s2, lv.sub(f), VecV(m.n + 1, z3.Store(m.a, m.n, p), m.ety)) or s2
                outs.append((VOID, s2))
        return outs
    return apply


def u_push(prog):
    eng, fn, st, base, end = setup(prog, MAP + "::PushNewline", MAP)
    f = mapfield(prog)
    obj = eng.fresh_st(st, MAP, "map")
    m = obj.f[f]
    this = eng.new_cell(st, obj, MAP, "map")
    p = z3.Int("newline_pos")
    st.assume(p > 0, p < E.TWO64, z3.Or(m.n == 0, z3.Select(m.a, m.n - 1) <= p))
    for r, s in run(eng, fn, this, args_for(eng, st, fn, {0: p}), st):
        m2 = eng.rd(s, this.sub(f))
        i = z3.Int("i!q")
        post(eng, s, z3.And(m2.n == m.n + 1, z3.Select(m2.a, m.n) == p, z3.Implies(z3.And(i >= 0, i < m.n), z3.Select(m2.a, i) == z3.Select(m.a, i))), "the position is appended")
    return eng


def units(tier):
    return [Unit("GetPos", SRC2, u_getpos), Unit("GetRange", SRC2, u_getrange), Unit("InitializeFromStringView", SRC2, u_init), Unit("PushNewline", SRC2, u_push),
            Unit("GetLocation", SRC + SRC2, u_location), Unit("GetSurroundingLine", SRC, u_line), Unit("lemma", SRC2, lemma_unit)]


witness = W.searcher("c03.cc", ["bant/frontend/named-content.cc", "bant/frontend/linecolumn-map.cc", "bant/frontend/source-locator.cc"])
