"""C23: parsing any token sequence terminates, is safe, and reports what it could not read."""
from parselib import *
import parselib
import p_c05
import p_c07

TITLE = "Parsing malformed BUILD text never crashes"
ASSUME = PASSUME + p_c05.ASSUME + getattr(p_c07, "ASSUME", [])


def u_append(prog):
    """List::Append never stores a missing element (what walks over lists relies on it)."""
    eng = E.Engine(prog, "flat")
    fn = fn_of(prog, "bant::List::Append")
    st = start(eng, fn)
    seen = []

    def app(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            eng.oblige(s, eng.val(vs[0], s) != 0, "a stored element exists")
            seen.append(1)
            outs.append((OpaqueV("element"), s))
        return outs
    for q in {f["q"] for fs in prog.by_q.values() for f in fs if f["q"].startswith("bant::ArenaDeque<") and f["q"].endswith("::Append")} | {"bant::ArenaDeque<bant::Node *>::Append", "bant::ArenaDeque::Append"}:
        eng.overrides[q] = app
    this = HeapLV("bant::List", z3.Int("list"))
    vs = args_for(eng, st, fn)
    for v in vs:
        st.assume(v >= 0)
    ends = run(eng, fn, this, vs, st)
    if not seen:
        raise Unsupported("List::Append stores nothing")
    post(eng, st, z3.BoolVal(bool(ends)), "appending returns")
    return eng


def units(tier):
    return [Unit(c, SRC, lambda prog, c=c: check(prog, c), timeout=300) for c in RANK] + [Unit("list elements", SRC, u_append)] + p_c05.units(tier) + p_c07.units(tier)


witness = W.searcher("c23.cc", ALL_SRC)
