"""C25: DisjointRangeMap returns exactly the value of the registered range that contains the sub-range."""
from speclib import *

TITLE = "Sub-range lookup returns exactly the value of the enclosing registered range"
SRC = ["bant/frontend/parsed-project.cc"]
CLS = "bant::DisjointRangeMap<std::string_view, const bant::SourceLocator *>"
ASSUME = ["registered ranges are non-empty and pairwise disjoint (the documented precondition of the container)",
          "verified for the instantiation the program uses (string_view -> const SourceLocator *)"]


def parts(eng, m):
    """Registered range with end e: (begin, value)."""
    P = eng.so.datatype(m.vty)
    return (lambda e: z3.Select(m.dom, e), lambda e: P.first(z3.Select(m.val, e)), lambda e: P.second(z3.Select(m.val, e)))


def inv(eng, m):
    d, b, v = parts(eng, m)
    x, y = z3.Ints("x!inv y!inv")
    return z3.And(z3.ForAll([x], z3.Implies(d(x), z3.And(b(x) < x, b(x) > 0, x < E.TWO64)), patterns=[d(x)]),
                  z3.ForAll([x, y], z3.Implies(z3.And(d(x), d(y), x < y), x <= b(y)), patterns=[z3.MultiPattern(d(x), d(y))]))


def setup(prog, name):
    eng = E.Engine(prog, "flat")
    fn = fn_of(prog, CLS + "::" + name)
    st = start(eng, fn)
    obj = eng.fresh_st(st, CLS, "this")
    this = eng.new_cell(st, obj, CLS, "this")
    f = field_of_type(prog, CLS, lambda t: split_targs(t)[0] in MAPS, "ordered map")
    st.assume(inv(eng, obj.f[f]))
    return eng, fn, st, this, f, obj.f[f]


def u_find(prog):
    eng, fn, st, this, f, m = setup(prog, "FindBySubrange")
    sub = eng.fresh_st(st, "std::string_view", "subrange")
    vs = args_for(eng, st, fn, {0: sub})
    d, b, v = parts(eng, m)
    x = z3.Int("x!q")
    w = z3.Int("w_end")
    for r, s in run(eng, fn, this, vs, st):
        r = eng.val(r, s)
        inside = lambda e: z3.And(d(e), b(e) <= sub.p, sub.p + sub.n <= e)
        post(eng, s, z3.Implies(z3.Not(r.has), z3.ForAll([x], z3.Not(inside(x)))), "nothing is returned only if no registered range contains the sub-range")
        post(eng, s, z3.Implies(r.has, z3.Exists([x], z3.And(inside(x), v(x) == r.val))), "a returned value belongs to a registered range containing the sub-range")
        # a non-empty sub-range has at most one enclosing range, so the value is the unique one
        s2 = s.fork().assume(inside(w), sub.n > 0)
        post(eng, s2, z3.And(r.has, r.val == v(w)), "the value of the enclosing range is returned")
        after = eng.rd(s, this.sub(f))
        post(eng, s, z3.And(after.dom == m.dom, after.val == m.val), "lookup leaves the registered ranges unchanged")
    return eng


def u_insert(prog):
    eng, fn, st, this, f, m = setup(prog, "Insert")
    key = eng.fresh_st(st, "std::string_view", "key")
    val = z3.Int("v!new")
    st.assume(val >= 0, val < E.TWO64)
    d, b, v = parts(eng, m)
    x = z3.Int("x!q")
    e = key.p + key.n
    # precondition: non-empty and disjoint from every registered range
    st.assume(key.n > 0, key.p > 0, z3.ForAll([x], z3.Implies(d(x), z3.Or(x <= key.p, e <= b(x))), patterns=[d(x)]))
    vs = args_for(eng, st, fn, {0: key, 1: val})
    for r, s in run(eng, fn, this, vs, st):
        r = eng.val(r, s)
        m2 = eng.rd(s, this.sub(f))
        d2, b2, v2 = parts(eng, m2)
        post(eng, s, inv(eng, m2), "ranges stay ordered and disjoint")
        post(eng, s, eng.bool(r), "insertion of a disjoint range succeeds")
        y = z3.Int("y!fix")
        post(eng, s, z3.And(d2(e), b2(e) == key.p, v2(e) == val), "the new range maps to its value")
        s3 = s.fork().assume(y != e)
        post(eng, s3, z3.And(d2(y) == d(y), z3.Implies(d(y), z3.And(b2(y) == b(y), v2(y) == v(y)))), "all other ranges are kept")
    return eng


def u_init(prog):
    """A default-constructed map is empty (and satisfies the invariant)."""
    eng = E.Engine(prog, "flat")
    st = E.St()
    st.fn = CLS
    obj = eng.default_record(CLS, st)
    f = field_of_type(prog, CLS, lambda t: split_targs(t)[0] in MAPS, "ordered map")
    post(eng, st, inv(eng, obj.f[f]), "a new map satisfies the invariant")
    x = z3.Int("x!q")
    post(eng, st, z3.Not(z3.Select(obj.f[f].dom, x)), "a new map has no ranges")
    return eng


def units(tier):
    return [Unit("FindBySubrange", SRC, u_find), Unit("Insert", SRC, u_insert), Unit("construct", SRC, u_init)]

witness = W.searcher("c25.cc", [])
