"""Trusted models (assumed contracts) of the library functions the code calls: std::, absl::, RE2.
Every model used in a run is recorded in eng.assumed and listed in the evidence."""
import z3
from values import *
import engine as _e
import ropes


def I(x):
    return z3.IntVal(x)


def simp(e):
    return z3.simplify(e)


CALLS = {}
METHODS = {}


def install(eng):
    pass


def base_name(q):
    """Drop template arguments: std::vector<int>::push_back -> std::vector::push_back"""
    out, d = "", 0
    i = 0
    n = len(q)
    while i < n:
        ch = q[i]
        if q.startswith("operator", i) and d == 0:
            out += q[i:]
            break
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    return out


def call_model(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


def method(kind, *names):
    def deco(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f
    return deco


def kind_of(v):
    if isinstance(v, (StrV, FlatSV, _e.LitV)):
        return "str"
    if isinstance(v, VecV):
        return "vec"
    if isinstance(v, SetV):
        return "set"
    if isinstance(v, MapV):
        return "map"
    if isinstance(v, OptV):
        return "opt"
    if isinstance(v, IterV):
        return "iter"
    if isinstance(v, (TupV,)):
        return "tup"
    if isinstance(v, ArrV):
        return "arr"
    if isinstance(v, OpaqueV):
        return "opaque"
    if isinstance(v, z3.ExprRef):
        return "int"
    if isinstance(v, PtrV):
        return "ptr"
    if isinstance(v, (LamV, FnV)):
        return "fn"
    if isinstance(v, StructV):
        return "pair" if split_targs(v.cls)[0] == "std::pair" else "struct"
    return type(v).__name__


# ------------------------------------------------------------------ helpers
def as_str(eng, st, v):
    """Coerce a string-like value."""
    v = eng.val(v, st)
    if isinstance(v, _e.LitV) and eng.mode == "seq":
        return eng.str_lit(v.b, st)
    if isinstance(v, PtrV) and eng.mode == "seq" and isinstance(v.lv, Cell) and v.lv.path and isinstance(v.lv.path[-1], tuple):
        arr = eng.rd(st, Cell(v.lv.cid, v.lv.path[:-1]))
        off = v.lv.path[-1][1]
        if isinstance(arr, ArrV) and strip(arr.ety) == "char" and z3.is_int_value(simp(off)) and simp(off).as_long() == 0:
            # C string held by a character array: its text up to the terminating NUL, as a function of the array
            f = z3.Function("CSTR!%s" % arr.a.sort().sexpr().replace(" ", "_"), arr.a.sort(), z3.StringSort())
            s = f(arr.a)
            st.assume(z3.Length(s) < (arr.size if isinstance(arr.size, int) else 1 << 31))
            return StrV(s)
    return v


def slen(eng, v):
    if isinstance(v, StrV):
        return simp(z3.Length(v.s))
    if isinstance(v, _e.LitV):
        return I(len(v.b))
    return v.n


def chr_s(eng, v):
    """one-character SMT string of a char value"""
    if isinstance(v, CharV):
        return v.s
    v = simp(v)
    if z3.is_int_value(v):
        return z3.StringVal("\\u{%x}" % (v.as_long() % 256)) if not 32 <= v.as_long() < 127 or v.as_long() == 92 else z3.StringVal(chr(v.as_long()))
    return z3.StrFromCode(z3.If(v < 0, v + 256, v))


def charset(eng, v):
    """bytes of a literal charset argument"""
    if isinstance(v, _e.LitV):
        return v.b
    if isinstance(v, StrV):
        s = simp(v.s)
        if z3.is_string_value(s):
            return s.as_string().encode("latin1", "replace")
    return None


def re_not(chars):
    """Regex: any run of characters not in `chars`."""
    if not chars:
        return z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    u = re_set(chars)
    return z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(u)))


def re_set(chars):
    rs = [z3.Re(chr_s(None, I(c))) for c in chars]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def flat_eq(eng, a, b):
    if isinstance(a, _e.LitV):
        a, b = b, a
    if isinstance(b, _e.LitV):
        if isinstance(a, _e.LitV):
            return z3.BoolVal(a.b == b.b)
        return z3.And(a.n == len(b.b), *[z3.Select(eng.mem, a.p + i) == (c - 256 if c >= 128 else c) for i, c in enumerate(b.b)])
    i = z3.Int("i!eq")
    return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.Select(eng.mem, a.p + i) == z3.Select(eng.mem, b.p + i))))


def from_tup(eng, st, v, t):
    """Braced list -> container of type t."""
    h, a = split_targs(t)
    if h in VEC:
        r = eng.default_value(t)
        arr = r.a
        for i, x in enumerate(v.items):
            arr = z3.Store(arr, i, eng.so.reify(convert(eng, st, x, a[0]), a[0]))
        return VecV(I(len(v.items)), arr, a[0])
    if h in SETS:
        r = eng.default_value(t)
        for x in v.items:
            r = set_insert(eng, st, r, eng.so.reify(x, a[0]))
        return r
    return v


def convert(eng, st, v, t):
    v = eng.val(v, st)
    s = strip(t)
    if s in ("std::string", "std::string_view"):
        return to_string(eng, st, v)
    if s in eng.prog.records and isinstance(v, TupV):
        return eng.make_init(s, v.items, st)
    return v


def to_string(eng, st, v):
    v = as_str(eng, st, v)
    if isinstance(v, _e.LitV):
        return flat_lit(eng, st, v)
    if isinstance(v, CharV):
        return StrV(v.s)
    return v


def flat_lit(eng, st, v):
    """A literal as a view: a fixed address in memory holding these bytes."""
    key = "lit_" + v.b.hex()[:60]
    p = z3.Int(key)
    st.assume(p > 0, p + len(v.b) < (1 << 63))
    for i, c in enumerate(v.b):
        st.assume(z3.Select(eng.mem, p + i) == (c - 256 if c >= 128 else c))
    return FlatSV(p, I(len(v.b)))


# ------------------------------------------------------------------ dispatch
def arg_vals(eng, st, e, start=0):
    return eng.evs([a for a in e["args"][start:]], st)


def call(eng, st, e):
    q = base_name(e["q"])
    m = CALLS.get(q)
    if m is None:
        raise Unsupported("call of %s (line %s)" % (q, e.get("ln")))
    outs = []
    eng.assumed.add(q)
    for vs, s in eng.evs(e["args"], st):
        outs += m(eng, s, e, vs)
    return outs


def call_by_key(eng, st, key, vs):
    for nm in ("isdigit", "isxdigit", "isalpha", "isspace"):
        if key == nm or key.endswith(nm):
            return CALLS[nm](eng, st, {"q": nm, "args": []}, vs)
    raise Unsupported("call through pointer to " + key)


def mcall(eng, st, e):
    name = base_name(e["q"]).split("::")[-1]
    outs = []
    for ob, s in eng.ev(e["obj"], st):
        if e.get("arrow"):
            p = eng.val(ob, s)
            lv = ptr_target(eng, s, p, e["obj"]["t"])
        else:
            lv = ob
        for vs, s2 in eng.evs(e["args"], s):
            outs += mdispatch(eng, s2, e, lv, name, vs)
    return outs


def ptr_target(eng, st, p, t):
    if isinstance(p, PtrV):
        return p.lv
    if isinstance(p, OpaqueV):
        return ValLV(OpaqueV(pointee(t)))
    if eng.is_opaque(pointee(t)) or pointee(t) not in eng.prog.records:
        if isinstance(p, z3.ExprRef):
            eng.oblige(st, p != 0, "non-null pointer dereference")
        return ValLV(OpaqueV(pointee(t), p))
    return eng.deref(p, st, pointee(t))


def mdispatch(eng, st, e, lv, name, vs):
    v = eng.val(lv, st)
    k = kind_of(v)
    m = METHODS.get((k, name))
    if m is None and name.startswith("operator ") and k in ("str", "opaque", "int", "opt"):
        m = METHODS.get((k, "operator conv"))
    if m is None:
        raise Unsupported("method %s on %s (line %s)" % (base_name(e["q"]), k, e.get("ln")))
    eng.assumed.add(base_name(e["q"]))
    if isinstance(v, StrV) and eng.opts.get("rope"):
        v = StrV(ropes.norm(st, v.s))
    return m(eng, st, e, lv, v, vs)


def opcall(eng, st, e):
    op = e["op"]
    q = base_name(e["q"])
    outs = []
    for vs, s in eng.evs(e["args"], st):
        outs += opdispatch(eng, s, e, op, vs, q)
    return outs


def opdispatch(eng, st, e, op, vs, q):
    eng.assumed.add(q)
    v0 = eng.val(vs[0], st)
    k = kind_of(v0)
    a = vs[1:]
    if op == "<<" and k in ("opaque", "stream", "struct"):
        m = METHODS.get(("stream", "<<"))
        return m(eng, st, e, vs[0], v0, a)
    if op == "+" and q == "std::operator+" and (k == "str" or kind_of(eng.val(a[0], st)) == "str"):
        return _strplus(eng, st, e, vs)
    if op == "=" and len(vs) == 2:
        return op_assign(eng, st, e, vs[0], v0, a[0])
    if op in ("==", "!=") and len(vs) == 2:
        x = op_equal(eng, st, e, vs[0], v0, eng.val(a[0], st))
        return [(x if op == "==" else simp(z3.Not(x)), st)]
    if op in ("<", ">", "<=", ">=") and len(vs) == 2:
        w = eng.val(a[0], st)
        if kind_of(v0) == "iter":
            return [(METHODS[("iter", op)](eng, st, e, vs[0], v0, [w])[0][0], st)]
        t = strip(e["args"][0]["t"])
        l = lambda x, y: less(eng, st, x, y, t)
        return [(simp({"<": lambda: l(v0, w), ">": lambda: l(w, v0), "<=": lambda: z3.Not(l(w, v0)), ">=": lambda: z3.Not(l(v0, w))}[op]()), st)]
    if k == "opaque" and op in ("*", "->", "()", "[]", "+", "-", "|", "&&", "+=", "-=", "++"):
        return [(ValLV(OpaqueV(strip(e["t"]), v0.tag if op == "*" and len(vs) == 1 else None)), st)]
    m = METHODS.get((k, op))
    if m is None:
        raise Unsupported("operator %s (%s) on %s (line %s)" % (op, q, k, e.get("ln")))
    return m(eng, st, e, vs[0], v0, a)


def op_assign(eng, st, e, lv, v0, w):
    t = strip(e["args"][0]["t"])
    h, a = split_targs(t)
    wlv = w
    w = eng.val(w, st)
    if isinstance(v0, OpaqueV) and not isinstance(w, (StrV, FlatSV)):
        return [(lv, st)]
    if h == "std::optional":
        if isinstance(w, OpaqueV) and w.ty == "std::nullopt_t":
            nv = eng.default_value(t)
        elif isinstance(w, OptV):
            nv = w
        else:
            nv = OptV(z3.BoolVal(True), convert(eng, st, w, a[0]), a[0])
        eng.wr(st, lv, nv)
        return [(lv, st)]
    if t in ("std::string", "std::string_view"):
        eng.wr(st, lv, to_string(eng, st, w))
        return [(lv, st)]
    if isinstance(w, TupV):
        w = from_tup(eng, st, w, t)
    # a moved-from source is unspecified
    eng.wr(st, lv, w)
    if e["args"][1].get("v") == "x" and isinstance(wlv, LV) and not isinstance(wlv, ValLV):
        eng.moved_from(st, wlv, t)
    return [(lv, st)]


def op_equal(eng, st, e, lv, v, w):
    if isinstance(v, StructV) and isinstance(w, StructV):
        return eng.equal(v, w, strip(e["args"][0]["t"]))
    if isinstance(v, (StrV, FlatSV, _e.LitV)) or isinstance(w, (StrV, FlatSV, _e.LitV)):
        v, w = as_str(eng, st, v), as_str(eng, st, w)
        if isinstance(v, StrV) and isinstance(w, StrV):
            return simp(v.s == w.s)
        return flat_eq(eng, v, w)
    if isinstance(v, IterV):
        return iter_eq(eng, st, v, w)
    if isinstance(v, OptV):
        if isinstance(w, OpaqueV) and w.ty == "std::nullopt_t":
            return simp(z3.Not(v.has))
        if not isinstance(w, OptV):
            return simp(z3.And(v.has, eng.equal(v.val, w, v.ty)))
    if isinstance(v, OpaqueV) or isinstance(w, OpaqueV):
        return z3.Bool(_e.uid("opq"))
    if isinstance(v, (PtrV, FnV, LamV)) or isinstance(w, (PtrV, FnV, LamV)):
        return eng.ptr_eq(v, w)
    return simp(eng.equal(v, w, strip(e["args"][0]["t"])))


def less(eng, st, a, b, t):
    """operator< of the type as a formula."""
    t = strip(t)
    if isinstance(a, z3.ExprRef) and z3.is_string(a):
        return a < b
    if isinstance(a, z3.ExprRef) and z3.is_int(a):
        return a < b
    if isinstance(a, StrV):
        return a.s < as_str(eng, st, b).s
    if isinstance(a, StructV):
        fs = [(n, ft) for n, ft in (eng.so.fields(t) if t in eng.prog.records else [("first", split_targs(t)[1][0]), ("second", split_targs(t)[1][1])])]
        r = z3.BoolVal(False)
        for n, ft in reversed(fs):
            l = less(eng, st, a.f[n], b.f[n], ft)
            r = z3.Or(l, z3.And(eng.equal(a.f[n], b.f[n], ft), r))
        return r
    raise Unsupported("operator< of " + t)


def key_less(eng, t):
    """Strict order on reified keys, as a python function of two z3 terms."""
    t = strip(t)
    if t in ("std::string", "std::string_view") and eng.mode == "seq":
        if not eng.opts.get("text_order"):
            return lambda x, y: x < y
        # the order of texts, by what is needed of it: a strict total order whose least element is the empty text
        f = z3.Function("text.less", z3.StringSort(), z3.StringSort(), z3.BoolSort())
        if ("lt", t) not in eng.opts.setdefault("_lts", set()):
            eng.opts["_lts"].add(("lt", t))
            x, y, w = z3.Consts("x!lt y!lt w!lt", z3.StringSort())
            eng.axioms += [z3.ForAll([x], z3.Not(f(x, x))), z3.ForAll([x], z3.Not(f(x, z3.StringVal(""))), patterns=[f(x, z3.StringVal(""))]),
                           z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y), patterns=[f(x, y)]),
                           z3.ForAll([x, y, w], z3.Implies(z3.And(f(x, y), f(y, w)), f(x, w)), patterns=[z3.MultiPattern(f(x, y), f(y, w))])]
        return f
    if t in INTS or t.endswith("*"):
        return lambda x, y: x < y
    hook = eng.opts.get("key_less", {}).get(t)
    if hook:
        return hook
    so = eng.so.sort(t)
    if eng.opts.get("record_order") and t in eng.prog.records:
        # memberwise comparison (a defaulted operator<=>), fields in declaration order
        cmp = eng.prog.by_q.get(t + "::operator<=>", [])
        if not cmp or not all(c["implicit"] for c in cmp) or eng.prog.records[t]["bases"] or eng.prog.by_q.get(t + "::operator<"):
            raise Unsupported("order of " + t)
        fs = [(getattr(eng.so.datatype(t), "f_" + n), key_less(eng, ft)) for n, ft in eng.so.fields(t)]

        def less(x, y):
            r = z3.BoolVal(False)
            for g, l in reversed(fs):
                r = z3.Or(l(g(x), g(y)), z3.And(g(x) == g(y), r))
            return r
        return less
    f = z3.Function("lt_%s" % so.name(), so, so, z3.BoolSort())
    if ("lt", t) not in eng.opts.setdefault("_lts", set()):
        eng.opts["_lts"].add(("lt", t))
        x, y, w = z3.Consts("x!lt y!lt w!lt", so)
        eng.axioms += [z3.ForAll([x], z3.Not(f(x, x))),
                       z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y)),
                       z3.ForAll([x, y, w], z3.Implies(z3.And(f(x, y), f(y, w)), f(x, w)))]
    return f


# ------------------------------------------------------------------ construction
def construct(eng, st, t, e, vs):
    h, a = split_targs(t)
    vals = [eng.val(v, st) for v in vs]
    if t in ("std::string_view", "std::string"):
        return [(make_string(eng, st, e, vals), st)]
    if eng.is_stream(t):
        return [(eng.default_value(t), st)]
    if t.startswith("absl::Cleanup") and len(vals) == 1 and isinstance(vals[0], LamV):
        return [(vals[0], st)]
    if h == "std::function" and len(vals) == 1 and isinstance(vals[0], (LamV, FnV)):
        return [(vals[0], st)]
    if eng.is_opaque(t):
        return [(OpaqueV(t), st)]
    if h in VEC:
        if not vals or (len(vals) == 1 and isinstance(vals[0], OpaqueV)):
            return [(eng.default_value(t), st)]
        v = vals[0]
        if isinstance(v, TupV):
            return [(from_tup(eng, st, v, t), st)]
        if isinstance(v, VecV):
            return [(v, st)]
        if isinstance(v, z3.ExprRef):   # vector(n) / vector(n, value)
            r = eng.default_value(t)
            el = vals[1] if len(vals) > 1 and not isinstance(vals[1], OpaqueV) else eng.zero(a[0])
            arr = z3.K(z3.IntSort(), eng.so.reify(convert(eng, st, el, a[0]), a[0]))
            return [(VecV(v, arr, a[0]), st)]
        if isinstance(v, IterV) and len(vals) >= 2 and v.kind == "vec":
            src = eng.rd(st, v.cont)
            n = simp(vals[1].pos - v.pos)
            i = z3.Int("i!cp")
            return [(VecV(n, z3.Lambda([i], z3.Select(src.a, i + v.pos)), a[0]), st)]
    if h in SETS or h in MAPS:
        if not vals:
            return [(eng.default_value(t), st)]
        if isinstance(vals[0], (SetV, MapV)):
            return [(vals[0], st)]
        if isinstance(vals[0], TupV) and h in SETS:
            return [(from_tup(eng, st, vals[0], t), st)]
        if isinstance(vals[0], TupV) and h in MAPS:
            m, keys, known = eng.default_value(t), [], eng.mode == "seq" and "unordered" not in h and "hash" not in h and "greater" not in t
            for it in vals[0].items:
                k, x = it.items if isinstance(it, TupV) else (it.f["first"], it.f["second"])
                k = key_of(eng, st, k, m.kty)
                m = map_put(eng, st, m, k, eng.so.reify(convert(eng, st, x, m.vty), m.vty), False)
                known = known and z3.is_string_value(k) and all(32 <= ord(c) < 127 for c in k.as_string())
                keys.append(k)
            if known:
                m.known = [z3.StringVal(x) for x in sorted({k.as_string() for k in keys})]
                m.n = I(len(m.known))
            return [(m, st)]
    if h == "std::optional":
        if not vals:
            return [(eng.default_value(t), st)]
        v = vals[0]
        if isinstance(v, OpaqueV) and v.ty in ("std::nullopt_t",):
            return [(eng.default_value(t), st)]
        if isinstance(v, OptV):
            return [(v, st)]
        return [(OptV(z3.BoolVal(True), convert(eng, st, v, a[0]), a[0]), st)]
    if h == "std::pair":
        if len(vals) == 2:
            return [(StructV(t, {"first": convert(eng, st, vals[0], a[0]), "second": convert(eng, st, vals[1], a[1])}), st)]
        if not vals:
            return [(eng.default_value(t), st)]
        if isinstance(vals[0], StructV):
            v = vals[0]
            return [(StructV(t, dict(v.f)), st)]
    if h in ("std::unique_ptr", "std::shared_ptr"):
        if not vals:
            return [(I(0), st)]
        v = vals[0]
        if isinstance(v, z3.ExprRef) or isinstance(v, (PtrV, OpaqueV)):
            if e.get("move") or "unique_ptr<" in e["args"][0].get("t", "") or "shared_ptr<" in e["args"][0].get("t", ""):
                if isinstance(vs[0], LV):
                    eng.moved_from(st, vs[0], strip(e["args"][0]["t"]))
            return [(v, st)]
    if h == "absl::AlphaNum":
        return [(to_alpha(eng, st, vals[0]), st)]
    if h == "__gnu_cxx::__normal_iterator" or "_iterator" in h:
        if vals and isinstance(vals[0], IterV):
            return [(vals[0], st)]
    if "less" in h or h.startswith("std::allocator"):
        return [(OpaqueV(t), st)]
    if h == "std::nullopt_t":
        return [(OpaqueV(t), st)]
    if h == "verif_shim::CheckFail":
        return [(OpaqueV(t), st)]
    raise Unsupported("construction of %s (line %s)" % (t, e.get("ln")))


def make_string(eng, st, e, vals):
    vals = [v for v in vals if not (isinstance(v, OpaqueV) and "alloc" in v.ty)]
    if not vals:
        return eng.default_value("std::string")
    v = vals[0]
    if isinstance(v, _e.LitV):
        return flat_lit(eng, st, v)
    if isinstance(v, PtrV):
        v = as_str(eng, st, v)
    if isinstance(v, OpaqueV):
        return eng.fresh_st(st, "std::string", "str")
    if isinstance(v, (StrV, FlatSV)):
        if len(vals) == 2 and isinstance(vals[1], z3.ExprRef) and isinstance(v, StrV):
            # (const char*, len)
            return StrV(z3.SubString(v.s, 0, vals[1]), v.org)
        return v
    if isinstance(v, CharV):
        return StrV(v.s)
    if isinstance(v, IterV) and v.kind in ("str", "rstr") and len(vals) == 2 and isinstance(vals[1], IterV) and vals[1].kind == v.kind:
        w = vals[1]
        x = eng.rd(st, v.cont).s
        if eng.rd(st, w.cont).s is not x and not z3.eq(eng.rd(st, w.cont).s, x):
            raise Unsupported("string from iterators of different texts")
        n = z3.Length(x)
        eng.oblige(st, z3.And(0 <= v.pos, v.pos <= w.pos, w.pos <= n), "iterators are a range of the text")
        if v.kind == "str":
            return StrV(simp(z3.SubString(x, v.pos, w.pos - v.pos)))
        whole = z3.is_int_value(simp(v.pos)) and simp(v.pos).as_long() == 0 and z3.eq(simp(w.pos), simp(n))
        return StrV(rev_text(eng, st, x if whole else simp(z3.SubString(x, n - w.pos, w.pos - v.pos))))
    if isinstance(v, z3.ExprRef) and z3.is_int(v):
        if len(vals) == 2:
            t0 = strip(e["args"][0]["t"])
            if t0.endswith("*") or is_ptr(e["args"][0]["t"]):
                n = vals[1]
                if is_ptr(e["args"][1]["t"]):      # (first, last)
                    n = simp(n - v)
                    eng.oblige(st, n >= 0, "a range of characters does not end before it begins")
                if eng.mode != "flat":
                    raise Unsupported("string from raw pointer")
                return FlatSV(simp(v), simp(n))
            if eng.mode == "seq":                  # string(n, ch)
                s = z3.String(_e.uid("rep"))
                st.assume(z3.Length(s) == v, z3.InRe(s, z3.Star(z3.Re(chr_s(eng, vals[1])))))
                return StrV(s)
    raise Unsupported("string construction from %s %s" % (type(v).__name__, getattr(v, "lv", "")))


def to_alpha(eng, st, v):
    if isinstance(v, z3.ExprRef) and z3.is_int(v):
        return StrV(int_to_str(v))
    return to_string(eng, st, v)


DEC = z3.Function("decimal", z3.IntSort(), z3.StringSort())     # decimal rendering of an integer


def int_to_str(v):
    return DEC(v)


# ------------------------------------------------------------------ free functions
@call_model("std::move", "std::forward", "std::as_const", "std::addressof")
def _move(eng, st, e, vs):
    return [(vs[0], st)]


@call_model("std::max", "std::min")
def _max(eng, st, e, vs):
    a, b = eng.num(eng.val(vs[0], st)), eng.num(eng.val(vs[1], st))
    mx = base_name(e["q"]).endswith("max")
    return [(simp(z3.If(a < b, b, a) if mx else z3.If(b < a, b, a)), st)]


@call_model("std::swap")
def _swap(eng, st, e, vs):
    a, b = eng.rd(st, vs[0]), eng.rd(st, vs[1])
    eng.wr(st, vs[0], b)
    eng.wr(st, vs[1], a)
    return [(VOID, st)]


@call_model("strcmp", "std::strcmp")
def _strcmp(eng, st, e, vs):
    a, b = to_string(eng, st, eng.val(vs[0], st)).s, to_string(eng, st, eng.val(vs[1], st)).s
    r = z3.Int(_e.uid("cmp"))
    st.assume(r > -(1 << 31), r < 1 << 31, (r == 0) == (a == b))
    return [(r, st)]


@call_model("std::inserter")
def _inserter(eng, st, e, vs):
    if not isinstance(vs[0], LV) or not isinstance(eng.rd(st, vs[0]), SetV):
        raise Unsupported("std::inserter")
    return [(OpaqueV("inserter", vs[0]), st)]


@call_model("std::set_intersection")
def _set_intersection(eng, st, e, vs):
    """Of two whole ordered sets, inserted into a set (which sorts for itself)."""
    its = [eng.val(v, st) for v in vs[:4]]
    out = eng.val(vs[4], st)
    sets = []
    for b, t in ((its[0], its[1]), (its[2], its[3])):
        if not (isinstance(b, IterV) and isinstance(t, IterV) and b.kind == "set" and b.extra == "begin" and t.extra == "end" and eng.rd(st, b.cont).a.eq(eng.rd(st, t.cont).a)):
            raise Unsupported("std::set_intersection of ranges")
        v = eng.rd(st, b.cont)
        if not v.ordered:
            raise Unsupported("std::set_intersection of unordered sets")
        sets.append(v)
    if not (isinstance(out, OpaqueV) and isinstance(out.tag, LV)) or len(vs) != 5:
        raise Unsupported("std::set_intersection destination")
    o = eng.rd(st, out.tag)
    a = z3.Const(_e.uid("isect"), o.a.sort())
    n = z3.Int(_e.uid("isect.n"))
    x = z3.Const("x!is", o.a.sort().domain())
    w = z3.Const(_e.uid("iw"), o.a.sort().domain())
    st.assume(z3.ForAll([x], z3.Select(a, x) == z3.Or(z3.Select(o.a, x), z3.And(z3.Select(sets[0].a, x), z3.Select(sets[1].a, x))), patterns=[z3.Select(a, x)]),
              n >= 0, n <= _e.SMAX, z3.Implies(n > 0, z3.Select(a, w)), z3.Implies(n == 0, z3.ForAll([x], z3.Not(z3.Select(a, x)), patterns=[z3.Select(a, x)])),
              z3.Implies(n == 0, z3.ForAll([x], z3.Not(z3.And(z3.Select(sets[0].a, x), z3.Select(sets[1].a, x))), patterns=[z3.Select(sets[0].a, x), z3.Select(sets[1].a, x)])))
    eng.wr(st, out.tag, SetV(a, o.ety, n, o.ordered))
    return [(out, st)]


@call_model("__assert_fail")
def _assert_fail(eng, st, e, vs):
    eng.oblige(st, z3.BoolVal(False), "assert() holds")
    return []


@call_model("verif_shim::DieIfNull")
def _din(eng, st, e, vs):
    v = eng.val(vs[0], st)
    if isinstance(v, z3.ExprRef):
        eng.oblige(st, v != 0, "ABSL_DIE_IF_NULL holds")
    return [(vs[0], st)]


@method("opaque", "stream")
def _cfs(eng, st, e, lv, v, vs):
    eng.oblige(st, z3.BoolVal(False), "CHECK() holds")
    return []


@call_model("absl::ascii_isalpha", "absl::ascii_isdigit", "absl::ascii_isspace", "absl::ascii_isalnum", "isdigit", "isxdigit", "isspace", "isalpha")
def _ctype(eng, st, e, vs):
    n = base_name(e["q"]).split("::")[-1].replace("ascii_", "")
    v = eng.val(vs[0], st)
    if isinstance(v, CharV):
        rng = {"isalpha": "azAZ", "isdigit": "09", "isalnum": "azAZ09", "isxdigit": "09afAF"}.get(n)
        if n == "isspace":
            rx = re_set(b" \t\n\v\f\r")
        else:
            rx = z3.Union(*[z3.Range(rng[i], rng[i + 1]) for i in range(0, len(rng), 2)]) if len(rng) > 2 else z3.Range(rng[0], rng[1])
        r = z3.InRe(v.s, rx)
    else:
        c = eng.num(v)
        if not base_name(e["q"]).startswith("absl"):
            eng.oblige(st, z3.And(c >= -128, c <= 255), "argument of %s() is in the range the C library's table covers" % n)
        f = {"isdigit": lambda: z3.And(c >= 48, c <= 57),
             "isalpha": lambda: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)),
             "isspace": lambda: z3.Or(c == 32, z3.And(c >= 9, c <= 13)),
             "isalnum": lambda: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)),
             "isxdigit": lambda: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))}[n]
        r = f()
    if base_name(e["q"]).startswith("absl"):
        return [(simp(r), st)]
    return [(z3.If(r, I(1), I(0)), st)]


@call_model("absl::StrCat")
def _strcat(eng, st, e, vs):
    parts = [to_alpha(eng, st, eng.val(v, st)) for v in vs]
    if eng.mode != "seq":
        return [(eng.fresh_st(st, "std::string", "cat"), st)]
    if not parts:
        return [(StrV(z3.StringVal("")), st)]
    return [(StrV(simp(z3.Concat(*[p.s for p in parts])) if len(parts) > 1 else parts[0].s), st)]


@call_model("absl::StrAppend")
def _strappend(eng, st, e, vs):
    p = eng.val(vs[0], st)
    if not isinstance(p, PtrV):
        raise Unsupported("StrAppend destination")
    if eng.mode != "seq":
        eng.wr(st, p.lv, eng.fresh_st(st, "std::string", "cat"))
        return [(VOID, st)]
    parts = [to_alpha(eng, st, eng.val(v, st)).s for v in vs[1:]]
    old = eng.rd(st, p.lv)
    eng.wr(st, p.lv, StrV(simp(z3.Concat(old.s, *parts))))
    return [(VOID, st)]


@call_model("absl::StrContains")
def _strcontains(eng, st, e, vs):
    h, n = as_str(eng, st, vs[0]), eng.val(vs[1], st)
    return [(simp(z3.Contains(h.s, to_needle(eng, st, n))), st)]


def to_needle(eng, st, n):
    n = as_str(eng, st, n)
    if isinstance(n, StrV):
        return n.s
    return chr_s(eng, n)


@call_model("std::operator+")
def _strplus(eng, st, e, vs):
    a, b = to_needle(eng, st, eng.val(vs[0], st)), to_needle(eng, st, eng.val(vs[1], st))
    return [(StrV(simp(z3.Concat(a, b))), st)]


@call_model("std::upper_bound", "std::lower_bound")
def _upper_bound(eng, st, e, vs):
    if len(vs) != 3:
        raise Unsupported("upper_bound with comparator")
    first, last, x = [eng.val(v, st) for v in vs]
    if not (isinstance(first, IterV) and first.kind == "vec" and isinstance(x, z3.ExprRef)):
        raise Unsupported("upper_bound")
    vec = eng.rd(st, first.cont)
    i, j = z3.Ints("i!ub j!ub")
    # precondition of the algorithm: the range is sorted
    eng.oblige(st, z3.ForAll([i, j], z3.Implies(z3.And(first.pos <= i, i < j, j < last.pos), vec.a[i] <= vec.a[j])), "range searched is sorted")
    r = z3.Int(_e.uid("ub"))
    up = base_name(e["q"]).endswith("upper_bound")
    st.assume(r >= first.pos, r <= last.pos)
    if up:
        st.assume(z3.ForAll([i], z3.Implies(z3.And(first.pos <= i, i < r), vec.a[i] <= x)),
                  z3.ForAll([i], z3.Implies(z3.And(r <= i, i < last.pos), vec.a[i] > x)),
                  z3.Implies(r > first.pos, vec.a[r - 1] <= x), z3.Implies(r < last.pos, vec.a[r] > x))
    else:
        st.assume(z3.ForAll([i], z3.Implies(z3.And(first.pos <= i, i < r), vec.a[i] < x)),
                  z3.ForAll([i], z3.Implies(z3.And(r <= i, i < last.pos), vec.a[i] >= x)),
                  z3.Implies(r > first.pos, vec.a[r - 1] < x), z3.Implies(r < last.pos, vec.a[r] >= x))
    return [(IterV("vec", first.cont, r), st)]


@call_model("absl::StrSplit")
def _strsplit(eng, st, e, vs):
    s, d = as_str(eng, st, vs[0]), eng.val(vs[1], st)
    return [(SplitV(s, d), st)]


class SplitV(Val):
    def __init__(self, s, d):
        self.s, self.d = s, d


@method("SplitV", "operator vector")
def _split_conv(eng, st, e, lv, v, vs):
    """Splitting by a character: forks on 1, 2, 3 or more parts (exact for up to 3)."""
    t = strip(e["t"])
    ety = split_targs(t)[1][0]
    ch = chr_s(eng, v.d)
    arr0 = z3.Const(_e.uid("split"), z3.ArraySort(z3.IntSort(), z3.StringSort()))
    outs = []
    rest, parts, st0 = v.s.s, [], st
    if eng.opts.get("rope") and ropes.code_of(ch) is not None:
        return _split_rope(eng, st, v.s.s, ropes.code_of(ch), ety, arr0)
    for n in range(1, 5):
        s = st0.fork()
        if n == 4:
            nn = z3.Int(_e.uid("nsplit"))
            s.assume(nn >= 4, nn <= z3.Length(v.s.s) + 1)
            arr = arr0
            for i, p in enumerate(parts):
                arr = z3.Store(arr, i, p)
            outs.append((VecV(nn, arr, ety), s))
            break
        a = s.fork().assume(z3.Not(z3.Contains(rest, ch)))
        if eng.feasible(a):
            arr = arr0
            for i, p in enumerate(parts + [rest]):
                arr = z3.Store(arr, i, p)
            outs.append((VecV(I(n), arr, ety), a))
        x, y = z3.String(_e.uid("sp")), z3.String(_e.uid("sr"))
        s.assume(rest == z3.Concat(x, ch, y), z3.Not(z3.Contains(x, ch)))
        if not eng.feasible(s):
            break
        parts.append(x)
        rest = y
        st0 = s
    return outs


def _split_rope(eng, st, text, code, ety, arr0):
    outs = []
    work = [(text, [], st)]
    while work:
        rest, parts, s = work.pop(0)
        if len(parts) == 3:
            nn = z3.Int(_e.uid("nsplit"))
            s.assume(nn >= 4, nn <= z3.Length(text) + 1)
            arr = arr0
            for i, p in enumerate(parts):
                arr = z3.Store(arr, i, p)
            outs.append((VecV(nn, arr, ety), s))
            continue
        for r, s2 in ropes.find(eng, s, rest, code, True):
            if r is None:
                arr = arr0
                for i, p in enumerate(parts + [ropes.norm(s2, rest)]):
                    arr = z3.Store(arr, i, p)
                outs.append((VecV(I(len(parts) + 1), arr, ety), s2))
            else:
                t = ropes.norm(s2, rest)
                a = ropes.cut(eng, s2, t, I(0), r)
                b = ropes.cut(eng, s2, t, simp(r + 1), simp(z3.Length(t) - r - 1))
                if a is None or b is None:
                    raise Unsupported("split of a text")
                work.append((b, parts + [a], s2))
    return outs


@call_model("std::next", "std::prev")
def _next(eng, st, e, vs):
    it = eng.val(vs[0], st)
    d = I(1) if len(vs) < 2 else eng.num(eng.val(vs[1], st))
    up = base_name(e["q"]).endswith("next")
    return METHODS[("iter", "+" if up else "-")](eng, st, e, vs[0], it, [d])


@call_model("std::get")
def _get(eng, st, e, vs):
    raise Unsupported("std::get")


@call_model("std::make_pair")
def _mkpair(eng, st, e, vs):
    t = strip(e["t"])
    a = split_targs(t)[1]
    return [(StructV(t, {"first": convert(eng, st, vs[0], a[0]), "second": convert(eng, st, vs[1], a[1])}), st)]


@call_model("std::begin", "std::end")
def _begin(eng, st, e, vs):
    return mdispatch(eng, st, e, vs[0], base_name(e["q"]).split("::")[-1], [])


# ------------------------------------------------------------------ strings
@method("str", "size", "length")
def _size(eng, st, e, lv, v, vs):
    return [(slen(eng, v), st)]


@method("str", "empty")
def _empty(eng, st, e, lv, v, vs):
    if isinstance(v, StrV):
        return [(simp(v.s == z3.StringVal("")), st)]
    return [(simp(slen(eng, v) == 0), st)]


@method("str", "data", "c_str", "begin", "cbegin")
def _data(eng, st, e, lv, v, vs):
    if isinstance(v, _e.LitV):
        v = flat_lit(eng, st, v)
    if isinstance(v, FlatSV):
        return [(v.p, st)]
    if base_name(e["q"]).endswith("begin"):
        return [(IterV("str", lv if isinstance(lv, LV) else ValLV(v), I(0)), st)]
    return [(v, st)]


@method("str", "end", "cend")
def _end(eng, st, e, lv, v, vs):
    if isinstance(v, FlatSV):
        return [(simp(v.p + v.n), st)]
    return [(IterV("str", lv if isinstance(lv, LV) else ValLV(v), slen(eng, v)), st)]


REV = z3.Function("reversed", z3.StringSort(), z3.StringSort())


def rev_text(eng, st, x):
    """The text read backwards."""
    r = REV(x)
    st.assume(z3.Length(r) == z3.Length(x), REV(r) == x)
    return r


@method("str", "rbegin", "rend", "crbegin", "crend")
def _rbegin(eng, st, e, lv, v, vs):
    if not isinstance(v, StrV):
        raise Unsupported("reverse iteration over raw text")
    nm = base_name(e["q"]).split("::")[-1]
    return [(IterV("rstr", lv if isinstance(lv, LV) else ValLV(v), I(0) if nm.endswith("rbegin") else slen(eng, v)), st)]


@method("str", "substr")
def _substr(eng, st, e, lv, v, vs):
    n = slen(eng, v)
    pos = eng.num(eng.val(vs[0], st)) if len(vs) > 0 and not dflt(e, 0) else I(0)
    cnt = eng.num(eng.val(vs[1], st)) if len(vs) > 1 and not dflt(e, 1) else None
    pos = simp(pos)
    eng.oblige(st, z3.And(pos >= 0, pos <= n), "substr() position within the string")
    if isinstance(v, StrV):
        if cnt is None or (z3.is_int_value(simp(cnt)) and simp(cnt).as_long() >= (1 << 62)):
            ln = n - pos
        else:
            ln = cnt
        if eng.opts.get("rope"):
            c = ropes.cut(eng, st, v.s, pos, simp(ln))
            if c is not None:
                return [(StrV(c), st)]
        return [(StrV(simp(z3.SubString(v.s, pos, ln))), st)]
    rest = simp(n - pos)
    if cnt is not None and not (z3.is_int_value(simp(cnt)) and simp(cnt).as_long() >= (1 << 62)):
        rest = simp(z3.If(cnt < rest, cnt, rest))
    return [(FlatSV(simp(v.p + pos), rest), st)]


def dflt(e, i):
    return i < len(e["args"]) and e["args"][i].get("k") == "DefaultArg"


@method("str", "remove_prefix", "remove_suffix")
def _remove(eng, st, e, lv, v, vs):
    k = eng.num(eng.val(vs[0], st))
    n = slen(eng, v)
    pre = base_name(e["q"]).endswith("prefix")
    eng.oblige(st, z3.And(k >= 0, k <= n), "remove_%s() count within the string" % ("prefix" if pre else "suffix"))
    c = None
    if isinstance(v, StrV) and eng.opts.get("rope"):
        c = ropes.cut(eng, st, v.s, k if pre else I(0), simp(n - k))
    if c is not None:
        nv = StrV(c)
    elif isinstance(v, StrV):
        nv = StrV(simp(z3.SubString(v.s, k, n - k) if pre else z3.SubString(v.s, 0, n - k)))
    else:
        nv = FlatSV(simp(v.p + k), simp(v.n - k)) if pre else FlatSV(v.p, simp(v.n - k))
    eng.wr(st, lv, nv)
    return [(VOID, st)]


@method("str", "starts_with", "ends_with")
def _starts(eng, st, e, lv, v, vs):
    pre = base_name(e["q"]).endswith("starts_with")
    w = as_str(eng, st, eng.val(vs[0], st))
    if isinstance(v, StrV):
        n = to_needle(eng, st, w)
        return [(simp(z3.PrefixOf(n, v.s) if pre else z3.SuffixOf(n, v.s)), st)]
    if isinstance(w, z3.ExprRef):
        return [(z3.And(v.n > 0, z3.Select(eng.mem, v.p if pre else v.p + v.n - 1) == w), st)]
    if isinstance(w, _e.LitV):
        k = len(w.b)
        p = v.p if pre else v.p + v.n - k
        return [(z3.And(v.n >= k, flat_eq(eng, FlatSV(p, I(k)), w)), st)]
    k = w.n
    p = v.p if pre else v.p + v.n - k
    return [(z3.And(v.n >= k, flat_eq(eng, FlatSV(simp(p), k), w)), st)]


@method("str", "contains")
def _contains(eng, st, e, lv, v, vs):
    return [(simp(z3.Contains(v.s, to_needle(eng, st, eng.val(vs[0], st)))), st)]


@method("str", "find", "find_first_of")
def _find(eng, st, e, lv, v, vs):
    w = as_str(eng, st, eng.val(vs[0], st))
    pos = simp(eng.num(eng.val(vs[1], st))) if len(vs) > 1 else I(0)
    is_of = base_name(e["q"]).endswith("of")
    n = slen(eng, v)
    outs = []
    if isinstance(v, StrV):
        single = not isinstance(w, StrV)
        if isinstance(w, StrV) and is_of:
            cs = charset(eng, w)
            if cs is None:
                raise Unsupported("find_first_of with unknown set")
            if len(cs) == 1:
                w = StrV(chr_s(eng, I(cs[0])))
            else:
                return find_set(eng, st, v, cs, pos, first=True)
        nd = to_needle(eng, st, w)
        if eng.opts.get("rope") and ropes.code_of(nd) is not None and z3.is_int_value(pos) and pos.as_long() == 0:
            return [(_e.NPOS if r is None else r, s) for r, s in ropes.find(eng, st, v.s, ropes.code_of(nd), True)]
        tail = v.s if (z3.is_int_value(pos) and pos.as_long() == 0) else z3.SubString(v.s, pos, n - pos)
        a = st.fork().assume(z3.Not(z3.Contains(tail, nd)) if not (z3.is_int_value(pos) and pos.as_long() == 0) else z3.Not(z3.Contains(v.s, nd)))
        if eng.feasible(a):
            outs.append((_e.NPOS, a))
        b = st
        r = z3.IndexOf(v.s, nd, pos)
        b.assume(z3.Contains(tail, nd), r >= pos, r >= 0, r + z3.Length(nd) <= n)
        if eng.feasible(b):
            outs.append((r, b))
        return outs
    if isinstance(w, (FlatSV, _e.LitV)):
        if is_of and isinstance(w, _e.LitV):
            isc = lambda x: z3.Or([x == (c - 256 if c >= 128 else c) for c in w.b])
        elif isinstance(w, _e.LitV) and len(w.b) == 1:
            isc = lambda x: x == w.b[0]
        else:
            raise Unsupported("flat find of string")
    else:
        isc = lambda x: x == eng.num(w)
    i = z3.Int("i!ff")
    a = st.fork().assume(z3.ForAll([i], z3.Implies(z3.And(v.p + pos <= i, i < v.p + n), z3.Not(isc(z3.Select(eng.mem, i)))), patterns=[z3.Select(eng.mem, i)]))
    if eng.feasible(a):
        outs.append((_e.NPOS, a))
    r = z3.Int(_e.uid("ff"))
    st.assume(r >= pos, r >= 0, r < n, isc(z3.Select(eng.mem, v.p + r)),
              z3.ForAll([i], z3.Implies(z3.And(v.p + pos <= i, i < v.p + r), z3.Not(isc(z3.Select(eng.mem, i)))), patterns=[z3.Select(eng.mem, i)]))
    if eng.feasible(st):
        outs.append((r, st))
    return outs


def find_set(eng, st, v, cs, pos, first, neg=False):
    """first/last position whose character is (not) in cs; pos: start (first) or None."""
    inset = re_set(cs)
    allc = z3.AllChar(z3.ReSort(z3.StringSort()))
    hit = z3.Intersect(allc, z3.Complement(inset)) if neg else inset
    miss = inset if neg else z3.Intersect(allc, z3.Complement(inset))
    n = slen(eng, v)
    tail = v.s if (z3.is_int_value(pos) and pos.as_long() == 0) else z3.SubString(v.s, pos, n - pos)
    outs = []
    a = st.fork().assume(z3.InRe(tail, z3.Star(miss)))
    if eng.feasible(a):
        outs.append((_e.NPOS, a))
    x, c, y = z3.String(_e.uid("fx")), z3.String(_e.uid("fc")), z3.String(_e.uid("fy"))
    st.assume(tail == z3.Concat(x, c, y), z3.Length(c) == 1, z3.InRe(c, hit), z3.InRe(x if first else y, z3.Star(miss)))
    if eng.feasible(st):
        outs.append((simp(pos + z3.Length(x)), st))
    return outs


@method("str", "find_last_of", "rfind", "find_first_not_of", "find_last_not_of")
def _find_last(eng, st, e, lv, v, vs):
    w = as_str(eng, st, eng.val(vs[0], st))
    nm = base_name(e["q"]).split("::")[-1]
    if len(vs) > 1 and not dflt(e, 1):
        p = simp(eng.num(eng.val(vs[1], st)))
        if z3.is_int_value(p) and (p.as_long() >= 1 << 62 or (p.as_long() == 0 and "first" in nm)):
            pass
        else:
            raise Unsupported(nm + " with a position")
    if not isinstance(v, StrV):
        return flat_find_last(eng, st, v, w, nm)
    if isinstance(w, StrV):
        cs = charset(eng, w)
        if cs is None or (nm == "rfind" and len(cs) != 1):
            raise Unsupported(nm + " with unknown set")
    else:
        c = simp(eng.num(w))
        if not z3.is_int_value(c):
            raise Unsupported(nm + " of symbolic char")
        cs = bytes([c.as_long() % 256])
    if len(cs) == 1 and nm in ("find_last_of", "rfind"):
        ch = chr_s(eng, I(cs[0]))
        if eng.opts.get("rope"):
            return [(_e.NPOS if r is None else r, s) for r, s in ropes.find(eng, st, v.s, cs[0], False)]
        outs = []
        a = st.fork().assume(z3.Not(z3.Contains(v.s, ch)))
        if eng.feasible(a):
            outs.append((_e.NPOS, a))
        x, y = z3.String(_e.uid("lx")), z3.String(_e.uid("ly"))
        st.assume(v.s == z3.Concat(x, ch, y), z3.Not(z3.Contains(y, ch)))
        if eng.feasible(st):
            outs.append((simp(z3.Length(x)), st))
        return outs
    return find_set(eng, st, v, cs, I(0), "first" in nm, "not" in nm)


def flat_find_last(eng, st, v, w, nm):
    if isinstance(w, _e.LitV):
        isc = lambda x: z3.Or([x == (c - 256 if c >= 128 else c) for c in w.b])
        if nm == "rfind" and len(w.b) != 1:
            raise Unsupported("flat rfind")
    elif isinstance(w, z3.ExprRef):
        isc = lambda x: x == w
    else:
        raise Unsupported("flat " + nm)
    hit = (lambda x: z3.Not(isc(x))) if "not" in nm else isc
    i = z3.Int("i!fl")
    M = lambda x: z3.Select(eng.mem, x)
    outs = []
    a = st.fork().assume(z3.ForAll([i], z3.Implies(z3.And(v.p <= i, i < v.p + v.n), z3.Not(hit(M(i)))), patterns=[M(i)]))
    if eng.feasible(a):
        outs.append((_e.NPOS, a))
    r = z3.Int(_e.uid("fl"))
    rng = z3.And(v.p + r < i, i < v.p + v.n) if "last" in nm or nm == "rfind" else z3.And(v.p <= i, i < v.p + r)
    st.assume(r >= 0, r < v.n, hit(M(v.p + r)), z3.ForAll([i], z3.Implies(rng, z3.Not(hit(M(i)))), patterns=[M(i)]))
    if eng.feasible(st):
        outs.append((r, st))
    return outs


def char_at(eng, st, lv, v, i, what):
    n = slen(eng, v)
    eng.oblige(st, z3.And(i >= 0, i < n), what + " within the string")
    if isinstance(v, StrV):
        if eng.opts.get("rope"):
            c = ropes.at(eng, st, v.s, i)
            if c is not None:
                return CharV(c)
        if isinstance(lv, LV) and not isinstance(lv, ValLV):
            return lv.sub(("i", i))
        return CharV(z3.SubString(v.s, i, 1))
    if isinstance(v, _e.LitV):
        v = flat_lit(eng, st, v)
    return CharMemLV(simp(v.p + i))


@method("str", "[]", "at")
def _idx(eng, st, e, lv, v, vs):
    i = simp(eng.num(eng.val(vs[0], st)))
    return [(char_at(eng, st, lv, v, i, "character index"), st)]


@method("str", "front")
def _front(eng, st, e, lv, v, vs):
    return [(char_at(eng, st, lv, v, I(0), "front()"), st)]


@method("str", "back")
def _back(eng, st, e, lv, v, vs):
    return [(char_at(eng, st, lv, v, simp(slen(eng, v) - 1), "back()"), st)]


@method("str", "append", "+=", "push_back", "assign")
def _append(eng, st, e, lv, v, vs):
    nm = e.get("op") or base_name(e["q"]).split("::")[-1]
    if isinstance(v, FlatSV):
        eng.wr(st, lv, eng.fresh_st(st, "std::string", "app"))
        return [(lv, st)]
    w = eng.val(vs[0], st)
    if len(vs) == 2 and isinstance(w, z3.ExprRef):
        w = make_string(eng, st, e, [w, eng.val(vs[1], st)])
    elif len(vs) == 2:
        raise Unsupported("append with two arguments")
    s = to_needle(eng, st, w)
    eng.wr(st, lv, StrV(simp(z3.Concat(v.s, s)) if nm != "assign" else s))
    return [(lv, st)]


@method("str", "clear")
def _sclear(eng, st, e, lv, v, vs):
    eng.wr(st, lv, eng.default_value("std::string"))
    return [(VOID, st)]


@method("str", "pop_back")
def _spop(eng, st, e, lv, v, vs):
    n = slen(eng, v)
    eng.oblige(st, n > 0, "pop_back() of non-empty string")
    eng.wr(st, lv, StrV(simp(z3.SubString(v.s, 0, n - 1))) if isinstance(v, StrV) else FlatSV(v.p, simp(v.n - 1)))
    return [(VOID, st)]


@method("str", "resize")
def _sresize(eng, st, e, lv, v, vs):
    k = eng.num(eng.val(vs[0], st))
    if not isinstance(v, StrV):
        eng.wr(st, lv, eng.fresh_st(st, "std::string", "rs"))
        return [(VOID, st)]
    n = slen(eng, v)
    outs = []
    for b, s in eng.split(k <= n, st):
        if b:
            eng.wr(s, lv, StrV(simp(z3.SubString(v.s, 0, k))))
        else:
            f = eng.fresh_st(s, "std::string", "rs")
            s.assume(z3.Length(f.s) == k, z3.PrefixOf(v.s, f.s))
            eng.wr(s, lv, f)
        outs.append((VOID, s))
    return outs


@method("str", "resize_and_overwrite")
def _resize_ow(eng, st, e, lv, v, vs):
    """resize_and_overwrite(n, f): f gets a fresh buffer of n (+ terminator) characters and tells how many to keep."""
    n = eng.num(eng.val(vs[0], st))
    f = eng.val(vs[1], st)
    if eng.mode != "flat" or not isinstance(f, LamV):
        raise Unsupported("resize_and_overwrite")
    p = z3.Int(_e.uid("strbuf"))
    st.assume(p > 0, p + n < (1 << 63))
    st.g["$bufs"] = tuple(st.g.get("$bufs", ())) + ((p, simp(p + n)),)
    outs = []
    for r, s in eng.call_lambda(f, [p, n], st):
        k = eng.num(eng.val(r, s))
        eng.oblige(s, z3.And(k >= 0, k <= n), "resize_and_overwrite() keeps at most the size asked for")
        s = eng.wr(s, lv, FlatSV(p, k)) or s
        outs.append((VOID, s))
    return outs


@method("str", "reserve")
def _reserve(eng, st, e, lv, v, vs):
    return [(VOID, st)]


@method("str", "operator conv")
def _sconv(eng, st, e, lv, v, vs):
    return [(v, st)]


@method("str", "compare")
def _compare(eng, st, e, lv, v, vs):
    w = as_str(eng, st, eng.val(vs[0], st))
    r = z3.Int(_e.uid("cmp"))
    st.assume((r == 0) == (v.s == w.s), (r < 0) == (v.s < w.s))
    return [(r, st)]


@method("str", "<=>")
def _spaceship(eng, st, e, lv, v, vs):
    raise Unsupported("<=> on strings")


# ------------------------------------------------------------------ vectors
@method("vec", "size")
def _vsize(eng, st, e, lv, v, vs):
    return [(v.n, st)]


@method("vec", "empty")
def _vempty(eng, st, e, lv, v, vs):
    return [(simp(v.n == 0), st)]


@method("vec", "push_back", "emplace_back")
def _vpush(eng, st, e, lv, v, vs):
    if len(vs) == 1:
        x = convert(eng, st, vs[0], v.ety)
        if isinstance(vs[0], LV) and not isinstance(vs[0], ValLV) and e["args"][0].get("v") == "x":
            eng.moved_from(st, vs[0], strip(v.ety))
    elif not vs:
        x = eng.default_value(v.ety)
    else:
        raise Unsupported("emplace_back with %d arguments" % len(vs))
    if isinstance(x, TupV):
        x = from_tup(eng, st, x, v.ety)
    eng.wr(st, lv, VecV(simp(v.n + 1), z3.Store(v.a, v.n, eng.so.reify(x, v.ety)), v.ety))
    h = eng.opts.get("on_push")
    if h:
        h(eng, st, lv, v, x)
    return [(lv.sub(("i", v.n)), st)]


@method("vec", "clear")
def _vclear(eng, st, e, lv, v, vs):
    eng.wr(st, lv, VecV(I(0), v.a, v.ety))
    return [(VOID, st)]


@method("vec", "pop_back")
def _vpop(eng, st, e, lv, v, vs):
    eng.oblige(st, v.n > 0, "pop_back() of non-empty vector")
    eng.wr(st, lv, VecV(simp(v.n - 1), v.a, v.ety))
    return [(VOID, st)]


@method("vec", "pop_front")
def _vpopf(eng, st, e, lv, v, vs):
    eng.oblige(st, v.n > 0, "pop_front() of non-empty deque")
    a = z3.Const(_e.uid("popped"), v.a.sort())
    j = z3.Int("j!pf")
    st.assume(z3.ForAll([j], z3.Select(a, j) == z3.Select(v.a, j + 1), patterns=[z3.Select(a, j)]))
    eng.wr(st, lv, VecV(simp(v.n - 1), a, v.ety))
    return [(VOID, st)]


@method("vec", "erase")
def _verase(eng, st, e, lv, v, vs):
    it = eng.val(vs[0], st)
    if len(vs) != 1 or not (isinstance(it, IterV) and it.kind == "vec" and isinstance(lv, Cell) and isinstance(it.cont, Cell) and it.cont.key() == lv.key()):
        raise Unsupported("erase form")
    p = it.pos
    eng.oblige(st, z3.And(p >= 0, p < v.n), "erase() of an element of the sequence")
    a = z3.Const(_e.uid("erased"), v.a.sort())
    j = z3.Int("j!er")
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.n - 1), z3.Select(a, j) == z3.If(j < p, z3.Select(v.a, j), z3.Select(v.a, j + 1))), patterns=[z3.Select(a, j)]),
              z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.n, j != p), z3.Select(a, z3.If(j < p, j, j - 1)) == z3.Select(v.a, j)), patterns=[z3.Select(v.a, j)]))
    eng.wr(st, lv, VecV(simp(v.n - 1), a, v.ety))
    return [(IterV("vec", lv, p), st)]


@method("vec", "reserve")
def _vres(eng, st, e, lv, v, vs):
    return [(VOID, st)]


@method("vec", "[]", "at")
def _vidx(eng, st, e, lv, v, vs):
    i = simp(eng.num(eng.val(vs[0], st)))
    eng.oblige(st, z3.And(i >= 0, i < v.n), "vector index in bounds")
    return [((lv if isinstance(lv, LV) else ValLV(v)).sub(("i", i)), st)]


@method("vec", "subspan", "first", "last")
def _subspan(eng, st, e, lv, v, vs):
    nm = base_name(e["q"]).split("::")[-1]
    a = eng.val(vs[0], st)
    if nm == "first":
        off, cnt = I(0), a
    elif nm == "last":
        off, cnt = v.n - a, a
    else:
        off = a
        cnt = eng.val(vs[1], st) if len(vs) > 1 and not is_npos(eng.val(vs[1], st)) else v.n - a
    eng.oblige(st, z3.And(off >= 0, cnt >= 0, off + cnt <= v.n), "sub-range lies in the sequence")
    i = z3.Int("i!ss")
    return [(VecV(simp(cnt), z3.Lambda([i], z3.Select(v.a, i + off)), v.ety), st)]


def is_npos(v):
    return isinstance(v, OpaqueV) or (z3.is_int_value(simp(v)) and simp(v).as_long() == (1 << 64) - 1)


@method("vec", "back", "front")
def _vback(eng, st, e, lv, v, vs):
    eng.oblige(st, v.n > 0, "back()/front() of non-empty vector")
    i = simp(v.n - 1) if base_name(e["q"]).endswith("back") else I(0)
    return [((lv if isinstance(lv, LV) else ValLV(v)).sub(("i", i)), st)]


@method("vec", "begin", "cbegin")
def _vbegin(eng, st, e, lv, v, vs):
    return [(IterV("vec", lv if isinstance(lv, LV) else ValLV(v), I(0)), st)]


@method("vec", "end", "cend")
def _vend(eng, st, e, lv, v, vs):
    return [(IterV("vec", lv if isinstance(lv, LV) else ValLV(v), v.n), st)]


@method("vec", "data")
def _vdata(eng, st, e, lv, v, vs):
    return [(PtrV(lv.sub(("i", I(0)))), st)]


# iterators
def iter_deref(eng, st, it):
    if it.kind == "vec":
        v = eng.rd(st, it.cont)
        n = I(len(v.items)) if isinstance(v, TupV) else v.n
        eng.oblige(st, z3.And(it.pos >= 0, it.pos < n), "iterator dereferenced inside the sequence")
        return it.cont.sub(("i", it.pos))
    if it.kind == "str":
        v = eng.rd(st, it.cont)
        return char_at(eng, st, it.cont, v, it.pos, "string iterator")
    if it.kind in ("map", "set"):
        eng.oblige(st, z3.Not(it.end), "iterator is not end() when dereferenced")
        if it.kind == "set":
            v = eng.rd(st, it.cont)
            return ValLV(eng.so.reflect(it.pos, v.ety))
        return EntryLV(it.cont, it.pos)
    raise Unsupported("iterator " + it.kind)


class EntryLV(LV):
    """pair<const K, V> inside a map"""
    def __init__(self, cont, key):
        self.cont, self.key = cont, key

    def sub(self, step):
        if step == "second":
            return self.cont.sub(("k", self.key))
        return EntryKeyLV(self)


    def read(self, eng, st):
        return _rd_entry(eng, st, self)


class EntryKeyLV(LV):
    def __init__(self, ent):
        self.ent = ent

    def read(self, eng, st):
        m = eng.rd(st, self.ent.cont)
        return eng.so.reflect(self.ent.key, m.kty)

    def sub(self, step):
        return SubLV(self, step)


def _rd_entry(eng, st, lv):
    m = eng.rd(st, lv.cont)
    k = eng.so.reflect(lv.key, m.kty)
    return StructV("std::pair<const %s, %s>" % (m.kty, m.vty), {"first": k, "second": eng.rd(st, lv.cont.sub(("k", lv.key)))})


@method("iter", "*")
def _ideref(eng, st, e, lv, v, vs):
    return [(iter_deref(eng, st, v), st)]


@method("iter", "->")
def _iarrow(eng, st, e, lv, v, vs):
    return [(PtrV(iter_deref(eng, st, v)), st)]


@method("iter", "++", "--")
def _iinc(eng, st, e, lv, v, vs):
    d = 1 if e["op"] == "++" else -1
    nv = iter_move(eng, st, v, I(d))
    eng.wr(st, lv, nv)
    post = len(e["args"]) == 2
    return [(v if post else lv, st)]


def iter_move(eng, st, it, d):
    if it.kind in ("vec", "str", "rstr"):
        return IterV(it.kind, it.cont, simp(it.pos + d), it.end)
    if it.kind in ("map", "set"):
        return map_step(eng, st, it, d)
    raise Unsupported("iterator step")


@method("iter", "+", "-")
def _iplus(eng, st, e, lv, v, vs):
    w = eng.val(vs[0], st)
    op = e.get("op") or ("+" if base_name(e["q"]).endswith("next") else "-")
    if isinstance(w, IterV):
        return [(simp(v.pos - w.pos), st)]
    return [(iter_move(eng, st, v, w if op == "+" else -w), st)]


@method("iter", "+=", "-=")
def _ipluseq(eng, st, e, lv, v, vs):
    w = eng.num(eng.val(vs[0], st))
    eng.wr(st, lv, iter_move(eng, st, v, w if e["op"] == "+=" else -w))
    return [(lv, st)]


@method("iter", "<", ">", "<=", ">=")
def _icmp(eng, st, e, lv, v, vs):
    w = eng.val(vs[0], st)
    a, b = v.pos, w.pos
    return [(simp({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[e["op"]]), st)]


@method("iter", "base")
def _ibase(eng, st, e, lv, v, vs):
    return [(v, st)]


def iter_eq(eng, st, a, b):
    if a.kind in ("vec", "str", "rstr"):
        return simp(a.pos == b.pos)
    return simp(z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.pos == b.pos)))


def map_parts(m):
    return (m.dom, m.kty) if isinstance(m, MapV) else (m.a, m.ety)


def map_bound(eng, st, lv, m, pred_lo, name):
    """Iterator to the least key satisfying an upward-closed predicate (or end)."""
    dom, kty = map_parts(m)
    so = eng.so.sort(kty)
    k = z3.Const(_e.uid(name), so)
    end = z3.Bool(_e.uid(name + "_end"))
    lt = key_less(eng, kty)
    x = z3.Const("x!mb", so)
    d = lambda y: z3.Select(dom, y)
    st.assume(z3.Implies(end, z3.ForAll([x], z3.Implies(d(x), z3.Not(pred_lo(x))), patterns=[d(x)])),
              z3.Implies(z3.Not(end), z3.And(d(k), pred_lo(k), z3.ForAll([x], z3.Implies(z3.And(d(x), pred_lo(x), x != k), lt(k, x)), patterns=[d(x)]))))
    return IterV("map" if isinstance(m, MapV) else "set", lv, k, end)


def known_iter(lv, m, i):
    if i == len(m.known):
        return IterV("map", lv, m.known[0] if m.known else z3.StringVal(""), z3.BoolVal(True), "end")
    return IterV("map", lv, m.known[i], z3.BoolVal(False), i)


def known_bound(eng, st, lv, m, w, up):
    """lower_bound/upper_bound in a map of literal keys: one case per position. The order of texts is lexicographic;
    what is told about it: where literals lie, and that a prefix of a text comes before it, with nothing but further extensions of the prefix between."""
    f = z3.Function("text.less", z3.StringSort(), z3.StringSort(), z3.BoolSort())
    ks = m.known
    st.assume(*([z3.Implies(z3.PrefixOf(w, c), z3.Not(f(c, w))) for c in ks] +
                [z3.Implies(z3.And(z3.PrefixOf(c, w), c != w), f(c, w)) for c in ks] +
                [z3.Implies(z3.And(z3.PrefixOf(w, c), z3.Not(f(a, w))), z3.PrefixOf(w, a)) for i, c in enumerate(ks) for a in ks[:i]] +
                [z3.Implies(f(c, w), f(a, w)) for a, c in zip(ks, ks[1:])] +
                [z3.Implies(w == c, f(a, w) == z3.BoolVal(i < j)) for j, c in enumerate(ks) for i, a in enumerate(ks)]))
    before = lambda c: z3.Or(f(c, w), c == w) if up else f(c, w)
    outs = []
    for i in range(len(ks) + 1):
        s = st.fork()
        if i:
            s.assume(before(ks[i - 1]))
        if i < len(ks):
            s.assume(z3.Not(before(ks[i])))
        if eng.feasible(s):
            outs.append((known_iter(lv, m, i), s))
    return outs


def map_step(eng, st, it, d):
    m = eng.rd(st, it.cont)
    if isinstance(m, MapV) and m.known is not None and z3.is_int_value(simp(d)):
        i = (len(m.known) if it.extra == "end" else it.extra if isinstance(it.extra, int) else None)
        if i is not None:
            i += simp(d).as_long()
            if not 0 <= i <= len(m.known):
                eng.oblige(st, z3.BoolVal(False), "iterator stays inside the map")
                return known_iter(it.cont, m, min(max(i, 0), len(m.known)))
            return known_iter(it.cont, m, i)
    dom, kty = map_parts(m)
    lt = key_less(eng, kty)
    dv = simp(d).as_long() if z3.is_int_value(simp(d)) else None
    if dv == 1:
        eng.oblige(st, z3.Not(it.end), "iterator is not end() when incremented")
        return map_bound(eng, st, it.cont, m, lambda x: lt(it.pos, x), "nx")
    if dv == -1:
        so = eng.so.sort(kty)
        k = z3.Const(_e.uid("pv"), so)
        x = z3.Const("x!mb", so)
        dd = lambda y: z3.Select(dom, y)
        below = lambda x: z3.Or(it.end, lt(x, it.pos))
        eng.oblige(st, z3.Exists([x], z3.And(dd(x), below(x))), "iterator is not begin() when decremented")
        st.assume(dd(k), below(k), z3.ForAll([x], z3.Implies(z3.And(dd(x), below(x), x != k), lt(x, k)), patterns=[dd(x)]))
        return IterV(it.kind, it.cont, k, z3.BoolVal(False))
    raise Unsupported("map iterator step")


# ------------------------------------------------------------------ maps and sets
def key_of(eng, st, v, kty):
    return eng.so.reify(convert(eng, st, v, kty), kty)


def set_insert(eng, st, s, k):
    return SetV(z3.Store(s.a, k, z3.BoolVal(True)), s.ety, simp(z3.If(z3.Select(s.a, k), s.n, s.n + 1)), s.ordered)


for _k in ("map", "set"):
    @method(_k, "size")
    def _msize(eng, st, e, lv, v, vs):
        for f in eng.opts.get("set_size", []):
            f(eng, st, v)
        return [(v.n, st)]

    @method(_k, "empty")
    def _mempty(eng, st, e, lv, v, vs):
        dom, kty = map_parts(v)
        b = z3.Bool(_e.uid("mempty"))
        x = z3.Const("x!me", eng.so.sort(kty))
        w = z3.Const(_e.uid("mw"), eng.so.sort(kty))
        st.assume(b == (v.n == 0), z3.Implies(b, z3.ForAll([x], z3.Not(z3.Select(dom, x)), patterns=[z3.Select(dom, x)])),
                  z3.Implies(z3.Not(b), z3.Select(dom, w)))
        return [(b, st)]

    @method(_k, "contains", "count")
    def _mcont(eng, st, e, lv, v, vs):
        dom, kty = map_parts(v)
        k = key_of(eng, st, vs[0], kty)
        r = z3.Select(dom, k)
        if base_name(e["q"]).endswith("count"):
            return [(z3.If(r, I(1), I(0)), st)]
        return [(simp(r), st)]

    @method(_k, "find")
    def _mfind(eng, st, e, lv, v, vs):
        dom, kty = map_parts(v)
        k = key_of(eng, st, vs[0], kty)
        outs = []
        if isinstance(v, MapV) and v.known is not None:
            lv = lv if isinstance(lv, LV) else ValLV(v)
            for i in range(len(v.known) + 1):
                s = st.fork()
                s.assume(k == v.known[i] if i < len(v.known) else z3.And([k != c for c in v.known]))
                if eng.feasible(s):
                    outs.append((known_iter(lv, v, i), s))
            return outs
        for b, s in eng.split(z3.Select(dom, k), st):
            outs.append((IterV("map" if isinstance(v, MapV) else "set", lv if isinstance(lv, LV) else ValLV(v), k, z3.BoolVal(not b)), s))
        return outs

    @method(_k, "end", "cend")
    def _mend(eng, st, e, lv, v, vs):
        dom, kty = map_parts(v)
        return [(IterV("map" if isinstance(v, MapV) else "set", lv if isinstance(lv, LV) else ValLV(v),
                       z3.Const(_e.uid("mend"), eng.so.sort(kty)), z3.BoolVal(True), "end"), st)]

    @method(_k, "begin", "cbegin")
    def _mbegin(eng, st, e, lv, v, vs):
        if isinstance(v, MapV) and v.known is not None:
            return [(known_iter(lv if isinstance(lv, LV) else ValLV(v), v, 0), st)]
        it = map_bound(eng, st, lv if isinstance(lv, LV) else ValLV(v), v, lambda x: z3.BoolVal(True), "mb")
        it.extra = "begin"
        return [(it, st)]

    @method(_k, "lower_bound", "upper_bound")
    def _mlower(eng, st, e, lv, v, vs):
        dom, kty = map_parts(v)
        k = key_of(eng, st, vs[0], kty)
        if isinstance(v, MapV) and v.known is not None:
            return known_bound(eng, st, lv if isinstance(lv, LV) else ValLV(v), v, k, base_name(e["q"]).endswith("upper_bound"))
        lt = key_less(eng, kty)
        up = base_name(e["q"]).endswith("upper_bound")
        pred = (lambda x: lt(k, x)) if up else (lambda x: z3.Not(lt(x, k)))
        return [(map_bound(eng, st, lv if isinstance(lv, LV) else ValLV(v), v, pred, "lb"), st)]

    @method(_k, "clear")
    def _mclear(eng, st, e, lv, v, vs):
        h = "std::set" if isinstance(v, SetV) else "std::map"
        dom, kty = map_parts(v)
        f = z3.K(eng.so.sort(kty), z3.BoolVal(False))
        eng.wr(st, lv, SetV(f, v.ety, I(0), v.ordered) if isinstance(v, SetV) else MapV(f, v.val, v.kty, v.vty, I(0)))
        return [(VOID, st)]

    @method(_k, "erase")
    def _merase(eng, st, e, lv, v, vs):
        dom, kty = map_parts(v)
        a = eng.val(vs[0], st)
        k = a.pos if isinstance(a, IterV) else key_of(eng, st, vs[0], kty)
        if isinstance(a, IterV):
            eng.oblige(st, z3.Not(a.end), "erase() of end()")
        nd = z3.Store(dom, k, z3.BoolVal(False))
        nn = simp(z3.If(z3.Select(dom, k), v.n - 1, v.n))
        eng.wr(st, lv, SetV(nd, v.ety, nn, v.ordered) if isinstance(v, SetV) else MapV(nd, v.val, v.kty, v.vty, nn))
        return [(z3.If(z3.Select(dom, k), I(1), I(0)), st)]


def pair_v(first, second):
    return StructV("std::pair<$iter, bool>", {"first": first, "second": second})


@method("set", "insert", "emplace")
def _sinsert(eng, st, e, lv, v, vs):
    if len(vs) == 1:
        x = eng.val(vs[0], st)
        if isinstance(x, TupV):
            for it in x.items:
                v = set_insert(eng, st, v, eng.so.reify(convert(eng, st, it, v.ety), v.ety))
            eng.wr(st, lv, v)
            return [(VOID, st)]
        k = key_of(eng, st, x, v.ety)
        had = z3.Select(v.a, k)
        eng.wr(st, lv, set_insert(eng, st, v, k))
        return [(pair_v(IterV("set", lv, k, z3.BoolVal(False)), simp(z3.Not(had))), st)]
    a, b = eng.val(vs[0], st), eng.val(vs[1], st)
    if isinstance(a, IterV) and isinstance(b, IterV):
        src = eng.rd(st, a.cont)
        nn = z3.Int(_e.uid("sn"))
        x = z3.Const("x!si", eng.so.sort(v.ety))
        if isinstance(src, SetV):
            if (a.extra, b.extra) != ("begin", "end"):
                raise Unsupported("insert of a part of a set")
            na = z3.SetUnion(v.a, src.a)
            st.assume(nn >= v.n, nn >= src.n, nn <= v.n + src.n)
            eng.wr(st, lv, SetV(na, v.ety, nn, v.ordered))
            return [(VOID, st)]
    raise Unsupported("set insert form")


def map_put(eng, st, m, k, val, overwrite):
    had = z3.Select(m.dom, k)
    nv = z3.Store(m.val, k, val)
    if not overwrite:
        nv = z3.If(had, m.val, nv)
    return MapV(z3.Store(m.dom, k, z3.BoolVal(True)), simp(nv), m.kty, m.vty, simp(z3.If(had, m.n, m.n + 1)))


@method("map", "insert", "emplace", "try_emplace", "insert_or_assign")
def _minsert(eng, st, e, lv, v, vs):
    nm = base_name(e["q"]).split("::")[-1]
    if len(vs) == 1:
        p = eng.val(vs[0], st)
        if isinstance(p, TupV):
            if len(p.items) != 2:
                raise Unsupported("map insert form")
            a, b = p.items
        elif isinstance(p, StructV):
            a, b = p.f["first"], p.f["second"]
        else:
            raise Unsupported("map insert form")
    elif len(vs) == 2:
        a, b = eng.val(vs[0], st), eng.val(vs[1], st)
        if isinstance(a, IterV):
            raise Unsupported("map insert hint/range")
    else:
        raise Unsupported("map insert form")
    k = key_of(eng, st, a, v.kty)
    if isinstance(b, TupV):
        b = from_tup(eng, st, b, v.vty)
    val = eng.so.reify(convert(eng, st, b, v.vty), v.vty)
    had = z3.Select(v.dom, k)
    eng.wr(st, lv, map_put(eng, st, v, k, val, nm == "insert_or_assign"))
    return [(pair_v(IterV("map", lv, k, z3.BoolVal(False)), simp(z3.Not(had))), st)]


@method("map", "[]")
def _mindex(eng, st, e, lv, v, vs):
    k = key_of(eng, st, vs[0], v.kty)
    outs = []
    for b, s in eng.split(z3.Select(v.dom, k), st):
        if not b:
            d = eng.so.reify(eng.zero(v.vty), v.vty)
            eng.wr(s, lv, map_put(eng, s, v, k, d, True))
        outs.append((lv.sub(("k", k)), s))
    return outs


@method("map", "at")
def _mat(eng, st, e, lv, v, vs):
    k = key_of(eng, st, vs[0], v.kty)
    eng.oblige(st, z3.Select(v.dom, k), "at() of present key")
    return [(lv.sub(("k", k)), st)]


# ------------------------------------------------------------------ optional, pointers
@method("opt", "has_value", "operator conv", "operator bool")
def _ohas(eng, st, e, lv, v, vs):
    return [(v.has, st)]


@method("opt", "value", "*")
def _oval(eng, st, e, lv, v, vs):
    eng.oblige(st, v.has, "optional has a value when read")
    return [((lv if isinstance(lv, LV) else ValLV(v)).sub("*"), st)]


@method("opt", "->")
def _oarrow(eng, st, e, lv, v, vs):
    eng.oblige(st, v.has, "optional has a value when read")
    return [(PtrV((lv if isinstance(lv, LV) else ValLV(v)).sub("*")), st)]


@method("opt", "value_or")
def _ovalor(eng, st, e, lv, v, vs):
    outs = []
    for b, s in eng.split(v.has, st):
        outs.append((v.val if b else convert(eng, s, vs[0], v.ty), s))
    return outs


@method("opt", "reset")
def _oreset(eng, st, e, lv, v, vs):
    eng.wr(st, lv, OptV(z3.BoolVal(False), v.val, v.ty))
    return [(VOID, st)]


@method("int", "get")
def _pget(eng, st, e, lv, v, vs):
    return [(v, st)]


@method("int", "release")
def _prelease(eng, st, e, lv, v, vs):
    eng.wr(st, lv, I(0))
    return [(v, st)]


@method("int", "reset")
def _preset(eng, st, e, lv, v, vs):
    eng.wr(st, lv, eng.val(vs[0], st) if vs else I(0))
    return [(VOID, st)]


@method("int", "operator bool", "operator conv")
def _pbool(eng, st, e, lv, v, vs):
    if z3.is_bool(v):
        return [(v, st)]
    return [(simp(v != 0), st)]


def sp_pointee(t):
    h, a = split_targs(t)
    if h in ("std::unique_ptr", "std::shared_ptr"):
        return strip(a[0])
    if h.startswith("std::__shared_ptr_access"):
        return strip(a[0])
    raise Unsupported("smart pointer type " + t)


@method("int", "->", "*")
def _parrow(eng, st, e, lv, v, vs):
    t = sp_pointee(strip(e["args"][0]["t"]))
    eng.oblige(st, v != 0, "non-null pointer dereference")
    if e["op"] == "->":
        return [(v, st)]
    if t in eng.prog.records:
        return [(HeapLV(t, v), st)]
    return [(ValLV(OpaqueV(t, v)), st)]


@method("opaque", "operator conv", "operator bool")
def _opbool(eng, st, e, lv, v, vs):
    if strip(e["t"]) == "bool":
        return [(z3.Bool(_e.uid("opq")), st)]
    return [(OpaqueV(strip(e["t"])), st)]


# opaque streams
@method("stream", "<<")
def _shl(eng, st, e, lv, v, vs):
    if isinstance(v, StructV) and v.cls == "std::ostream":
        return stream_put(eng, st, e, lv, v, vs)
    return [(lv, st)]


def stream_put(eng, st, e, lv, v, vs):
    """Formatted output appends text: integers in decimal, characters and strings as they are."""
    x = eng.val(vs[0], st)
    t = strip(e["args"][1]["t"])
    if isinstance(x, (StrV, _e.LitV)):
        s = as_str(eng, st, x).s
    elif isinstance(x, CharV) or t in ("char", "unsigned char", "signed char"):
        s = chr_s(eng, x)
    elif t == "bool" and isinstance(x, z3.ExprRef) and z3.is_bool(x):
        s = z3.If(x, z3.StringVal("1"), z3.StringVal("0"))
    elif isinstance(x, z3.ExprRef) and z3.is_int(x) and t in INTS:
        s = int_to_str(x)
    else:
        raise Unsupported("stream output of %s" % t)
    eng.wr(st, lv, v.set("text", StrV(simp(z3.Concat(v.f["text"].s, s)))))
    return [(lv, st)]


@method("struct", "str")
def _stream_str(eng, st, e, lv, v, vs):
    if not (isinstance(v, StructV) and v.cls == "std::ostream"):
        raise Unsupported("str() on " + type(v).__name__)
    if vs:
        raise Unsupported("str(text)")
    return [(v.f["text"], st)]


@method("struct", "operator conv", "operator bool", "good")
def _stream_ok(eng, st, e, lv, v, vs):
    return [(z3.BoolVal(True), st)]
