"""C28: finding targets. What a walk over a node does to the finder is a function of the node, defined by cases of the node; each visit
function has to do just that, seeing the nodes below only by that function."""
from projlib import *
from dwyulib import quantified

TITLE = "Finding targets visits exactly the matching rule calls"
SRC = ["bant/explore/query-utils.cc"]
TF = "bant::query::TargetFinder"
NEG = z3.Function("node.negative", Z, Z)
S = z3.StringVal
TEXTS = ["name", "include_prefix", "strip_include_prefix", "version", "repo_name", "actual", "deprecation"]
FLAGS = ["alwayslink", "testonly"]
LISTS = {"hdrs": "hdrs_list", "srcs": "srcs_list", "deps": "deps_list", "includes": "includes_list", "outs": "outs_list", "visibility": "visibility",
         "textual_hdrs": "textual_hdrs", "public_hdrs": "public_hdrs"}
ASSUME = AST_ASSUME + ["a call has a name and an argument list (C23)", "calling Accept on a node visits it as what it is (proved for each kind of node here)",
                       "the callback does not change the finder"]


class Walk:
    def __init__(self, prog):
        self.prog = prog
        eng = self.eng = E.Engine(prog, "seq")
        eng.opts["termination"] = True
        eng.opts["fast"] = True
        install(eng)
        self.R = R = eng.so.sort(RES)
        self.en = prog.enums[TF + "::Relevancy"]
        fs = prog.records[TF]["fields"]
        one = lambda what, p: field_of_type(prog, TF, p, what)
        self.f_mode = one("mode", lambda t: t == TF + "::Relevancy")
        self.f_cur = one("result", lambda t: t == RES)
        self.f_vis = one("list", lambda t: t == "bant::List *")
        self.f_empty = one("flag", lambda t: t == "bool")
        self.f_set = one("set", lambda t: "_set<" in t)
        self.f_cb = one("callback", lambda t: t.startswith("std::function"))
        d = z3.Datatype("Walk")
        d.declare("mk.walk", ("walk.log", Z), ("walk.mode", Z), ("walk.cur", R), ("walk.vis", Z))
        self.D = D = d.create()
        D.mk = D.constructor(0)
        for i, f in enumerate(("log", "mode", "cur", "vis")):
            setattr(D, f, D.accessor(0, i))
        self.NOCUR = z3.Const("no result", R)
        self.WALK = z3.Function("walk", D, Z, D)
        self.FOLD = z3.Function("walk elements", D, Z, Z, D)
        self.CALLED = z3.Function("called back", Z, R, Z)
        t, n, l, i = z3.Const("t!w", D), z3.Int("n!w"), z3.Int("l!w"), z3.Int("i!w")
        NO, UQ = I(self.en["kNotRelevant"]), I(self.en["kUserQuery"])
        w = self.WALK(t, n)
        fo = self.FOLD(t, l, i)
        keep = lambda r: z3.And(D.mode(r) == D.mode(t), z3.Or(D.mode(t) == NO, D.log(r) == D.log(t)),
                                z3.Or(D.mode(t) != UQ, z3.And(R.f_node(D.cur(r)) == R.f_node(D.cur(t)), R.f_rule(D.cur(r)) == R.f_rule(D.cur(t)))),
                                z3.Or(D.mode(r) == UQ, D.cur(r) == self.NOCUR, z3.And(D.mode(t) != UQ, D.cur(t) != self.NOCUR)),
                                z3.Or(D.vis(t) < 0, D.vis(t) >= E.TWO64, z3.And(D.vis(r) >= 0, D.vis(r) < E.TWO64)))
        self.keep = lambda t0, r: z3.substitute(keep(z3.Const("r!w", D)), (t, t0), (z3.Const("r!w", D), r))
        # what is proved of every visit; the walk of a sequence is that of its elements
        eng.axioms += [z3.ForAll([t, n], keep(w), patterns=[w]), z3.ForAll([t, l, i], z3.Implies(i >= 0, keep(fo)), patterns=[fo]),
                       z3.ForAll([t, l], self.FOLD(t, l, 0) == t, patterns=[self.FOLD(t, l, 0)]),
                       z3.ForAll([t], self.WALK(t, 0) == t, patterns=[self.WALK(t, 0)]),
                       # a list is visited by visiting its elements (proved by "visit List")
                       z3.ForAll([t, l], z3.Implies(z3.And(l > 0, is_kind(l, "List"), LEN(l) >= 0), self.WALK(t, l) == self.FOLD(t, l, LEN(l))), patterns=[self.WALK(t, l)]),
                       z3.ForAll([t, l, i], z3.Implies(i >= 0, self.FOLD(t, l, i + 1) == self.WALK(fo, ITEM(l, i))), patterns=[self.WALK(fo, ITEM(l, i))])]

        def accept(eng, st, e, _):
            outs = []
            for o, s in eng.ev(e["obj"], st):
                a = eng.val(o, s)
                a = a.lv.addr if isinstance(a, PtrV) and isinstance(a.lv, HeapLV) else a
                eng.oblige(s, a != 0, "a node that is there is visited")
                for vs, s2 in eng.evs(e["args"], s):
                    v = eng.val(vs[0], s2)
                    if not (isinstance(v, PtrV) and v.lv is self.this_lv or repr(getattr(v, "lv", None)) == repr(self.this_lv)):
                        raise Unsupported("visitor other than the finder")
                    self.on_walk(s2, a)
                    self.set(s2, self.WALK(self.state(s2), a))
                    outs.append((VOID, s2))
            return outs
        eng.overrides["ctor std::equal_to<void>"] = eng.overrides["ctor absl::HashFor<std::string_view, void>"] = lambda eng, st, e, *_: [(OpaqueV("hash"), st)]
        for c in ["Node", "Identifier", "Assignment", "Scalar", "List", "BinOpNode", "FunCall", "UnaryExpr", "Ternary", "ListComprehension"]:
            eng.overrides["bant::%s::Accept" % c] = accept
        self.on_walk = lambda s, a: None

        def child(f):
            def ov(eng, st, e, _):
                outs = []
                for o, s in eng.ev(e["obj"], st):
                    a = eng.val(o, s) if e.get("arrow") else o
                    a = a.lv.addr if isinstance(a, PtrV) and isinstance(a.lv, HeapLV) else a.addr if isinstance(a, HeapLV) else a
                    s.assume(f(a) >= 0, f(a) < E.TWO64)
                    outs.append((f(a), s))
                return outs
            return ov
        for q, f in (("UnaryExpr::node", LEFT), ("ListComprehension::for_node", LEFT), ("Ternary::positive", LEFT), ("Ternary::condition", RIGHT), ("Ternary::negative", NEG)):
            eng.overrides["bant::" + q] = child(f)

        def called(eng, st, e, _):
            outs = []
            for vs, s in eng.evs(e["args"], st):
                s.g["$log"] = self.CALLED(s.g["$log"], val_of_result(eng, s, vs[-1]))
                outs.append((VOID, s))
            return outs

        def val_of_result(eng, s, v):
            return eng.so.reify(eng.val(v, s), RES)
        self.cb_t = strip([f["t"] for f in fs if f["n"] == self.f_cb][0])
        eng.overrides[self.cb_t + "::operator()"] = called
        self.wanted = lambda s, x: z3.Or(self.set0.n == 0, z3.Select(self.set0.a, x))

    def begin(self, name):
        """An arbitrary moment of a walk."""
        prog, eng = self.prog, self.eng
        c = [f for k in (TF, "bant::BaseVoidVisitor") for f in prog.by_q.get(k + "::" + name, [])]
        if not c:
            raise Unsupported(name)
        fn = c[0]
        st = start(eng, fn)
        obj = eng.fresh_st(st, TF, "finder")
        self.this_lv = eng.new_cell(st, obj, TF, "finder")
        self.set0, self.empty0 = obj.f[self.f_set], obj.f[self.f_empty]
        x = z3.String("x!set")
        # a set without elements contains nothing
        st.assume(self.set0.n >= 0, z3.Implies(self.set0.n == 0, self.set0.a == z3.K(z3.StringSort(), z3.BoolVal(False))))
        st.g["$log"] = z3.Int("calls so far")
        m = obj.f[self.f_mode]
        st.assume(z3.Or([m == v for v in self.en.values()]))
        st.assume(obj.f[self.f_vis] >= 0, obj.f[self.f_vis] < E.TWO64)
        self.t0 = self.state(st)
        eng.loop_templates.append(self.template)
        return fn, st

    def template(self, eng, ctx):
        if "list" not in (ctx.hidden or {}):
            return []
        l, idx = ctx.hidden["list"], ctx.hidden["idx"]
        t0 = self.state(ctx.entry)
        return [("the elements so far were visited in order", lambda s: self.same(self.state(s), self.FOLD(t0, l, eng.rd(s, idx)))),
                ("position in the list", lambda s: z3.And(eng.rd(s, idx) >= 0, eng.rd(s, idx) <= LEN(l)))]

    def same(self, a, b):
        D = self.D
        return z3.And(D.log(a) == D.log(b), D.mode(a) == D.mode(b), D.vis(a) == D.vis(b), z3.Or(D.mode(a) != self.en["kUserQuery"], D.cur(a) == D.cur(b)))

    def state(self, s):
        o = self.eng.rd(s, self.this_lv)
        cur = self.eng.so.reify(o.f[self.f_cur], RES)
        mode = o.f[self.f_mode]
        return self.D.mk(s.g["$log"], mode, z3.If(mode == self.en["kUserQuery"], cur, self.NOCUR), o.f[self.f_vis])

    def set(self, s, t):
        o = self.eng.rd(s, self.this_lv)
        f = dict(o.f)
        s.g["$log"] = self.D.log(t)
        f[self.f_mode], f[self.f_vis] = self.D.mode(t), self.D.vis(t)
        # what has been gathered only matters within a wanted call
        other = self.eng.so.reify(self.eng.fresh_st(s, RES, "leftover"), RES)
        f[self.f_cur] = self.eng.so.reflect(z3.If(self.D.mode(t) == self.en["kUserQuery"], self.D.cur(t), other), RES)
        self.eng.wr(s, self.this_lv, StructV(TF, f))

    def result(self, **kw):
        """A result with nothing but the given fields."""
        v = {}
        for f in self.prog.records[RES]["fields"]:
            t = strip(f["t"])
            v[f["n"]] = S("") if "string_view" in t else z3.BoolVal(False) if t == "bool" else I(0)
        v.update(kw)
        return self.R.mk(*[v[f["n"]] for f in self.prog.records[RES]["fields"]])

    def upd(self, r, **kw):
        return self.R.mk(*[kw.get(f["n"], getattr(self.R, "f_" + f["n"])(r)) for f in self.prog.records[RES]["fields"]])


def u_visit(prog, name):
    W_ = Walk(prog)
    eng, D, R, en = W_.eng, W_.D, W_.R, W_.en
    fn, st = W_.begin(name)
    n = z3.Int("node")
    st.assume(n > 0, n < E.TWO64)
    for f in (LEFT, RIGHT, NEG):
        st.assume(f(n) >= 0, f(n) < E.TWO64)
    kind = name[5:]
    t, NO, UQ, PI = W_.t0, I(en["kNotRelevant"]), I(en["kUserQuery"]), I(en["kPackageInfo"])
    w = W_.WALK
    if kind == "List":
        want = W_.FOLD(t, n, LEN(n))
        st.assume(LEN(n) >= 0)
    elif kind in ("UnaryExpr", "ListComprehension"):
        want = w(t, LEFT(n))
    elif kind == "BinOpNode":
        want = w(w(t, LEFT(n)), RIGHT(n))
    elif kind == "Ternary":
        want = w(w(w(t, RIGHT(n)), LEFT(n)), NEG(n))
    elif kind in ("Scalar", "Identifier"):
        want = t
    elif kind == "Assignment":
        ident = z3.And(LEFT(n) != 0, is_kind(LEFT(n), "Identifier"), RIGHT(n) != 0)
        v, key = RIGHT(n), TEXT(LEFT(n))
        st.assume(KIND(n) == KINDS["Assignment"])
        ch = {}
        cur = D.cur(t)
        old = lambda f: getattr(R, "f_" + f)(cur)
        for f in TEXTS:
            ch[f] = z3.If(z3.And(ident, key == S(f), is_kind(v, "Scalar")), TEXT(v), old(f))
        for f in FLAGS:
            ch[f] = z3.If(z3.And(ident, key == S(f), is_kind(v, "Scalar")), INTV(v) != 0, z3.If(z3.And(ident, key == S(f), is_kind(v, "Identifier")), TEXT(v) == S("True"), old(f)))
        for a, f in LISTS.items():
            ch[f] = z3.If(z3.And(ident, key == S(a), is_kind(v, "List")), v, old(f))
        vis = z3.If(z3.And(D.mode(t) == PI, ident, key == S("default_visibility"), is_kind(v, "List")), v, D.vis(t))
        want = D.mk(D.log(t), D.mode(t), z3.If(D.mode(t) == UQ, W_.upd(cur, **ch), W_.NOCUR), vis)
    elif kind == "FunCall":
        st.assume(LEFT(n) > 0, RIGHT(n) > 0, LEN(RIGHT(n)) >= 0, is_kind(LEFT(n), "Identifier"), is_kind(RIGHT(n), "List"))
        rule, args = TEXT(LEFT(n)), RIGHT(n)
        ispkg = rule == S("package")
        wanted = W_.wanted(st, rule)
        r0 = W_.result(node=n, rule=rule)
        inpkg = W_.FOLD(D.mk(D.log(t), PI, W_.NOCUR, D.vis(t)), args, LEN(args))
        inq = W_.FOLD(D.mk(D.log(t), UQ, r0, D.vis(t)), args, LEN(args))
        c = D.cur(inq)
        nohdr = z3.And(rule == S("cc_library"), z3.Or(R.f_hdrs_list(c) == 0, LEN(R.f_hdrs_list(c)) == 0))
        st.assume(LEN(R.f_hdrs_list(c)) >= 0)
        told = W_.upd(c, node=n, rule=rule, alwayslink=z3.Or(R.f_alwayslink(c), nohdr), visibility=z3.If(R.f_visibility(c) == 0, D.vis(inq), R.f_visibility(c)))
        tells = z3.Or(W_.empty0, R.f_name(c) != S(""))
        after = z3.If(ispkg, D.mk(D.log(t), NO, W_.NOCUR, D.vis(inpkg)),
                      z3.If(wanted, D.mk(z3.If(tells, W_.CALLED(D.log(t), told), D.log(t)), NO, W_.NOCUR, D.vis(inq)), t))
        want = z3.If(D.mode(t) == NO, after, w(t, args))
    else:
        raise Unsupported(kind)
    st.assume(W_.keep(t, t))
    P = eng.so.reflect(n, fn["params"][0]["t"])
    for _, s in run(eng, fn, W_.this_lv, [P], st):
        got = W_.state(s)
        s.assume(W_.WALK(t, n) == want)                 # the definition of the walk, for this node
        post(eng, s, W_.same(got, want), "%s: what is done is what the search does at such a node, in order" % kind)
        post(eng, s, W_.keep(t, got), "%s: the call in progress stays, nothing is reported within it" % kind)
    return eng


def u_accept(prog, cls):
    """Accepting a visitor visits the node as what it is."""
    fns = [f for f in prog.by_q["bant::%s::Accept" % cls] if "VoidVisitor" in f["params"][0]["t"]]
    if len(fns) != 1:
        raise Unsupported("Accept of " + cls)
    fn = fns[0]
    eng = E.Engine(prog, "seq")
    st = start(eng, fn)
    n, v = z3.Int("node"), z3.Int("visitor")
    st.assume(n > 0, v > 0)
    st.g["$visits"] = []

    def mk(k):
        def ov(eng, st, e, _):
            outs = []
            for o, s in eng.ev(e["obj"], st):
                for vs, s2 in eng.evs(e["args"], s):
                    a, b = eng.val(o, s2), eng.val(vs[0], s2)
                    ad = lambda x: x.lv.addr if isinstance(x, PtrV) and isinstance(x.lv, HeapLV) else x
                    s2.g["$visits"] = s2.g["$visits"] + [(k, ad(a), ad(b))]
                    outs.append((VOID, s2))
            return outs
        return ov
    kinds = ["Assignment", "FunCall", "List", "BinOpNode", "UnaryExpr", "ListComprehension", "Ternary", "Scalar", "Identifier"]
    for k in kinds:
        eng.overrides["bant::VoidVisitor::Visit" + k] = mk(k)
    for _, s in run(eng, fn, HeapLV("bant::" + cls, n), [eng.so.reflect(v, fn["params"][0]["t"])], st):
        vs = s.g["$visits"]
        post(eng, s, z3.BoolVal(len(vs) == 1 and vs[0][0] == cls), "accepting a visitor visits the node once, as what it is")
        for k, a, b in vs:
            post(eng, s, z3.And(a == v, b == n), "it is this visitor and this node")
    return eng


def u_find(prog, name, allow):
    W_ = Walk(prog)
    eng, D = W_.eng, W_.D
    fn = fn_of(prog, "bant::query::" + name)
    st = start(eng, fn)
    st.g["$log"] = z3.Int("calls so far")
    ast = z3.Int("tree")
    st.assume(ast >= 0, ast < E.TWO64)
    rules = TupV([StrV(z3.String("rule%d" % i)) for i in range(2)], "std::string_view")
    cb = eng.new_cell(st, OpaqueV(W_.cb_t), W_.cb_t, "callback")
    st.g["$walks"] = 0

    def accept(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            a = eng.val(o, s)
            a = a.lv.addr if isinstance(a, PtrV) and isinstance(a.lv, HeapLV) else a
            for vs, s2 in eng.evs(e["args"], s):
                v = eng.val(vs[0], s2)
                lv = v.lv if isinstance(v, PtrV) else v
                f = eng.rd(s2, lv)
                x = z3.String("x!r")
                post(eng, s2, a == ast, "the tree given is searched")
                post(eng, s2, z3.ForAll([x], z3.Select(f.f[W_.f_set].a, x) == z3.Or([x == r.s for r in rules.items])), "the rules looked for are the ones given")
                post(eng, s2, (f.f[W_.f_set].n == 0) == z3.BoolVal(not rules.items), "all rules are looked for only if none is given")
                post(eng, s2, f.f[W_.f_empty] == z3.BoolVal(allow), "nameless rules are reported only if asked for")
                post(eng, s2, z3.And(f.f[W_.f_mode] == W_.en["kNotRelevant"], f.f[W_.f_vis] == 0), "the search starts outside of any call, without a default visibility")
                c = f.f[W_.f_cb]
                post(eng, s2, z3.BoolVal(repr(getattr(c, "lv", c)) == repr(cb)), "what is found is told to the callback given")
                s2.g["$walks"] += 1
                outs.append((VOID, s2))
        return outs
    for c in ["Node"]:
        eng.overrides["bant::%s::Accept" % c] = accept
    for _, s in run(eng, fn, None, [eng.so.reflect(ast, fn["params"][0]["t"]), rules, cb], st):
        post(eng, s, z3.If(ast == 0, s.g["$walks"] == 0, s.g["$walks"] == 1), "the tree is searched once")
    return eng


def u_strings(prog, name):
    """The texts of a list: COUNT(l, i) non-empty texts among the first i elements."""
    fn = fn_of(prog, "bant::query::" + name)
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    install(eng)
    st = start(eng, fn)
    l = z3.Int("list")
    st.assume(l >= 0, l < E.TWO64, LEN(l) >= 0)
    COUNT = z3.Function("texts among the first", Z, Z, Z)
    i = z3.Int("i!c")
    has = lambda k: z3.And(is_kind(ITEM(l, k), "Scalar"), TEXT(ITEM(l, k)) != S(""))
    eng.axioms += [COUNT(l, 0) == 0, z3.ForAll([i], z3.Implies(i >= 0, COUNT(l, i + 1) == COUNT(l, i) + z3.If(has(i), 1, 0)), patterns=[ITEM(l, i)]),
                   z3.ForAll([i], z3.Implies(i >= 0, z3.And(COUNT(l, i) >= 0, COUNT(l, i) <= i)), patterns=[COUNT(l, i)])]
    vt = "std::vector<std::string_view>"
    append = len(fn["params"]) == 2
    if append:
        v0 = eng.fresh_st(st, strip(fn["params"][1]["t"]), "before")
        st.assume(v0.n >= 0, v0.n < 1 << 59)
        cell = eng.new_cell(st, v0, strip(fn["params"][1]["t"]), "texts")
        args = [eng.so.reflect(l, fn["params"][0]["t"]), cell]
        n0, a0 = v0.n, v0.a
    else:
        args = [eng.so.reflect(l, fn["params"][0]["t"])]
        n0, a0 = I(0), None
    # a text found before the i-th element is counted there (induction over i)
    j = z3.Int("j!c")
    mono = lambda a, b: COUNT(l, a) + z3.If(has(a), 1, 0) <= COUNT(l, b)
    k0, i0 = z3.Ints("k0 i0")
    s = st.fork().assume(0 <= k0, k0 < i0, mono(k0, i0))
    post(eng, s, mono(k0, k0 + 1), "counting texts: start")
    post(eng, s, z3.And(z3.Implies(ITEM(l, i0) == ITEM(l, i0), mono(k0, i0 + 1))), "counting texts: step")
    eng.axioms.append(z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < i), mono(j, i)), patterns=[z3.MultiPattern(COUNT(l, j), COUNT(l, i))]))
    k = z3.Int("k!s")
    TX = lambda v, j: eng.so.reflect(z3.Select(v.a, j), "std::string_view").s

    def good(v, upto):
        c = [v.n == n0 + COUNT(l, upto),
             z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto, has(k)), TX(v, n0 + COUNT(l, k)) == TEXT(ITEM(l, k))), patterns=[ITEM(l, k)])]
        if a0 is not None:
            c.append(quantified(z3.ForAll, [k], z3.Implies(z3.And(0 <= k, k < n0), z3.Select(v.a, k) == z3.Select(a0, k)), z3.Select(v.a, k)))
        return c

    def T(eng, ctx):
        if "list" not in (ctx.hidden or {}):
            return []
        idx = ctx.hidden["idx"]
        out = [("position in the list", lambda s: z3.And(eng.rd(s, idx) >= 0, eng.rd(s, idx) <= LEN(l)))]
        for lv, v in ctx.mods:
            if type(v).__name__ == type(eng.fresh_st(st.fork(), vt, "x")).__name__:
                for j in range(3 if append else 2):
                    out.append(("the texts so far, in order %d" % j, lambda s, lv=lv, j=j: good(eng.rd(s, lv), eng.rd(s, idx))[j]))
        return out
    eng.loop_templates.append(T)
    for r, s in run(eng, fn, None, args, st):
        v = eng.rd(s, cell) if append else eng.val(r, s)
        names = ["as many texts as there are non-empty ones", "every non-empty text is there, in order", "what was there before stays"]
        for c, nm in zip(good(v, LEN(l)), names):
            post(eng, s, z3.Implies(l != 0, c), nm)
        post(eng, s, z3.Implies(l == 0, v.n == n0), "no list has no texts")
    return eng


KINDS_ALL = ["Assignment", "FunCall", "List", "BinOpNode", "UnaryExpr", "ListComprehension", "Ternary", "Scalar", "Identifier"]


def units(tier):
    return ([Unit("visit " + k, SRC, lambda prog, k=k: u_visit(prog, "Visit" + k)) for k in KINDS_ALL]
            + [Unit("accept " + k, SRC, lambda prog, k=k: u_accept(prog, k)) for k in KINDS_ALL]
            + [Unit("FindTargets", SRC, lambda prog: u_find(prog, "FindTargets", False)), Unit("FindTargetsAllowEmptyName", SRC, lambda prog: u_find(prog, "FindTargetsAllowEmptyName", True)),
               Unit("AppendStringList", SRC, lambda prog: u_strings(prog, "AppendStringList")), Unit("ExtractStringList", SRC, lambda prog: u_strings(prog, "ExtractStringList"))])


witness = W.searcher("c28.cc", ALL_SRC)
