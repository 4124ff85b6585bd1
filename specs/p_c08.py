"""C08: labels. Parsing against the label grammar, and the print/parse round trip."""
from bazellib import *
import ropes

TITLE = "Bazel labels parse to their parts and print back to an equivalent label"
ASSUME = ["texts shorter than 2^60 bytes", "absl::StrSplit / StrCat / StrContains as documented"]


def has(t, c):
    return z3.Contains(t, S(c))


LT = z3.Function("without.leading.slashes", z3.StringSort(), z3.StringSort())
RT = z3.Function("without.trailing.slashes", z3.StringSort(), z3.StringSort())
SL = S("/")


def lt_def(x):
    return LT(x) == z3.If(z3.PrefixOf(SL, x), LT(z3.SubString(x, 1, z3.Length(x) - 1)), x)


def rt_def(x):
    return RT(x) == z3.If(z3.SuffixOf(SL, x), RT(z3.SubString(x, 0, z3.Length(x) - 1)), x)


def unfold(st, x, depth=3):
    """Definitions of LT at x and its next tails, of RT at what may come out."""
    y = x
    for i in range(depth):
        st.assume(lt_def(y))
        y = z3.SubString(y, 1, z3.Length(y) - 1)
    st.assume(rt_def(LT(x)))


def setup(prog, fn):
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    eng.opts["quick_ms"] = 2000
    eng.opts["rope"] = True
    st = start(eng, fn)

    def T(eng, ctx):
        out = []
        for lv, v in ctx.mods:
            if isinstance(v, StrV):
                e0 = eng.rd(ctx.entry, lv).s
                R = lambda s, lv=lv: eng.rd(s, lv).s
                out.append(("leading slashes are all that is dropped", lambda s, R=R, e0=e0: LT(R(s)) == LT(e0)))
                out.append(("trailing slashes are all that is dropped", lambda s, R=R, e0=e0: RT(R(s)) == RT(e0)))
                out.append(("no leading slash", lambda s, R=R: z3.Not(z3.PrefixOf(SL, R(s)))))
                out.append(("text shorter than given", lambda s, R=R, e0=e0: z3.Length(R(s)) <= z3.Length(e0)))
        return out
    eng.loop_templates.append(T)

    def head(eng, entry, h, ctx):
        for lv, v in ctx.mods:
            if isinstance(v, StrV):
                x = eng.rd(h, lv).s
                h.assume(lt_def(x), rt_def(x))
                n = z3.Length(x)
                h.assume(z3.PrefixOf(SL, x) == z3.And(x != S(""), simp(z3.SubString(x, 0, 1)) == SL), z3.SuffixOf(SL, x) == z3.And(x != S(""), simp(z3.SubString(x, n - 1, 1)) == SL))
    eng.opts["head_assume"] = [head]
    return eng, st


def strip_terms(eng, st, rest):
    """Defining equations for the text without slashes around it, and that text as a term as plain as possible."""
    t = rest
    while True:
        ps = ropes.pieces(st, t)
        if ps and z3.is_string_value(ps[0]) and ropes.lit(ps[0])[0] == 47:
            cs = ropes.lit(ps[0])
            t2 = ropes.build(([ropes.mk(cs[1:])] if len(cs) > 1 else []) + ps[1:])
            st.assume(LT(t) == LT(t2))
            t = t2
            continue
        break
    st.assume(lt_def(t))
    y = t if eng.valid(st.pc, LT(t) == t) else LT(t)
    st.assume(rt_def(y))
    p = y if eng.valid(st.pc, RT(y) == y) else RT(y)
    st.assume(RT(LT(rest)) == p)
    return ropes.norm(st, p)


def pkg_spec(eng, st, x):
    """What a package text denotes: list of (accepted?, project, path, state)."""
    outs = []
    for c, s in ropes.find(eng, st, x, 58, False):
        t = ropes.norm(s, x) if c is None else ropes.cut(eng, s, x, I(0), c)
        for at, s2 in eng.split(z3.PrefixOf(S("@"), t), s):
            if not at:
                p = strip_terms(eng, s2, t)
                outs.append((z3.And(z3.Length(t) >= 2, z3.Not(has(p, "//"))), S(""), p, s2))
                continue
            for sl, s3 in ropes.find(eng, s2, t, 47, True):
                t3 = ropes.norm(s3, t)
                n = z3.Length(t3)
                head = t3 if sl is None else ropes.cut(eng, s3, t3, I(0), sl)
                rest = S("") if sl is None else ropes.cut(eng, s3, t3, sl, simp(n - sl))
                for td, s4 in ropes.find(eng, s3, head, 126, True):
                    h4 = ropes.norm(s4, head)
                    proj = z3.If(h4 == S("@"), S(""), h4) if td is None else ropes.cut(eng, s4, h4, I(0), td)
                    p = strip_terms(eng, s4, ropes.norm(s4, rest))
                    outs.append((z3.And(z3.Length(t) >= 2, z3.Not(has(p, "//"))), simp(proj), p, s4))
    return outs


def use_pkg_contract(eng):
    def f(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            x = lib.to_string(eng, s, vs[0]).s
            for ok, proj, path, s2 in pkg_spec(eng, s, x):
                for b, s3 in eng.split(simp(ok), s2):
                    if b:
                        s3.assume(z3.Not(z3.PrefixOf(SL, path)), z3.Not(z3.SuffixOf(SL, path)), z3.Implies(z3.Not(has(x, ":")), z3.Not(has(path, ":"))))
                    outs.append((OptV(z3.BoolVal(b), StructV(BP, {"project": StrV(proj), "path": StrV(path)}), BP), s3))
        return outs
    eng.overrides[BP + "::ParseFrom"] = f


def u_package(prog):
    fn = fn_of(prog, BP + "::ParseFrom")
    eng, st0 = setup(prog, fn)
    text = eng.fresh_st(st0, "std::string_view", "text")
    st0.assume(z3.Length(text.s) < 1 << 60)
    for ok, proj, path, st in pkg_spec(eng, st0, text.s):
        for r, s in run(eng, fn, None, [text], st):
            o = eng.val(r, s)
            post(eng, s, o.has == ok, "a package is accepted unless it is too short or has empty path elements")
            if o.val is not None and eng.feasible(s.fork().assume(o.has)):
                s.assume(o.has)
                p = o.val.f["path"].s
                post(eng, s, ropes.norm(s, o.val.f["project"].s) == proj, "the project is the leading '@name' without version")
                post(eng, s, p == path, "the path is what follows, without surrounding slashes")
                post(eng, s, z3.And(z3.Not(z3.PrefixOf(SL, p)), z3.Not(z3.SuffixOf(SL, p)), z3.Not(has(p, "//"))), "the path is clean")
    return eng


def u_strip(prog):
    """Stripping slashes adds no colon (used with the package contract): induction over the length of the text."""
    eng = E.Engine(prog, "seq")
    st = E.St()
    st.fn = "lemma"
    x, y = z3.Strings("x y")
    no = lambda t: z3.Not(has(t, ":"))
    for f, name, cat in ((LT, "leading", z3.Concat(SL, y)), (RT, "trailing", z3.Concat(y, SL))):
        post(eng, st.fork().assume(f(x) == x, no(x)), no(f(x)), "stripping %s slashes adds no colon (nothing to strip)" % name)
        post(eng, st.fork().assume(x == cat, no(x), z3.Implies(no(y), no(f(y))), f(x) == f(y)), no(f(x)), "stripping %s slashes adds no colon (step)" % name)
    return eng


def clean_path(p):
    return z3.And(z3.Not(z3.PrefixOf(S("/"), p)), z3.Not(z3.SuffixOf(S("/"), p)), z3.Not(has(p, "//")), z3.Not(has(p, ":")))


def proj_ok(p):
    """'@name': no separators, no version"""
    return z3.And(z3.PrefixOf(S("@"), p), z3.Length(p) >= 2, z3.Not(has(p, "/")), z3.Not(has(p, ":")), z3.Not(has(p, "~")))


def run_parse(eng, prog, st, text, ctx):
    fn = fn_of(prog, BT + "::ParseFrom")
    cc = eng.new_cell(st, ctx, BP, "context")
    use_pkg_contract(eng)
    return run(eng, fn, None, [StrV(text), cc], st)


def u_forms(which):
    def f(prog):
        fn = fn_of(prog, BT + "::ParseFrom")
        eng, st = setup(prog, fn)
        ctx = eng.fresh_st(st, BP, "context")
        path, name, proj, ver = z3.Strings("path name project version")
        for v in (path, name, proj, ver, z3.String("last element"), z3.String("directory part")):
            st.assume(z3.Length(v) < 1 << 60)
        st.assume(clean_path(path), z3.Not(has(name, ":")), z3.Length(name) >= 1, proj_ok(proj))
        cp = ctx.f["project"].s
        last = z3.String("last element")
        up = z3.String("directory part")
        w_proj, w_path, w_name = cp, path, name
        if which == "//path:name":
            text = z3.Concat(S("//"), path, S(":"), name)
        elif which == "@project//path:name":
            text = z3.Concat(proj, S("//"), path, S(":"), name)
            w_proj = proj
        elif which == "@project~version//path:name":
            st.assume(z3.Not(has(ver, "/")), z3.Not(has(ver, ":")))
            text = z3.Concat(proj, S("~"), ver, S("//"), path, S(":"), name)
            w_proj = proj
        elif which.endswith("path"):
            st.assume(z3.Not(has(last, "/")), z3.Length(last) >= 1, clean_path(last))
            w_path = last
            if "dir/" in which:
                w_path = z3.Concat(up, S("/"), last)
                st.assume(z3.Length(up) >= 1, clean_path(w_path), z3.Not(z3.PrefixOf(SL, up)), z3.Not(z3.SuffixOf(SL, up)), z3.Not(has(up, ":")), z3.Not(has(up, "//")))
            text = z3.Concat(S("//"), w_path)
            if which[0] == "@":
                text = z3.Concat(proj, text)
                w_proj = proj
            w_name = last
        elif which == "@project":
            text = proj
            w_proj, w_path = proj, S("")
            w_name = z3.SubString(proj, 1, z3.Length(proj) - 1)
        elif which == ":name":
            text = z3.Concat(S(":"), name)
            w_path = ctx.f["path"].s
        elif which == "name":
            st.assume(z3.Not(has(name, "/")), z3.Not(z3.PrefixOf(S("@"), name)))
            text = name
            w_path = ctx.f["path"].s
        for r, s in run_parse(eng, prog, st, text, ctx):
            o = eng.val(r, s)
            post(eng, s, o.has, "'%s' is accepted" % which)
            if o.val is not None and eng.feasible(s.fork().assume(o.has)):
                v = o.val
                s.assume(o.has)
                post(eng, s, v.f["package"].f["project"].s == w_proj, "'%s': project" % which)
                post(eng, s, v.f["package"].f["path"].s == w_path, "'%s': package path" % which)
                post(eng, s, v.f["target_name"].s == w_name, "'%s': target name" % which)
        return eng
    return f


def u_any(prog):
    """Any text at all: no crash, and at most one colon."""
    fn = fn_of(prog, BT + "::ParseFrom")
    eng, st = setup(prog, fn)
    ctx = eng.fresh_st(st, BP, "context")
    text = eng.fresh_st(st, "std::string_view", "text")
    st.assume(z3.Length(text.s) < 1 << 60)
    for r, s in run_parse(eng, prog, st, text.s, ctx):
        o = eng.val(r, s)
        if o.val is None:
            continue
        s2 = s.fork().assume(o.has)
        if not eng.feasible(s2):
            continue
        v = o.val
        post(eng, s2, z3.Not(has(v.f["target_name"].s, ":")), "a parsed target name contains no colon")
        pp = v.f["package"].f["path"].s
        post(eng, s2, z3.Or(z3.And(v.f["package"].f["project"].s == ctx.f["project"].s, pp == ctx.f["path"].s),
                            z3.And(z3.Not(z3.PrefixOf(S("/"), pp)), z3.Not(z3.SuffixOf(S("/"), pp)), z3.Not(has(pp, "//")), z3.Not(has(pp, ":")))), "a parsed package path is clean")
    return eng


def u_round(prog):
    """Print, then parse what was printed."""
    out = []
    for with_project in (True, False):
        for rel in (False, True):
            fn = fn_of(prog, BT + ("::ToStringRelativeTo" if rel else "::ToString"))
            eng, st = setup(prog, fn)
            t = eng.fresh_st(st, BT, "target")
            if not with_project:
                t = t.set("package", t.f["package"].set("project", StrV(S(""))))
            ctx = eng.fresh_st(st, BP, "context")
            proj, path, name = t.f["package"].f["project"].s, t.f["package"].f["path"].s, t.f["target_name"].s
            for v in (proj, path, name):
                st.assume(z3.Length(v) < 1 << 60)
            st.assume(clean_path(path), z3.Not(has(name, ":")), z3.Length(name) >= 1)
            st.assume(proj_ok(proj) if with_project else z3.And(proj == S(""), ctx.f["project"].s == S("")))
            cell = eng.new_cell(st, t, BT, "target")
            cc = eng.new_cell(st, ctx, BP, "context")
            for r, s in run(eng, fn, cell, [cc] if rel else [], st):
                txt = lib.to_string(eng, s, r).s
                for r2, s2 in run_parse(eng, prog, s, txt, ctx):
                    o = eng.val(r2, s2)
                    nm = ("relative " if rel else "") + ("label with project" if with_project else "label without project")
                    post(eng, s2, o.has, "the printed %s parses" % nm)
                    if o.val is not None and eng.feasible(s2.fork().assume(o.has)):
                        v = o.val
                        s2.assume(o.has)
                        post(eng, s2, v.f["package"].f["project"].s == proj, "print and parse keep the project (%s)" % nm)
                        post(eng, s2, v.f["package"].f["path"].s == path, "print and parse keep the package path (%s)" % nm)
                        post(eng, s2, v.f["target_name"].s == name, "print and parse keep the target name (%s)" % nm)
            out.append(eng)
    return out


def units(tier):
    forms = ["//path:name", "@project//path:name", "@project~version//path:name", "//path", "//dir/path", "@project//path", "@project//dir/path", "@project", ":name", "name"]
    return [Unit("package", SRC, u_package), Unit("stripping", SRC, u_strip), Unit("any text", SRC, u_any)] + [Unit("parse " + w, SRC, u_forms(w)) for w in forms] + [Unit("print and parse", SRC, u_round)]


witness = W.searcher("c08.cc", ALL_SRC)
