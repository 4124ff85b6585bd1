"""C09: target patterns. Parse and match are executed one after the other, so only what a pattern matches is specified."""
from bazellib import *

TITLE = "Target patterns match exactly the targets and packages they denote"
ASSUME = ["texts shorter than 2^60", "RE2 implements QuoteMeta and full matching (the wildcard's regular expression is compared as text)"]
GL = z3.Function("wildcard.regex", z3.StringSort(), z3.BoolSort(), z3.StringSort())   # regex text of the wildcard text; flag: at its beginning


def gl_def(g, first):
    """Literal pieces quoted, every run of '*' one '.*'."""
    pos = z3.IndexOf(g, S("*"), 0)
    head = z3.SubString(g, 0, pos)
    rest = z3.SubString(g, pos + 1, z3.Length(g) - pos - 1)
    dots = z3.If(z3.Or(first, pos > 0), S(".*"), S(""))
    return GL(g, first) == z3.If(pos < 0, QM(g), z3.Concat(QM(head), dots, GL(rest, z3.BoolVal(False))))


def setup(prog, fn):
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    eng.opts["quick_ms"] = 3000
    re2_models(eng)
    eng.axioms.append(QM(S("")) == S(""))
    st = start(eng, fn)

    def T(eng, ctx):
        out = []
        strs = [lv for lv, v in ctx.mods if isinstance(v, StrV)]
        flags = [lv for lv, v in ctx.mods if z3.is_expr(v) and z3.is_bool(v)]
        for a in strs:
            for b in strs:
                if a is b:
                    continue
                a0, b0 = eng.rd(ctx.entry, a).s, eng.rd(ctx.entry, b).s
                for fl in flags + [None]:
                    for first in (True,):
                        f = lambda s, fl=fl: z3.BoolVal(True) if fl is None else eng.rd(s, fl)
                        out.append(("done + regex of the rest = regex of the wildcard", lambda s, a=a, b=b, f=f, b0=b0, a0=a0: z3.Concat(eng.rd(s, a).s, GL(eng.rd(s, b).s, f(s))) == z3.Concat(a0, GL(b0, z3.BoolVal(True)))))
        return out
    eng.loop_templates.append(T)

    def unfold(eng, entry, h, ctx):
        for lv, v in ctx.mods:
            if isinstance(v, StrV):
                g = eng.rd(h, lv).s
                h.assume(gl_def(g, z3.BoolVal(True)), gl_def(g, z3.BoolVal(False)))
    eng.opts["head_assume"] = [unfold]
    return eng, st


def wf_target(st, t):
    """What ParseFrom guarantees (C08)."""
    p = t.f["package"]
    st.assume(z3.Length(p.f["path"].s) < 1 << 60, z3.Length(p.f["project"].s) < 1 << 60, z3.Length(t.f["target_name"].s) < 1 << 60,
              z3.Not(z3.PrefixOf(S("/"), p.f["path"].s)), z3.Not(z3.SuffixOf(S("/"), p.f["path"].s)))


def spec(t, u):
    """Does the pattern whose label parses to t match target u?  (valid?, matches target, matches package)"""
    n, p = t.f["target_name"].s, t.f["package"]
    up = u.f["package"]
    path = p.f["path"].s
    in_pkg = z3.Or(n == S("__pkg__"), n == S("all"), n == S("*"))
    sub = n == S("__subpackages__")
    dots = z3.Or(path == S("..."), z3.SuffixOf(S("/..."), path))
    above = z3.If(path == S("..."), S(""), z3.SubString(path, 0, z3.Length(path) - 4))
    top = n == S("...")
    star = z3.Contains(n, S("*"))
    valid = z3.If(in_pkg, True, z3.If(sub, True, z3.If(dots, True, z3.If(top, path == S(""), True))))
    rec = lambda a: subtree(p.f["project"].s, a, up)
    tgt = z3.If(in_pkg, pkg_eq(up, p), z3.If(sub, rec(path), z3.If(dots, rec(above), z3.If(top, rec(S("")), z3.And(pkg_eq(up, p), z3.If(
        star, FM(GL(n, z3.BoolVal(True)), u.f["target_name"].s), u.f["target_name"].s == n))))))
    pk = z3.If(z3.Or(sub, z3.And(z3.Not(in_pkg), z3.Or(dots, top))), z3.If(sub, rec(path), z3.If(dots, rec(above), rec(S("")))), pkg_eq(up, p))
    return valid, tgt, pk


def u_parsed(prog):
    c = [f for f in prog.by_q[PAT + "::ParseFrom"] if len(f["params"]) == 1]
    fn = c[0]
    eng, st = setup(prog, fn)
    m_t = fn_of(prog, PAT + "::Match", pt=[BT])
    m_p = fn_of(prog, PAT + "::Match", pt=[BP])
    text = eng.fresh_st(st, "std::string_view", "pattern")
    t = eng.fresh_st(st, BT, "label")
    has = z3.Bool("label parses")
    wf_target(st, t)
    u = eng.fresh_st(st, BT, "target")
    wf_target(st, u)
    n = t.f["target_name"].s
    eng.axioms += [gl_def(n, z3.BoolVal(True))]
    eng.axioms.append(OK(GL(n, z3.BoolVal(True))))      # quoted text is a valid regular expression

    def parse(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            post(eng, s, lib.to_string(eng, s, vs[0]).s == text.s, "the label parsed is the pattern given")
            ctx = eng.val(vs[1], s)
            post(eng, s, z3.And(ctx.f["project"].s == S(""), ctx.f["path"].s == S("")), "a pattern on its own has no context package")
            outs.append((OptV(has, t, BT), s))
        return outs
    eng.overrides[BT + "::ParseFrom"] = parse
    valid, mt, mp = spec(t, u)
    for r, s in run(eng, fn, None, [text], st):
        o = eng.val(r, s)
        post(eng, s, o.has == z3.And(has, valid), "a pattern is accepted exactly when it denotes something")
        s2 = s.fork().assume(o.has)
        if o.val is None or not eng.feasible(s2):
            continue
        cell = eng.new_cell(s2, o.val, PAT, "pattern")
        uc = eng.new_cell(s2, u, BT, "target")
        upc = uc.sub("package")
        for r2, s3 in run(eng, m_t, cell, [uc], s2.fork()):
            post(eng, s3, eng.val(r2, s3) == mt, "the pattern matches exactly the targets it denotes")
        for r2, s3 in run(eng, m_p, cell, [upc], s2.fork()):
            post(eng, s3, eng.val(r2, s3) == mp, "the pattern matches exactly the packages it denotes")
    return eng


def u_default(prog):
    out = []
    fn = [f for f in prog.by_q[PAT + "::BazelPattern"] if len(f["params"]) == 0][0]
    for arg in (BT, BP):
        eng, st = setup(prog, fn)
        m = fn_of(prog, PAT + "::Match", pt=[arg])
        cell = eng.new_cell(st, StructV(PAT, {}), PAT, "pattern")
        u = eng.fresh_st(st, arg, "x")
        for v, s in eng.run_ctor(fn, PAT, [], st, target=cell):
            for r, s2 in run(eng, m, cell, [eng.new_cell(s, u, arg, "x")], s):
                post(eng, s2, eng.val(r, s2) == z3.BoolVal(True), "the default pattern matches every %s" % arg[11:].lower())
        out.append(eng)
    return out


def units(tier):
    return [Unit("parse and match", SRC, u_parsed, timeout=300), Unit("default pattern", SRC, u_default)]


witness = W.searcher("c09.cc", ALL_SRC)
