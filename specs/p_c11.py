"""C11: external projects. The index is an ordered map from (project, version) to a directory."""
from speclib import *

TITLE = "External projects resolve to an installed directory of that project"
SRC = ["bant/workspace.cc"]
S = z3.StringVal
VP, WS, FP = "bant::VersionedProject", "bant::BazelWorkspace", "bant::FilesystemPath"
EXT = "bazel-out/../../../external"       # where bazel keeps the external projects, seen from the workspace
ASSUME = ["ordered-map contract of absl::btree_map (lower_bound, operator[], iteration order by the key's operator<=>)",
          "order of texts: a strict total order whose least element is the empty text",
          "file system queries are functions of the path text; joining and file names by their contract (C12); Glob() returns the paths matching its pattern",
          "bazel's directories of external projects have names that do not start with '@'", "texts shorter than 2^60"]
NAME = z3.Function("file name of", z3.StringSort(), z3.StringSort())
ISDIR = z3.Function("is directory", z3.StringSort(), z3.BoolSort())
CANR = z3.Function("is readable", z3.StringSort(), z3.BoolSort())


def cut(t):
    """(project, version, well-formed) of a directory name"""
    i = z3.IndexOf(t, S("~"), 0)
    n = z3.Length(t)
    return (z3.If(i < 0, t, z3.SubString(t, 0, i)), z3.If(i < 0, S(""), z3.SubString(t, i + 1, n - i - 1)), z3.And(n > 0, i != 0))


def setup(prog, fn):
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    eng.opts["text_order"] = eng.opts["record_order"] = True
    st = start(eng, fn)
    pf = field_of_type(prog, FP, lambda t: t == "std::string", "path text")

    def query(f, text=False):
        def ov(eng, st, e, _):
            outs = []
            for o, s in eng.ev(e["obj"], st):
                v = eng.val(o, s)
                r = f(v.f[pf].s)
                outs.append((StrV(r) if text else r, s))
            return outs
        return ov

    def glob(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            v = eng.fresh_st(s, "std::vector<%s>" % FP, "globbed")
            s.g["$glob"] = s.g["$glob"] + ((lib.to_string(eng, s, vs[0]).s, v),)
            outs.append((v, s))
        return outs
    eng.overrides[FP + "::filename"] = query(NAME, True)
    eng.overrides[FP + "::is_directory"] = query(ISDIR)
    eng.overrides[FP + "::can_read"] = query(CANR)
    eng.overrides["bant::Glob"] = glob
    st.g["$glob"] = ()
    return eng, st, pf


def ws(prog, eng, st):
    v = eng.fresh_st(st, WS, "ws")
    f = field_of_type(prog, WS, lambda t: split_targs(t)[0] in MAPS, "index of projects")
    return eng.new_cell(st, v, WS, "ws"), f, v.f[f]


def keyf(eng):
    so = eng.so.sort(VP)
    return so, (lambda k: so.f_project(k)), (lambda k: so.f_version(k)), (lambda p, v: so.mk(p, v))


def asked(name):
    return z3.If(z3.PrefixOf(S("@"), name), z3.SubString(name, 1, z3.Length(name) - 1), name)


def u_dir(prog):
    fn = fn_of(prog, VP + "::ParseFromDir")
    eng, st, pf = setup(prog, fn)
    d = eng.fresh_st(st, "std::string_view", "dir")
    st.assume(z3.Length(d.s) < 1 << 60)
    p, v, ok = cut(d.s)
    for r, s in run(eng, fn, None, [d], st):
        r = eng.val(r, s)
        post(eng, s, eng.bool(r.has) == ok, "every non-empty directory name that starts with a project name is one")
        s2 = s.fork().assume(eng.bool(r.has))
        post(eng, s2, r.val.f["project"].s == p, "the project is the text before the first '~'")
        post(eng, s2, r.val.f["version"].s == v, "the version is the text behind the first '~'")
    return eng


def u_find(prog):
    fn = fn_of(prog, WS + "::FindEntryByProject")
    eng, st, pf = setup(prog, fn)
    this, f, m = ws(prog, eng, st)
    name = eng.fresh_st(st, "std::string_view", "name")
    so, P, V, mk = keyf(eng)
    x = z3.Const("x!q", so)
    d = lambda k: z3.Select(m.dom, k)
    for r, s in run(eng, fn, this, [name], st):
        it = eng.val(r, s)
        end = eng.bool(it.end)
        post(eng, s, z3.Implies(z3.Not(end), z3.And(d(it.pos), P(it.pos) == asked(name.s))), "an entry found is a registered one of that very project")
        w = z3.Const("registered", so)
        s2 = s.fork().assume(end, d(w), P(w) == asked(name.s))
        s2.assume(name.s != S(""))
        post(eng, s2, z3.BoolVal(False), "a registered project is found")
        post(eng, s, eng.so.reify(eng.rd(s, this), WS) == eng.so.reify(StructV(WS, {f: m}), WS), "looking up changes nothing")
    return eng


def u_path(prog):
    fn = fn_of(prog, WS + "::FindPathByProject")
    eng, st, pf = setup(prog, fn)
    this, f, m = ws(prog, eng, st)
    name = eng.fresh_st(st, "std::string_view", "name")
    so, P, V, mk = keyf(eng)
    x = z3.Const("x!q", so)
    d = lambda k: z3.Select(m.dom, k)
    for r, s in run(eng, fn, this, [name], st):
        r = eng.val(r, s)
        has = eng.bool(r.has)
        s1 = s.fork().assume(has)
        if eng.feasible(s1):
            post(eng, s1, z3.Exists([x], z3.And(d(x), P(x) == asked(name.s), z3.Select(m.val, x) == eng.so.reify(r.val, FP))), "the directory returned is registered for that very project")
        w = z3.Const("registered", so)
        s2 = s.fork().assume(z3.Not(has), d(w), P(w) == asked(name.s), name.s != S(""))
        post(eng, s2, z3.BoolVal(False), "a registered project has a directory")
    return eng


def u_augment(prog):
    fn = fn_of(prog, "bant::BestEffortAugmentFromExternalDir")
    eng, st, pf = setup(prog, fn)
    this, f, m0 = ws(prog, eng, st)
    so, P, V, mk = keyf(eng)
    FS = eng.so.sort(FP)
    text = lambda v: getattr(FS, "f_" + pf)(v)
    x = z3.Const("x!q", so)
    j = z3.Int("j!q")
    t0 = z3.String("t!n")
    eng.axioms.append(z3.ForAll([t0], z3.Length(NAME(t0)) < 1 << 60, patterns=[NAME(t0)]))
    ats = z3.String("t!at")
    kept = lambda m: z3.ForAll([x], z3.Implies(z3.Select(m0.dom, x), z3.And(z3.Select(m.dom, x), z3.Select(m.val, x) == z3.Select(m0.val, x))), patterns=[z3.Select(m.dom, x)])
    IN = z3.Function("is among the directories found", FS, z3.BoolSort())
    PARTS = [z3.Function("named project", z3.StringSort(), z3.StringSort()), z3.Function("named version", z3.StringSort(), z3.StringSort()), z3.Function("names a project", z3.StringSort(), z3.BoolSort())]

    eng.axioms.append(z3.ForAll([ats], z3.Not(z3.PrefixOf(S("@"), PARTS[0](ats))), patterns=[PARTS[0](ats)]))
    # parsing a directory name, by its contract (proved above)
    def parse(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            t = lib.to_string(eng, s, vs[0]).s
            p, v, ok = [g(t) for g in PARTS]
            outs.append((OptV(ok, StructV(VP, {"project": StrV(p), "version": StrV(v)}), VP), s))
        return outs
    eng.overrides[VP + "::ParseFromDir"] = parse

    # looking up a project, by its contract (proved above)
    def find(eng, st, e, _):
        outs = []
        for ob, s in eng.ev(e["obj"], st):
            for vs, s1 in eng.evs(e["args"], s):
                n = asked(lib.to_string(eng, s1, vs[0]).s)
                mp = eng.rd(s1, eng.obj_lv(ob, e, s1)).f[f]
                k = z3.Const(E.uid("found"), so)
                has = z3.Bool(E.uid("has"))
                s1.assume(z3.Implies(has, z3.And(z3.Select(mp.dom, k), P(k) == n)),
                          z3.Implies(z3.Not(has), z3.ForAll([x], z3.Implies(z3.Select(mp.dom, x), P(x) != n), patterns=[z3.Select(mp.dom, x)])))
                outs.append((OptV(has, eng.so.reflect(z3.Select(mp.val, k), FP), FP), s1))
        return outs
    eng.overrides[WS + "::FindPathByProject"] = find
    own = lambda k, v: z3.And(IN(v), ISDIR(text(v)), PARTS[2](NAME(text(v))), P(k) == PARTS[0](NAME(text(v))), V(k) == PARTS[1](NAME(text(v))))
    new = lambda m: z3.ForAll([x], z3.Implies(z3.And(z3.Select(m.dom, x), z3.Not(z3.Select(m0.dom, x))), own(x, z3.Select(m.val, x))), patterns=[z3.Select(m.dom, x)])
    proj = lambda a: PARTS[0](NAME(text(a)))
    wk = z3.Int("w!dir")

    def covered(m, ga, upto):
        """the project of directory number wk (any one) has an entry, once it has been looked at"""
        a = z3.Select(ga, wk)
        return z3.Implies(z3.And(0 <= wk, wk < upto, ISDIR(text(a)), PARTS[2](NAME(text(a)))), z3.Exists([x], z3.And(z3.Select(m.dom, x), z3.Or(P(x) == proj(a), P(x) == asked(proj(a)))), patterns=[z3.Select(m.dom, x)]))

    def T(eng, ctx):
        out = []
        g = ctx.entry.g["$glob"]
        for lv, v in ctx.mods:
            if isinstance(v, MapV):
                R = lambda s, lv=lv: eng.rd(s, lv)
                out.append(("known projects stay as they are", lambda s, R=R: kept(R(s))))
                out.append(("a new entry is a directory of that project", lambda s, R=R: new(R(s))))
                for i in ctx.ints():
                    for _, gv in g:
                        out.append(("every directory looked at has its project registered", lambda s, R=R, i=i, gv=gv: covered(R(s), gv.a, eng.rd(s, i))))
        for fl, v in ctx.mods:
            if z3.is_expr(v) and z3.is_bool(v):
                for lv, v2 in ctx.mods:
                    if isinstance(v2, MapV):
                        out.append(("nothing new as long as nothing was found", lambda s, fl=fl, lv=lv: z3.Implies(z3.Not(eng.rd(s, fl)), eng.rd(s, lv).dom == m0.dom)))
        return out
    eng.loop_templates.append(T)
    eng.opts["quick_ms"] = 2000

    def among(eng, st, e, _):
        outs = glob0(eng, st, e, _)
        for v, s in outs:
            s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), IN(z3.Select(v.a, j))), patterns=[z3.Select(v.a, j)]))
        return outs
    glob0 = eng.overrides["bant::Glob"]
    eng.overrides["bant::Glob"] = among
    for r, s in run(eng, fn, None, [this], st):
        m = eng.rd(s, this).f[f]
        g = s.g["$glob"]
        for pat, v in g:
            post(eng, s, pat == S(EXT + "/*"), "the directories looked at are those of bazel's external projects")
        post(eng, s, kept(m), "projects known before stay as they are")
        post(eng, s, new(m), "a new entry leads to an installed directory of that very project")
        if len(g) == 1:
            post(eng, s, covered(m, g[0][1].a, g[0][1].n), "every installed directory has its project registered")
        else:
            post(eng, s, z3.BoolVal(False), "every installed directory has its project registered")
    return eng


def u_archive(prog):
    """What LoadWorkspace does for one http_archive() or bazel_dep()."""
    fn = fn_of(prog, "bant::LoadWorkspace")
    eng, st, pf = setup(prog, fn)
    R = "bant::query::Result"

    def find(x, out, decls):
        if isinstance(x, dict):
            if x.get("k") == "Lambda" and len(x["params"]) == 1 and strip(x["params"][0]["t"]) == R:
                out.append(x)
            for v in x.values():
                find(v, out, decls)
        elif isinstance(x, list):
            for v in x:
                find(v, out, decls)
        return out
    ls = find(fn["body"], [], {})
    if len(ls) != 1:
        raise Unsupported("the callback of LoadWorkspace")
    this = None
    env = {}
    for c in ls[0]["caps"]:
        t = strip(c["init"]["t"])
        if t == WS:
            this, f, m0 = ws(prog, eng, st)
            env[c["id"]] = this
        else:
            env[c["id"]] = eng.new_cell(st, OpaqueV(t), t, c["n"])
    if this is None:
        raise Unsupported("the callback does not fill the index")
    res = eng.fresh_st(st, R, "result")
    name, version, repo = (res.f[k].s for k in ("name", "version", "repo_name"))
    st.assume(z3.Length(name) < 1 << 60, z3.Length(version) < 1 << 59)
    rc = eng.new_cell(st, res, R, "result")
    so, P, V, mk = keyf(eng)

    def join(eng, st, e, vs):
        if len(vs) != 2:
            return None
        a, b = lib.to_string(eng, st, vs[0]).s, lib.to_string(eng, st, vs[1]).s
        a = simp(a)
        if not z3.is_string_value(a) or a.as_string().endswith("/"):
            raise Unsupported("directory to join with")
        v = eng.fresh_st(st, FP, "joined")
        st.assume(v.f[pf].s == z3.Concat(a, S("/"), b))
        return [(v, st)]
    eng.overrides["ctor " + FP] = join
    usable = lambda t: z3.And(ISDIR(t), CANR(t))
    d1 = z3.Concat(S(EXT + "/"), name, S("~"), version)
    d2 = z3.Concat(S(EXT + "/"), name)
    d3 = z3.Concat(S(EXT + "/"), name, S("~override"))
    eng.opts["unroll_known"] = 8
    for q in ("bant::NamedLineIndexedContent::Loc", "bant::SourceLocator::Loc"):
        eng.overrides[q] = lambda eng, st, e, _: [(OpaqueV("std::ostream"), s) for vs, s in eng.evs(e["args"], st)]
    for r, s in eng.call_lambda(LamV(ls[0], env, None), [rc], st):
        m = eng.rd(s, this).f[f]
        g = s.g["$glob"]
        key = mk(z3.If(repo == S(""), name, repo), version)
        dom, val = z3.Select(m.dom, key), z3.Select(m.val, key)
        text = getattr(eng.so.sort(FP), "f_" + pf)(val)
        some = z3.Or(z3.And(version != S(""), usable(d1)), usable(d2), usable(d3))
        choices = [z3.And(version != S(""), text == d1), text == d2, text == d3]
        for pat, v in g:
            post(eng, s, pat == z3.Concat(S(EXT + "/"), name, S("~*")), "other versions looked for are those of the project")
            choices.append(z3.And(v.n > 0, text == getattr(eng.so.sort(FP), "f_" + pf)(z3.Select(v.a, I(0)))))
        changed = z3.Not(z3.And(m.dom == m0.dom, m.val == m0.val))
        y = z3.Const("y!other", so)
        post(eng, s, z3.Implies(changed, z3.And(dom, z3.Or(*choices), usable(text))), "a project is registered with an installed directory named after it")
        s3 = s.fork().assume(y != key)
        post(eng, s3, z3.And(z3.Select(m.dom, y) == z3.Select(m0.dom, y), z3.Select(m.val, y) == z3.Select(m0.val, y)), "other projects are left alone")
        post(eng, s, z3.Implies(some, z3.And(dom, z3.Or(*choices), usable(text))), "a project whose directory exists is registered")
    return eng


def units(tier):
    return [Unit("directory name", SRC, u_dir), Unit("find entry", SRC, u_find), Unit("find path", SRC, u_path), Unit("augment", SRC, u_augment), Unit("declared project", SRC, u_archive)]


witness = W.searcher("c11.cc", ALL_SRC)
