"""C21: collecting files recursively. What the file system holds is given by functions of a directory and a position, and of a path; the files
that have to be returned and the directories that have to be read are determined while entries are read, and compared with what the code keeps."""
from speclib import *
from dwyulib import quantified

TITLE = "Recursive file collection visits every wanted file once and terminates"
SRC = ["bant/util/file-utils.cc"]
FP = "bant::FilesystemPath"
ASSUME = ["opendir, readdir, stat and closedir behave as POSIX says, and the tree does not change meanwhile",
          "a directory entry's type and inode, where given, are what stat says of its path (no mount points below the start)",
          "directories with the same inode number are the same", "finitely many directories can be reached (fewer than 2^40 with the same number or none)",
          "the predicates depend on the path only and have no effect", "joining a directory and a name gives the path (C12)",
          "an inode number of 0 or with the lowest 32 bits set means there is none"]
Z, SS, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
COUNT = z3.Function("entries", SS, Z)
NAME = z3.Function("entry.name", SS, Z, SS)
TYPE = z3.Function("entry.type", SS, Z, Z)
INO = z3.Function("entry.inode", SS, Z, Z)
JOIN = z3.Function("joined", SS, SS, SS)
STOK = z3.Function("stat works", SS, B)
STDIR = z3.Function("is a directory", SS, B)
STINO = z3.Function("inode", SS, Z)
OPENS = z3.Function("can be opened", SS, B)
WDIR = z3.Function("wanted directory", SS, B)
WFILE = z3.Function("wanted file", SS, B)
DT = dict(unknown=0, dir=4, lnk=10)


def has_inode(i):
    return z3.And(i != 0, i % (1 << 32) != (1 << 32) - 1)


def begin(t0):
    """Before anything was read: the start is the directory to be read."""
    AS = z3.ArraySort(Z, SS)
    none = z3.K(Z, z3.BoolVal(False))
    ino0 = STINO(t0)
    return {"$fn": I(0), "$fa": z3.Const("files", AS), "$dn": I(1), "$da": z3.Store(z3.Const("directories", AS), 0, t0),
            "$seen": z3.If(z3.And(STOK(t0), STDIR(t0), has_inode(ino0)), z3.Store(none, ino0, True), none),
            "$left": z3.Int("directories left")}


def step(g, d, i):
    """What the i-th entry of the open directory d adds."""
    name = NAME(d, i)
    p = JOIN(d, name)
    real = z3.And(name != z3.StringVal("."), name != z3.StringVal(".."))
    isdir = z3.And(STOK(p), STDIR(p))
    file = z3.And(real, z3.Not(isdir), WFILE(p))
    new = z3.And(real, isdir, WDIR(p), z3.Or(z3.Not(has_inode(STINO(p))), z3.Not(z3.Select(g["$seen"], STINO(p)))))
    out = dict(g)
    out["$fn"] = z3.If(file, g["$fn"] + 1, g["$fn"])
    out["$fa"] = z3.If(file, z3.Store(g["$fa"], g["$fn"], p), g["$fa"])
    out["$dn"] = z3.If(new, g["$dn"] + 1, g["$dn"])
    out["$da"] = z3.If(new, z3.Store(g["$da"], g["$dn"], p), g["$da"])
    out["$seen"] = z3.If(z3.And(new, has_inode(STINO(p))), z3.Store(g["$seen"], STINO(p), True), g["$seen"])
    out["$left"] = z3.If(new, g["$left"] - 1, g["$left"])
    return out, new, p


def u_collect(prog):
    fn = fn_of(prog, "bant::CollectFilesRecursive")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    eng.opts["fast"] = True
    st = start(eng, fn)
    pf = field_of_type(prog, FP, lambda t: t == "std::string", "path text")
    vt = "std::vector<%s>" % FP
    d0 = eng.fresh_st(st, FP, "start")
    dcell = eng.new_cell(st, d0, FP, "start")
    t0 = d0.f[pf].s
    ft = strip(fn["params"][1]["t"])
    pd, pfile = eng.new_cell(st, OpaqueV("directory predicate"), ft, "want_dir"), eng.new_cell(st, OpaqueV("file predicate"), ft, "want_file")
    st.g.update(begin(t0))
    st.g.update({"$read": I(0), "$open": I(0), "$dir": z3.StringVal(""), "$i": I(0), "$was": z3.BoolVal(True)})
    st.assume(st.g["$left"] >= 0, st.g["$left"] < 1 << 40)
    x, i = z3.String("x!st"), z3.Int("i!st")
    j = JOIN(x, NAME(x, i))
    eng.axioms += [z3.ForAll([x], z3.And(STINO(x) >= 0, STINO(x) < E.TWO64, z3.Length(x) < 1 << 60), patterns=[STINO(x)]),
                   z3.ForAll([x], z3.And(COUNT(x) >= 0, COUNT(x) < 1 << 40), patterns=[COUNT(x)])]

    def o_opendir(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            p = lib.to_string(eng, s, eng.val(vs[0], s)).s
            eng.oblige(s, s.g["$open"] == 0, "one directory is open at a time")
            eng.oblige(s, s.g["$read"] < s.g["$dn"], "only directories to be read are opened")
            eng.oblige(s, p == z3.Select(s.g["$da"], s.g["$read"]), "the next directory to be read is opened, in the order found")
            s.g["$read"] = simp(s.g["$read"] + 1)
            bad = s.fork()
            s.assume(OPENS(p))
            bad.assume(z3.Not(OPENS(p)))
            s.g["$open"], s.g["$dir"], s.g["$i"] = I(1), p, I(0)
            h = z3.Int("handle")
            s.assume(h > 0, h < E.TWO64)
            outs += [(h, s), (I(0), bad)]
        return outs

    def o_readdir(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            h = eng.val(vs[0], s)
            eng.oblige(s, z3.And(s.g["$open"] == 1), "an open directory is read")
            d, i = s.g["$dir"], s.g["$i"]
            end = s.fork()
            end.assume(i >= COUNT(d))
            s.assume(i < COUNT(d), i >= 0)
            out, new, p = step({k: s.g[k] for k in ("$fn", "$fa", "$dn", "$da", "$seen", "$left")}, d, i)
            s.assume(z3.Implies(new, s.g["$left"] > 0))
            ty = TYPE(d, i)
            isdir = z3.And(STOK(p), STDIR(p))
            s.assume(ty >= 0, ty < 256, INO(d, i) >= 0, INO(d, i) < E.TWO64, STINO(p) >= 0, STINO(p) < E.TWO64,
                     z3.Implies(ty == DT["dir"], z3.And(isdir, STINO(p) == INO(d, i))),
                     z3.Implies(z3.And([ty != v for v in DT.values()]), z3.Not(isdir)))
            for k, v in out.items():
                s.g[k] = z3.Const(E.uid(k), v.sort())
                s.assume(s.g[k] == v)
            s.g["$i"] = simp(i + 1)
            ent = eng.fresh_st(s, "dirent", "entry")
            f = dict(ent.f)
            f["d_type"], f["d_ino"] = ty, INO(d, i)
            cell = eng.new_cell(s, StructV("dirent", f), "dirent", "entry")
            s.assume(lib.to_string(eng, s, eng.decay(cell.sub("d_name"), s)).s == NAME(d, i))
            outs += [(PtrV(cell), s), (I(0), end)]
        return outs

    def o_closedir(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            eng.oblige(s, s.g["$open"] == 1, "an open directory is closed")
            eng.oblige(s, s.g["$i"] >= COUNT(s.g["$dir"]), "a directory is read to its end")
            s.g["$open"] = I(0)
            outs.append((I(0), s))
        return outs

    def o_stat(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            p = lib.to_string(eng, s, eng.val(vs[0], s)).s
            lv = eng.deref(eng.val(vs[1], s), s, "stat")
            r, m, n, k = (z3.Int(E.uid(x)) for x in ("stat", "mode", "inode", "format"))
            s.assume((r == 0) == STOK(p), r >= -1, r <= 0, m >= 0, m < 1 << 32, n >= 0, n < E.TWO64, k >= 0, k < 16, (m / 4096) % 16 == k,
                     z3.Implies(STOK(p), z3.And((k == 4) == STDIR(p), n == STINO(p))))
            s = eng.wr(s, lv.sub("st_mode"), m) or s
            s = eng.wr(s, lv.sub("st_ino"), n) or s
            outs.append((r, s))
        return outs
    for nm, f in (("opendir", o_opendir), ("readdir", o_readdir), ("closedir", o_closedir), ("stat", o_stat)):
        eng.overrides[nm] = f
    eng.overrides["bant::FilesystemPrewarmCacheRememberDirWasAccessed"] = lambda eng, st, e, _: [(VOID, s) for vs, s in eng.evs(e["args"], st)]

    def path(eng, st, e, vs):
        if len(vs) == 1:
            if strip(e["args"][0]["t"]) == FP:
                return None
            t = lib.to_string(eng, st, vs[0]).s
        elif "dirent" in e["args"][1]["t"]:
            n = lib.to_string(eng, st, eng.decay(vs[1].sub("d_name"), st)).s
            t = JOIN(lib.to_string(eng, st, vs[0]).s, n)
        else:
            t = JOIN(lib.to_string(eng, st, vs[0]).s, lib.to_string(eng, st, vs[1]).s)
        v = eng.fresh_st(st, FP, "path")
        f = dict(v.f)
        f[pf] = StrV(t)
        return [(StructV(FP, f), st)]
    eng.overrides["ctor " + FP] = path

    def ask(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            which = {repr(pd): WDIR, repr(pfile): WFILE}.get(repr(vs[0]))
            if which is None:
                raise Unsupported("predicate other than those given")
            outs.append((which(eng.val(vs[1], s).f[pf].s), s))
        return outs
    eng.overrides[ft + "::operator()"] = ask
    TX = lambda v, k: eng.so.reflect(z3.Select(v.a, k), v.ety).f[pf].s
    k = z3.Int("k!c")

    def T(eng, ctx):
        out = []
        g = lambda n: (lambda s: s.g[n])
        out.append(("as many directories read as found", lambda s: z3.And(s.g["$read"] >= 0, s.g["$read"] <= s.g["$dn"], s.g["$dn"] + s.g["$left"] <= (1 << 40) + 1, s.g["$left"] >= 0)))
        out.append(("files found", lambda s: s.g["$fn"] >= 0))
        if ctx.entry.g["$open"] is not None and z3.is_int_value(simp(ctx.entry.g["$open"])) and simp(ctx.entry.g["$open"]).as_long() == 1:
            out.append(("the open directory", lambda s: z3.And(s.g["$open"] == 1, s.g["$dir"] == ctx.entry.g["$dir"], s.g["$i"] >= 0, s.g["$i"] <= COUNT(ctx.entry.g["$dir"]), s.g["$read"] == ctx.entry.g["$read"])))
            out.append(("no entry found is given up", lambda s: 2 * s.g["$left"] + s.g["$dn"] <= 2 * ctx.entry.g["$left"] + ctx.entry.g["$dn"]))
        else:
            out.append(("no directory is open", lambda s: s.g["$open"] == 0))
        for lv, v in ctx.mods:
            if isinstance(v, VecV) and strip(v.ety) == FP:
                R = lambda s, lv=lv: eng.rd(s, lv)
                out.append(("as many files as there are wanted ones so far", lambda s, R=R: R(s).n == s.g["$fn"]))
                out.append(("the wanted files so far, in order", lambda s, R=R: quantified(z3.ForAll, [k], z3.Implies(z3.And(0 <= k, k < s.g["$fn"]), TX(R(s), k) == z3.Select(s.g["$fa"], k)), z3.Select(R(s).a, k))))
            elif isinstance(v, VecV):
                R = lambda s, lv=lv: eng.rd(s, lv)
                el = lambda s, k, R=R: eng.so.reflect(z3.Select(R(s).a, k), R(s).ety).s
                out.append(("as many directories wait as were found and not read yet", lambda s, R=R: R(s).n == s.g["$dn"] - s.g["$read"]))
                out.append(("the directories not read yet, in order", lambda s, el=el: quantified(z3.ForAll, [k], z3.Implies(z3.And(0 <= k, k < s.g["$dn"] - s.g["$read"]), el(s, k) == z3.Select(s.g["$da"], s.g["$read"] + k)), el(s, k))))
            elif isinstance(v, SetV):
                out.append(("the inodes of the directories found", lambda s, lv=lv: eng.rd(s, lv).a == s.g["$seen"]))
        return out
    eng.loop_templates.append(T)
    eng.opts["measures"] = [lambda eng, s, ctx: COUNT(s.g["$dir"]) - s.g["$i"], lambda eng, s, ctx: 2 * s.g["$left"] + s.g["$dn"] - s.g["$read"]]
    for r, s in run(eng, fn, None, [dcell, pd, pfile], st):
        v = eng.val(r, s)
        post(eng, s, s.g["$open"] == 0, "every directory opened is closed")
        post(eng, s, s.g["$read"] == s.g["$dn"], "every directory found is read")
        post(eng, s, v.n == s.g["$fn"], "as many files are returned as there are wanted ones")
        post(eng, s, quantified(z3.ForAll, [k], z3.Implies(z3.And(0 <= k, k < s.g["$fn"]), TX(v, k) == z3.Select(s.g["$fa"], k)), z3.Select(s.g["$fa"], k)), "the files returned are the wanted ones, in the order found")
    return eng


def u_once(prog):
    """What the steps determine is what the property says: whatever is wanted is read, and no directory (told by its inode) twice."""
    eng = E.Engine(prog, "seq")
    st = E.St()
    st.fn = "lemma"
    AS, AB = z3.ArraySort(Z, SS), z3.ArraySort(Z, B)
    t0 = z3.String("start")
    a, b, x = z3.Ints("a!l b!l x!l")
    ino = lambda g, k: STINO(z3.Select(g["$da"], k))
    real = lambda g, k: z3.And(STOK(z3.Select(g["$da"], k)), STDIR(z3.Select(g["$da"], k)), has_inode(ino(g, k)))
    claims = [("no two directories to be read are the same", lambda g, a, b, w: z3.Implies(z3.And(0 <= a, a < b, b < g["$dn"], real(g, a), real(g, b)), ino(g, a) != ino(g, b))),
              ("the directories to be read are remembered", lambda g, a, b, w: z3.Implies(z3.And(0 <= a, a < g["$dn"], real(g, a)), z3.Select(g["$seen"], ino(g, a)))),
              ("what is remembered is a directory to be read", lambda g, a, b, w: z3.Implies(z3.Select(g["$seen"], a), z3.And(0 <= z3.Select(w, a), z3.Select(w, a) < g["$dn"], ino(g, z3.Select(w, a)) == a))),
              ("the start is read", lambda g, a, b, w: z3.And(g["$dn"] >= 1, z3.Select(g["$da"], 0) == t0))]
    g0 = begin(t0)
    for nm, c in claims:
        post(eng, st, c(g0, a, b, z3.K(Z, I(0))), nm + " (start)")
    g = {"$fn": z3.Int("fn"), "$fa": z3.Const("fa", AS), "$dn": z3.Int("dn"), "$da": z3.Const("da", AS), "$seen": z3.Const("seen", AB), "$left": z3.Int("left")}
    w = z3.Const("where", z3.ArraySort(Z, Z))
    s = st.fork()
    d, i = z3.String("dir"), z3.Int("pos")
    out, new, p = step(g, d, i)
    p_, n_, a_, b_ = z3.String("p!l"), z3.Int("n!l"), z3.Int("a"), z3.Int("b")
    w2 = z3.If(new, z3.Store(w, STINO(p), g["$dn"]), w)
    s.assume(g["$fn"] >= 0)
    for nm, c in claims:
        # the claim for every position, at those a step can speak of
        for u, v in ((a_, b_), (a_, g["$dn"]), (STINO(p), b_), (b_, a_)):
            s.assume(c(g, u, v, w))
    for nm, c in claims:
        post(eng, s, c(out, a_, b_, w2), nm + " (step)")
    isdir = z3.And(STOK(p), STDIR(p))
    name = NAME(d, i)
    here = z3.And(name != z3.StringVal("."), name != z3.StringVal(".."))
    post(eng, s, z3.Implies(z3.And(here, isdir, WDIR(p), has_inode(STINO(p))), z3.Select(out["$seen"], STINO(p))), "a wanted directory is read, by this path or another")
    post(eng, s, z3.Implies(z3.And(here, isdir, WDIR(p), z3.Not(has_inode(STINO(p)))), z3.And(out["$dn"] == g["$dn"] + 1, z3.Select(out["$da"], g["$dn"]) == p)), "a wanted directory without an inode is read")
    post(eng, s, z3.Implies(out["$dn"] != g["$dn"], z3.And(here, isdir, WDIR(p))), "only wanted directories are read")
    post(eng, s, z3.If(z3.And(here, z3.Not(isdir), WFILE(p)), z3.And(out["$fn"] == g["$fn"] + 1, z3.Select(out["$fa"], g["$fn"]) == p), out["$fn"] == g["$fn"]), "a file is returned once for its entry if it is wanted, and nothing else")
    return eng


def units(tier):
    return [Unit("CollectFilesRecursive", SRC, u_collect), Unit("each directory once (lemma)", SRC, u_once)]


witness = W.searcher("c21.cc", ["bant/util/file-utils.cc", "bant/util/filesystem-prewarm-cache.cc"])
