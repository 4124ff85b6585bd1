"""C12: joining and splitting of file paths."""
from speclib import *

TITLE = "File paths join and split consistently"
SRC = ["bant/util/file-utils.cc"]
FP = "bant::FilesystemPath"
ASSUME = ["paths are shorter than 2^60 bytes", "a moved-from path is not asked for its name"]
S = z3.StringVal
SLASH = S("/")
NPOS = E.TWO64 - 1


def fields(prog):
    p = field_of_type(prog, FP, lambda t: t == "std::string", "path text")
    m = [f["n"] for f in prog.records[FP]["fields"] if strip(f["t"]) == "unsigned long"]
    return p, m[0] if m else None


def is_name(path, o):
    """o is where the element after the last slash starts."""
    n = z3.Length(path)
    return z3.And(0 <= o, o <= n, z3.Not(z3.Contains(z3.SubString(path, o, n - o), SLASH)),
                  z3.Or(o == 0, z3.SubString(path, o - 1, 1) == SLASH))


def inv(prog, v):
    p, m = fields(prog)
    return z3.BoolVal(True) if m is None else z3.Or(v.f[m] == NPOS, is_name(v.f[p].s, v.f[m]))


def slashes(t, a):
    """Everything from position a on is slashes."""
    j = z3.Int("j!sl")
    return z3.ForAll([j], z3.Implies(z3.And(a <= j, j < z3.Length(t)), t.at(j) == SLASH))


def setup(prog, fn):
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    st = start(eng, fn)

    def T(eng, ctx):
        out = []
        for lv, v in ctx.mods:
            if isinstance(v, StrV):
                e0 = eng.rd(ctx.entry, lv).s
                R = lambda s, lv=lv: eng.rd(s, lv).s
                out.append(("remaining text is a prefix of the original", lambda s, R=R, e0=e0: z3.PrefixOf(R(s), e0)))
                out.append(("only slashes were dropped", lambda s, R=R, e0=e0: slashes(e0, z3.Length(R(s)))))
        return out
    eng.loop_templates.append(T)
    return eng, st


def u_join(prog):
    fn = fn_of(prog, FP + "::FilesystemPath", pt=["string_view", "string_view"])
    eng, st = setup(prog, fn)
    p, m = fields(prog)
    d, n = eng.fresh_st(st, "std::string_view", "dir"), eng.fresh_st(st, "std::string_view", "name")
    st.assume(z3.Length(d.s) < 1 << 60, z3.Length(n.s) < 1 << 60)
    cell = eng.new_cell(st, StructV(FP, {}), FP, "path")
    for v, s in eng.run_ctor(fn, FP, [d, n], st, target=cell):
        o = eng.rd(s, cell)
        path = o.f[p].s
        base = z3.SubString(d.s, 0, z3.Length(path) - z3.Length(n.s) - 1)
        post(eng, s, path == z3.Concat(base, SLASH, n.s), "the path is a prefix of the directory, one slash and the name")
        post(eng, s, z3.Not(z3.SuffixOf(SLASH, base)), "the directory part does not end in a slash")
        post(eng, s, slashes(d.s, z3.Length(base)), "only trailing slashes of the directory are dropped")
        post(eng, s, inv(prog, o), "a remembered name position is the one after the last slash (joined path)")
    return eng


def u_dirent(prog):
    """From a directory entry: the same as joining with the entry's name (by the contract of the joining constructor)."""
    c = [f for f in prog.by_q[FP + "::FilesystemPath"] if len(f["params"]) == 2 and "dirent" in f["params"][1]["t"]]
    if len(c) != 1:
        raise Unsupported("constructor from a directory entry")
    fn = c[0]
    eng, st = setup(prog, fn)
    p, m = fields(prog)
    d = eng.fresh_st(st, "std::string_view", "dir")
    st.assume(z3.Length(d.s) < 1 << 60)
    ent = eng.new_cell(st, eng.fresh_st(st, "dirent", "entry"), "dirent", "entry")
    cell = eng.new_cell(st, StructV(FP, {}), FP, "path")
    for v, s in eng.run_ctor(fn, FP, [d, ent], st, target=cell):
        o = eng.rd(s, cell)
        path = o.f[p].s
        name = lib.to_string(eng, s, eng.decay(ent.sub("d_name"), s)).s
        base = z3.SubString(d.s, 0, z3.Length(path) - z3.Length(name) - 1)
        post(eng, s, path == z3.Concat(base, SLASH, name), "the path is a prefix of the directory, one slash and the entry's name")
        post(eng, s, z3.And(z3.Not(z3.SuffixOf(SLASH, base)), slashes(d.s, z3.Length(base))), "only trailing slashes of the directory are dropped")
        post(eng, s, inv(prog, o), "a remembered name position is the one after the last slash (directory entry)")
    return eng


def u_plain(prog):
    fn = fn_of(prog, FP + "::FilesystemPath", pt=["=std::string_view"])
    eng, st = setup(prog, fn)
    p, m = fields(prog)
    d = eng.fresh_st(st, "std::string_view", "text")
    cell = eng.new_cell(st, StructV(FP, {}), FP, "path")
    for v, s in eng.run_ctor(fn, FP, [d], st, target=cell):
        o = eng.rd(s, cell)
        post(eng, s, o.f[p].s == d.s, "the path is the text given")
        post(eng, s, inv(prog, o), "a remembered name position is the one after the last slash (plain path)")
    return eng


def u_filename(prog):
    fn = fn_of(prog, FP + "::filename")
    eng, st = setup(prog, fn)
    p, m = fields(prog)
    v = eng.fresh_st(st, FP, "path")
    st.assume(inv(prog, v), z3.Length(v.f[p].s) < 1 << 60)
    cell = eng.new_cell(st, v, FP, "path")
    for r, s in run(eng, fn, cell, [], st):
        o = eng.rd(s, cell)
        t, path = eng.val(r, s).s, v.f[p].s
        post(eng, s, z3.SuffixOf(t, path), "the name is the tail of the path")
        post(eng, s, is_name(path, z3.Length(path) - z3.Length(t)), "the name is what follows the last slash")
        post(eng, s, o.f[p].s == path, "asking for the name keeps the path")
        post(eng, s, inv(prog, o), "a remembered name position is the one after the last slash (after asking)")
    return eng


def units(tier):
    return [Unit("join", SRC, u_join), Unit("join with directory entry", SRC, u_dirent), Unit("plain", SRC, u_plain), Unit("filename", SRC, u_filename)]


witness = W.searcher("c12.cc", ["bant/util/file-utils.cc", "bant/util/filesystem-prewarm-cache.cc"])
