"""C22: reading a file completely."""
from speclib import *

TITLE = "Reading a file returns its complete content or nothing"
SRC = ["bant/util/file-utils.cc"]
ASSUME = ["open(2), fstat(2), read(2), close(2) behave as POSIX says (read returns -1..n and stores the bytes at the file position)",
          "the size of the file is the size fstat reports"]


def u_read(prog):
    fn = fn_of(prog, "bant::ReadFileToString")
    eng = E.Engine(prog, "flat")
    eng.opts["termination"] = True
    st = start(eng, fn)
    size, fd0 = z3.Ints("filesize fd")
    st.assume(size >= 0, size < 1 << 62)
    st.g["$off"] = I(0)              # bytes read so far
    st.g["$base"] = z3.Int("base0")  # where the byte at file offset 0 was stored
    st.g["$open"] = I(0)             # open descriptors
    st.g["$opened"] = z3.BoolVal(False)
    st.g["$stat"] = z3.BoolVal(False)
    st.g["$failed"] = z3.BoolVal(False)  # a read returned end-of-file or an error

    def o_open(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            eng.oblige(s, s.g["$open"] == 0, "the file is opened once")
            bad = s.fork()
            s.assume(fd0 >= 0)
            s.g["$open"] = simp(s.g["$open"] + 1)
            s.g["$opened"] = z3.BoolVal(True)
            e1 = z3.Int(E.uid("fd_err"))
            bad.assume(e1 < 0, e1 >= -1)
            outs += [(fd0, s), (e1, bad)]
        return outs

    def fd_ok(s, v):
        eng.oblige(s, z3.And(eng.num(v) == fd0, s.g["$open"] == 1), "the descriptor is the open file's")

    def o_fstat(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            fd_ok(s, eng.val(vs[0], s))
            bad = s.fork()
            lv = eng.deref(eng.val(vs[1], s), s, "stat")
            s2 = eng.wr(s, lv.sub("st_size"), size) or s
            s2.g["$stat"] = z3.BoolVal(True)
            outs += [(I(0), s2), (I(-1), bad)]
        return outs

    def o_read(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            fd_ok(s, eng.val(vs[0], s))
            buf, n = eng.num(eng.val(vs[1], s)), eng.num(eng.val(vs[2], s))
            eng.oblige(s, z3.Or([z3.And(lo <= buf, buf + n <= hi) for lo, hi in s.g.get("$bufs", ())] or [z3.BoolVal(False)]), "read() stays inside the buffer")
            off = s.g["$off"]
            base = z3.If(off == 0, buf, s.g["$base"])
            eng.oblige(s, buf == base + off, "each byte is stored at its file offset")
            s.g["$base"] = base
            bad = s.fork()
            r = z3.Int(E.uid("r"))
            s.assume(r >= 1, r <= n, off + r <= size)
            s.g["$off"] = simp(off + r)
            r2 = z3.Int(E.uid("r"))
            bad.assume(r2 >= -1, r2 <= 0)
            bad.g["$failed"] = z3.Or(bad.g["$failed"], n > 0)
            outs += [(r, s), (r2, bad)]
        return outs

    def o_close(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            fd_ok(s, eng.val(vs[0], s))
            s.g["$open"] = simp(s.g["$open"] - 1)
            outs.append((I(0), s))
        return outs
    for nm, f in (("open", o_open), ("fstat", o_fstat), ("read", o_read), ("close", o_close)):
        eng.overrides[nm] = f

    def ign(eng, st, e, _):
        return [(VOID, s) for vs, s in eng.evs(e["args"], st)]
    eng.overrides["bant::FilesystemPrewarmCacheRememberFileWasAccessed"] = ign

    def T(eng, ctx):
        out = []
        for lv in ctx.ints():
            e0, o0 = eng.rd(ctx.entry, lv), ctx.entry.g["$off"]
            R = lambda s, lv=lv: eng.rd(s, lv)
            out.append(("count down with the bytes read", lambda s, R=R, e0=e0, o0=o0: R(s) + s.g["$off"] == e0 + o0))
            out.append(("move on with the bytes read", lambda s, R=R, e0=e0, o0=o0: R(s) - s.g["$off"] == e0 - o0))
        bufs = ctx.entry.g.get("$bufs", ())
        for lo, hi in bufs:
            out.append(("bytes are stored from the start of the buffer", lambda s, lo=lo: z3.Implies(s.g["$off"] > 0, s.g["$base"] == lo)))
        out.append(("bytes read within the file", lambda s: z3.And(s.g["$off"] >= 0, s.g["$off"] <= size)))
        out.append(("no read failed so far", lambda s: z3.Not(s.g["$failed"])))
        for lv, v in ctx.mods:
            if z3.is_expr(v) and z3.is_bool(v):
                out.append(("flag as on entry", lambda s, lv=lv: eng.rd(s, lv) == eng.rd(ctx.entry, lv)))
        return out
    eng.loop_templates.append(T)
    vs = args_for(eng, st, fn)
    for r, s in run(eng, fn, None, vs, st):
        o = eng.val(r, s)
        g = s.g
        t = o.val
        post(eng, s, g["$open"] == 0, "the file is closed whenever it was opened")
        if t is not None:
            post(eng, s, z3.Implies(o.has, z3.And(g["$opened"], g["$stat"])), "content is only returned for a file that could be opened")
            post(eng, s, z3.Implies(o.has, z3.And(t.n == size, g["$off"] == size, z3.Implies(size > 0, t.p == g["$base"]))), "content is exactly the bytes of the file")
        post(eng, s, z3.Implies(z3.Not(o.has), z3.Or(z3.Not(g["$opened"]), z3.Not(g["$stat"]), g["$failed"])), "failure is reported only when opening or reading failed")
    return eng


def units(tier):
    return [Unit("ReadFileToString", SRC, u_read)]


witness = W.searcher("c22.cc", ["bant/util/file-utils.cc", "bant/util/filesystem-prewarm-cache.cc"])
