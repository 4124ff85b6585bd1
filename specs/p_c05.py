"""C05: scanning any byte sequence is safe, total, ordered, gap-free up to blanks, and leaves an exact line index."""
from scanlib import *

TITLE = "Tokenising any byte sequence is safe, total and covers the content in order"
ASSUME = ["content shorter than 2^31 bytes"]


def u_next(prog):
    S = Setup(prog, "Next")
    eng, st = S.eng, S.st
    en = prog.enums[TT]
    for r, s in run(eng, S.fn, S.this, [], st):
        t = eng.val(r, s)
        p, n = t.f["text"].p, t.f["text"].n
        sc = eng.rd(s, S.this)
        pos1 = sc.f[S.posf]
        eof = t.f["type"] == int(en["kEof"])
        post(eng, s, z3.And(S.pos0 <= p, n >= 0, p + n <= S.end), "the token is a piece of the content behind the previous position")
        post(eng, s, pos1 == p + n, "scanning continues exactly behind the token")
        post(eng, s, z3.If(eof, z3.And(p == S.end, n == 0), n >= 1), "tokens are non-empty; end-of-file exactly at the end")
        post(eng, s, blank(eng, S.pos0, p, S.pos0), "only whitespace, backslashes and comments are skipped")
        post(eng, s, z3.Implies(z3.Not(eof), z3.Not(CMT(S.pos0, p))), "no token starts inside a comment")
        post(eng, s, index_inv(eng, S.index(s), S.base, pos1), "the line index is exact up to the position")
        post(eng, s, z3.And(sc.f[S.endf] == S.end, z3.Not(sc.f[S.hasf])), "end and look-ahead state are kept")
    return eng


def u_ctor(prog):
    S = Setup(prog, "Scanner", indexed=False)
    eng, st = S.eng, S.st
    st.assume(S.index(st).n == 0)
    cell = eng.new_cell(st, StructV(SC, {}), SC, "scanner")
    for v, s in eng.run_ctor(S.fn, SC, [S.src], st, target=cell):
        sc = eng.rd(s, cell)
        post(eng, s, z3.And(sc.f[S.posf] == S.base, sc.f[S.endf] == S.end, z3.Not(sc.f[S.hasf])), "scanning starts at the beginning of the content")
        post(eng, s, index_inv(eng, S.index(s), S.base, S.base), "the line index starts with the first line")
    return eng


def units(tier):
    return [Unit("Next", SRC, u_next, timeout=500), Unit("construct", SRC, u_ctor)]


witness = W.searcher("scan.cc", SCAN_SRC, extra=["-DC05"])
