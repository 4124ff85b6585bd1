"""C06: token classification, maximal extent, and look-ahead."""
from scanlib import *

TITLE = "Tokens are classified correctly and maximally; peeking does not consume"
ASSUME = ["content shorter than 2^31 bytes"]


def u_classify(prog):
    S = Setup(prog, "Next", indexed=False, classify=True)
    eng, st = S.eng, S.st
    en = prog.enums[TT]
    for r, s in run(eng, S.fn, S.this, [], st):
        t = eng.val(r, s)
        p, n = t.f["text"].p, t.f["text"].n
        eof = t.f["type"] == int(en["kEof"])
        post(eng, s, eof == (p == S.end), "end-of-file is reported exactly at the end")
        s2 = s.fork()
        s2.assume(z3.Not(eof), p < S.end, S.pos0 <= p, n >= 1, p + n <= S.end)
        for nm, g in tok_spec(S, s2, t, p):
            post(eng, s2, g, nm)
    return eng


def same(a, b):
    """Structural equality of two engine values."""
    if isinstance(a, StructV):
        return z3.And([same(a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)])
    if hasattr(a, "p") and hasattr(a, "n"):
        return z3.And(a.p == b.p, a.n == b.n)
    if isinstance(a, PtrV):
        return z3.BoolVal(a.lv.key() == b.lv.key() if hasattr(a.lv, "key") else a.lv == b.lv)
    return a == b


def u_peek(prog):
    """With a stored look-ahead token: Peek returns it and changes nothing; Next returns it and only clears the flag."""
    out = []
    for fname in ("Peek", "Next"):
        S = Setup(prog, fname, upcoming=True, indexed=False)
        eng, st = S.eng, S.st
        up = S.sc.f[S.upf]
        for r, s in run(eng, S.fn, S.this, [], st):
            t = eng.val(r, s)
            sc = eng.rd(s, S.this)
            post(eng, s, same(t, up), "%s returns the token looked at before" % fname)
            post(eng, s, sc.f[S.hasf] == (fname == "Peek"), "%s leaves the look-ahead flag as it must" % fname)
            for k in sc.f:
                if k not in (S.hasf, S.upf if fname == "Next" else ""):
                    post(eng, s, same(sc.f[k], S.sc.f[k]), "%s of a stored token changes nothing else (%s)" % (fname, "look-ahead token" if k == S.upf else "scan state"))
        out.append(eng)
    return out


def u_peek_first(prog):
    """Without a stored token, Peek scans exactly one token by Next's contract, stores it and returns it."""
    S = Setup(prog, "Peek", upcoming=False, indexed=False)
    eng, st = S.eng, S.st
    calls = []

    def nxt(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            tok = eng.fresh_st(s, TOK, "scanned token")
            sc = eng.rd(s, S.this)
            eng.oblige(s, z3.Not(sc.f[S.hasf]), "Peek scans only when no token is stored")
            post(eng, s, z3.And(sc.f[S.posf] == S.pos0), "Peek scans from the current position")
            new = eng.fresh_st(s, SC, "scanner after").set(S.srcf, sc.f[S.srcf]).set(S.hasf, z3.BoolVal(False)).set(S.endf, S.end)
            s2 = eng.wr(s, S.this, new) or s
            s2.g["$tok"] = s2.g.get("$tok", ()) + ((tok, new),)
            outs.append((tok, s2))
        return outs
    eng.overrides[SC + "::Next"] = nxt
    for r, s in run(eng, S.fn, S.this, [], st):
        t = eng.val(r, s)
        sc = eng.rd(s, S.this)
        toks = s.g.get("$tok", ())
        post(eng, s, z3.BoolVal(len(toks) == 1), "Peek scans exactly one token")
        if len(toks) == 1:
            tok, new = toks[0]
            post(eng, s, same(t, tok), "Peek returns the token Next scanned")
            post(eng, s, z3.And(same(sc.f[S.upf], tok), sc.f[S.hasf]), "Peek keeps it for the following Next")
            post(eng, s, z3.And([same(sc.f[k], new.f[k]) for k in sc.f if k not in (S.upf, S.hasf)]), "Peek changes nothing else")
    return eng


def units(tier):
    return [Unit("classify", SRC, u_classify, timeout=700), Unit("stored look-ahead", SRC, u_peek), Unit("Peek", SRC, u_peek_first)]


witness = W.searcher("scan.cc", SCAN_SRC, extra=["-DC06"])
