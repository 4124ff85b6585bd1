"""Ropes: texts as sequences of pieces. A search in a text decomposes the piece it hits (text == x ++ c ++ y with fresh x, y),
the decomposition is remembered in the state, and later cuts of the same text fall on piece boundaries. This keeps the string
terms handed to the solvers free of symbolic positions. Every decomposition is a Skolemised consequence of the path condition."""
import z3
import engine as _e

I = z3.IntVal
simp = z3.simplify
EMPTY = z3.StringVal("")


def lit(x):
    """The characters (as code points) of a literal, or None."""
    if not z3.is_string_value(x):
        return None
    s = x.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(int(s[i + 3:j], 16))
            i = j + 1
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def mk(cs):
    return z3.StringVal("".join(chr(c) if 32 <= c < 127 and c != 92 else "\\u{%x}" % c for c in cs))


def table(st):
    return st.g.get("$rope", {})


def record(st, p, parts):
    t = dict(table(st))
    t[p.get_id()] = (p, tuple(parts))
    st.g["$rope"] = t


def pieces(st, t):
    """Flattened list of non-empty-literal / symbolic pieces of the term."""
    t = simp(t)
    tab = table(st)
    out = []
    work = [t]
    while work:
        x = work.pop(0)
        if x.get_id() in tab:
            work = list(tab[x.get_id()][1]) + work
            continue
        if z3.is_string_value(x):
            if x.as_string() != "":
                out.append(x)
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            work = list(x.children()) + work
            continue
        out.append(x)
    # join neighbouring literals
    r = []
    for x in out:
        if r and z3.is_string_value(x) and z3.is_string_value(r[-1]):
            r[-1] = mk(lit(r[-1]) + lit(x))
        else:
            r.append(x)
    return r


def build(ps):
    if not ps:
        return EMPTY
    if len(ps) == 1:
        return ps[0]
    return z3.Concat(*ps)


def norm(st, t):
    return build(pieces(st, t))


def plen(p):
    return I(len(lit(p))) if z3.is_string_value(p) else z3.Length(p)


def total(ps):
    return simp(z3.Sum([I(0)] + [plen(p) for p in ps])) if ps else I(0)


def length(st, t):
    return total(pieces(st, t))


def facts_on(st, p, parts, eng=None):
    """What is known about p, restated for its parts."""
    whole = build(parts)
    i = p.get_id()
    new = []
    for c in st.pc:
        if mentions(c, i) and small(c):
            x = simp(z3.substitute(c, (p, whole)))
            if not z3.is_true(x):
                new.append(x)
            # absence of a text is inherited by every part
            if z3.is_not(c) and c.arg(0).decl().kind() == z3.Z3_OP_SEQ_CONTAINS and c.arg(0).arg(0).get_id() == i:
                for q in parts:
                    y = simp(z3.Not(z3.Contains(q, c.arg(0).arg(1))))
                    if not z3.is_true(y):
                        new.append(y)
    return new


def mentions(c, i):
    seen, work = set(), [c]
    while work:
        x = work.pop()
        if x.get_id() == i:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        work.extend(x.children())
    return False


def small(c, lim=60):
    n, work = 0, [c]
    while work:
        x = work.pop()
        if z3.is_quantifier(x):
            return False
        n += 1
        if n > lim:
            return False
        work.extend(x.children())
    return True


def decompose(eng, st, p, parts):
    st.assume(p == build(parts))
    new = facts_on(st, p, parts)
    record(st, p, parts)
    for f in new:
        st.assume(f)


def absent(eng, st, p, ch):
    """Is it known that the piece does not contain the character?"""
    want = simp(z3.Not(z3.Contains(p, ch)))
    if z3.is_true(want):
        return True
    for c in st.pc:
        if c.eq(want):
            return True
    return eng.valid(st.pc, want, 1000)


def find(eng, st, t, code, first=True):
    """Position of the first/last occurrence of a character: list of (position or None, state)."""
    outs = []
    ch = mk([code])

    def go(s, ps, done):
        while True:
            if not ps:
                outs.append((None, s))
                return
            p = ps[0] if first else ps[-1]
            rest = ps[1:] if first else ps[:-1]
            if z3.is_string_value(p):
                cs = lit(p)
                if code in cs:
                    k = cs.index(code) if first else len(cs) - 1 - cs[::-1].index(code)
                    pre = (done if first else rest)
                    outs.append((simp(total(pre) + k), s))
                    return
            elif not absent(eng, s, p, ch):
                a = s.fork()
                x, y = z3.String(_e.uid("rx")), z3.String(_e.uid("ry"))
                a.assume(z3.Not(z3.Contains(x if first else y, ch)))
                decompose(eng, a, p, [x, ch, y])
                if eng.feasible(a):
                    outs.append((simp(total((done if first else rest)) + z3.Length(x)), a))
                s = s.fork().assume(z3.Not(z3.Contains(p, ch)))
                if not eng.feasible(s):
                    return
            done = done + [p] if first else [p] + done
            ps = rest
    go(st, pieces(st, t), [])
    return outs


def known(eng, st, g):
    g = simp(g)
    return z3.is_true(g) or (not z3.is_false(g) and eng.valid(st.pc, g, 2000))


def split_at(eng, st, ps, pos):
    """(pieces before pos, pieces from pos) or None; may decompose one piece."""
    pos = simp(pos)
    cum = I(0)
    for i in range(len(ps) + 1):
        d = simp(pos - cum)
        if z3.is_int_value(d):
            k = d.as_long()
            if k == 0:
                return ps[:i], ps[i:]
            if i < len(ps):
                p = ps[i]
                if k > 0 and z3.is_string_value(p):
                    cs = lit(p)
                    if k < len(cs):
                        return ps[:i] + [mk(cs[:k])], [mk(cs[k:])] + ps[i + 1:]
                elif k > 0 and k <= 8 and known(eng, st, z3.Length(p) >= k):
                    if known(eng, st, z3.Length(p) == k):
                        return ps[:i + 1], ps[i + 1:]
                    a, b = z3.String(_e.uid("ra")), z3.String(_e.uid("rb"))
                    st.assume(z3.Length(a) == k, z3.SubString(p, 0, k) == a, z3.SubString(p, k, z3.Length(p) - k) == b)
                    decompose(eng, st, p, [a, b])
                    return ps[:i] + [a], [b] + ps[i + 1:]
                elif k < 0 and i > 0:
                    # k characters before this boundary: inside the previous (symbolic) piece
                    p = ps[i - 1]
                    if not z3.is_string_value(p) and -k <= 8 and known(eng, st, z3.Length(p) >= -k):
                        a, b = z3.String(_e.uid("ra")), z3.String(_e.uid("rb"))
                        st.assume(z3.Length(b) == -k, z3.SubString(p, 0, z3.Length(p) + k) == a, z3.SubString(p, z3.Length(p) + k, -k) == b)
                        decompose(eng, st, p, [a, b])
                        return ps[:i - 1] + [a], [b] + ps[i:]
        if i < len(ps):
            cum = simp(cum + plen(ps[i]))
    # boundaries that are equal only by what is known
    cum = I(0)
    for i in range(len(ps) + 1):
        if known(eng, st, pos == cum):
            return ps[:i], ps[i:]
        if i < len(ps):
            cum = simp(cum + plen(ps[i]))
    return None


def cut(eng, st, t, a, n):
    """t[a, a+n) as a term (n: number of characters, not clamped)."""
    ps = pieces(st, t)
    l = split_at(eng, st, ps, a)
    if l is None:
        return None
    r = split_at(eng, st, l[1], n)
    if r is None:
        return None
    return build(r[0])


def at(eng, st, t, i):
    """The character at position i as a one-character text, if it is a literal."""
    ps = pieces(st, t)
    l = split_at(eng, st, ps, i)
    if l is None or not l[1]:
        return None
    p = l[1][0]
    if z3.is_string_value(p):
        return mk(lit(p)[:1])
    return None


def code_of(s):
    """Code point of a one-character literal, or None."""
    c = lit(simp(s))
    return c[0] if c is not None and len(c) == 1 else None
