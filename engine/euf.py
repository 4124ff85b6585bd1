"""A weaker reading of an obligation: texts are elements of an unknown set and every string operation is an uninterpreted
function (literals pairwise different). What is unsatisfiable under this reading is unsatisfiable, and it is decided quickly."""
import z3

U = z3.DeclareSort("Text!")


class Skip(Exception):
    pass


class Abs:
    def __init__(self):
        self.cache, self.lits, self.fns, self.keep = {}, {}, {}, []

    def sort(self, s):
        k = s.kind()
        if k == z3.Z3_SEQ_SORT or k == z3.Z3_RE_SORT:
            return U
        if k in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT, z3.Z3_REAL_SORT):
            return s
        if k == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        if k == z3.Z3_UNINTERPRETED_SORT:
            return s
        raise Skip()

    def fn(self, d, doms, rng):
        key = (d.name(), tuple(str(x) for x in doms), str(rng), tuple(str(p) for p in d.params()) if d.arity() and d.kind() != z3.Z3_OP_UNINTERPRETED else ())
        f = self.fns.get(key)
        if f is None:
            f = self.fns[key] = z3.Function("%s!a%d" % (d.name(), len(self.fns)), *(list(doms) + [rng]))
        return f

    def tr(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self.cache[i] = self.tr1(e)
            self.keep.append(e)
        if isinstance(r, Skip):
            raise r
        return r

    def tr1(self, e):
        try:
            if z3.is_quantifier(e) or z3.is_var(e):
                raise Skip()
            if z3.is_string_value(e):
                s = e.as_string()
                if s not in self.lits:
                    self.lits[s] = z3.Const("lit!%d" % len(self.lits), U)
                return self.lits[s]
            d = e.decl()
            ch = [self.tr(c) for c in e.children()]
            k = d.kind()
            if not ch:
                if k == z3.Z3_OP_UNINTERPRETED or self.sort(e.sort()) == U:
                    return z3.Const("%s!a!%s" % (d.name(), e.sort()), self.sort(e.sort()))
                return e
            if k == z3.Z3_OP_EQ:
                return ch[0] == ch[1]
            if k == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*ch)
            if k == z3.Z3_OP_ITE:
                return z3.If(*ch)
            if k == z3.Z3_OP_SELECT and len(ch) == 2:
                return z3.Select(ch[0], ch[1])
            if k == z3.Z3_OP_STORE and len(ch) == 3:
                return z3.Store(*ch)
            if k == z3.Z3_OP_CONST_ARRAY:
                return z3.K(self.sort(e.sort().domain()), ch[0])
            doms = [c.sort() for c in ch]
            if k == z3.Z3_OP_SEQ_CONCAT and len(ch) > 2:
                f = self.fn(d, [U, U], U)
                r = ch[-1]
                for c in reversed(ch[:-1]):
                    r = f(c, r)
                return r
            plain = (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT)
            if k != z3.Z3_OP_UNINTERPRETED and e.sort().kind() in plain and all(c.sort().kind() in plain for c in e.children()):
                return d(*ch) if len(ch) == d.arity() or k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else d(*ch)
            return self.fn(d, doms, self.sort(e.sort()))(*ch)
        except Skip as s:
            return s


def unsat(pc, goal, ms=1000, a=None):
    a = a or Abs()
    try:
        g = a.tr(goal)
    except (Skip, z3.Z3Exception):
        return False
    s = z3.Solver()
    s.set("timeout", ms)
    work = []
    for c in pc:
        work += c.children() if z3.is_and(c) else [c]
    for c in work:
        try:
            s.add(a.tr(c))
        except (Skip, z3.Z3Exception):
            pass
    if len(a.lits) > 1:
        s.add(z3.Distinct(*a.lits.values()))
    s.add(z3.Not(g))
    return s.check() == z3.unsat


class Full(Abs):
    """The same reading, but datatypes and quantifiers are kept (texts in them are elements of the unknown set)."""
    def __init__(self):
        Abs.__init__(self)
        self.dts = {}
        self.bound = 0

    def sort(self, s):
        k = s.kind()
        if k == z3.Z3_DATATYPE_SORT:
            return self.dt(s)[0]
        if k == z3.Z3_ARRAY_SORT:
            doms = []
            i = 0
            while True:
                try:
                    doms.append(s.domain_n(i))
                    i += 1
                except (z3.Z3Exception, AttributeError):
                    break
            if len(doms) > 1:
                raise Skip()
        return Abs.sort(self, s)

    def dt(self, s):
        key = s.name() + "/" + str(s.get_id())
        r = self.dts.get(key)
        if r is not None:
            return r
        D = z3.Datatype("%s!a%d" % (s.name(), len(self.dts)))
        for i in range(s.num_constructors()):
            c = s.constructor(i)
            fs = [(s.accessor(i, j).name(), self.sort(s.accessor(i, j).range())) for j in range(c.arity())]
            D.declare(c.name(), *fs)
        n = D.create()
        m = {}
        for i in range(s.num_constructors()):
            c = s.constructor(i)
            m[c.get_id()] = n.constructor(i)
            m[s.recognizer(i).get_id()] = n.recognizer(i)
            for j in range(c.arity()):
                m[s.accessor(i, j).get_id()] = n.accessor(i, j)
        self.keep.append(s)
        self.dts[key] = r = (n, m)
        return r

    def tr1(self, e):
        try:
            if z3.is_quantifier(e):
                return self.quant(e)
            if z3.is_app(e):
                k = e.decl().kind()
                if k in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS):
                    s = e.sort() if k == z3.Z3_OP_DT_CONSTRUCTOR else e.children()[0].sort()
                    n, m = self.dt(s)
                    if k == z3.Z3_OP_DT_IS:
                        f = m.get(e.decl().params()[0].get_id()) if e.decl().params() and isinstance(e.decl().params()[0], z3.FuncDeclRef) else None
                        if f is None:
                            raise Skip()
                        for i in range(n.num_constructors()):
                            if n.constructor(i).eq(f):
                                return n.recognizer(i)(self.tr(e.children()[0]))
                        raise Skip()
                    f = m.get(e.decl().get_id())
                    if f is None:
                        raise Skip()
                    return f(*[self.tr(c) for c in e.children()])
                if k in (z3.Z3_OP_ARRAY_MAP, z3.Z3_OP_AS_ARRAY):
                    raise Skip()
        except Skip as s:
            return s
        return Abs.tr1(self, e)

    def quant(self, e):
        vs, vn = [], []
        for i in range(e.num_vars()):
            self.bound += 1
            nm = "%s!q%d" % (e.var_name(i), self.bound)
            vs.append(z3.Const(nm, e.var_sort(i)))
            vn.append(z3.Const(nm + "!a", self.sort(e.var_sort(i))))
        sub = list(reversed(vs))
        body = self.tr(z3.substitute_vars(e.body(), *sub))
        if e.is_lambda():
            if len(vn) != 1:
                raise Skip()
            return z3.Lambda(vn, body)
        pats = []
        for i in range(e.num_patterns()):
            ps = []
            for c in e.pattern(i).children():
                ps.append(self.tr(z3.substitute_vars(c, *sub)))
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        return (z3.ForAll if e.is_forall() else z3.Exists)(vn, body, patterns=pats)


def unsat_full(pc, goal, ms=2000, why=None):
    a = Full()
    try:
        g = a.tr(goal)
    except (Skip, z3.Z3Exception) as x:
        if why is not None:
            why.append("goal: %r" % x)
        return False
    s = z3.Solver()
    s.set("timeout", ms)
    work = []
    for c in pc:
        work += c.children() if z3.is_and(c) else [c]
    for c in work:
        try:
            s.add(a.tr(c))
        except (Skip, z3.Z3Exception) as x:
            if why is not None:
                why.append("%r %s" % (x, str(c)[:100]))
    if len(a.lits) > 1:
        s.add(z3.Distinct(*a.lits.values()))
    s.add(z3.Not(g))
    r = s.check()
    if why is not None:
        why.append(str(r))
    return r == z3.unsat
