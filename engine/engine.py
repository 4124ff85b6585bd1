"""Symbolic executor / verification-condition generator over the exported AST."""
import itertools
import sys
import shutil
import subprocess
import time
import z3
from values import *
import euf

sys.setrecursionlimit(20000)
PATIENCE = 1          # a unit that failed is tried once more with longer solver limits
TWO64 = 1 << 64
NPOS = z3.IntVal(TWO64 - 1)
SMAX = z3.IntVal(1 << 62)   # no object in memory is larger than this


def I(x):
    return z3.IntVal(x)


def simp(e):
    return z3.simplify(e)


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


class Obligation:
    __slots__ = ("name", "pc", "goal", "fn", "ln", "result", "backend", "time", "model", "kind")

    def __init__(self, name, pc, goal, fn, ln, kind):
        self.name, self.pc, self.goal, self.fn, self.ln, self.kind = name, pc, goal, fn, ln, kind
        self.result = self.backend = self.model = None
        self.time = 0.0


class St:
    __slots__ = ("env", "cells", "heap", "pc", "g", "fn", "this", "depth", "dtors")

    def __init__(self):
        self.env, self.cells, self.heap, self.pc, self.g = {}, {}, {}, (), {}
        self.fn, self.this, self.depth = None, None, 0
        self.dtors = ()         # objects in scope whose destructor has an effect, in order of construction

    def fork(self):
        s = St()
        s.env, s.cells, s.heap, s.g = dict(self.env), dict(self.cells), dict(self.heap), dict(self.g)
        s.pc, s.fn, s.this, s.depth = self.pc, self.fn, self.this, self.depth
        s.dtors = self.dtors
        return s

    def assume(self, *fs):
        for f in fs:
            if not is_true(f):
                self.pc = self.pc + (f,)
        return self


class Sorts:
    """Sorts and reification; mode 'seq' = strings by content, 'flat' = pointer/length."""

    def __init__(self, prog, mode):
        self.prog, self.mode = prog, mode
        self.dt = {}
        if mode == "flat":
            D = z3.Datatype("SV")
            D.declare("mkSV", ("svp", z3.IntSort()), ("svn", z3.IntSort()))
            self.SV = D.create()
        self.field_override = {}

    def is_str(self, t):
        return strip(t) in ("std::string_view", "std::string")

    def sort(self, t):
        s = strip(t)
        if s == "bool":
            return z3.BoolSort()
        if s in INTS or s.endswith("*") or s in self.prog.enums or s in ("std::nullptr_t", "std::byte"):
            return z3.IntSort()
        if s in ("std::string_view", "std::string"):
            return z3.StringSort() if self.mode == "seq" else self.SV
        h, a = split_targs(s)
        if h in ("std::unique_ptr", "std::shared_ptr"):
            return z3.IntSort()
        if h in ("std::optional",) or h in VEC or h in MAPS or h in SETS or h in ("std::pair",) or s in self.prog.records or s.endswith("]"):
            return self.datatype(s)
        if s.startswith("$"):
            return z3.DeclareSort(s[1:])
        return z3.DeclareSort("U_" + s)

    def datatype(self, s):
        d = self.dt.get(s)
        if d is not None:
            return d
        h, a = split_targs(s)
        if s.endswith("]"):
            d = z3.ArraySort(z3.IntSort(), self.sort(s[:s.rindex("[")]))
        else:
            if h in SETS:
                fs = [("sa", z3.ArraySort(self.sort(a[0]), z3.BoolSort())), ("sn", z3.IntSort())]
            elif h == "std::optional":
                fs = [("has", z3.BoolSort()), ("val", self.sort(a[0]))]
            elif h in VEC:
                fs = [("n", z3.IntSort()), ("a", z3.ArraySort(z3.IntSort(), self.sort(a[0])))]
            elif h in MAPS:
                fs = [("dom", z3.ArraySort(self.sort(a[0]), z3.BoolSort())), ("val", z3.ArraySort(self.sort(a[0]), self.sort(a[1]))), ("n", z3.IntSort())]
            elif h == "std::pair":
                fs = [("first", self.sort(a[0])), ("second", self.sort(a[1]))]
            else:
                fs = [("f_" + n, self.sort(t)) for n, t in self.fields(s)] or [("dummy", z3.IntSort())]
            # every datatype, constructor and selector has a name of its own (cvc5 knows no overloading)
            nm = "%s_%d" % ("Set" if h in SETS else s.split("::")[-1][:20].replace("<", "_").replace(">", "_").replace(",", "_").replace(" ", ""), len(self.dt))
            D = z3.Datatype(nm)
            D.declare("mk." + nm, *[("%s.%s" % (f, nm), t) for f, t in fs])
            d = D.create()
            d.mk = d.constructor(0)
            for k, (f, t) in enumerate(fs):
                setattr(d, f, d.accessor(0, k))
        self.dt[s] = d
        return d

    def fields(self, s):
        if s in self.field_override:
            return self.field_override[s]
        if s == "std::ostream":
            return [("text", "std::string")]
        r = self.prog.records[s]
        out = []
        for b in r["bases"]:
            if strip(b) in self.prog.records:
                out += self.fields(strip(b))
        return out + [(f["n"], f["t"]) for f in r["fields"]]

    def reify(self, v, t):
        s = strip(t)
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, StrV):
            return v.s
        if isinstance(v, FlatSV):
            return self.SV.mkSV(v.p, v.n)
        if isinstance(v, CharV):
            c = z3.StrToCode(v.s)
            return z3.If(c >= 128, c - 256, c)
        if isinstance(v, OptV):
            d = self.datatype(s)
            return d.mk(v.has, self.reify(v.val, split_targs(s)[1][0]))
        if isinstance(v, VecV):
            return self.datatype(s).mk(v.n, v.a)
        if isinstance(v, ArrV):
            return v.a
        if isinstance(v, SetV):
            return self.datatype(s).mk(v.a, v.n)
        if isinstance(v, MapV):
            return self.datatype(s).mk(v.dom, v.val, v.n)
        if isinstance(v, StructV):
            h, a = split_targs(s)
            d = self.datatype(s)
            if h == "std::pair":
                return d.mk(self.reify(v.f["first"], a[0]), self.reify(v.f["second"], a[1]))
            fs = self.fields(s)
            if not fs:
                return d.mk(I(0))
            return d.mk(*[self.reify(v.f[n], ft) for n, ft in fs])
        raise Unsupported("cannot reify %s as %s" % (type(v).__name__, t))

    def reflect(self, e, t):
        s = strip(t)
        if s == "bool" or s in INTS or s.endswith("*") or s in self.prog.enums:
            return e
        if s in ("std::string_view", "std::string"):
            return StrV(e) if self.mode == "seq" else FlatSV(simp(self.SV.svp(e)), simp(self.SV.svn(e)))
        h, a = split_targs(s)
        if h in ("std::unique_ptr", "std::shared_ptr"):
            return e
        if s.endswith("]"):
            return ArrV(e, s[:s.rindex("[")], None)
        if h in SETS:
            d = self.datatype(s)
            return SetV(simp(d.sa(e)), a[0], simp(d.sn(e)), h in ("std::set", "absl::btree_set"))
        if h == "std::optional":
            d = self.datatype(s)
            return OptV(simp(d.has(e)), self.reflect(simp(d.val(e)), a[0]), a[0])
        if h in VEC:
            d = self.datatype(s)
            return VecV(simp(d.n(e)), simp(d.a(e)), a[0])
        if h in MAPS:
            d = self.datatype(s)
            return MapV(simp(d.dom(e)), simp(d.val(e)), a[0], a[1], simp(d.n(e)))
        if h == "std::pair":
            d = self.datatype(s)
            return StructV(s, {"first": self.reflect(simp(d.first(e)), a[0]), "second": self.reflect(simp(d.second(e)), a[1])})
        if s in self.prog.records or s in self.field_override:
            d = self.datatype(s)
            return StructV(s, {n: self.reflect(simp(getattr(d, "f_" + n)(e)), ft) for n, ft in self.fields(s)})
        return e

    def ranges(self, v, t):
        """Constraints every value of the type satisfies."""
        s = strip(t)
        out = []
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            r = int_range(s)
            if r:
                out += [v >= r[0], v <= r[1]]
            elif s.endswith("*") or split_targs(s)[0] in ("std::unique_ptr", "std::shared_ptr"):
                out += [v >= 0, v < TWO64]
            elif s in self.prog.enums:
                vals = sorted(set(self.prog.enums[s].values()))
                if s not in self.open_enums and vals:
                    out.append(z3.Or([v == x for x in vals]))
        elif isinstance(v, StrV):
            out += [z3.Length(v.s) <= SMAX]
        elif isinstance(v, FlatSV):
            out += [v.p >= 0, v.n >= 0, v.n <= SMAX, v.p + v.n < TWO64, z3.Implies(v.p == 0, v.n == 0)]
        elif isinstance(v, OptV):
            out += self.ranges(v.val, v.ty)
        elif isinstance(v, VecV):
            out += [v.n >= 0, v.n <= SMAX]
        elif isinstance(v, (SetV, MapV)):
            out += [v.n >= 0, v.n <= SMAX]
        elif isinstance(v, StructV):
            h, a = split_targs(s)
            if h == "std::pair":
                out += self.ranges(v.f["first"], a[0]) + self.ranges(v.f["second"], a[1])
            else:
                for n, ft in self.fields(s):
                    if n in v.f:
                        out += self.ranges(v.f[n], ft)
        return out

    open_enums = set()


_ctr = itertools.count()


def uid(p):
    return "%s!%d" % (p, next(_ctr))


def same_tree(a, b):
    """The same expression, wherever it stands."""
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = set(a) - {"ln"}, set(b) - {"ln"}
        return ka == kb and all(same_tree(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return a == b


def peel(e):
    """Without the conversions the compiler wrote."""
    while e.get("k") in ("Cast", "Temp", "Paren") and e.get("ck", "NoOp") in ("NoOp", "LValueToRValue", "ConstructorConversion") or \
            e.get("k") == "Construct" and len(e.get("args", [])) == 1:
        e = e["e"] if "e" in e else e["args"][0]
    return e


def mentions(n, i):
    if isinstance(n, dict):
        return n.get("k") == "Ref" and n.get("id") == i or any(mentions(x, i) for x in n.values())
    return isinstance(n, list) and any(mentions(x, i) for x in n)


def assigns(n, i):
    if isinstance(n, dict):
        if n.get("k") in ("Binary", "Unary", "OpCall", "Compound", "CompoundAssign"):
            t = n.get("l") or n.get("e") or (n.get("args") or [{}])[0]
            if isinstance(t, dict) and peel(t).get("k") == "Ref" and peel(t).get("id") == i and n.get("op") not in ("*", "!", "==", "!=", "->", "-", "<", ">"):
                return True
        return any(assigns(x, i) for x in n.values())
    return isinstance(n, list) and any(assigns(x, i) for x in n)


def iterator_loop(n, classes):
    """for (auto it = c.begin(); it != c.end(); ++it) whose body only uses *it, as a loop over the range c: (c, is a pointer, loop), or None."""
    i, c, inc = n.get("init"), n.get("cond"), n.get("inc")
    if not (i and c and inc and i.get("k") == "Decl" and len(i["vars"]) in (1, 2) and all(v.get("init") for v in i["vars"])):
        return None
    it = i["vars"][0]
    b = peel(it["init"])
    if not (b.get("k") == "MCall" and b["q"].split("::")[-1] in ("begin", "cbegin") and b.get("cls") in classes and not b["args"]):
        return None
    if not (inc.get("k") == "OpCall" and inc["op"] == "++" and peel(inc["args"][0]).get("id") == it["id"]):
        return None
    if not (c.get("k") == "OpCall" and c["op"] == "!=" and peel(c["args"][0]).get("id") == it["id"]):
        return None
    e = peel(c["args"][1])
    if len(i["vars"]) == 2:
        if not (e.get("k") == "Ref" and e.get("id") == i["vars"][1]["id"]) or mentions(n["body"], i["vars"][1]["id"]):
            return None
        e = peel(i["vars"][1]["init"])
    if not (e.get("k") == "MCall" and e["q"].split("::")[-1] in ("end", "cend") and not e["args"] and e.get("arrow") == b.get("arrow") and same_tree(e["obj"], b["obj"])):
        return None
    o = peel(b["obj"])
    if o.get("k") != "Ref" or assigns(n["body"], o["id"]):
        return None
    var = {"id": it["id"] + "!element", "n": it["n"], "static": False}

    def sub(x):
        if isinstance(x, dict):
            if x.get("k") == "OpCall" and x.get("op") == "*" and len(x["args"]) == 1 and peel(x["args"][0]).get("id") == it["id"]:
                var.setdefault("t", strip(x["t"]))
                return {"t": var["t"], "v": "l", "ln": x["ln"], "k": "Ref", "n": it["n"], "id": var["id"], "q": it["n"], "dk": "var"}
            return {k: sub(v) for k, v in x.items()}
        return [sub(v) for v in x] if isinstance(x, list) else x
    body = sub(n["body"])
    if mentions(body, it["id"]) or "t" not in var or assigns(body, var["id"]):
        return None
    return b["obj"], b.get("arrow"), {"k": "RangeFor", "ln": n.get("ln"), "var": var, "body": body}


class Engine:
    MAXDEPTH = 12

    def __init__(self, prog, mode="seq"):
        self.prog = prog
        prog.enums.setdefault("std::errc", {})
        self.so = Sorts(prog, mode)
        self.mode = mode
        self.obls = []
        self.quiet = 0
        self.contracts = {}      # fn key -> Contract
        self.lib = {}
        self.overrides = {}      # qualified name -> python model (per unit)
        self.loop_templates = []
        self.visited_fns = {}    # q -> (file, line) of repo functions whose body was executed
        self.assumed = set()     # trusted models used
        self.mem = z3.Array("mem", z3.IntSort(), z3.IntSort())
        self.types = {}          # cell id -> type
        self.abs = euf.Abs()
        self.opts = dict(feas_ms=400, quick_ms=400, houdini_ms=3000)
        self.loops_seen = {}
        self.loop_invs = {}
        self.solver_time = 0.0
        self.solver_calls = 0
        self.cur_ln = 0
        self.axioms = []         # global background facts
        self.check_signed = True
        self.deadline = None
        self.opaque_types = set()
        import lib as _lib
        _lib.install(self)

    # ------------------------------------------------------------ solver
    def _solver(self, ms):
        s = z3.Solver()
        s.set("timeout", int(ms * PATIENCE))
        return s

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exceeded")

    def feasible(self, st, extra=()):
        self._tick()
        t = time.time()
        if self.opts.get("fast"):
            # which cases are worth looking at: texts uninterpreted, quantified facts left out (more cases stay than need be)
            r = euf.unsat(tuple(st.pc) + tuple(extra), z3.BoolVal(False), 300, self.abs)
            self.solver_time += time.time() - t
            self.solver_calls += 1
            return not r
        s = self._solver(self.opts["feas_ms"])
        s.add(*self.relevant(st.pc))
        s.add(*self.axioms)
        s.add(*extra)
        r = s.check()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r != z3.unsat

    def relevant(self, pc):
        return pc

    def valid(self, pc, goal, ms=None):
        self._tick()
        g = simp(goal)
        if is_true(g):
            return True
        t = time.time()
        if self.opts.get("rope") or self.opts.get("fast"):
            if euf.unsat(pc, g, 500, self.abs):
                self.solver_time += time.time() - t
                self.solver_calls += 1
                return True
        s = self._solver(ms or self.opts["quick_ms"])
        s.add(*pc)
        s.add(*self.axioms)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unknown and ms and (self.opts.get("second") or PATIENCE > 1):
            q = z3.Solver()
            q.add(*pc, *self.axioms, z3.Not(g))
            r = z3.unsat if self.second_solver(q.to_smt2()) else r
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r == z3.unsat

    def second_solver(self, text, ms=2000):
        """A guess about an invariant gets a second opinion (cvc5)."""
        exe = shutil.which("cvc5")
        if not exe:
            return False
        try:
            p = subprocess.run([exe, "--lang=smt2", "--strings-exp", "--tlimit=%d" % ms, "-"], input="(set-logic ALL)\n" + text, capture_output=True, text=True, timeout=ms / 1000 + 5)
        except subprocess.TimeoutExpired:
            return False
        return p.stdout.strip().splitlines()[:1] == ["unsat"]

    def oblige(self, st, goal, name, kind="safety"):
        g = simp(goal)
        if not self.quiet:
            self.obls.append(Obligation(name, st.pc + tuple(self.axioms), g, st.fn, self.cur_ln, kind))
        if is_false(g):
            st.assume(g)
            return
        st.assume(g)

    # ------------------------------------------------------------ fresh
    def fresh(self, t, name="v"):
        s = strip(t)
        if s in self.opaque_types or self.is_opaque(s):
            return OpaqueV(s)
        if self.is_stream(s):
            return StructV("std::ostream", {"text": self.fresh("std::string", name + ".text")})
        h, a = split_targs(s)
        if s in self.prog.records or h == "std::pair":
            if h == "std::pair":
                return StructV(s, {"first": self.fresh(a[0], name + ".first"), "second": self.fresh(a[1], name + ".second")})
            return StructV(s, {n: self.fresh_field(s, n, ft, name + "." + n) for n, ft in self.so.fields(s)})
        if s in ("std::string_view", "std::string") and self.mode == "flat":
            u = uid(name)
            return FlatSV(z3.Int(u + ".p"), z3.Int(u + ".n"))
        so = self.so.sort(s)
        return self.so.reflect(z3.Const(uid(name), so), s)

    def fresh_field(self, cls, n, t, name):
        if is_ref(t):
            return self.ref_field(cls, n, t, name)
        return self.fresh(t, name)

    def ref_field(self, cls, n, t, name):
        return OpaqueV(strip(t))

    OPAQUE = ("std::ostream", "std::function", "std::basic_ostream", "absl::Duration", "absl::Time", "bant::Stat", "std::basic_stringstream",
              "re2::RE2", "std::basic_istream", "absl::Cleanup", "bant::Session", "bant::SessionStreams", "std::mutex", "verif_shim",
              "std::initializer_list", "std::allocator", "std::thread", "std::atomic")

    STREAMS = ("std::ostream", "std::basic_ostream", "std::basic_stringstream", "std::basic_ostringstream", "std::stringstream", "std::ostringstream")

    def is_stream(self, s):
        return self.opts.get("streams") and any(s.startswith(o) for o in self.STREAMS) and not s.endswith("*")

    def is_opaque(self, s):
        if self.is_stream(s):
            return False
        return any(s.startswith(o) for o in self.OPAQUE) and not s.endswith("*")

    def fresh_st(self, st, t, name="v"):
        v = self.fresh(t, name)
        st.assume(*self.so.ranges(v, t))
        return v

    def new_cell(self, st, v, t, name="c"):
        cid = uid(name)
        st.cells[cid] = v
        self.types[cid] = t
        return Cell(cid)

    # ------------------------------------------------------------ read/write
    def heap_field_sort(self, cls, f):
        for n, t in self.so.fields(cls):
            if n == f:
                return self.so.sort(t), t
        raise Unsupported("no field %s in %s" % (f, cls))

    def heap_arr(self, st, cls, f):
        k = (cls, f)
        if k not in st.heap:
            so, t = self.heap_field_sort(cls, f)
            # a deterministic name: every state that never wrote the field sees the same initial array
            st.heap[k] = z3.Const("H0.%s.%s" % (cls.split("::")[-1], f), z3.ArraySort(z3.IntSort(), so))
        return st.heap[k]

    def owner_class(self, cls, f):
        """The record in cls's base chain that declares field f."""
        r = self.prog.records.get(cls)
        if r is None:
            return cls
        if any(x["n"] == f for x in r["fields"]):
            return cls
        for b in r["bases"]:
            o = self.owner_class(strip(b), f)
            rr = self.prog.records.get(o)
            if rr and any(x["n"] == f for x in rr["fields"]):
                return o
        return cls

    def rd(self, st, lv):
        if isinstance(lv, Cell):
            v = st.cells[lv.cid]
            for i, p in enumerate(lv.path):
                if isinstance(v, EmbV):
                    return self.rd(st, HeapLV(v.cls, v.addr, lv.path[i:]))
                v = self.step_get(st, v, p)
            return v
        if isinstance(lv, HeapLV):
            if not lv.path:
                # whole object: read every field
                return StructV(lv.cls, {n: self.rd(st, HeapLV(lv.cls, lv.addr, (n,))) for n, t in self.so.fields(lv.cls)})
            f = lv.path[0]
            cls = self.owner_class(lv.cls, f)
            arr = self.heap_arr(st, cls, f)
            so, t = self.heap_field_sort(cls, f)
            v = self.so.reflect(simp(z3.Select(arr, lv.addr)), t)
            self.on_heap_read(st, cls, f, lv.addr, v, t)
            for p in lv.path[1:]:
                v = self.step_get(st, v, p)
            return v
        if isinstance(lv, ValLV):
            return lv.v
        if isinstance(lv, SubLV):
            return self.step_get(st, self.rd(st, lv.base), lv.step)
        if isinstance(lv, CharMemLV):
            c = z3.Select(self.mem, lv.addr)
            st.assume(c >= -128, c <= 127)
            return c
        if hasattr(lv, "read"):
            return lv.read(self, st)
        raise Unsupported("read of %r" % lv)

    def on_heap_read(self, st, cls, f, addr, v, t):
        for c in self.so.ranges(v, t):
            st.assume(c)

    def wr(self, st, lv, v):
        if isinstance(lv, Cell):
            root = st.cells[lv.cid]
            for i, p in enumerate(lv.path):
                pass
            r = self.upd(st, root, lv.path, v)
            if r is not None:
                st.cells[lv.cid] = r
            return
        if isinstance(lv, HeapLV):
            if not lv.path:
                for n, t in self.so.fields(lv.cls):
                    self.wr(st, HeapLV(lv.cls, lv.addr, (n,)), v.f[n])
                return
            f = lv.path[0]
            cls = self.owner_class(lv.cls, f)
            arr = self.heap_arr(st, cls, f)
            so, t = self.heap_field_sort(cls, f)
            if len(lv.path) > 1:
                old = self.so.reflect(simp(z3.Select(arr, lv.addr)), t)
                v = self.upd(st, old, lv.path[1:], v)
            st.heap[(cls, f)] = z3.Store(arr, lv.addr, self.so.reify(v, t))
            return
        if hasattr(lv, "write"):
            return lv.write(self, st, v)
        raise Unsupported("write to %r" % lv)

    def upd(self, st, root, path, v):
        if isinstance(root, EmbV):
            self.wr(st, HeapLV(root.cls, root.addr, path), v)
            return root
        if not path:
            return v
        p = path[0]
        if len(path) == 1 and not (isinstance(root, StructV) and isinstance(root.f.get(p) if isinstance(p, str) else None, EmbV)):
            return self.step_set(st, root, p, v)
        sub = self.upd(st, self.step_get(st, root, p), path[1:], v)
        return self.step_set(st, root, p, sub)

    def step_get(self, st, v, p):
        if isinstance(p, str):
            if isinstance(v, StructV):
                if p not in v.f:
                    raise Unsupported("field %s of %s" % (p, v.cls))
                return v.f[p]
            if isinstance(v, OptV) and p == "*":
                return v.val
            if isinstance(v, OpaqueV):
                return OpaqueV("?", v)
            raise Unsupported("field %s of %s" % (p, type(v).__name__))
        if p[0] == "i":
            if isinstance(v, (VecV, ArrV)):
                return self.so.reflect(simp(z3.Select(v.a, p[1])), v.ety)
            if isinstance(v, TupV):
                return v.items[p[1].as_long()]
            if isinstance(v, StrV):
                return CharV(z3.SubString(v.s, p[1], 1))
        if p[0] == "k" and isinstance(v, MapV):
            return self.so.reflect(simp(z3.Select(v.val, p[1])), v.vty)
        raise Unsupported("step %s of %s" % (p, type(v).__name__))

    def step_set(self, st, v, p, x):
        if isinstance(p, str):
            if isinstance(v, StructV):
                return v.set(p, x)
            if isinstance(v, OptV) and p == "*":
                return OptV(v.has, x, v.ty)
        elif p[0] == "i":
            if isinstance(v, VecV):
                return VecV(v.n, z3.Store(v.a, p[1], self.so.reify(x, v.ety)), v.ety)
            if isinstance(v, ArrV):
                return ArrV(z3.Store(v.a, p[1], self.so.reify(x, v.ety)), v.ety, v.size)
        elif p[0] == "k" and isinstance(v, MapV):
            return MapV(v.dom, z3.Store(v.val, p[1], self.so.reify(x, v.vty)), v.kty, v.vty, v.n)
        raise Unsupported("update %s of %s" % (p, type(v).__name__))

    # ------------------------------------------------------------ expressions
    def val(self, x, st):
        """Load if lvalue."""
        v = self.rd(st, x) if isinstance(x, LV) else x
        if isinstance(v, LostV):
            raise Unsupported("pointer of an earlier round of a loop")
        return v

    def evs(self, es, st):
        """Evaluate a list of expressions left to right."""
        outs = [([], st)]
        for e in es:
            nxt = []
            for vs, s in outs:
                for v, s2 in self.ev(e, s):
                    nxt.append((vs + [v], s2))
            outs = nxt
        return outs

    def rv(self, e, st):
        return [(self.val(v, s), s) for v, s in self.ev(e, st)]

    def ev(self, e, st):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s %s (line %s)" % (e["k"], e.get("what", ""), e.get("ln")))
        self.cur_ln = e.get("ln", self.cur_ln)
        return m(e, st)

    def e_Int(self, e, st):
        return [(I(int(e["val"])), st)]

    def e_Char(self, e, st):
        return [(I(e["val"] - 256 if e["val"] >= 128 and e["t"] == "char" else e["val"]), st)]

    def e_Bool(self, e, st):
        return [(z3.BoolVal(e["val"]), st)]

    def e_Nullptr(self, e, st):
        return [(I(0), st)]

    def e_Float(self, e, st):
        return [(OpaqueV("double"), st)]

    def e_Null(self, e, st):
        return [(VOID, st)]

    def e_ZeroInit(self, e, st):
        return [(self.zero(e["t"]), st)]

    def zero(self, t):
        s = strip(t)
        if s == "bool":
            return z3.BoolVal(False)
        if s in INTS or s.endswith("*") or s in self.prog.enums:
            return I(0)
        return self.default_value(s)

    def default_value(self, s):
        s = strip(s)
        h, a = split_targs(s)
        if s in ("std::string_view", "std::string"):
            return StrV(z3.StringVal("")) if self.mode == "seq" else FlatSV(I(0), I(0))
        if s == "bool":
            return z3.BoolVal(False)
        if s in INTS or s.endswith("*") or s in self.prog.enums or h in ("std::unique_ptr", "std::shared_ptr"):
            return I(0)
        if h == "std::optional":
            return OptV(z3.BoolVal(False), self.fresh(a[0], "none"), a[0])
        if h in VEC:
            return VecV(I(0), z3.Const(uid("vec0"), z3.ArraySort(z3.IntSort(), self.so.sort(a[0]))), a[0])
        if h in SETS:
            return SetV(z3.K(self.so.sort(a[0]), z3.BoolVal(False)), a[0], I(0), h in ("std::set", "absl::btree_set"))
        if h in MAPS:
            return MapV(z3.K(self.so.sort(a[0]), z3.BoolVal(False)),
                        z3.Const(uid("map0"), z3.ArraySort(self.so.sort(a[0]), self.so.sort(a[1]))), a[0], a[1], I(0))
        if h == "std::pair":
            return StructV(s, {"first": self.default_value(a[0]), "second": self.default_value(a[1])})
        if self.is_stream(s):
            return StructV("std::ostream", {"text": self.default_value("std::string")})
        if self.is_opaque(s):
            return OpaqueV(s)
        if s.endswith("]"):
            i = s.rindex("[")
            return ArrV(z3.Const(uid("arr"), z3.ArraySort(z3.IntSort(), self.so.sort(s[:i]))), s[:i], s[i + 1:-1])
        if s in self.prog.records and not any(not f["implicit"] and not f["params"] for f in self.prog.by_q.get(s + "::" + s.split("::")[-1], [])):
            return self.default_record(s, St())
        raise Unsupported("default value of " + s)

    def e_Str(self, e, st):
        return [(self.str_lit(bytes(e["bytes"]), st), st)]

    _lits = {}

    def str_lit(self, b, st):
        """A string literal, as an ('array-like') value usable as const char* / string_view source."""
        if self.mode == "seq":
            return StrV(z3.StringVal("".join(chr(c) if c < 128 and c >= 32 and c not in (92,) else "\\u{%x}" % c for c in b)))
        return LitV(b)

    def e_TParam(self, e, st):
        tp = getattr(self, "tparams", {})
        if e["n"] in tp:
            return [(tp[e["n"]], st)]
        return self.ev(e["e"], st)

    def e_This(self, e, st):
        t = st.this
        if isinstance(t, HeapLV):
            return [(t.addr, st)]
        return [(PtrV(t), st)]

    def lookup(self, e, st):
        lv = st.env.get(e["id"])
        return lv

    def e_Ref(self, e, st):
        dk = e["dk"]
        if dk == "enum":
            return [(I(e["val"]), st)]
        if dk == "fn":
            return [(FnV(e["key"]), st)]
        lv = st.env.get(e["id"])
        if lv is None and e.get("holdid"):
            lv = st.env.get(e["holdid"])
        if lv is not None:
            return [(lv, st)]
        if dk == "global":
            q = e["q"]
            if q in ("std::nullopt",):
                return [(ValLV(OpaqueV("std::nullopt_t")), st)]
            g = self.prog.globals.get(q) or self.prog.global_by_id.get(e["id"])
            if q in self.overrides:
                return [(self.overrides[q](self, st, e), st)]
            if g and g.get("const") and g.get("init"):
                outs = []
                for v, s in self.ev(g["init"], st):
                    outs.append((ValLV(self.val(v, s)), s))
                return outs
            if q.endswith("::npos"):
                return [(ValLV(NPOS), st)]
            return [(ValLV(OpaqueV(e["t"], q)), st)]
        raise Unsupported("unbound variable %s (line %s)" % (e["n"], e.get("ln")))

    def deref(self, v, st, cls, ln=None):
        """Lvalue designated by pointer value v."""
        if isinstance(v, PtrV):
            return v.lv
        if isinstance(v, OpaqueV):
            return ValLV(OpaqueV(cls))
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            self.oblige(st, v != 0, "non-null pointer dereference")
            return HeapLV(strip(cls), v)
        raise Unsupported("dereference of %s" % type(v).__name__)

    def e_Member(self, e, st):
        if e["mk"] == "static":
            if e["n"] == "npos":
                return [(ValLV(NPOS), st)]
            g = self.prog.globals.get(e["q"])
            if g and g.get("init"):
                return [(ValLV(self.val(v, s)), s) for v, s in self.ev(g["init"], st)]
            raise Unsupported("static member " + e["q"])
        if e["mk"] != "field":
            raise Unsupported("member " + e["q"])
        outs = []
        for b, s in self.ev(e["base"], st):
            if e["arrow"]:
                lv = self.deref(self.val(b, s), s, pointee(e["base"]["t"]))
            else:
                lv = b if isinstance(b, LV) else ValLV(b)
            m = lv.sub(e["n"])
            # reference members designate another object
            v0 = None
            try:
                v0 = self.rd(s, m) if self.member_is_ref(e) else None
            except Unsupported:
                v0 = None
            if isinstance(v0, PtrV):
                m = v0.lv
            outs.append((m, s))
        return outs

    def member_is_ref(self, e):
        r = self.prog.records.get(e.get("cls", ""))
        if not r:
            return False
        for f in r["fields"]:
            if f["n"] == e["n"]:
                return is_ref(f["t"])
        return False

    def e_Temp(self, e, st):
        outs = []
        for v, s in self.ev(e["e"], st):
            if not isinstance(v, LV):
                v = self.new_cell(s, v, strip(e["t"]), "tmp")
            outs.append((v, s))
        return outs

    def e_Opaque(self, e, st):
        return self.ev(e["e"], st)

    def e_StdInitList(self, e, st):
        return self.rv(e["e"], st)

    def e_InitList(self, e, st):
        t = strip(e["t"])
        outs = []
        for vs, s in self.evs(e["args"], st):
            outs.append((self.make_init(t, [self.val(v, s) for v in vs], s, e), s))
        return outs

    def make_init(self, t, vs, st, e=None):
        if t in self.prog.records:
            fs = self.so.fields(t)
            d = {}
            for (n, ft), v in zip(fs, vs):
                d[n] = v
            return StructV(t, d)
        if t.endswith("]"):
            return TupV(vs, t[:t.rindex("[")])
        if t in self.opts.get("tagged", ()) and vs and isinstance(vs[0], (StrV, z3.ExprRef)):
            return OpaqueV(t, vs[0])        # known by what it was initialised with
        if len(vs) == 1:
            return vs[0]
        if not vs:
            return self.zero(t)
        raise Unsupported("init list of " + t)

    # casts
    def e_Cast(self, e, st):
        ck = e["ck"]
        sub = e["e"]
        if ck == "LValueToRValue":
            if strip(e["t"]) == "std::nullptr_t":
                return [(I(0), st)]
            return [(self.val(v, s), s) for v, s in self.ev(sub, st)]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "ArrayToPointerDecay", "FunctionToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion", "BaseToDerived", "BuiltinFnToFnPtr", "LValueBitCast", "Dynamic"):
            if ck in ("BaseToDerived", "Dynamic"):
                return self.cast_down(e, st)
            outs = self.ev(sub, st)
            if ck == "ArrayToPointerDecay":
                return [(v if not isinstance(v, LV) or isinstance(v, ValLV) else self.decay(v, s), s) for v, s in outs]
            return outs
        if ck == "NullToPointer":
            return [(I(0), s) for v, s in self.ev(sub, st)]
        if ck == "ToVoid":
            return [(VOID, s) for v, s in self.ev(sub, st)]
        if ck == "IntegralCast":
            return [(self.conv(self.val(v, s), sub["t"], e["t"], s), s) for v, s in self.ev(sub, st)]
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            outs = []
            for v, s in self.ev(sub, st):
                v = self.val(v, s)
                if isinstance(v, (PtrV, LamV, FnV)):
                    outs.append((z3.BoolVal(True), s))
                elif isinstance(v, OpaqueV):
                    outs.append((z3.Bool(uid("opq")), s))
                else:
                    outs.append((simp(self.num(v) != 0), s))
            return outs
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            if ck == "FloatingToIntegral":
                raise Unsupported("float to int")
            return [(OpaqueV("double"), s) for v, s in self.ev(sub, st)]
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return self.rv(sub, st)
        raise Unsupported("cast " + ck)

    def decay(self, lv, st):
        return PtrV(lv.sub(("i", I(0))))

    def cast_down(self, e, st):
        return self.ev(e["e"], st)

    def num(self, v):
        if isinstance(v, CharV):
            c = z3.StrToCode(v.s)
            return z3.If(c >= 128, c - 256, c)
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return z3.If(v, I(1), I(0))
            return v
        raise Unsupported("number expected, got " + type(v).__name__)

    def conv(self, v, tf, tt, st):
        f, t = strip(tf), strip(tt)
        if isinstance(v, OpaqueV):
            return OpaqueV(t)
        if isinstance(v, CharV):
            if t == "int" or t == "char":
                return v
        if f == "bool":
            return self.num(v)
        v = self.num(v)
        r = int_range(t)
        rf = int_range(f)
        if r is None or (rf and rf[0] >= r[0] and rf[1] <= r[1]):
            return v
        v = simp(v)
        if z3.is_int_value(v):
            x = v.as_long()
            m = r[1] - r[0] + 1
            return I((x - r[0]) % m + r[0])
        if self.valid(st.pc, z3.And(v >= r[0], v <= r[1])):
            return v
        m = r[1] - r[0] + 1
        if rf and rf[1] - rf[0] + 1 == m:
            return z3.If(v > r[1], v - m, z3.If(v < r[0], v + m, v))
        return (v - r[0]) % m + r[0]

    def wrap(self, v, t, st, what):
        """Result of +,-,* in type t."""
        r = int_range(t)
        if r is None:
            return v
        v = simp(v)
        if z3.is_int_value(v) and r[0] <= v.as_long() <= r[1]:
            return v
        if r[0] < 0:
            if self.check_signed:
                self.oblige(st, z3.And(v >= r[0], v <= r[1]), "no signed overflow in '%s'" % what)
            return v
        if self.valid(st.pc, z3.And(v >= r[0], v <= r[1])):
            return v
        m = r[1] + 1
        if what in ("+", "++", "-", "--", "+=", "-="):
            return z3.If(v > r[1], v - m, z3.If(v < 0, v + m, v))
        return v % m

    def e_Unary(self, e, st):
        op = e["op"]
        if op == "&":
            return [(self.addr_of(v, s, e), s) for v, s in self.ev(e["e"], st)]
        if op == "*":
            outs = []
            for v, s in self.rv(e["e"], st):
                outs.append((self.deref_op(v, s, e["e"]["t"]), s))
            return outs
        if op in ("++", "--"):
            outs = []
            t = e["e"]["t"]
            for lv, s in self.ev(e["e"], st):
                old = self.rd(s, lv)
                if isinstance(old, PtrV):
                    raise Unsupported("pointer arithmetic on object pointer")
                if isinstance(old, OpaqueV):      # a number nothing is known about (statistics)
                    outs.append((OpaqueV(strip(t)) if e["post"] else lv, s))
                    continue
                d = 1 if op == "++" else -1
                if is_ptr(t):
                    new = self.ptr_add(old, I(d), t, s)
                else:
                    rt = strip(t)
                    ir = int_range(rt)
                    # narrower than int: promoted, then converted back
                    if ir and ir[1] < (1 << 31):
                        new = self.conv(self.num(old) + d, "int", rt, s)
                    else:
                        new = self.wrap(self.num(old) + d, rt, s, op)
                self.wr(s, lv, new)
                outs.append((old if e["post"] else lv, s))
            return outs
        outs = []
        for v, s in self.rv(e["e"], st):
            if op == "!":
                outs.append((simp(z3.Not(self.bool(v))), s))
            elif op == "-":
                if isinstance(v, OpaqueV):
                    outs.append((v, s))
                else:
                    outs.append((self.wrap(-self.num(v), e["t"], s, "-"), s))
            elif op == "+":
                outs.append((v, s))
            else:
                raise Unsupported("unary " + op)
        return outs

    def bool(self, v):
        if isinstance(v, z3.ExprRef):
            return v if z3.is_bool(v) else v != 0
        if isinstance(v, OpaqueV):
            return z3.Bool(uid("opq"))
        if isinstance(v, (PtrV, LamV, FnV)):
            return z3.BoolVal(True)
        if isinstance(v, CharV):
            return self.num(v) != 0
        raise Unsupported("bool of " + type(v).__name__)

    def ptr_add(self, p, k, t, st):
        pt = pointee(t)
        if pt in ("char", "unsigned char", "signed char"):
            return simp(p + k)
        raise Unsupported("pointer arithmetic on " + t)

    def addr_of(self, lv, st, e):
        if isinstance(lv, HeapLV) and not lv.path:
            return lv.addr
        if isinstance(lv, CharMemLV):
            return lv.addr
        if isinstance(lv, FnV):
            return lv
        if isinstance(lv, Cell):
            try:
                v = self.rd(st, lv)
            except Unsupported:
                v = None
            if isinstance(v, EmbV):
                return v.addr
        if isinstance(lv, LV):
            return PtrV(lv)
        raise Unsupported("address of value")

    def deref_op(self, v, st, t):
        if isinstance(v, IterV):
            import lib
            return lib.iter_deref(self, st, v)
        if isinstance(v, PtrV):
            return v.lv
        pt = pointee(t)
        if pt == "char" and self.mode == "flat" and isinstance(v, z3.ExprRef):
            self.char_read_ok(st, v)
            return CharMemLV(v)
        if isinstance(v, FnV):
            return v
        return self.deref(v, st, pt)

    def char_read_ok(self, st, addr):
        """Reads of the immutable char memory must stay inside a buffer known to be readable."""
        b = st.g.get("$bufs", ())
        if not b:
            raise Unsupported("char read with no known buffer")
        self.oblige(st, z3.Or([z3.And(addr >= lo, addr < hi) for lo, hi in b]), "in-bounds character read")

    def pure_bool(self, e, st):
        """Evaluate e; return (formula, state) if it neither forks nor writes, else None."""
        n = len(self.obls)
        outs = self.rv(e, st.fork())
        if len(outs) == 1:
            v, s = outs[0]
            if s.heap.keys() == st.heap.keys() and all(s.heap[k] is st.heap[k] for k in st.heap) and \
               all(s.cells.get(k) is v0 for k, v0 in st.cells.items()) and s.g == st.g:
                return self.bool(v), s, outs
        return None, None, outs

    def e_Binary(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            res = []
            for l, s in self.rv(e["l"], st):
                lb = simp(self.bool(l))
                if is_true(lb):
                    res += [(z3.BoolVal(True), s)] if op == "||" else [(self.bool(v), s2) for v, s2 in self.rv(e["r"], s)]
                    continue
                if is_false(lb):
                    res += [(z3.BoolVal(False), s)] if op == "&&" else [(self.bool(v), s2) for v, s2 in self.rv(e["r"], s)]
                    continue
                go = lb if op == "&&" else z3.Not(lb)
                sg = s.fork().assume(go)
                if not self.feasible(sg):
                    s.assume(z3.Not(go))
                    res.append((z3.BoolVal(op == "||"), s))
                    continue
                f, s2, outs = self.pure_bool(e["r"], sg)
                if f is not None:
                    extra = [c for c in s2.pc[len(sg.pc):]]
                    for c in extra:
                        s.assume(z3.Implies(go, c))
                    res.append((simp(z3.And(lb, f)) if op == "&&" else simp(z3.Or(lb, f)), s))
                else:
                    for v, s3 in outs:
                        res.append((self.bool(v), s3))
                    ss = s.assume(z3.Not(go))
                    if self.feasible(ss):
                        res.append((z3.BoolVal(op == "||"), ss))
            return res
        if op == "=":
            outs = []
            for lv, s in self.ev(e["l"], st):
                for v, s2 in self.rv(e["r"], s):
                    self.assign(s2, lv, v, e["l"]["t"])
                    outs.append((lv, s2))
            return outs
        if op == ",":
            outs = []
            for _, s in self.ev(e["l"], st):
                outs += self.ev(e["r"], s)
            return outs
        outs = []
        for l, s in self.rv(e["l"], st):
            for r, s2 in self.rv(e["r"], s):
                outs.append((self.binop(op, l, r, e["t"], e["l"]["t"], e["r"]["t"], s2), s2))
        return outs

    def assign(self, st, lv, v, t):
        self.wr(st, lv, v)

    def binop(self, op, l, r, t, lt, rt, st):
        if isinstance(l, OpaqueV) or isinstance(r, OpaqueV):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return z3.Bool(uid("opq"))
            return OpaqueV(t)
        if isinstance(l, CharV) or isinstance(r, CharV):
            x = self.char_cmp(op, l, r)
            if x is not None:
                return x
        if op in ("==", "!="):
            if isinstance(l, (PtrV, LamV, FnV)) or isinstance(r, (PtrV, LamV, FnV)):
                x = self.ptr_eq(l, r)
                return x if op == "==" else simp(z3.Not(x))
            if z3.is_bool(l) and z3.is_bool(r):
                x = l == r
            else:
                x = self.num(l) == self.num(r)
            return simp(x if op == "==" else z3.Not(x))
        l, r = self.num(l), self.num(r)
        if op in ("<", ">", "<=", ">="):
            return simp({"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r}[op])
        if is_ptr(lt) and is_ptr(rt) and op == "-":
            return self.ptr_diff(l, r, lt, st)
        if is_ptr(lt):
            return self.ptr_add(l, r if op == "+" else -r, lt, st)
        if is_ptr(rt):
            return self.ptr_add(r, l, rt, st)
        if op in ("+", "-", "*"):
            x = {"+": l + r, "-": l - r, "*": l * r}[op]
            return self.wrap(x, t, st, op)
        if op in ("/", "%"):
            self.oblige(st, r != 0, "non-zero divisor")
            if self.valid(st.pc, z3.And(l >= 0, r > 0)):
                return simp(l / r if op == "/" else l % r)
            raise Unsupported("signed division")
        if op in ("<<", ">>"):
            return self.shift(op, l, r, t, st)
        if op in ("&", "|", "^"):
            if op == "&" and z3.is_int_value(simp(r)) and (simp(r).as_long() + 1) & simp(r).as_long() == 0:
                return simp(l % (simp(r).as_long() + 1))
            if op == "&" and z3.is_int_value(simp(r)) and simp(r).as_long() > 0:
                m = simp(r).as_long()
                lo = m & -m
                if (m + lo) & (m + lo - 1) == 0:      # a run of ones
                    return simp((l / lo) % ((m + lo) // lo) * lo)
            if z3.is_int_value(simp(l)) and z3.is_int_value(simp(r)):
                a, b = simp(l).as_long(), simp(r).as_long()
                return I({"&": a & b, "|": a | b, "^": a ^ b}[op])
            return self.bitop(op, l, r, t, st)
        raise Unsupported("binary " + op)

    def bitop(self, op, l, r, t, st):
        rg = int_range(t)
        bits = 64 if rg and rg[1] > 2 ** 32 else 32
        a, b = z3.Int2BV(l, bits), z3.Int2BV(r, bits)
        x = {"&": a & b, "|": a | b, "^": a ^ b}[op]
        return z3.BV2Int(x, is_signed=bool(rg and rg[0] < 0))

    def shift(self, op, l, r, t, st):
        r = simp(r)
        if z3.is_int_value(r):
            k = r.as_long()
            if op == "<<":
                return self.wrap(l * (1 << k), t, st, "<<")
            if self.valid(st.pc, l >= 0):
                return simp(l / (1 << k))
        if op == "<<":
            return self.sym_shift(l, r, t, st)
        raise Unsupported("shift")

    def sym_shift(self, l, r, t, st):
        rg = int_range(t)
        bits = 64 if rg[1] > 2 ** 32 else 32
        self.oblige(st, z3.And(r >= 0, r < bits), "shift amount in range")
        for k in (8, 16, bits - 1):
            if self.valid(st.pc, r <= k):
                break
        x = l * (1 << k)
        for i in range(k - 1, -1, -1):
            x = z3.If(r == i, l * (1 << i), x)
        if self.valid(st.pc, z3.And(x >= rg[0], x <= rg[1])):
            return x
        m = rg[1] - rg[0] + 1
        return (x - rg[0]) % m + rg[0]

    def char_cmp(self, op, l, r):
        if op not in ("==", "!="):
            return None
        if isinstance(r, CharV) and not isinstance(l, CharV):
            l, r = r, l
        if isinstance(r, CharV):
            x = l.s == r.s
        else:
            r = simp(r)
            if not z3.is_int_value(r):
                return None
            c = r.as_long() % 256
            x = l.s == z3.StringVal("\\u{%x}" % c)
        return x if op == "==" else z3.Not(x)

    def ptr_eq(self, l, r):
        if isinstance(l, PtrV) and isinstance(r, PtrV):
            if isinstance(l.lv, Cell) and isinstance(r.lv, Cell):
                if l.lv.key() == r.lv.key():
                    return z3.BoolVal(True)
                if l.lv.cid != r.lv.cid:
                    return z3.BoolVal(False)
            raise Unsupported("pointer comparison")
        for a, b in ((l, r), (r, l)):
            if isinstance(a, (PtrV, LamV, FnV)) and isinstance(b, z3.ExprRef):
                b = simp(b)
                if z3.is_int_value(b) and b.as_long() == 0:
                    return z3.BoolVal(False)
        raise Unsupported("pointer comparison")

    def ptr_diff(self, l, r, t, st):
        if pointee(t) in ("char",):
            return simp(l - r)
        raise Unsupported("pointer difference " + t)

    def e_CompAssign(self, e, st):
        op = e["op"][:-1]
        outs = []
        for r, s in self.rv(e["r"], st):
            for lv, s2 in self.ev(e["l"], s):
                old = self.rd(s2, lv)
                lt = e["l"]["t"]
                if isinstance(old, OpaqueV) or isinstance(r, OpaqueV):
                    self.wr(s2, lv, OpaqueV(strip(lt)) if isinstance(old, OpaqueV) else self.fresh_st(s2, lt))
                    outs.append((lv, s2))
                    continue
                if is_ptr(lt):
                    new = self.ptr_add(old, r if op == "+" else -r, lt, s2)
                elif strip(lt) == "bool":
                    if op in ("|", "&"):
                        a = self.bool(old)
                        b = self.bool(r)
                        new = z3.Or(a, b) if op == "|" else z3.And(a, b)
                    else:
                        raise Unsupported("bool " + e["op"])
                else:
                    ct = e.get("ct") or lt
                    lv0 = self.conv(self.num(old), lt, e.get("clt") or lt, s2)
                    new = self.binop(op, lv0, r, ct, e.get("clt") or lt, e["r"]["t"], s2)
                    new = self.conv(new, ct, lt, s2)
                self.wr(s2, lv, new)
                outs.append((lv, s2))
        return outs

    def e_Cond(self, e, st):
        res = []
        for c, s in self.rv(e["c"], st):
            for b, s2 in self.split(self.bool(c), s):
                res += self.ev(e["a"] if b else e["b"], s2)
        # merge the two pure scalar branches
        return res

    def split(self, c, st):
        """Fork on a formula; only feasible branches are returned."""
        c = simp(c)
        if is_true(c):
            return [(True, st)]
        if is_false(c):
            return [(False, st)]
        a = st.fork().assume(c)
        fa = self.feasible(a)
        if not fa:
            return [(False, st.assume(simp(z3.Not(c))))]
        b = st.fork().assume(simp(z3.Not(c)))
        if not self.feasible(b):
            return [(True, a)]
        return [(True, a), (False, b)]

    def e_Index(self, e, st):
        outs = []
        for b, s in self.ev(e["base"], st):
            for i, s2 in self.rv(e["idx"], s):
                bv = b
                if isinstance(bv, LV):
                    bt = strip(e["base"]["t"])
                    if bt.endswith("*"):
                        bv = self.rd(s2, bv)
                outs.append((self.index(bv, self.num(i), e["base"]["t"], s2), s2))
        return outs

    def index(self, b, i, t, st):
        if isinstance(b, z3.ExprRef) and z3.is_int(b) and pointee(t) == "char":
            return self.deref_op(simp(b + i), st, t)
        if isinstance(b, PtrV) and isinstance(b.lv, (Cell, HeapLV)) and b.lv.path and b.lv.path[-1][0] == "i":
            base = type(b.lv)
            path = b.lv.path[:-1]
            k = simp(b.lv.path[-1][1] + i)
            lv = Cell(b.lv.cid, path) if base is Cell else HeapLV(b.lv.cls, b.lv.addr, path)
            self.array_bounds(st, lv, k)
            return lv.sub(("i", k))
        if isinstance(b, LV):
            self.array_bounds(st, b, i)
            return b.sub(("i", i))
        raise Unsupported("subscript")

    def array_bounds(self, st, lv, k):
        h = self.opts.get("array_bounds")
        if h and h(self, st, lv, k):
            return
        v = self.rd(st, lv)
        if isinstance(v, ArrV) and v.size is not None:
            self.oblige(st, z3.And(k >= 0, k < I(int(v.size))), "array index in bounds")
        else:
            raise Unsupported("array bounds unknown")

    def e_SizeOf(self, e, st):
        so = getattr(self, "sizeof", None)
        if so:
            v = so(e)
            if v is not None:
                return [(v, st)]
        return [(I(e["val"]), st)]

    # ---- construction
    def e_Construct(self, e, st):
        t = strip(e["t"])
        # copy/move of a class value
        if (e["copy"] or e["move"]) and e["args"]:
            if t in self.prog.records and not e.get("defaulted") and e["key"] in self.prog.fns:
                pass
            else:
                outs = []
                for v, s in self.ev(e["args"][0], st):
                    x = self.val(v, s)
                    if e["move"] and isinstance(v, LV):
                        self.moved_from(s, v, t)
                    outs.append((x, s))
                return outs
        outs = []
        for vs, s in self.evs(e["args"], st):
            outs += self.construct(t, e, vs, s)
        return outs

    def moved_from(self, st, lv, t):
        """After a move the source holds an unspecified value."""
        if not isinstance(lv, Cell):
            return
        h, a = split_targs(t)
        try:
            if h in ("std::unique_ptr", "std::shared_ptr"):
                self.wr(st, lv, I(0))
            elif t == "std::string" or h in VEC or h in SETS or h in MAPS:
                self.wr(st, lv, self.fresh_st(st, t, "moved"))
            elif t in self.prog.records:
                for n, ft in self.so.fields(t):
                    self.moved_from(st, lv.sub(n), strip(ft))
        except Unsupported:
            pass

    def construct(self, t, e, vs, st):
        q = e["q"]
        m = self.overrides.get(q) or self.overrides.get("ctor " + t)
        if m:
            r = m(self, st, e, vs)
            if r is not None:
                return r
        if t in self.prog.records:
            fn = self.prog.fns.get(e["key"])
            if fn is None and e["dflt"]:
                return [(self.default_record(t, s2), s2) for s2 in [st]]
            if fn is None:
                raise Unsupported("constructor %s not available" % q)
            return self.run_ctor(fn, t, vs, st)
        import lib
        return lib.construct(self, st, t, e, vs)

    def default_record(self, t, st):
        r = self.prog.records[t]
        d = {}
        for b in r["bases"]:
            bs = strip(b)
            if bs in self.prog.records:
                d.update(self.default_record(bs, st).f)
        for f in r["fields"]:
            d[f["n"]] = self.field_default(f, st)
        return StructV(t, d)

    def field_default(self, f, st):
        if f.get("init"):
            outs = self.rv(f["init"], st)
            if len(outs) != 1:
                raise Unsupported("forking member initializer")
            return outs[0][0]
        ft = strip(f["t"])
        if ft in INTS or ft.endswith("*") or ft == "bool" or ft in self.prog.enums:
            return self.fresh(ft, "uninit_" + f["n"])
        if is_ref(f["t"]):
            return OpaqueV(ft)
        if ft in self.prog.records:
            return self.default_record(ft, st)
        return self.default_value(ft)

    def run_ctor(self, fn, t, vs, st, target=None):
        self.note(fn)
        saved = (st.env, st.this, st.fn)
        r = self.prog.records[t]
        cell = target or self.new_cell(st, StructV(t, {}), t, "obj")
        st.env = dict(st.env)
        st.this = cell
        st.fn = fn["q"]
        self.bind_params(fn["params"], vs, st)
        states = [st]
        explicit = {i["field"]: i for i in fn.get("inits", []) if "field" in i}
        done_bases = False
        for i in fn.get("inits", []):
            if i.get("deleg"):
                nxt = []
                for s in states:
                    for v, s2 in self.ev(i["e"], s):
                        self.wr(s2, cell, self.val(v, s2))
                        nxt.append(s2)
                states = nxt
                explicit = None
                break
            if "base" in i:
                nxt = []
                bt = strip(i["base"])
                for s in states:
                    if bt not in self.prog.records:
                        nxt.append(s)
                        continue
                    for v, s2 in self.ev(i["e"], s):
                        v = self.val(v, s2)
                        if isinstance(v, StructV):
                            cur = self.rd(s2, cell)
                            d = dict(cur.f)
                            d.update(v.f)
                            self.wr(s2, cell, StructV(t, d))
                        nxt.append(s2)
                states = nxt
        if explicit is not None:
            for f in r["fields"]:
                i = explicit.get(f["n"])
                nxt = []
                for s in states:
                    if i is None:
                        self.wr(s, cell.sub(f["n"]), self.field_default(f, s))
                        nxt.append(s)
                        continue
                    for v, s2 in self.ev(i["e"], s):
                        if is_ref(f["t"]):
                            v = PtrV(v) if isinstance(v, LV) else v
                        else:
                            v = self.val(v, s2)
                        self.wr(s2, cell.sub(f["n"]), v)
                        nxt.append(s2)
                states = nxt
        outs = []
        for s in states:
            for kind, s2, v in self.exec(fn["body"], s):
                if target is None:
                    res = self.rd(s2, cell)
                    outs.append((res, s2))
                else:
                    outs.append((VOID, s2))
        for v, s in outs:
            s.env, s.this, s.fn = dict(saved[0]), saved[1], saved[2]
        return outs

    # ---- calls
    def bind_params(self, params, vs, st):
        for p, v in zip(params, vs):
            if is_ref(p["t"]):
                if not isinstance(v, LV):
                    v = self.new_cell(st, v, strip(p["t"]), p["n"] or "p")
                st.env[p["id"]] = v
            else:
                v = self.val(v, st)
                st.env[p["id"]] = self.new_cell(st, v, strip(p["t"]), p["n"] or "p")

    def note(self, fn):
        self.visited_fns[fn["q"]] = (fn["file"], fn["line"], fn["endline"])

    def call_body(self, fn, this, vs, st):
        if st.depth > self.MAXDEPTH:
            raise Unsupported("call depth (recursion without contract?) at " + fn["q"])
        self.note(fn)
        saved = (st.env, st.this, st.fn, st.depth)
        st.env = dict()
        st.this, st.fn, st.depth = this, fn["q"], st.depth + 1
        self.bind_params(fn["params"], vs, st)
        outs = []
        refret = is_ref(fn["ret"])
        for kind, s, v in self.exec(fn["body"], st):
            s.env, s.this, s.fn, s.depth = dict(saved[0]), saved[1], saved[2], saved[3]
            if kind == "return":
                outs.append((v, s))
            else:
                outs.append((VOID, s))
        return outs

    def ret_kind(self, st):
        return None

    def call_lambda(self, lam, vs, st):
        saved = (st.env, st.this)
        st.env = dict(lam.env)
        st.this = lam.this
        st.depth += 1
        if st.depth > self.MAXDEPTH + 6:
            raise Unsupported("lambda recursion")
        self.bind_params(lam.node["params"], vs, st)
        outs = []
        for kind, s, v in self.exec(lam.node["body"], st):
            s.env, s.this = dict(saved[0]), saved[1]
            s.depth -= 1
            outs.append((v if kind == "return" else VOID, s))
        return outs

    def call_fn_key(self, key, this, vs, st, e=None):
        c = self.contracts.get(key)
        if c is not None and not (c.proving and st.depth == 0):
            return c.apply(self, this, vs, st)
        fn = self.prog.fns.get(key)
        if fn is None:
            return None
        return self.call_body(fn, this, vs, st)

    def e_Call(self, e, st):
        q = e["q"]
        m = self.overrides.get(q)
        if m:
            return m(self, st, e, None)
        if e["key"] in self.prog.fns or e["key"] in self.contracts:
            outs = []
            for vs, s in self.evs(e["args"], st):
                outs += self.call_fn_key(e["key"], None, vs, s, e)
            return outs
        import lib
        return lib.call(self, st, e)

    def e_ICall(self, e, st):
        outs = []
        for c, s in self.rv(e["callee"], st):
            for vs, s2 in self.evs(e["args"], s):
                outs += self.call_value(c, vs, s2, e)
        return outs

    def call_value(self, c, vs, st, e):
        if isinstance(c, LamV):
            return self.call_lambda(c, vs, st)
        if isinstance(c, FnV):
            r = self.call_fn_key(c.key, None, vs, st)
            if r is not None:
                return r
            import lib
            return lib.call_by_key(self, st, c.key, vs)
        if isinstance(c, FnChoice):
            outs = []
            for cond, f in c.alts:
                s = st.fork().assume(cond)
                if self.feasible(s):
                    outs += self.call_value(f, vs, s, e)
            return outs
        raise Unsupported("indirect call of %s" % type(c).__name__)

    def dyn_targets(self, key):
        return self.prog.over.get(key, [])

    def e_MCall(self, e, st):
        q = e["q"]
        m = self.overrides.get(q)
        if m:
            return m(self, st, e, None)
        key = e["key"]
        if key in self.prog.fns or key in self.contracts:
            outs = []
            for ob, s in self.ev(e["obj"], st):
                this = self.obj_lv(ob, e, s)
                for vs, s2 in self.evs(e["args"], s):
                    if e["virt"] and not e.get("qualified") and key not in self.contracts and self.dyn_targets(key):
                        raise Unsupported("virtual call " + q)
                    outs += self.call_fn_key(key, this, vs, s2, e)
            return outs
        import lib
        return lib.mcall(self, st, e)

    def obj_lv(self, ob, e, st):
        if e.get("arrow"):
            v = self.val(ob, st)
            return self.deref(v, st, pointee(e["obj"]["t"]))
        if isinstance(ob, LV):
            return ob
        return self.new_cell(st, ob, strip(e["obj"]["t"]), "obj")

    def e_OpCall(self, e, st):
        q = e.get("q")
        if q is None:
            raise Unsupported("operator call without callee")
        m = self.overrides.get(q)
        if m:
            return m(self, st, e, None)
        key = e["key"]
        if e.get("islambda"):
            outs = []
            for c, s in self.rv(e["args"][0], st):
                for vs, s2 in self.evs(e["args"][1:], s):
                    outs += self.call_value(c, vs, s2, e)
            return outs
        if key in self.prog.fns or key in self.contracts:
            fn = self.prog.fns.get(key)
            if fn is not None and fn["implicit"] and e["op"] in ("=", "==", "!="):
                return self.defaulted_op(e, st)
            outs = []
            for vs, s in self.evs(e["args"], st):
                if e.get("member"):
                    this = vs[0] if isinstance(vs[0], LV) else self.new_cell(s, vs[0], strip(e["args"][0]["t"]), "obj")
                    outs += self.call_fn_key(key, this, vs[1:], s, e)
                else:
                    outs += self.call_fn_key(key, None, vs, s, e)
            return outs
        if e.get("member") and e.get("cls") in self.prog.records and e.get("defaulted"):
            return self.defaulted_op(e, st)
        import lib
        return lib.opcall(self, st, e)

    def defaulted_op(self, e, st):
        outs = []
        for vs, s in self.evs(e["args"], st):
            if e["op"] == "=":
                v = self.val(vs[1], s)
                self.wr(s, vs[0], v)
                outs.append((vs[0], s))
            else:
                x = self.equal(self.val(vs[0], s), self.val(vs[1], s), strip(e["args"][0]["t"]))
                outs.append((x if e["op"] == "==" else z3.Not(x), s))
        return outs

    def equal(self, a, b, t):
        if isinstance(a, StructV) and isinstance(b, StructV):
            fs = self.so.fields(strip(t)) if strip(t) in self.prog.records else [(n, None) for n in a.f]
            return simp(z3.And([self.equal(a.f[n], b.f[n], ft or "") for n, ft in fs]))
        if isinstance(a, StrV) and isinstance(b, StrV):
            return a.s == b.s
        if isinstance(a, (FlatSV, LitV)) and isinstance(b, (FlatSV, LitV)):
            import lib
            return lib.flat_eq(self, a, b)
        if isinstance(a, OptV) and isinstance(b, OptV):
            return z3.And(a.has == b.has, z3.Implies(a.has, self.equal(a.val, b.val, a.ty)))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a == b
        if isinstance(a, CharV) or isinstance(b, CharV):
            x = self.char_cmp("==", a, b)
            if x is not None:
                return x
        return self.so.reify(a, t) == self.so.reify(b, t)

    def e_Lambda(self, e, st):
        if e.get("generic"):
            raise Unsupported("generic lambda")
        env = {}
        for c in e["caps"]:
            if "id" not in c:
                continue
            if c.get("initcap"):
                outs = self.rv(c["init"], st)
                if len(outs) != 1:
                    raise Unsupported("forking capture")
                v, st = outs[0]
                env[c["id"]] = self.new_cell(st, v, "?", c["n"])
                continue
            lv = st.env.get(c["id"])
            if lv is None:
                continue
            if c["ref"]:
                env[c["id"]] = lv
            else:
                v = self.rd(st, lv)
                env[c["id"]] = self.new_cell(st, v, self.types.get(lv.cid, "?") if isinstance(lv, Cell) and not lv.path else "?", c["n"])
        return [(LamV(e, env, st.this), st)]

    def e_New(self, e, st):
        m = self.overrides.get("new")
        if m:
            return m(self, st, e, None)
        raise Unsupported("new")

    def e_Delete(self, e, st):
        m = self.overrides.get("delete")
        if m:
            return m(self, st, e, None)
        raise Unsupported("delete")

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        m = getattr(self, "s_" + n["k"], None)
        if "ln" in n:
            self.cur_ln = n["ln"]
        if m:
            return m(n, st)
        if n["k"] in ("UnsupportedStmt",):
            raise Unsupported("statement " + n["what"])
        return [("next", s, None) for v, s in self.ev(n, st)]

    def s_Null(self, n, st):
        return [("next", st, None)]

    def s_Block(self, n, st):
        base = len(st.dtors)
        outs = self.seq(n["c"], st)
        if all(len(s.dtors) == base for k, s, v in outs):
            return outs
        res = []
        for k, s, v in outs:
            sts = [s]
            while sts and len(sts[0].dtors) > base:
                nxt = []
                for s1 in sts:
                    lv, what = s1.dtors[-1]
                    s1.dtors = s1.dtors[:-1]
                    nxt += self.destroy(s1, lv, what)
                sts = nxt
            res += [(k, s1, v) for s1 in sts]
        return res

    def dtor_of(self, t):
        """What runs at the end of the scope of a variable of this type: None, 'cleanup', or a destructor body."""
        h = split_targs(strip(t))[0]
        if h == "absl::Cleanup":
            return "cleanup"
        if h.startswith("bant::") or h in self.prog.records or "anonymous namespace" in h:
            q = strip(t)
            for f in self.prog.by_q.get(q + "::~" + q.split("<")[0].split("::")[-1], []):
                if f.get("dtor") and not f["implicit"] and f.get("body"):
                    return f
        return None

    def destroy(self, st, lv, what):
        if what == "cleanup":
            v = self.val(lv, st)
            if isinstance(v, LamV):
                return [s for r, s in self.call_lambda(v, [], st)]
            raise Unsupported("cleanup of " + type(v).__name__)
        return [s for r, s in self.call_body(what, lv, [], st)]

    def seq(self, stmts, st):
        live, done = [st], []
        for x in stmts:
            nxt = []
            for s in live:
                for k, s2, v in self.exec(x, s):
                    if k == "next":
                        nxt.append(s2)
                    else:
                        done.append((k, s2, v))
            live = self.merge(nxt) if len(nxt) > 1 and self.opts.get("merge") else nxt
            if not live:
                break
        return [("next", s, None) for s in live] + done

    def merge(self, sts):
        """Paths that differ only in what is known, not in the state, go on as one that knows what both know."""
        out = []
        for s in sts:
            for i, o in enumerate(out):
                m = self.merged(o, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merged(self, a, b):
        if a.env.keys() != b.env.keys() or a.heap.keys() != b.heap.keys() or a.dtors != b.dtors or a.this is not b.this:
            return None
        # counters of loops that only one path went through are of no use afterwards
        loop = lambda k: str(k).startswith(("$k", "$vis"))
        ks = a.g.keys() & b.g.keys()
        if any(not loop(k) for k in a.g.keys() ^ b.g.keys()):
            return None
        if any(not a.heap[k].eq(b.heap[k]) for k in a.heap) or any(not self.same_ghost(a.g[k], b.g[k]) for k in ks):
            return None
        if any(a.env[k] is not b.env[k] and not (isinstance(a.env[k], Cell) and isinstance(b.env[k], Cell) and a.env[k].key() == b.env[k].key()) for k in a.env):
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        # cells of the common past have to agree; what one path made for itself alone cannot be reached from there
        common = a.cells.keys() & b.cells.keys()
        if any(a.cells[c] is not b.cells[c] and not self.same(a.cells[c], b.cells[c]) for c in common):
            return None
        if any(isinstance(a.cells[c], (PtrV, IterV, LamV)) and a.cells[c] is not b.cells[c] for c in common):
            return None
        r = a.fork()
        r.cells = {c: a.cells[c] for c in a.cells if c in common}
        r.g = {k: a.g[k] for k in a.g if k in ks}
        known = {c.get_id() for c in b.pc}
        r.pc = a.pc[:n] + tuple(c for c in a.pc[n:] if c.get_id() in known)
        return r

    def same_ghost(self, x, y):
        return x is y or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y))

    def declare(self, v, st):
        """Declare variable v; returns list of states."""
        t = v["t"]
        if v.get("bindings") is not None:
            outs = []
            for x, s in self.ev(v["init"], st):
                if is_ref(t):
                    lv = x if isinstance(x, LV) else self.new_cell(s, x, strip(t), "bind")
                else:
                    lv = self.new_cell(s, self.val(x, s), strip(t), "bind")
                s.env[v["id"]] = lv
                cur = [s]
                for i, b in enumerate(v["bindings"]):
                    if b.get("hold"):
                        base = self.rd(s, lv)
                        if isinstance(base, StructV):
                            l2 = lv.sub(list(base.f)[i])
                        else:
                            raise Unsupported("structured binding of " + type(base).__name__)
                        s.env[b["id"]] = l2
                        s.env[b["holdid"]] = l2
                    elif b.get("e"):
                        r = self.ev(b["e"], s)
                        if len(r) != 1:
                            raise Unsupported("binding")
                        s.env[b["id"]] = r[0][0]
                outs.append(s)
            return outs
        if v.get("init") is None:
            s = strip(t)
            if s in INTS or s.endswith("*") or s == "bool" or s in self.prog.enums:
                val = self.fresh_st(st, s, v["n"])
            elif s in self.prog.records:
                val = self.default_record(s, st)
            else:
                val = self.default_value(s)
            st.env[v["id"]] = self.new_cell(st, val, s, v["n"])
            d = self.dtor_of(s)
            if d:
                st.dtors = st.dtors + ((st.env[v["id"]], d),)
            return [st]
        outs = []
        for x, s in self.ev(v["init"], st):
            if is_ref(t):
                if not isinstance(x, LV):
                    x = self.new_cell(s, x, strip(t), v["n"])
                s.env[v["id"]] = x
            else:
                val = self.val(x, s)
                if isinstance(val, TupV) and not strip(t).endswith("]") and not strip(t).startswith("std::initializer_list"):
                    import lib
                    val = lib.from_tup(self, s, val, strip(t))
                s.env[v["id"]] = self.new_cell(s, val, strip(t), v["n"])
                d = self.dtor_of(t)
                if d:
                    s.dtors = s.dtors + ((s.env[v["id"]], d),)
            outs.append(s)
        return outs

    def s_Decl(self, n, st):
        sts = [st]
        for v in n["vars"]:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s)
            sts = nxt
        return [("next", s, None) for s in sts]

    def s_If(self, n, st):
        base = st.fork()
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.exec(n["init"], st)]
        outs = []
        for s0 in sts:
            ss = [s0]
            if n.get("cvar"):
                ss = self.declare(n["cvar"], s0)
            for s1 in ss:
                for c, s in self.rv(n["cond"], s1):
                    for b, s2 in self.split(self.bool(c), s):
                        if b:
                            outs += self.exec(n["then"], s2)
                        elif n.get("else"):
                            outs += self.exec(n["else"], s2)
                        else:
                            outs.append(("next", s2, None))
        return self.join(base, outs)

    def join(self, st0, outs):
        """Merge fall-through states that did not change anything observable (keeps path counts down)."""
        nx = [o for o in outs if o[0] == "next"]
        if len(nx) < 2:
            return outs
        rest = [o for o in outs if o[0] != "next"]
        base = st0
        merged = []
        used = [False] * len(nx)
        for i in range(len(nx)):
            if used[i]:
                continue
            a = nx[i][1]
            for j in range(i + 1, len(nx)):
                if used[j]:
                    continue
                b = nx[j][1]
                m = self.try_merge(base, a, b)
                if m is not None:
                    a = m
                    used[j] = True
            merged.append(("next", a, None))
        return merged + rest

    def try_merge(self, base, a, b):
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
            k += 1
        for key in set(a.cells) | set(b.cells):
            if key in base.cells:
                if not self.same(a.cells.get(key), b.cells.get(key)):
                    return None
        for key in set(a.heap) | set(b.heap):
            if a.heap.get(key) is not b.heap.get(key) and not (key in a.heap and key in b.heap and a.heap[key].eq(b.heap[key])):
                if key in a.heap and key in b.heap:
                    return None
        for key in set(a.g) | set(b.g):
            x, y = a.g.get(key), b.g.get(key)
            if x is y:
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y):
                continue
            if type(x) is type(y) and not isinstance(x, z3.ExprRef) and not isinstance(x, Val) and x == y:
                continue
            return None
        s = a.fork()
        s.env = dict(base.env)
        for kk, vv in b.heap.items():
            s.heap.setdefault(kk, vv)
        for kk, vv in b.cells.items():
            s.cells.setdefault(kk, vv)
        s.pc = a.pc[:k]
        ra, rb = a.pc[k:], b.pc[k:]
        d = simp(z3.Or(z3.And(*ra) if ra else z3.BoolVal(True), z3.And(*rb) if rb else z3.BoolVal(True)))
        s.assume(d)
        return s

    def same(self, x, y):
        if x is y:
            return True
        if type(x) is not type(y):
            return False
        if isinstance(x, z3.ExprRef):
            return x.eq(y)
        if isinstance(x, StrV):
            return x.s.eq(y.s)
        if isinstance(x, CharV):
            return x.s.eq(y.s)
        if isinstance(x, FlatSV):
            return x.p.eq(y.p) and x.n.eq(y.n)
        if isinstance(x, StructV):
            return x.f.keys() == y.f.keys() and all(self.same(x.f[k], y.f[k]) for k in x.f)
        if isinstance(x, OptV):
            return x.has.eq(y.has) and self.same(x.val, y.val)
        if isinstance(x, VecV):
            return x.n.eq(y.n) and x.a.eq(y.a)
        if isinstance(x, SetV):
            return x.n.eq(y.n) and x.a.eq(y.a)
        if isinstance(x, MapV):
            return x.n.eq(y.n) and x.dom.eq(y.dom) and x.val.eq(y.val)
        if isinstance(x, OpaqueV):
            return x.ty == y.ty
        if isinstance(x, PtrV):
            return isinstance(x.lv, Cell) and isinstance(y.lv, Cell) and x.lv.key() == y.lv.key()
        return False

    def s_Return(self, n, st):
        if not n.get("e"):
            return [("return", st, VOID)]
        outs = []
        e = n["e"]
        for v, s in self.ev(e, st):
            fn_ref = self.cur_ret_ref(s)
            if e["v"] == "p" or not isinstance(v, LV):
                v = self.val(v, s) if not fn_ref else v
            outs.append(("return", s, v))
        return outs

    def cur_ret_ref(self, st):
        return False

    def s_Break(self, n, st):
        return [("break", st, None)]

    def s_Continue(self, n, st):
        return [("continue", st, None)]

    def s_Switch(self, n, st):
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.exec(n["init"], st)]
        # flatten
        labels, stmts = [], []

        def flat(x):
            while x["k"] in ("Case", "Default"):
                labels.append((len(stmts), x))
                x = x["body"] if x.get("body") else {"k": "Null"}
            stmts.append(x)
        body = n["body"]
        for x in (body["c"] if body["k"] == "Block" else [body]):
            flat(x)
        outs = []
        for s0 in sts:
            for c, s in self.rv(n["cond"], s0):
                groups, default = {}, None
                allc = []
                for pos, lab in labels:
                    if lab["k"] == "Default":
                        default = pos
                        continue
                    (lv, _), = self.rv(lab["val"], s)
                    f = self.binop("==", c, lv, "bool", n["cond"]["t"], lab["val"]["t"], s)
                    groups.setdefault(pos, []).append(f)
                    allc.append(f)
                plans = [(pos, simp(z3.Or(fs))) for pos, fs in groups.items()]
                nd = simp(z3.Not(z3.Or(allc))) if allc else z3.BoolVal(True)
                # default may share a position with cases
                if default is not None and default in groups:
                    plans = [(p, f) for p, f in plans if p != default] + [(default, simp(z3.Or(groups[default] + [nd])))]
                else:
                    plans.append((default, nd))
                for pos, f in plans:
                    if is_false(f):
                        continue
                    s2 = s.fork().assume(f)
                    if not self.feasible(s2):
                        continue
                    if pos is None:
                        outs.append(("next", s2, None))
                        continue
                    for k, s3, v in self.seq(stmts[pos:], s2):
                        outs.append(("next" if k == "break" else k, s3, v))
        return outs

    # ---- loops
    def s_While(self, n, st):
        return self.loop(n, st, cond=n["cond"], body=n["body"], inc=None, cvar=n.get("cvar"))

    def s_For(self, n, st):
        # for (T *e = f(); c; e = f()) is while (T *e = f()) with the test c
        i, c = n.get("init"), n.get("inc")
        if i and c and i.get("k") == "Decl" and len(i["vars"]) == 1 and i["vars"][0]["t"].endswith("*") and i["vars"][0].get("init"):
            if c.get("k") == "Binary" and c["op"] == "=" and c["l"].get("k") == "Ref" and c["l"].get("id") == i["vars"][0]["id"] and same_tree(c["r"], i["vars"][0]["init"]):
                return self.loop(n, st, cond=n.get("cond"), body=n["body"], inc=None, cvar=i["vars"][0])
        hooks = self.opts.get("range_hooks", {})
        r = iterator_loop(n, hooks) if hooks else None
        if r:
            outs = []
            for o, s in self.ev(r[0], st):
                lv = self.deref(self.val(o, s), s, pointee(r[0]["t"])) if r[1] else o
                outs += hooks[pointee(r[0]["t"]) if r[1] else strip(r[0]["t"])](self, r[2], s, lv)
            return outs
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.exec(n["init"], st)]
        outs = []
        for s in sts:
            outs += self.loop(n, s, cond=n.get("cond"), body=n["body"], inc=n.get("inc"), cvar=n.get("cvar"))
        return outs

    def s_Do(self, n, st):
        # body; while (cond) body
        outs = []
        for k, s, v in self.exec(n["body"], st):
            if k in ("next", "continue"):
                outs += self.loop(n, s, cond=n["cond"], body=n["body"], inc=None)
            elif k == "break":
                outs.append(("next", s, None))
            else:
                outs.append((k, s, v))
        return outs

    def s_RangeFor(self, n, st):
        import loops
        return loops.range_for(self, n, st)

    def loop(self, n, st, cond, body, inc, cvar=None):
        import loops

        def step(s0):
            """One iteration from the head: (exits, backs)."""
            exits, backs = [], []
            sts = [s0]
            if cvar:
                sts = self.declare(cvar, s0)
            for s1 in sts:
                cs = self.rv(cond, s1) if cond else [(z3.BoolVal(True), s1)]
                for c, s in cs:
                    for b, s2 in self.split(self.bool(c), s):
                        if not b:
                            exits.append(("next", s2, None))
                            continue
                        for k, s3, v in self.exec(body, s2):
                            if k == "break":
                                exits.append(("next", s3, None))
                            elif k == "return":
                                exits.append((k, s3, v))
                            else:
                                if inc:
                                    for _, s4 in self.ev(inc, s3):
                                        backs.append(s4)
                                else:
                                    backs.append(s3)
            return exits, backs
        if self.opts.get("unroll_loops") and cond and not cvar:
            r = self.unrolled(cond, st, step)
            if r is not None:
                return r
        return loops.run_loop(self, n, st, step)

    def unrolled(self, cond, st, step):
        """A loop whose condition is a constant in every state it is reached with is executed iteration by iteration; None if it is not."""
        def known(s):
            obls = len(self.obls)
            try:
                cs = self.rv(cond, s.fork())
            finally:
                del self.obls[obls:]
            cs = [z3.simplify(self.bool(c)) for c, _ in cs]
            return len(cs) == 1 and (z3.is_true(cs[0]) or z3.is_false(cs[0]))
        done, live = [], [st.fork()]
        entry, mark = st.fork(), len(self.obls)
        if not known(entry):
            return None
        for _ in range(self.opts["unroll_loops"] + 1):
            nxt = []
            for s in live:
                if not known(s):
                    del self.obls[mark:]
                    return None
                ex, back = step(s)
                done += ex
                nxt += back
            live = nxt
            if not live:
                return done
        del self.obls[mark:]
        return None


class LitV(Val):
    """String literal in flat mode."""
    def __init__(self, b):
        self.b = b


class FnChoice(Val):
    """Function pointer that is one of several functions, depending on a condition."""
    def __init__(self, alts):
        self.alts = alts
