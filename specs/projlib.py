"""A parsed project as the tools see it: build files by package, rules found in a syntax tree, statistics and messages."""
from astlib import *
from bazellib import *

RES = "bant::query::Result"
PROJ_ASSUME = ["query::FindTargets calls back with some sequence of rules of the given tree (C28)", "statistics and timers have no effect on results", "messages are written to the given streams"]


def install_project(eng, prog, st):
    """Models shared by the tools. Returns the cell of the messages."""
    msg = eng.new_cell(st, OpaqueV("std::ostream"), "std::ostream", "messages")     # what is written there is no result

    def stream(eng, st, e, _):
        outs = [s for o, s in eng.ev(e["obj"], st)] if e.get("obj") else [st]
        res = []
        for s in outs:
            for vs, s2 in eng.evs(e.get("args", []), s):
                res.append((msg, s2))
        return res
    for n in ("Session::error", "Session::info", "Session::out", "SourceLocator::Loc", "ParsedProject::Loc", "NamedLineIndexedContent::Loc", "FixedSourceLocator::Loc"):
        eng.overrides["bant::" + n] = stream
    eng.opts["merge"] = True
    stat = "bant::Stat"

    def stats(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            for vs, s2 in eng.evs(e["args"], s):
                outs.append((eng.new_cell(s2, OpaqueV(stat), stat, "stat"), s2))
        return outs
    eng.overrides["bant::Session::GetStatsFor"] = stats
    eng.opaque_types |= {stat, "bant::ScopedTimer", "bant::Session", "absl::Duration", "absl::Time"}

    def nothing(eng, st, e, vs):
        return [(TupV([], "std::string_view"), st)] if not vs else None
    eng.overrides["ctor std::initializer_list<std::string_view>"] = nothing

    def noop(eng, st, e, *_):
        return [(OpaqueV(strip(e["t"])), st)]
    eng.overrides["ctor bant::ScopedTimer"] = eng.overrides["absl::Now"] = eng.overrides["bant::ScopedTimer::~ScopedTimer"] = noop
    for n in ("AddBytesProcessed", "AddDuration"):
        eng.overrides["bant::Stat::" + n] = noop
    eng.assumed.add("statistics, timers, messages")
    return msg


def wanted(eng, s, e):
    """The rules asked for in a FindTargets call, as texts."""
    v = eng.val(eng.evs([e["args"][1]], s.fork())[0][0][0], s)
    if not isinstance(v, TupV):
        raise Unsupported("list of rules")
    return [lib.to_string(eng, s, x).s for x in v.items]


def find_targets(eng, before=None, after=None, start=None):
    """FindTargets: the callback is called any number of times, each time with an arbitrary rule."""
    def ov(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            cb, ast = eng.val(vs[2], s), eng.val(vs[0], s)

            if start:
                start(eng, s, ast, e)

            def step(s0, cb=cb, ast=ast):
                exits, backs = [("next", s0.fork(), None)], []
                r = eng.fresh_st(s0, RES, "rule")
                for v in r.f.values():
                    if isinstance(v, StrV):
                        s0.assume(z3.Length(v.s) < 1 << 40)
                rc = eng.new_cell(s0, r, RES, "rule")
                if before:
                    before(eng, s0, r, ast)
                # loops inside the callback still have to end; the sequence of rules is finite by itself
                eng.opts["termination"] = term
                try:
                    for _, s1 in eng.call_value(cb, [rc], s0, e):
                        if after:
                            after(eng, s1, r, ast)
                        backs.append(s1)
                finally:
                    eng.opts["termination"] = None
                return exits, backs
            term = eng.opts.get("termination")
            eng.opts["termination"] = None
            try:
                for k, s2, v in loops.run_loop(eng, e, s, step):
                    outs.append((VOID, s2))
            finally:
                eng.opts["termination"] = term
        return outs
    for n in ("FindTargets", "FindTargetsAllowEmptyName"):
        eng.overrides["bant::query::" + n] = ov


def on_call_of(eng, fn, param, f):
    """A std::function parameter: calling it runs f(eng, state, argument values, node)."""
    t = strip(fn["params"][param]["t"])

    def ov(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            outs += f(eng, s, vs[1:], e)
        return outs
    eng.overrides[t + "::operator()"] = ov


def file_map(eng, st, prog, name="files"):
    """ParsedFiles(): packages to build files."""
    t = strip([f["ret"] for f in prog.by_q["bant::ParsedProject::ParsedFiles"]][0])
    m = eng.fresh_st(st, t, name)
    cell = eng.new_cell(st, m, t, name)

    def ov(eng, st, e, _):
        return [(cell, s) for o, s in eng.ev(e["obj"], st)]
    eng.overrides["bant::ParsedProject::ParsedFiles"] = ov
    x = z3.Const("x!pf", eng.so.sort(m.kty))
    st.assume(m.n >= 0, z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), z3.And(z3.Select(m.val, x) > 0, z3.Select(m.val, x) < E.TWO64)), patterns=[z3.Select(m.val, x)]))
    PKG = eng.so.sort(BP)
    of = z3.Function("package of tree", Z, PKG)
    f = HeapLV("bant::ParsedBuildFile", z3.Select(m.val, x))
    pk, ast = eng.so.reify(eng.rd(st, f.sub("package")), BP), eng.rd(st, f.sub("ast"))
    st.assume(z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), of(ast) == pk), patterns=[z3.Select(m.val, x)]))
    eng.assumed.add("every tree belongs to one build file")
    return m, cell, of
