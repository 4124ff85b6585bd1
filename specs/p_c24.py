"""C24: choosing the command. RunCliCommand as a whole; running a command is recorded."""
from speclib import *
from bazellib import *

TITLE = "A command-line command is chosen only when it is unambiguous"
CL = ["bant/cli-commands.cc"]
PAT = "bant::BazelPattern"
COMMANDS = {"parse": "kParse", "print": "kPrint", "list-packages": "kListPackages", "list-targets": "kListTargets", "workspace": "kListWorkkspace",
            "lib-headers": "kLibraryHeaders", "aliased-by": "kAliasedBy", "depends-on": "kDependsOn", "has-dependents": "kHasDependents",
            "genrule-outputs": "kGenruleOutputs", "dwyu": "kDWYU", "compilation-db": "kCompilationDB", "compile-flags": "kCompileFlags",
            "canonicalize": "kCanonicalizeDeps"}
NEED_PATTERN = ["print", "dwyu", "canonicalize"]
ASSUME = ["std::map over literal keys; the lexicographic order of texts", "what a pattern text denotes (C09)"]


def u_choose(prog):
    fn = fn_of(prog, "bant::RunCliCommand")
    eng = E.Engine(prog, "seq")
    eng.opts["termination"] = True
    eng.opts["unroll_loops"] = eng.opts["unroll_known"] = 40
    st = start(eng, fn)
    enums = prog.enums["bant::Command"] if "bant::Command" in prog.enums else [v for k, v in prog.enums.items() if k.endswith("::Command")][0]
    status = prog.enums["bant::CliStatus"]
    args = eng.fresh_st(st, fn["params"][1]["t"], "args")
    st.assume(args.n >= 0, args.n < 1 << 20)
    arg = lambda i: eng.so.reflect(z3.Select(args.a, i), "std::string_view").s
    w, ptext = arg(0), arg(1)
    for x in (w, ptext):
        st.assume(z3.Length(x) < 1 << 40)
    OKP = z3.Function("text is a pattern", z3.StringSort(), z3.BoolSort())
    ALL = z3.Function("pattern matches everything", z3.StringSort(), z3.BoolSort())
    RES = z3.Int("outcome of the command")
    pats = {}

    def mk(eng, st, e, *_):
        return [(OpaqueV(PAT), st)] if not e["args"] else None
    eng.overrides["ctor " + PAT] = mk

    def parse(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            tx = lib.to_string(eng, s, vs[0]).s
            h = z3.Int(E.uid("pat"))
            pats[h.get_id()] = (tx, h)
            outs.append((OptV(OKP(tx), OpaqueV(PAT, h), PAT), s))
        return outs

    def tag(eng, s, v):
        v = eng.val(v, s)
        if not isinstance(v, OpaqueV):
            raise Unsupported("unknown pattern %s" % v)
        return pats[v.tag.get_id()][0] if v.tag is not None else None

    def matchall(eng, st, e, _):
        outs = []
        for o, s in eng.ev(e["obj"], st):
            t = tag(eng, s, o)
            outs.append((z3.BoolVal(True) if t is None else ALL(t), s))
        return outs

    def runc(eng, st, e, _):
        outs = []
        for vs, s in eng.evs(e["args"], st):
            s.g["$ran"] = s.g.get("$ran", []) + [(eng.val(vs[1], s), tag(eng, s, vs[2]))]
            outs.append((RES, s))
        return outs
    eng.overrides[PAT + "::ParseFrom"] = parse
    eng.overrides[PAT + "::is_matchall"] = matchall
    eng.overrides["bant::RunCommand"] = eng.overrides["bant::(anonymous namespace)::RunCommand"] = runc
    err = eng.new_cell(st, StructV("std::ostream", {"text": StrV(S(""))}), "std::ostream", "messages")

    def session(eng, st, e, _):
        return [(err, s) for o, s in eng.ev(e["obj"], st)]
    for n in ("error", "info"):
        eng.overrides["bant::Session::" + n] = session
    ses = eng.new_cell(st, OpaqueV("bant::Session"), "bant::Session", "session")
    pre = {c: z3.PrefixOf(w, S(c)) for c in COMMANDS}
    only = {c: z3.And(args.n > 0, z3.Or(w == S(c), z3.And(pre[c], *[z3.Not(pre[d]) for d in COMMANDS if d != c]))) for c in COMMANDS}
    need = z3.Or([only[c] for c in NEED_PATTERN])
    for r, s in run(eng, fn, None, [ses, args], st):
        r = eng.val(r, s)
        ran = s.g.get("$ran", [])
        said = z3.Length(eng.rd(s, err).f["text"].s) > 0
        post(eng, s, z3.BoolVal(len(ran) <= 1), "at most one command is run")
        if ran:
            cmd, pat = ran[0]
            post(eng, s, z3.Or([z3.And(only[c], cmd == enums[k]) for c, k in COMMANDS.items()]), "the command run is the one named, or the only one the word is a prefix of")
            post(eng, s, args.n <= 2, "surplus arguments are not ignored")
            if pat is None:
                post(eng, s, args.n == 1, "a pattern given is used")
                post(eng, s, z3.Not(need), "print, dwyu and canonicalize are only run with a pattern")
            else:
                post(eng, s, z3.And(args.n == 2, pat == ptext, OKP(pat)), "the pattern is the one given, and valid")
                post(eng, s, z3.Implies(need, z3.Not(ALL(pat))), "print, dwyu and canonicalize are not run on everything")
            post(eng, s, r == RES, "the outcome is that of the command")
        else:
            post(eng, s, said, "a refusal is reported")
            post(eng, s, r != status["kExitSuccess"], "a refusal is no success")
            post(eng, s, z3.Implies(z3.Not(z3.Or(list(only.values()))), r == status["kExitCommandlineClarification"]), "an unclear command asks for clarification")
            fine = z3.And(z3.Or(list(only.values())), z3.Or(args.n == 1, z3.And(args.n == 2, OKP(ptext))),
                          z3.Not(z3.And(need, z3.Or(args.n == 1, ALL(ptext)))))
            post(eng, s, z3.Not(fine), "a clear command with a valid pattern is run")
    return eng


def units(tier):
    return [Unit("command choice", CL, u_choose)]


witness = W.searcher("c24.cc", [f for f in ALL_SRC if f != "bant/cli-commands.cc"])
