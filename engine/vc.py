"""Runs the units of a property, discharges their obligations with a z3 + cvc5 portfolio, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "specs"))
import z3                      # noqa: E402
import frontend                # noqa: E402
from values import Unsupported  # noqa: E402
import engine as E             # noqa: E402
import euf                     # noqa: E402

Z3BIN = shutil.which("z3-new") or shutil.which("z3")
CVC5 = shutil.which("cvc5")


class Unit:
    """One function (or group of functions) under contract: run(prog) returns the engines holding the obligations."""
    def __init__(self, name, sources, run, timeout=240, obl_timeout=20):
        self.name, self.sources, self.run, self.timeout, self.obl_timeout = name, sources, run, timeout, obl_timeout


def to_smt2(pc, goal):
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(goal))
    return s.to_smt2()


def z3_check(pc, goal, ms, seed=None):
    s = z3.Solver()
    s.set("timeout", int(ms))
    if seed is not None:
        s.set("random_seed", seed)
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def has_text(g):
    seen, work = set(), [g]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort().kind() == z3.Z3_SEQ_SORT:
            return True
        work.extend(x.children())
    return False


def race(cmds, text, timeout):
    """The first of several solvers that answers unsat; the others are stopped."""
    d = tempfile.mkdtemp(prefix="verif_q_")
    ps = []
    try:
        for name, cmd, head in cmds:
            nm = os.path.join(d, name + ".smt2")
            with open(nm, "w") as f:
                f.write(head + text)
            ps.append((name, subprocess.Popen(cmd + [nm], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + timeout + 5
        left = list(ps)
        while left and time.time() < end:
            for it in list(left):
                if it[1].poll() is not None:
                    left.remove(it)
                    if it[1].stdout.read().strip().splitlines()[:1] == ["unsat"]:
                        return it[0]
            time.sleep(0.01)
        return None
    finally:
        for _, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        shutil.rmtree(d, ignore_errors=True)


def discharge(o, t):
    """Decide one obligation; sets o.result ('proved'|'refuted'|'unknown'), o.backend, o.time."""
    t0 = time.time()
    g = z3.simplify(o.goal)
    if z3.is_true(g):
        o.result, o.backend = "proved", "simplifier"
        o.time = time.time() - t0
        return o
    if has_text(g) and euf.unsat(o.pc, g):
        o.result, o.backend = "proved", "z3 %s (texts uninterpreted)" % z3.get_version_string()
        o.time = time.time() - t0
        return o
    r, s = z3_check(o.pc, g, min(t, 3) * 1000)
    if r == z3.unsat:
        o.result, o.backend = "proved", "z3 " + z3.get_version_string()
    else:
        model = None
        if r == z3.sat:
            model = s.model()
        if r != z3.sat and not z3.is_false(g) or (r == z3.unknown):
            text = to_smt2(o.pc, g)
            cmds = [("z3-cli", [Z3BIN, "-T:%d" % t, "smt.random_seed=7"], ""), ("z3-cli-alt", [Z3BIN, "-T:%d" % t, "smt.arith.solver=2", "smt.mbqi=false", "auto_config=false"], "")]
            if CVC5:
                cmds.insert(0, ("cvc5", [CVC5, "--strings-exp", "--tlimit=%d" % (t * 1000)], "(set-logic ALL)\n"))
            who = race(cmds, text, t)
            if who:
                o.result, o.backend = "proved", who
            if o.result is None:
                o.result = "unknown"
        elif r == z3.sat:
            o.result = "refuted"
            o.model = model
        else:
            o.result = "unknown"
    o.time = time.time() - t0
    return o


def fmt_model(m, lim=60):
    try:
        return "\n".join("%s = %s" % (d.name(), str(m[d])[:200]) for d in list(m.decls())[:lim])
    except Exception as ex:
        return "model unavailable: %s" % ex


def run_unit(unit, conn, patience=1):
    """In a child process."""
    res = {"unit": unit.name, "obls": [], "error": None, "fns": {}, "assumed": [], "vacuous": [], "loops": {}, "sym_s": 0, "solve_s": 0, "sym_calls": 0, "notes": []}
    t0 = time.time()
    try:
        E.PATIENCE = patience
        prog = frontend.load(unit.sources)
        engs = unit.run(prog)
        if not isinstance(engs, (list, tuple)):
            engs = [engs]
        res["sym_s"] = time.time() - t0
        n = 0
        for eng in engs:
            res["fns"].update({k: list(v) for k, v in eng.visited_fns.items()})
            res["assumed"] += sorted(eng.assumed)
            res["loops"].update(eng.loop_invs)
            res["solve_s"] += eng.solver_time
            res["sym_calls"] += eng.solver_calls
            res["notes"] += getattr(eng, "notes", [])
            posts = 0
            reach = False
            seen = set()
            for o in eng.obls:
                key = (o.name, tuple(c.get_id() for c in o.pc), o.goal.get_id())
                if key in seen:
                    continue
                seen.add(key)
                discharge(o, unit.obl_timeout * patience)
                n += 1
                d = {"name": o.name, "fn": o.fn, "ln": o.ln, "kind": o.kind, "result": o.result, "backend": o.backend, "time": round(o.time, 3)}
                if o.result != "proved":
                    d["goal"] = str(o.goal)[:1500]
                    d["pc"] = [str(c)[:400] for c in o.pc[-25:]]
                    if o.model is not None:
                        d["model"] = fmt_model(o.model)
                res["obls"].append(d)
                if o.kind == "post":
                    posts += 1
                    if not reach:
                        r, _ = z3_check(o.pc, z3.BoolVal(False), 3000)
                        reach = r != z3.unsat
                if time.time() - t0 > unit.timeout * patience:
                    raise Unsupported("time budget of the unit exceeded while discharging")
            if getattr(eng, "need_reach", True):
                if posts == 0:
                    res["vacuous"].append("no postcondition was reached")
                elif not reach:
                    res["vacuous"].append("no postcondition is on a satisfiable path")
        if n == 0:
            res["vacuous"].append("no obligations")
    except (Unsupported, frontend.ExtractError) as ex:
        res["error"] = "%s: %s" % (type(ex).__name__, ex)
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
    res["wall"] = time.time() - t0
    conn.send(res)
    conn.close()


def run_units(units, jobs=8, patience=1, until=None):
    ctx = mp.get_context("fork")
    pending, running, out = list(units), [], {}
    while pending or running:
        while pending and len(running) < jobs:
            u = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=run_unit, args=(u, b, patience))
            p.start()
            b.close()
            running.append((u, p, a, time.time()))
        time.sleep(0.02)
        for it in list(running):
            u, p, a, t0 = it
            if a.poll():
                try:
                    out[u.name] = a.recv()
                except EOFError:
                    out[u.name] = {"unit": u.name, "obls": [], "error": "verifier process died", "fns": {}, "assumed": [], "vacuous": [], "loops": {}, "sym_s": 0, "solve_s": 0, "sym_calls": 0, "notes": [], "wall": time.time() - t0}
                p.join()
                running.remove(it)
            elif not p.is_alive() or time.time() - t0 > u.timeout * patience + 30 or (until and time.time() > until):
                why = "time budget of the unit exceeded" if p.is_alive() else "verifier process died"
                p.kill()
                p.join()
                out[u.name] = {"unit": u.name, "obls": [], "error": why, "fns": {}, "assumed": [], "vacuous": [], "loops": {}, "sym_s": 0, "solve_s": 0, "sym_calls": 0, "notes": [], "wall": time.time() - t0}
                running.remove(it)
    return [out[u.name] for u in units]
