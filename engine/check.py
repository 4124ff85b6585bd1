"""check.py PROPERTY [--thorough] : decides one property; see DESIGN.md."""
import importlib
import json
import os
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "specs"))
import vc        # noqa: E402
import witness   # noqa: E402

COMMON_TRUST = [
    "clang 18 AST (parsing, overload resolution, template instantiation) and the exporter engine/extract.cc",
    "the VC generator engine/engine.py + loops.py and z3/cvc5",
    "machine integers are modelled exactly (mathematical integers with explicit wrap-around / no-overflow obligations)",
    "no object or string is larger than 2^62 bytes; allocation failure (std::bad_alloc) is not modelled",
    "absl and re2 are read through the header stand-ins in /verif/shims (same declarations; bodies never enter a proof)",
]


def main():
    pid = sys.argv[1]
    tier = "thorough" if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = importlib.import_module("p_" + pid.lower())
    units = spec.units(tier)
    only = [a[7:] for a in sys.argv if a.startswith("--unit=")]
    if only:
        units = [u for u in units if any(o in u.name for o in only)]
    results = vc.run_units(units)
    verbose = any(a.startswith("-v") for a in sys.argv)
    def is_bad(r):
        return bool(r["error"] or r["vacuous"] or any(o["result"] != "proved" for o in r["obls"]))
    bad_units = [u for u, r in zip(units, results) if is_bad(r)]
    run_w = getattr(spec, "witness", None)
    nw = "--no-witness" in sys.argv
    wout = None

    def search(bad):
        failed = [(r["unit"], o) for r in results for o in r["obls"] if o["result"] != "proved"]
        work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        try:
            return run_w(work, seed, "thorough" if tier == "thorough" else ("search" if bad else "bounded"), failed)
        except Exception as ex:     # the driver no longer fits the code: no failing input
            return None, {"log": "witness search failed: %r" % ex}
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if run_w and not nw and (bad_units or tier == "thorough" or getattr(spec, "BOUNDED_ALWAYS", False)):
        wout = search(bool(bad_units))
    if bad_units and not (wout and wout[0]) and "--no-retry" not in sys.argv:
        # no failing input: what failed may be a solver limit on a busy machine; once more, with more patience
        again = {u.name: r for u, r in zip(bad_units, vc.run_units(bad_units, patience=4, until=max(t0 + 640, time.time() + 60)))}
        results = [again[r["unit"]] if r["unit"] in again and not is_bad(again[r["unit"]]) else r for r in results]
        retried = sorted(again)
    else:
        retried = []
    failed, errors, vac = [], [], []
    nobl = ndis = 0
    backends, fns, assumed, loops, solver_s = {}, {}, set(), {}, 0.0
    kinds = {}
    for r in results:
        if r["error"]:
            errors.append((r["unit"], r["error"]))
        for v in r["vacuous"]:
            if not r["error"]:
                vac.append((r["unit"], v))
        fns.update(r["fns"])
        assumed.update(r["assumed"])
        loops.update(r["loops"])
        solver_s += r["solve_s"]
        for o in r["obls"]:
            nobl += 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            solver_s += o["time"]
            if o["result"] == "proved":
                ndis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                failed.append((r["unit"], o))
        if verbose:
            print("unit %-40s obl %3d proved %3d sym %.1fs wall %.1fs %s %s" % (r["unit"], len(r["obls"]), sum(o["result"] == "proved" for o in r["obls"]), r["sym_s"], r["wall"], r["vacuous"] or "", (r["error"] or "")[-1500:]))
            for o in r["obls"]:
                if o["result"] != "proved" or any(a in ("-vv",) for a in sys.argv):
                    print("   [%s] %s (%s:%s) %s %.2fs" % (o["result"], o["name"], o["fn"], o["ln"], o["backend"], o["time"]))
                    if o["result"] != "proved" and "-vvv" in sys.argv:
                        print("      goal:", o.get("goal"))
                        for c in o.get("pc", []):
                            print("      pc:", c)
                        print("      model:", o.get("model"))
    bad = bool(failed or errors or vac)
    bounded = {k: v for k, v in wout[1].items() if k != "log"} if wout else {}
    rdir = os.path.join(VERIF, "_build", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.txt" % pid)
    code = 0
    line = None
    if bad or (wout and wout[0]):
        code = 1
        with open(rpath, "w") as f:
            f.write("property %s: %s\n\n" % (pid, spec.TITLE))
            if wout and wout[0]:
                f.write("FAILING INPUT (replayed against the real code built from /repo):\n%s\n\n" % wout[0])
            elif wout:
                f.write("no failing input found by the replay search: %s\n\n" % str(wout[1])[:4000])
            for u, e in errors:
                f.write("UNDECIDED unit %s: %s\n" % (u, e))
            for u, e in vac:
                f.write("VACUOUS unit %s: %s\n" % (u, e))
            for u, o in failed:
                f.write("FAILED OBLIGATION %s / %s (%s line %s): %s\n  goal: %s\n  path: %s\n  model: %s\n\n" %
                        (u, o["name"], o["fn"], o["ln"], o["result"], o.get("goal"), "\n        ".join(o.get("pc", [])), o.get("model")))
        line = "VIOLATION property=%s replay=%s" % (pid, rpath)
        if not (wout and wout[0]):
            line += " no-failing-input-found"
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("known: property=%s " % pid):
                known.append(l[len("known: "):].strip())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.LEVEL if hasattr(spec, "LEVEL") else "proof",
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "obligations_by_kind": kinds, "discharged_by_backend": backends, "solver_s": round(solver_s, 2),
            "units": [{"unit": r["unit"], "obligations": len(r["obls"]), "discharged": sum(o["result"] == "proved" for o in r["obls"]), "wall_s": round(r["wall"], 2)} for r in results],
            "functions_under_contract": sorted("%s (%s:%s)" % (q, v[0], v[1]) for q, v in fns.items()),
            "loop_invariants": loops,
            "checker_cmd": "python3-vt engine/check.py %s%s" % (pid, " --thorough" if tier == "thorough" else ""),
            "trusted_base": COMMON_TRUST + ["library contract: " + a for a in sorted(assumed)] + list(getattr(spec, "TRUST", [])),
            "failed": [{"unit": u, "obligation": o["name"], "fn": o["fn"]} for u, o in failed] + [{"unit": u, "error": e[-300:]} for u, e in errors] + [{"unit": u, "vacuous": v} for u, v in vac],
        },
        "assumptions": list(getattr(spec, "ASSUME", [])),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if code else 0,
    }
    if retried:
        ev["coverage"]["tried_again_with_longer_solver_limits"] = retried
    if bounded:
        ev["coverage"]["bounded_cross_check_not_counted_as_proof"] = bounded
    if known:
        ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: " + k)
    print("%s: %d/%d obligations discharged, %d function(s) under contract, %.1f s" % (pid, ndis, nobl, len(fns), time.time() - t0))
    if line:
        for u, e in errors[:3]:
            print("undecided unit %s: %s" % (u, e.strip().splitlines()[-1][:300]))
        for u, o in failed[:5]:
            print("failed obligation: %s / %s (%s line %s)" % (u, o["name"], o["fn"], o["ln"]))
        print(line)
    sys.exit(code)


if __name__ == "__main__":
    main()
