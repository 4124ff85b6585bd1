"""Helpers for writing contracts."""
import z3
from values import *
import engine as E
import lib
import loops
import vc
import witness as W
from vc import Unit

I = z3.IntVal
simp = z3.simplify


def fn_of(prog, q, **kw):
    """The (single) function with this qualified name; q may end in a template pattern 'X<*>::f'."""
    if "<*>" in q:
        import re
        rx = re.compile("^" + "<.*>".join(re.escape(x) for x in q.split("<*>")) + "$")
        c = [f for k, fs in prog.by_q.items() if rx.match(k) for f in fs if not f["implicit"]]
    else:
        c = [f for f in prog.by_q.get(q, []) if not f["implicit"]]
    if kw.get("np") is not None:
        c = [f for f in c if len(f["params"]) == kw["np"]]
    if kw.get("pt"):
        c = [f for f in c if len(f["params"]) == len(kw["pt"]) and all((strip(p["t"]) == w[1:]) if w.startswith("=") else w in p["t"] for w, p in zip(kw["pt"], f["params"]))]
    if kw.get("const") is not None:
        c = [f for f in c if bool(f.get("const")) == kw["const"]]
    if len(c) != 1:
        raise Unsupported("contract target %s: %d candidates" % (q, len(c)))
    return c[0]


def field_of_type(prog, cls, pred, what):
    c = [f["n"] for f in prog.records[cls]["fields"] if pred(strip(f["t"]))]
    if len(c) != 1:
        raise Unsupported("class %s: expected exactly one %s, found %d" % (cls, what, len(c)))
    return c[0]


def start(eng, fn):
    st = E.St()
    st.fn = fn["q"]
    return st


def args_for(eng, st, fn, given=None):
    """Symbolic arguments for every parameter (given: name/index -> value)."""
    vs = []
    for i, p in enumerate(fn["params"]):
        v = (given or {}).get(i)
        if v is None:
            v = eng.fresh_st(st, strip(p["t"]), p["n"] or "arg%d" % i)
        if is_ref(p["t"]) and not isinstance(v, LV):
            v = eng.new_cell(st, v, strip(p["t"]), p["n"] or "arg%d" % i)
        vs.append(v)
    return vs


def run(eng, fn, this, vs, st):
    """Execute the body: list of (return value, state); 'this' an LV or None."""
    return eng.call_body(fn, this, vs, st)


def post(eng, st, goal, name):
    eng.oblige(st.fork(), goal, name, "post")


def all_sources():
    """All sources of the program except its main file."""
    import glob
    import os
    fs = sorted(os.path.relpath(f, W.REPO) for d in ("bant/*.cc", "bant/*/*.cc") for f in glob.glob(os.path.join(W.REPO, d)))
    return [f for f in fs if not f.endswith("_test.cc") and f != "bant/bant.cc"]


ALL_SRC = all_sources()
