"""Runs the AST exporter on the current /repo sources and loads its output."""
import hashlib, json, os, subprocess, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BANT_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
FLAGS = ["-std=c++2b", "-I" + REPO, "-isystem", os.path.join(VERIF, "shims"), "-w"]


class ExtractError(Exception):
    pass


def ensure_extractor():
    exe = os.path.join(BUILD, "extract")
    src = os.path.join(HERE, "extract.cc")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == tag:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    subprocess.run(["clang++-18", "-std=c++17", "-fno-rtti", "-O1", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"], check=True)
    os.replace(tmp, exe)
    open(stamp, "w").write(tag)
    return exe


class Program:
    def __init__(self):
        self.fns, self.records, self.enums, self.globals = {}, {}, {}, {}
        self.by_q = {}
        self.global_by_id = {}
        self.over = {}  # method key -> keys of overriders

    def add(self, items):
        for x in items:
            k = x["k"]
            if k == "Function":
                if x["key"] not in self.fns:
                    self.fns[x["key"]] = x
                    self.by_q.setdefault(x["q"], []).append(x)
            elif k == "Record":
                self.records.setdefault(x["t"], x)
                for m in x["methods"]:
                    for o in m["over"]:
                        self.over.setdefault(o, [])
                        if m["key"] not in self.over[o]:
                            self.over[o].append(m["key"])
            elif k == "Enum":
                self.enums.setdefault(x["q"], dict(x["vals"]))
            elif k == "Global":
                self.globals.setdefault(x["q"], x)
                self.global_by_id[x["id"]] = x
            elif k == "Error":
                raise ExtractError("clang reported errors in the translation unit")

    def find(self, q, nparams=None, **kw):
        r = [f for f in self.by_q.get(q, []) if not f["implicit"] or kw.get("implicit")]
        if nparams is not None:
            r = [f for f in r if len(f["params"]) == nparams]
        if "ptypes" in kw:
            r = [f for f in r if all(w in p["t"] for w, p in zip(kw["ptypes"], f["params"]))]
        return r


def extract_one(src, prefix, text=None):
    exe = ensure_extractor()
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    p = subprocess.run([exe, REPO.rstrip("/") + "/", path, prefix] + FLAGS, capture_output=True, text=True, errors="replace")
    try:
        out = p.stdout.replace("std::basic_string_view<char, std::char_traits<char>>", "std::string_view")
        out = out.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
        out = out.replace("std::basic_ostream<char, std::char_traits<char>>", "std::ostream")
        items = json.loads(out)
    except ValueError:
        raise ExtractError("extraction of %s failed: %s" % (src, p.stderr[-2000:]))
    if any(i["k"] == "Error" for i in items):
        raise ExtractError("clang errors in %s: %s" % (src, p.stderr[-2000:]))
    return items


def load(sources):
    ensure_extractor()
    prog = Program()
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(extract_one, s, "t%d_" % i) for i, s in enumerate(sources)]
        for f in futs:
            prog.add(f.result())
    return prog


if __name__ == "__main__":
    import sys
    if "--setup" in sys.argv:
        print(ensure_extractor())
