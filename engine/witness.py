"""Counterexample replay: builds a driver against the real code and searches for a concrete failing input.
Used to turn a failed obligation into a replayable input; it never makes a property 'hold'."""
import hashlib
import os
import subprocess
import tempfile
import shutil
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BANT_REPO", "/repo")
GXX = ["g++-13" if shutil.which("g++-13") else "g++", "-std=c++23", "-w", "-I" + REPO, "-isystem", os.path.join(VERIF, "shims")]


def build(driver, repo_sources, workdir, extra=(), san=True):
    """Compile the driver plus the repo sources it needs; returns (exe or None, log)."""
    flags = ["-O1", "-g"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"] if san else [])
    objs, jobs = [], []

    def cc(src):
        o = os.path.join(workdir, hashlib.md5(src.encode()).hexdigest() + ".o")
        p = subprocess.run(GXX + flags + list(extra) + ["-c", src, "-o", o], capture_output=True, text=True)
        return o, p.returncode, p.stderr[-3000:]
    srcs = [driver] + [os.path.join(REPO, s) for s in repo_sources]
    with cf.ThreadPoolExecutor(8) as ex:
        for o, rc, err in ex.map(cc, srcs):
            if rc:
                return None, err
            objs.append(o)
    exe = os.path.join(workdir, "driver")
    p = subprocess.run(GXX + flags + objs + ["-o", exe, "-l:libre2.so.10", "-lpthread"], capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-3000:]
    return exe, ""


def run(exe, args, timeout, cwd):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
    try:
        p = subprocess.run([exe] + args, capture_output=True, timeout=timeout, cwd=cwd, env=env)
        out = (p.stdout[-6000:] + b"\n" + p.stderr[-6000:]).decode("utf-8", "backslashreplace")
        return p.returncode, out
    except subprocess.TimeoutExpired as ex:
        out = ((ex.stdout or b"")[-3000:]).decode("utf-8", "backslashreplace")
        return "timeout", out


def searcher(driver, repo_sources, extra=(), secs=20, san=True):
    """witness() hook for a spec: build /verif/witness/<driver> with the real sources and let it search for a failing input.
    Driver protocol: argv = seed, seconds; prints 'FAIL ...' + exit 1 on a failing input; any sanitizer report or
    abnormal end is a failing input too; otherwise prints 'OK <cases>' and exits 0."""
    def f(work, seed, mode, failed):
        exe, log = build(os.path.join(VERIF, "witness", driver), repo_sources, work, extra, san)
        if exe is None:
            return None, {"log": "replay driver does not compile against the current tree:\n" + log}
        t = secs * (3 if mode == "thorough" else 1)
        rc, out = run(exe, [str(seed), str(t)], t + 60, work)
        if rc == 0:
            return None, {"driver": driver, "bounded_cases": out.strip().splitlines()[-1] if out.strip() else "", "seconds": t, "log": ""}
        what = "exit status %s of %s %d %d\n%s" % (rc, driver, seed, t, out)
        if rc == "timeout":
            what = "no termination within %d s\n" % (t + 60) + out
        return what, {"driver": driver}
    return f
