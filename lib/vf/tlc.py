"""Runs TLC: exhaustive checks of the model and checks of recorded traces."""
import os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build
from .paths import *


def rundir():
    base = os.path.join(BUILD, "run")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(dir=base)


def _java(mem):
    cp = ":".join([build.java(), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
    return ["java", "-XX:+UseSerialGC", "-Xmx%dm" % mem, "-Xss16m", "-XX:TieredStopAtLevel=4", "-Dreal64.data=" + DATA,
            "-Djava.io.tmpdir=" + os.path.join(BUILD, "run"), "-cp", cp, "tlc2.TLC"]


def run(module, cfg, env=None, workers=1, mem=1024, timeout=800, args=()):
    meta = rundir()
    try:
        cmd = _java(mem) + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout in %s" % module)
        out = r.stdout.decode(errors="replace")
        return r.returncode, out, time.time() - t
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def clean(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Loading ", "Parsing file", "Semantic processing", "Warning: ")))


def model(module, cfg=None, workers=None, mem=3072, timeout=800, env=None, args=()):
    """exhaustive check; returns dict of measured numbers, raises on any error"""
    rc, out, wall = run(module, cfg or module + ".cfg", workers=workers or NPROC, mem=mem, timeout=timeout, env=env, args=args)
    gen, dist = stats(out)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("model %s (%s) not verified, rc=%d:\n%s" % (module, cfg, rc, clean(out)[-4000:]))
    return {"module": module, "cfg": cfg or module + ".cfg", "states": dist, "transitions": gen, "wall_s": round(wall, 2)}


FAILED = re.compile(r'<<\s*"CLAUSE-FAILED",\s*(<<.*?>>|".*?"),\s*(\d+)\s*>>', re.S)


def trace(module, files, cfg=None, env=None, mem=1400, timeout=800):
    """checks recorded traces (list of files), one TLC per file.
    returns list of dicts with ok, events, clause, index, labels, states"""
    def one(f):
        e = dict(env or {})
        e["TRACE"] = f
        n = sum(1 for l in open(f) if l.strip())
        rc, out, wall = run(module, cfg or module + ".cfg", env=e, mem=mem, timeout=timeout)
        gen, dist = stats(out)
        acc = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', out)
        fails = FAILED.findall(out)
        labels = set()
        for m in re.findall(r'<<\s*"LABELS",\s*\{(.*?)\}\s*>>', out, re.S):
            for x in re.findall(r'<<([^<>]*)>>', m):
                labels.add(" ".join(w.strip().strip('"') for w in x.split(",")))
        res = {"file": f, "events": n, "labels": labels, "states": dist, "transitions": gen, "wall_s": wall, "fails": fails, "out": out}
        if acc and int(acc.group(1)) == int(acc.group(2)) == n and rc == 0:
            res["ok"] = True
            return res
        rej = re.search(r'<<"REJECTED", (\d+), (\d+)>>', out)
        if rej:
            res["ok"] = False
            res["index"] = int(rej.group(1))      # first event that is not a step of the specification
            res["clause"] = [c for c, i in fails if int(i) == res["index"]]
            return res
        if "Error: The behavior up to this point is" in out and "Attempted to " in out and "The error occurred when TLC was evaluating" in out:
            res["ok"] = False
            res["index"] = int(re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)[-1])
            res["clause"] = ["the values of the event have no meaning in the specification"]
            return res
        raise CheckError("TLC failed on trace %s of %s, rc=%d:\n%s" % (f, module, rc, clean(out)[-4000:]))
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, files))
