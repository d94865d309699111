"""Builds the harness and the calculator from the sources in /repo.

Objects are cached in /verif/build by a hash of everything they are made
from, so a run after a change of /repo compiles what changed."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from .paths import *

OPTIONS = ("THIN_TARGET_APPROXIMATION", "STORE_SPLINES", "REACTIONS", "ET_CALCULATED_INDEX")
DEFAULT = frozenset(OPTIONS)
FLAGS = ["-std=c++17", "-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-w"]
CXX = "g++"


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _config_header(options):
    lines = ["#ifndef BUILD_CONFIG_H", "#define BUILD_CONFIG_H"]
    lines += ["#define " + o for o in OPTIONS if o in options]
    return "\n".join(lines + ["#endif", ""])


def _prune(directory, keep):
    try:
        e = sorted((os.path.join(directory, f) for f in os.listdir(directory)), key=os.path.getmtime, reverse=True)
    except FileNotFoundError:
        return
    for p in e[keep:]:
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def _compiler(flags):
    """a flag compiler=... selects another compiler"""
    other = [f[9:] for f in flags if f.startswith("compiler=")]
    return [(other or [CXX])[0]] + [f for f in flags if not f.startswith("compiler=")]


def _compile(src, flags, inc, key, log):
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = _compiler(flags) + ["-I" + i for i in inc] + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-100000:]))
    os.rename(tmp, obj)
    return obj


def _link(objs, out, flags=()):
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(_compiler(flags) + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    os.rename(tmp, out)
    return out


def _prepare(options, extra):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    conf = _config_header(options)
    inc = os.path.join(BUILD, "conf", _hash(conf))
    os.makedirs(os.path.join(inc, "catima"), exist_ok=True)
    p = os.path.join(inc, "catima", "build_config.h")
    if not os.path.exists(p) or open(p).read() != conf:
        with open(p, "w") as f:
            f.write(conf)
    headers = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True))
    hh = _hash(conf, " ".join(FLAGS + list(extra)), *[x for h in headers for x in (h, _read(h))])
    return inc, hh


def _without(text, errors, name):
    """the source of operations without the functions in which the compiler found errors; None when there are none"""
    lines = text.split("\n")
    hit = {int(n) for n in re.findall(r"^[^\s:]*%s:(\d+):\d+: error:" % re.escape(name), errors, re.M)}
    hit = hit or {int(n) for n in re.findall(r"^[^\s:]*%s:(\d+):\d+:\s+required from" % re.escape(name), errors, re.M)}
    depth, start, left = 0, None, False
    for i, l in enumerate(lines):
        if start is None:
            if l[:1] in ("", " ", "#", "/", "}") or l.startswith("using ") or (i and lines[i - 1].endswith("\\")):
                continue
            start = i
        code = re.sub(r"//.*", "", re.sub(r'"(\\.|[^"\\])*"|'r"'(\\.|[^'\\])'", "", l))
        depth += code.count("{") - code.count("}")
        if depth == 0:
            if hit & set(range(start + 1, i + 2)):
                lines[start:i + 1] = [""] * (i + 1 - start)
                left = True
            start = None
    return "\n".join(lines) if left else None


def _compile_ops(src, flags, inc, key, log):
    """operations on an interface that is not there are left out"""
    text = _read(src).decode()
    name = os.path.basename(src)
    for _ in range(20):
        try:
            return _compile(src, flags, inc, key, log)
        except CheckError as e:
            text = _without(text, str(e), name)
            if text is None:
                sys.stderr.write(str(e) + "\n")
                return None
            key = _hash(key, text)
            d = os.path.join(BUILD, "ops", key)
            os.makedirs(d, exist_ok=True)
            src = os.path.join(d, name)
            with open(src, "w") as f:
                f.write(text)
    return None


def _objects(sources, options, extra, more=b"", optional=False):
    inc, hh = _prepare(options, extra)
    incs = [REPO + "/include", inc, HARNESS]
    jobs = [(s, FLAGS + list(extra), incs, _hash(hh, os.path.basename(s), _read(s), more), None) for s in sources]
    def one(a):
        return _compile(*a) if not optional or a[0].endswith("/main.cpp") else _compile_ops(*a)
    with ThreadPoolExecutor(NPROC) as ex:
        return [o for o in ex.map(one, jobs) if o]


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def harness(options=DEFAULT, extra=()):
    """path of the harness linked with the library of the current tree"""
    with _Lock():
        _prune(os.path.join(BUILD, "obj"), 600)
        _prune(os.path.join(BUILD, "bin"), 60)
        _prune(os.path.join(BUILD, "ops"), 60)
        lib = _objects(sorted(glob.glob(REPO + "/src/*.cpp")), options, extra)
        hs = b"".join(_read(h) for h in sorted(glob.glob(HARNESS + "/*.h")))
        ops = _objects(sorted(glob.glob(HARNESS + "/*.cpp")), options, extra, hs, True)
        out = os.path.join(BUILD, "bin", "harness-" + _hash(*[os.path.basename(o) for o in lib + ops]))
        return _link(lib + ops, out, extra)


def calculator():
    with _Lock():
        lib = _objects(sorted(glob.glob(REPO + "/src/*.cpp")), DEFAULT, ())
        app = _objects([REPO + "/bin/catima_calculator.cpp"], DEFAULT, ())
        out = os.path.join(BUILD, "bin", "calc-" + _hash(*[os.path.basename(o) for o in lib + app]))
        return _link(lib + app, out)


def generator():
    """the table generator, with harness/generator/direct.cpp in place of the direct calculation"""
    with _Lock():
        own = _objects([HARNESS + "/generator/direct.cpp", REPO + "/utils/generator.cpp"], DEFAULT, ())
        lib = _objects(sorted(glob.glob(REPO + "/src/*.cpp")), DEFAULT, ())
        out = os.path.join(BUILD, "bin", "generator-" + _hash(*[os.path.basename(o) for o in own + lib]))
        return _link(own + lib, out, ["-Wl,--allow-multiple-definition"])


def with_tables(text):
    """flags which make the library use the given tables"""
    d = os.path.join(BUILD, "tables", _hash(text))
    with _Lock():
        _prune(os.path.join(BUILD, "tables"), 10)
        os.makedirs(d + "/catima", exist_ok=True)
        with open(d + "/catima/generated_LS_coeff.h", "wb") as f:
            f.write(text)
    return ("-I" + d,)


def java():
    """class directory with the Java part of the specification"""
    src = os.path.join(VERIF, "java", "Real64.java")
    out = os.path.join(BUILD, "java-" + _hash(_read(src)))
    with _Lock():
        if not os.path.isdir(out):
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            r = subprocess.run(["javac", "-d", tmp, "-cp", TLA + "/tla2tools.jar", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError("javac failed:\n" + r.stdout.decode())
            os.rename(tmp, out)
    return out
