#!/usr/bin/env python3
"""Shows that recorded events are bound: one value of each event is changed before TLC sees it.
usage: binding.py [-d relative change] properties...; prints for each module, operation and value how many changes were rejected"""
import collections, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
os.environ["VERIF_ALL"] = "1"
from vf import engine, enc, tlc
from vf.checks import CHECKS

args = sys.argv[1:]
change = 1e-3
if args[0] == "-d":
    change = float(args[1])
    args = args[2:]
rng = random.Random(1)
count = collections.defaultdict(lambda: [0, 0])


def double(x):
    return isinstance(x, list) and len(x) == 2 and all(type(y) is int for y in x)


def leaves(x, path=()):
    if double(x) or not isinstance(x, (dict, list)):
        yield path
    else:
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            yield from leaves(v, path + (k,))


def changed(x):
    if double(x):
        v = enc.F(x)
        return enc.D(1.0 if v != v else v * (1 + change) if v else change)
    if isinstance(x, bool):
        return not x
    return x + 1 if isinstance(x, int) else x + "x"


def corrupt(e):
    k = "r" if "r" in e else "v"
    if k not in e:
        return None
    ps = [p for p in leaves(e[k]) if p and "o" not in p]         # the option list selects the build
    if not ps:
        return None
    names = sorted({tuple(y for y in q if isinstance(y, str)) for q in ps})
    n = rng.choice(names)                       # names first: long lists do not outweigh single values
    p = rng.choice([q for q in ps if tuple(y for y in q if isinstance(y, str)) == n])
    x = e[k]
    for y in p[:-1]:
        x = x[y]
    if x[p[-1]] is None:
        return None
    x[p[-1]] = changed(x[p[-1]])
    sub = ""
    if e.get("op") == "seq":
        sub = "/" + e.get("rel", "") + ("/" + e["cmds"][p[1]]["op"] if p[0] == "rs" else "")
    return e.get("op", "?") + sub, ".".join(n)


real = tlc.trace


def trace(module, files, cfg=None, env=None, **kw):
    rs = real(module, files, cfg=cfg, env=env, **kw)
    stateful = cfg != "Trace.cfg"
    for f in files:
        lines = [json.loads(l) for l in open(f) if l.strip()]
        units = []
        for e in lines:
            if stateful and e.get("op") != "begin" and units:
                units[-1].append(e)
            else:
                units.append([e])
        work = []
        for u in units:
            what = corrupt(u[-1] if len(u) < 2 else rng.choice(u[1:]))
            if what:
                work.append((what, u))
        at, texts = [], []
        for i, (_, u) in enumerate(work):
            at += [i] * len(u)
            texts += [enc.line(e) for e in u]
        bad = set()
        first = 0
        while first < len(texts):               # a change which blocks the specification ends the trace there
            g = f + ".changed"
            with open(g, "w") as h:
                h.write("\n".join(texts[first:]) + "\n")
            try:
                r = real(module, [g], cfg=cfg, env=env, **kw)[0]
            except engine.CheckError as x:
                print("evaluation error", str(x)[-300:].replace("\n", " "))
                break
            bad |= {at[first + int(i) - 1] for _, i in r["fails"]}
            if r["ok"]:
                break
            k = at[first + r["index"] - 1]
            bad.add(k)
            first = max(i for i, y in enumerate(at) if y == k) + 1
        for i, (w, _) in enumerate(work):
            c = count[(module,) + w]
            c[0] += 1
            c[1] += i in bad
    return rs


tlc.trace = trace
for p in args:
    count.clear()
    run = engine.Run(p, "exploration")
    try:
        CHECKS[p]["run"](run)
    finally:
        run.close()
    n, b = (sum(c[i] for c in count.values()) for i in (0, 1))
    print("%s: %d of %d changed events rejected" % (p, b, n))
    for k, c in sorted(count.items()):
        if c[1] < c[0]:
            print("   %-60s %d of %d" % (" ".join(k), c[1], c[0]))
