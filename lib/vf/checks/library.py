"""P01 - P05: the cache, the default configuration and the C interface"""
import json
from . import check
from ..gen import *
from .physics import seq
from .transport import soundmat, SOUND_Z, Keys, full, tables
from .. import enc, tlc
from ..paths import CheckError

A_NOTE = "one thread; the library is not meant to be used by several threads at once"
STANDARD = cfg()


def fresh(run, cmds):
    """answers of new processes, each asked one command"""
    uniq = {}
    for c in cmds:
        uniq.setdefault(enc.line(c), c)
    keys = list(uniq)
    groups = run.shards([uniq[k] for k in keys])
    ans = []
    for lines in run.execute(groups, fresh=True):
        ans += [json.loads(l)["r"] for l in lines]
    ref = dict(zip(keys, ans))
    return [ref[enc.line(c)] for c in cmds]


def must_fail(run, module, cfgfile):
    """the model without the condition it needs has to be rejected"""
    rc, out, wall = tlc.run(module, cfgfile, workers=4)
    if "is violated" not in out:
        raise CheckError("%s %s: violation expected\n%s" % (module, cfgfile, tlc.clean(out)[-2000:]))
    run.extra.setdefault("rejected_mutants_of_the_model", []).append(cfgfile)


class Item:
    def __init__(self, g, zmax=92, ids=True):
        r = g.r
        self.a, self.z = g.nuclide(zmax)
        self.q = g.charge(self.z)
        self.m = soundmat(g) if not ids or r.random() < 0.7 else {"id": r.choice([r.randint(1, 92), r.randint(201, 349)]), "rho": [], "th": D(0)}

    def p(self, T=0.0):
        return proj(self.a, self.z, T, self.q)


def make_query(g, it, c, density=True):
    """a random query of a combination; without the configuration when c is empty; density: changed as well"""
    r = g.r
    T = g.energy(1e-2, 2e4, (1.0, 30.0))
    th = g.logu(1e-4, 3.0)
    m = dict(it.m, th=D(th))
    if density and m["rho"]:
        m["rho"] = D(g.logu(1e-3, 20.0))
    op = r.choice(["range", "range", "dedx_r", "range_str", "range_var", "domega2de", "ang_var", "eout", "eout_v", "calc", "calc", "calc", "layers_ps",
                   "wmag", "nonreaction", "ang_from_E", "en_from_E", "tof_E", "dedx", "domega2dx", "da2dx", "dedx_rv", "calc_T",
                   "layers_T", "tof_v"])
    e = {"op": op, "p": it.p(T), "m": m, "c": c}
    if op in ("eout_v", "dedx_rv"):
        e["T"] = [D(g.energy(1e-3, 1e4)) for _ in range(r.randint(0, 4))]
    elif op in ("layers_ps", "layers_T"):
        e.pop("m")
        e["ls"] = [dict(m, th=D(th * x)) for x in (0.3, 0.2)]
        if op == "layers_ps":
            e["ps"] = [D(0.1), D(0.01), D(0)]
        else:
            e["T0"] = D(r.choice([0.0, 5.0]))
    elif op == "tof_v":
        e["k"] = [r.randrange(400) for _ in range(3)]
    elif op in ("ang_from_E", "en_from_E", "tof_E"):
        e["T2"] = D(T * r.uniform(0.3, 0.99))
    elif op == "ang_var":
        if c:
            e["n"] = r.choice([0, 1, 2])
        else:
            e["op"] = "ang_var0"
    elif op == "calc_T":
        e["T0"] = D(r.choice([0.0, 5.0]))
    return e


def reference(e, under):
    f = {k: v for k, v in e.items() if k not in ("under", "fresh", "tag")}
    f["c"] = under
    return f


def finish(run, sessions):
    """adds the answers of new processes to the queries of sessions"""
    qs = [e for s in sessions for e in s if "ref" in e]
    for e, r in zip(qs, fresh(run, [e["ref"] for e in qs])):
        e["fresh"] = r
        del e["ref"]


def query(e, under, tag):
    e["under"] = under
    e["tag"] = tag
    e["ref"] = reference(e, under)
    return e


def relative(g, it, c):
    """a combination which differs in one field by an amount that shows"""
    r = g.r
    n = Item.__new__(Item)
    n.a, n.z, n.q, n.m = it.a, it.z, it.q, json.loads(json.dumps(it.m))
    c = list(c)
    k = r.choice(["isotope", "isotope", "element", "target", "isotope of target", "I", "formula"])
    if k == "isotope":
        n.a = it.a * r.choice([r.uniform(0.8, 0.98), r.uniform(1.02, 1.3)])
    elif k == "element":
        n.z = it.z % 92 + 1
    elif k == "formula":
        c[0] = r.choice([x for x in SOUND_Z if x != c[0]])
    elif "e" not in n.m:
        n.m["id"] = r.choice([r.randint(1, 92), r.randint(201, 349)])
    else:
        el = r.choice(n.m["e"])
        if k == "target":
            el[1] = el[1] % 92 + 1
        elif k == "I":
            n.m["I"] = D(r.uniform(20, 900))
        else:
            el[0] = D((F(el[0]) or WEIGHT[el[1]]) * r.uniform(1.02, 1.2))
    return n, c


@check("P01", "model_checking", "TLA+ model of cache and settings checked exhaustively, its sessions replayed, long recorded sessions validated against answers of new processes",
       "Cache.tla and Library.tla are explored exhaustively; sessions with more combinations than the cache holds are recorded and every answer has to be, bit by bit, that of a new process",
       (A_NOTE,))
def p01(run):
    run.model("Cache")
    run.model("Library")
    must_fail(run, "Library", "LibrarySloppy.cfg")
    g = Gen(run.rng)
    r = run.rng
    cap = run.query([{"op": "st_cap", "s": 0}])[0]["n"]
    sessions = []
    for _ in range(run.scale(16, 60)):
        n = r.choice([3, cap // 2, cap, cap + 1, cap + 15])
        items = [(Item(g), g.config((0, 1, 2, 4, 5))) for _ in range(n)]
        for _ in range(n // 2):                     # combinations that have something in common
            i = r.randrange(n)
            explicit(g, items[i][0])
            items[(i + r.choice([1, 1, n // 3])) % n] = near(g, *items[i])[:2]
        s = []
        order = r.choice(["cycle", "random", "stack"])
        for k in range(run.scale(int(n * 1.6) + 20, n * 4)):
            if order == "cycle":
                it, c = items[k % n]
            elif order == "stack":
                it, c = items[-1 - (k % n)] if r.random() < .5 else items[0]
            else:
                it, c = r.choice(items)
            s.append(query(make_query(g, it, c), c, "long" if n >= cap else "short"))
            if r.random() < 0.15:                       # the same query of a relative
                x, cx = relative(g, it, c)
                s.append(query(again(s[-1], x, cx), cx, "relative"))
            if r.random() < 0.02:
                s.append({"op": "st_reset", "s": 0})
            if r.random() < 0.05:
                s.append(json.loads(json.dumps(s[-1])) if "ref" in s[-1] else {"op": "def_get"})   # the same query again
        sessions.append(s)
    for _ in range(run.scale(150, 1500)):               # relatives at one energy, one directly after the other
        it, c = Item(g), g.config((0, 1, 2, 4, 5))
        q = query({"op": r.choice(["dedx", "dedx", "domega2dx", "da2dx", "nonreaction"]), "p": it.p(g.logu(1.0, 3e4)),
                   "m": dict(it.m, th=D(g.logu(1e-4, 0.1))), "c": c}, c, "neighbour")
        s = [q]
        for _ in range(4):
            x, cx = relative(g, it, c)
            s += [query(again(q, x, cx), cx, "neighbour"), json.loads(json.dumps(q))]
        sessions.append(s)
    finish(run, sessions)
    run.check_sessions("T_Library", sessions)


NEAR = [lambda g, x: math.nextafter(x, math.inf), lambda g, x: math.nextafter(x, 0), lambda g, x: x * (1 + 1e-13), lambda g, x: x * (1 + 1e-9),
        lambda g, x: x * (1 - 1e-7), lambda g, x: x * (1 + 1e-5), lambda g, x: x * (1 + 1e-3), lambda g, x: x * 1.01, lambda g, x: x * (1 + g.logu(1e-15, 0.3)), lambda g, x: x * (1 - g.logu(1e-15, 0.3))]


def explicit(g, it):
    """writes out values which are filled in otherwise"""
    m = it.m
    if "e" in m:
        for el in m["e"]:
            if g.r.random() < 0.5 and F(el[0]) == 0:
                el[0] = D(WEIGHT[el[1]])
        if len(m["e"]) == 1 and g.r.random() < 0.3 and F(m["I"]) == 0:
            m["I"] = D(ELEMENTS[m["e"][0][1] - 1][2])
        if g.r.random() < 0.2 and m["M"] == []:
            m["M"] = D(sum((F(x[0]) or WEIGHT[x[1]]) * F(x[2]) for x in m["e"]))


def pair_item(g):
    """a combination to be varied; some are compounds of many elements with a given molar mass"""
    it = Item(g)
    if g.r.random() < 0.2:
        n = g.r.randint(5, 12)
        it.m = mat([(0.0, g.tz(92), s) for s in g.amounts(n)], g.logu(1e-3, 20), 0, 0, g.r.uniform(5, 100))
    explicit(g, it)
    return it


def again(q, it, c):
    """the query for another combination"""
    e = json.loads(json.dumps(q))
    e.update(p=it.p(F(q["p"][3])), c=c)
    if "m" in q:
        e["m"] = dict(it.m, th=q["m"]["th"], rho=q["m"]["rho"])
    else:
        e["ls"] = [dict(it.m, th=x["th"], rho=x["rho"]) for x in q["ls"]]
    return e


def near(g, it, c):
    """a combination that differs in one field"""
    r = g.r
    b = json.loads(json.dumps(dict(a=it.a, z=it.z, q=it.q, m=it.m, c=c)))
    f = r.choice(NEAR)
    m = b["m"]
    kinds = ["A", "A", "A", "Z", "Q", "Q", "zeff", "corr", "calc", "low", "scat", "sf", "sf"] + ["stn", "elA", "elA", "elZ", "I", "I", "M", "M", "add", "drop"] * (1 if "e" in m else 0)
    k = r.choice(kinds)
    if k == "A":
        b["a"] = f(g, b["a"])
    elif k == "Z":
        b["z"] = b["z"] + 1 if b["z"] < 92 else b["z"] - 1
    elif k == "Q":
        b["c"][0] = c[0] = 0                  # the formulas for the charge do not use it
        b["q"] = r.choice([x for x in (1, 2, b["z"], max(1, b["z"] - 1), 0.5) if x != (b["q"] or b["z"])] + [f(g, b["q"] or b["z"]) for _ in range(4)])
    elif k == "zeff":
        b["c"][0] = r.choice([x for x in SOUND_Z if x != c[0]])
    elif k == "corr":
        b["c"][1] = c[1] ^ r.choice([1, 2, 4, 8])
    elif k == "calc":
        b["c"][2] = 1 - c[2]
    elif k == "low":
        b["c"][3] = 1 - c[3]
    elif k == "scat":
        b["c"][4] = r.choice([x for x in (0, 1, 2, 255) if x != c[4]])
    elif k == "sf":
        b["c"][5] = D(f(g, F(c[5])))
    else:
        i = r.randrange(len(m["e"]))
        el = m["e"][i]
        if k == "stn":
            el[2] = D(f(g, F(el[2])))
        elif k == "elA":
            el[0] = D(f(g, F(el[0]) or WEIGHT[el[1]]))
        elif k == "elZ":
            el[1] = el[1] + 1 if el[1] < 92 else el[1] - 1
        elif k == "I":
            m["I"] = D(f(g, F(m["I"]) or ELEMENTS[el[1] - 1][2]))
        elif k == "M":
            m["M"] = D(f(g, sum((F(x[0]) or WEIGHT[x[1]]) * F(x[2]) for x in m["e"])))
        elif k == "add":
            m["e"].append([D(0), r.randint(1, 92), D(r.choice([0.5, 1.0]))])
        elif k == "drop":
            if len(m["e"]) > 1:
                m["e"].pop()
            else:
                el[2] = D(F(el[2]) + 1)
    n = Item.__new__(Item)
    n.a, n.z, n.q, n.m = b["a"], b["z"], b["q"], m
    return n, b["c"], k


@check("P02", "model_checking", "TLA+ model of cache and settings, sessions of nearly equal combinations validated against answers of new processes",
       "Library.tla is explored exhaustively with exact and rejected with sloppy comparison of combinations; recorded sessions ask for combinations that differ in one field "
       "down to one rounding step, in both orders",
       (A_NOTE,))
def p02(run):
    run.model("Library")
    must_fail(run, "Library", "LibrarySloppy.cfg")
    g = Gen(run.rng)
    r = run.rng
    sessions = []
    kinds = {}
    for _ in range(run.scale(500, 6000)):
        it = pair_item(g)
        c = g.config(SOUND_Z)
        it2, c2, k = near(g, it, c)
        kinds[k] = kinds.get(k, 0) + 1
        s = []
        density = r.random() < 0.1
        q = make_query(g, it, c, density)
        while q["op"] in ("dedx", "domega2dx", "da2dx"):      # not from the tables
            q = make_query(g, it, c, density)
        for x, cx in r.choice([[(it, c), (it2, c2)], [(it2, c2), (it, c)], [(it, c), (it2, c2), (it, c)]]):
            s.append(query(q if x is it else again(q, x, cx), cx, k))
            if r.random() < 0.3:
                s[-1] = query(make_query(g, x, cx, density), cx, k)
            s[-1] = json.loads(json.dumps(s[-1]))
        sessions.append(s)
    finish(run, sessions)
    run.extra["differing_fields"] = kinds
    run.check_sessions("T_Library", sessions)
    # the tables themselves, also where the results do not use all of them
    ses = []
    want = []
    for _ in range(run.scale(400, 4000)):
        it = pair_item(g)
        c = g.config(SOUND_Z, plain=0.1)
        it2, c2, k = near(g, it, c)
        s = [{"op": "st_cap", "s": 0}]
        for x, cx in r.choice([[(it, c), (it2, c2)], [(it2, c2), (it, c)]]):
            s.append({"op": "st_get", "s": 0, "p": x.p(), "m": x.m, "c": list(cx)})
            want.append(s[-1])
        ses.append(json.loads(json.dumps(s)))
    hs = iter(fresh(run, [dict(e, want=0) for e in want]))
    for s in ses:
        for e in s[1:]:
            e["want"] = next(hs)["h"]
    run.check_sessions("T_Cache", ses)
    # the tables do not depend on energy, thickness and density
    ses = []
    want = []
    for _ in range(run.scale(60, 600)):
        it = Item(g, ids=False)
        c = g.config(SOUND_Z)
        s = [{"op": "st_cap", "s": 0}]
        for _ in range(3):
            m = dict(it.m, th=D(g.logu(1e-5, 10)), rho=D(g.logu(1e-4, 20)))
            e = {"op": "st_get", "s": 0, "p": it.p(g.energy()), "m": m, "c": c}
            s.append(e)
            want.append((e, {"op": "st_get", "s": 0, "p": it.p(0.0), "m": it.m, "c": c}))
        ses.append(s)
    for (e, _), a in zip(want, fresh(run, [w for _, w in want])):
        e["want"] = a["h"]
    run.check_sessions("T_Cache", ses)


def valid_references(session, cap):
    """the session without the uses of references to entries which are no longer stored"""
    q, kept, out = [], {}, []
    for x in session:
        if x["op"] == "st_reset":
            q, kept = [], {}
        elif x["op"] in ("st_get", "st_add"):
            h = tuple(x["want"])
            if h not in q:
                q = (q + [h])[-cap:]
                kept = {n: k for n, k in kept.items() if k in q}
            if "keep" in x:
                kept[x["keep"]] = h
        elif x["op"] == "st_ref" and x["keep"] not in kept:
            continue
        out.append(x)
    return out


@check("P03", "model_checking", "TLA+ model of the cache checked exhaustively, all its short programs and random long ones replayed on the real cache",
       "Cache.tla checked for 5 combinations and capacity 3; every program of 5 (thorough 6) operations up to renaming is replayed with blocks of combinations scaled to the real "
       "capacity, plus random operation sequences; contents, references and fingerprints validated by T_Cache.tla",
       (A_NOTE, "tables are compared by a 64 bit fingerprint"))
def p03(run):
    run.model("Cache")
    g = Gen(run.rng)
    r = run.rng
    cap = run.query([{"op": "st_cap", "s": 0}])[0]["n"]
    pool = []
    while len(pool) < 3 * cap:
        it = Item(g)
        pool.append((it, g.config(SOUND_Z)))
    cmds = [{"op": "st_get", "s": 0, "p": it.p(), "m": it.m, "c": c} for it, c in pool]
    hs = [x["h"] for x in fresh(run, cmds)]

    def get(i, s, op="st_get", **kw):
        it, c = pool[i]
        return dict(op=op, s=s, p=it.p(g.r.choice([0.0, 10.0])), m=it.m, c=c, want=hs[i], **kw)
    sessions = []
    block = max(1, cap // 3)
    programs = run.generate("GenCache", "GenCacheDeep.cfg" if run.thorough else "GenCache.cfg")
    for pr in programs:
        st = r.choice([0, 1])
        s = [{"op": "st_cap", "s": st}]
        used = set()
        for a in pr:
            if a["a"] == "reset":
                s.append({"op": "st_reset", "s": st})
            else:
                for i in range((a["k"] - 1) * block, min(a["k"] * block, len(pool))):
                    s.append(get(i, st, keep=i) if i % 7 == 0 else get(i, st))
                    used.add(i)
            s.append({"op": "st_dump", "s": st})
            s += [{"op": "st_ref", "s": st, "keep": i} for i in sorted(used) if i % 7 == 0]
        sessions.append(valid_references(s, cap))
    run.check_sessions("T_Cache", sessions, name="programs")
    sessions = []
    for _ in range(run.scale(12, 100)):
        st = r.choice([0, 2])
        s = [{"op": "st_cap", "s": st}]
        n = r.choice([cap - 1, cap, cap + 1, cap + 7, 2 * cap])
        kept = set()
        for k in range(run.scale(3 * cap, 6 * cap)):
            x = r.random()
            i = k % n if x < 0.5 else r.randrange(n)
            if x > 0.995:
                s.append({"op": "st_reset", "s": st})
                kept = set()
            elif x > 0.9:
                s.append({"op": "st_dump", "s": st})
            elif x > 0.8 and kept:
                s.append({"op": "st_ref", "s": st, "keep": r.choice(sorted(kept))})
            elif x > 0.75:
                s.append(get(i, st, "st_add"))
            elif x < 0.1:
                s.append(get(i, st, keep=i))
                kept.add(i)
            else:
                s.append(get(i, st))
        s.append({"op": "st_dump", "s": st})
        sessions.append(valid_references(s, cap))
    run.check_sessions("T_Cache", sessions, name="random")


def library_sessions(run, cq):
    """sessions printed by the model with concrete combinations and configurations"""
    g = Gen(run.rng)
    r = run.rng
    programs = run.generate("GenLibrary", "GenLibraryDeep.cfg" if run.thorough else "GenLibrary.cfg")
    if run.thorough and len(programs) > 20000:
        programs = r.sample(programs, 20000)
    out = []
    worlds = []
    for _ in range(run.scale(25, 60)):
        # combinations the C interface can express
        items = []
        for _ in (1, 2):
            it = Item(g)
            it.q = 0
            it.tz, it.ta = r.choice([(r.randint(1, 92), 0.0), (r.randint(1, 92), 1.0), (r.randint(201, 349), 0.0)])
            it.ta *= WEIGHT.get(it.tz, 0)
            items.append(it)
            it.m = cmat(it, 0.0, -1.0)
        z1, z2 = 1, r.choice([0, 4, 5])
        other = json.loads(json.dumps(STANDARD))
        k = r.choice([1, 2, 3, 4, 5])
        other[k] = {1: r.choice([1, 2, 4, 8, 15]), 2: 0, 3: 1, 4: r.choice([0, 1, 2]), 5: D(r.uniform(0.3, 2))}[k]
        conf = {(1, 0): STANDARD, (2, 0): [z2] + STANDARD[1:], (1, 1): other, (2, 1): [z2] + other[1:]}
        worlds.append((items, conf, {1: 1, 2: z2}, {}))
    for pr in programs:
        items, conf, zs, memo = r.choice(worlds)
        s = []
        deff, cdef = STANDARD, 1
        for a in pr:
            if a["a"] == "setdef":
                deff = conf[tuple(a["c"])]
                s.append({"op": "def_set", "c": deff})
            elif a["a"] == "setc":
                cdef = zs[a["i"]]
                s.append({"op": "c_def", "z": cdef})
            elif a["a"] == "reset":
                s.append({"op": "st_reset", "s": 0})
            else:
                it = items[a["i"] - 1]
                if a["a"] == "c":
                    e, under, ref = c_query(g, it, cdef, deff, memo)
                    e.update(under=under, tag="model", ref=ref)
                    s.append(e)
                    deff = [cdef] + deff[1:4] + [255 if e["op"] != "c_nonreaction" else deff[4]] + deff[5:]
                else:
                    c = conf[tuple(a["c"])] if a["a"] == "with" else []
                    under = c or deff
                    key = (a["i"], enc.line(under))
                    if key not in memo or r.random() < 0.1:
                        memo[key] = make_query(g, it, under)
                    e = json.loads(json.dumps(memo[key]))
                    e["c"] = c
                    ref = dict(e, c=under)
                    if e["op"] == "ang_var0":
                        e["op"] = ref["op"] = "ang_var0"
                    s.append(dict(e, under=under, tag="model", ref=ref))
            if r.random() < 0.3:
                s.append({"op": "def_get"})
        s.append({"op": "def_get"})
        s.append({"op": "c_def_get"})
        out.append(s)
    return out


def cmat(it, th, rho):
    """material of the C interface as an object"""
    if it.tz > 200:
        return {"id": it.tz, "rho": [] if rho <= 0 else D(rho), "th": D(th)}
    if it.ta == 0.0:
        return {"e": [[D(0), it.tz, D(1)]], "rho": D(rho if rho > 0 else DENSITY[it.tz]), "th": D(th), "I": D(0), "M": []}
    return mat([(it.ta, it.tz, 1.0)], rho if rho > 0 else DENSITY[it.tz], th)


def c_query(g, it, cdef, deff, memo, op=None):
    r = g.r
    T = g.energy(0.5, 1e4, (30.0,))
    th = g.logu(1e-4, 3.0)
    rho = r.choice([-1.0, 0.0, g.logu(1e-3, 20)])
    op = op or r.choice(["c_calc", "c_calc", "c_eout", "c_range", "c_range_str", "c_ang", "c_en", "c_nonreaction"])
    if op not in ("c_calc", "c_eout"):
        rho = -1.0
    e = {"op": op, "pa": D(it.a), "pz": it.z, "T": D(T), "ta": D(it.ta), "tz": D(it.tz)}
    under = [cdef] + deff[1:4] + [255] + deff[5:]
    p = proj(it.a, it.z, T)
    ref = {"p": p, "m": cmat(it, th, rho), "c": under}
    if op in ("c_calc", "c_eout"):
        e.update(th=D(th), rho=D(rho))
        ref["op"] = op[2:]
    elif op == "c_nonreaction":
        e.update(th=D(th))
        ref["op"] = "nonreaction"
    elif op == "c_range":
        ref["op"] = "range"
        ref["m"] = cmat(it, 0.0, -1.0)
    elif op == "c_range_str":
        ref["op"] = "range_str"
        ref["m"] = cmat(it, 0.0, -1.0)
    else:
        T2 = T * r.uniform(0.3, 0.99)
        e["T2"] = D(T2)
        ref["T2"] = D(T2)
        ref["op"] = {"c_ang": "ang_from_E", "c_en": "en_from_E"}[op]
        ref["m"] = cmat(it, 0.0, -1.0)
    return e, under, ref


@check("P04", "model_checking", "TLA+ model of the settings checked exhaustively, its sessions replayed and recorded random sessions validated against answers of new processes",
       "Library.tla explored exhaustively; every session of 3 (thorough 4) steps is replayed with concrete combinations and configurations; every field of every answer is compared bit by bit",
       (A_NOTE,))
def p04(run):
    run.model("Library")
    g = Gen(run.rng)
    r = run.rng
    sessions = [s for s in library_sessions(run, False)]
    for _ in range(run.scale(60, 600)):
        s = [{"op": "cfg_new"}]
        d = STANDARD
        its = [Item(g) for _ in range(3)]
        for _ in range(14):
            x = r.random()
            if x < 0.25:
                d = g.config((0, 1, 2, 4, 5), plain=0.1)
                s.append({"op": "def_set", "c": d})
            elif x < 0.3:
                s.append({"op": "st_reset", "s": 0})
            else:
                c = [] if r.random() < 0.5 else g.config((0, 1, 2, 4, 5))
                s.append(query(make_query(g, r.choice(its), c), c or d, "random"))
                s.append({"op": "def_get"})
        sessions.append(s)
    for _ in range(40):
        a = g.config(plain=0)
        b = json.loads(json.dumps(a))
        k = r.randrange(6)
        b[k] = D(math.nextafter(F(b[5]), 9)) if k == 5 else (b[k] + r.choice([0, 1])) % 6
        sessions.append([{"op": "cfg_eq", "a": a, "b": b}, {"op": "cfg_eq", "a": a, "b": a}])
    finish(run, sessions)
    run.check_sessions("T_Library", sessions)
    # every part of a result is what the separate calls give with the same configuration
    K = Keys(run, run.scale(120, 1500))
    cmds = [full(K, k, K.fraction() * k["range"]) for k in K.items for _ in range(3)]
    for k in K.items:
        m = K.m(k, K.fraction() * k["range"])
        for b, o in (("eout_v", "eout"), ("dedx_rv", "dedx_r")):
            cmds.append(seq("batch", b, [{"op": b, "p": K.p(k, 0.0), "T": [D(k["T"])], "m": m, "c": k["c"]}, {"op": o, "p": K.p(k), "m": m, "c": k["c"]}]))
        cmds.append(seq("onelayer", "", [{"op": "calc", "p": K.p(k), "m": m, "c": k["c"]}, {"op": "layers", "p": K.p(k), "ls": [m], "c": k["c"]}]))
    run.check("T_Transport", cmds + tables(run, 0.4), cfg="Trace.cfg")
    # and the tables and rates are those of the configuration
    rate = lambda op, lo: {"op": op, "p": g.projectile(g.energy(lo, 1e6)), "m": g.material(), "c": g.config(plain=0)}
    run.check("T_Physics", [rate(op, lo) for op, lo in (("dedx", 1e-3), ("dedx", 8.0), ("bethe_m", 2.6), ("domega2dx", 1e-3), ("da2dx", 1e-3))
                            for _ in range(run.scale(150, 1500))], cfg="Trace.cfg")


@check("P05", "model_checking", "TLA+ model of the settings, recorded sessions of the C interface validated against answers of the C++ interface in new processes",
       "Library.tla explored exhaustively and its sessions replayed; random sessions over all C functions, all elements and predefined compounds, with changes of the C setting and of the "
       "C++ defaults in between", (A_NOTE,))
def p05(run):
    run.model("Library")
    g = Gen(run.rng)
    r = run.rng
    sessions = [s for s in library_sessions(run, True) if any(e["op"].startswith("c_") and "ref" in e for e in s)]
    ids = list(range(1, 93)) + list(range(201, 347))
    for k in range(run.scale(120, 1200)):
        s = []
        d, cd = STANDARD, 1
        for j in range(8):
            x = r.random()
            if x < 0.2:
                cd = r.choice([0, 1, 4, 5])
                s.append({"op": "c_def", "z": cd})
            elif x < 0.3:
                d = g.config(SOUND_Z)
                s.append({"op": "def_set", "c": d})
            it = Item(g)
            it.q = 0
            it.tz = ids[(k * 8 + j) % len(ids)]
            it.ta = r.choice([0.0, 0.0, 1.0, 18.0]) if it.tz > 200 else r.choice([0.0, WEIGHT[it.tz], WEIGHT[it.tz] * r.uniform(.97, 1.03)])
            e, under, ref = c_query(g, it, cd, d, {})
            e.update(under=under, tag="random", ref=ref)
            s.append(e)
            d = [cd] + d[1:4] + [255 if e["op"] != "c_nonreaction" else d[4]] + d[5:]
            if r.random() < 0.2:
                it.m = cmat(it, 0.0, -1.0)
                c = g.config(SOUND_Z)
                s.append(query(make_query(g, it, c), c, "c++"))
        s.append({"op": "def_get"})
        sessions.append(s)
    finish(run, sessions)
    run.check_sessions("T_Library", sessions)
    cmds = [{"op": "c_weight", "z": z} for z in list(range(-3, 130)) + [1000]]
    run.check("T_Lookup", cmds, cfg="Trace.cfg")
