"""P32: every query is answered"""
import json
from . import check
from .. import enc
from ..gen import *
from ..build import CheckError
from .lookup import EXTREME

# undefined behaviour stops the program, fresh memory has a pattern
GUARD = ("-fsanitize=bounds-strict,integer-divide-by-zero,signed-integer-overflow,null,shift,float-cast-overflow,return,unreachable,vla-bound,alignment,bool,enum,object-size",
         "-fsanitize-undefined-trap-on-error", "-ftrivial-auto-var-init=pattern")
# another compiler keeps operations which the first one folds away
CLANG = ("compiler=clang++", "-fsanitize=bounds,integer-divide-by-zero,signed-integer-overflow,null,shift,float-cast-overflow,return,unreachable,vla-bound,alignment,bool,enum,pointer-overflow",
         "-fsanitize-trap=all", "-ftrivial-auto-var-init=pattern")
GUARD_ENV = {"MALLOC_PERTURB_": "165"}
SINGLE = ("range", "dedx_r", "range_str", "range_var", "domega2de", "ang_str", "ang_var0", "eout", "calc", "wmag", "nonreaction", "dedx", "domega2dx", "da2dx",
          "bethe_m", "sezi")


class Classes:
    """concrete arguments of the classes of GenTotal.tla"""
    def __init__(self, rng):
        self.r = rng
        self.g = Gen(rng)

    def projectile(self, c):
        r = self.r
        z = {"neutral": 0, "hydrogen": 1, "tabulated": r.randint(2, 92), "last": r.randint(93, 110), "unknown": r.randint(111, 140), "far": r.choice([200, 999, 10000])}[c["z"]]
        a = {"nuclide": WEIGHT.get(z, 2.6 * z) or 2.6 * z or 1.0, "light": r.choice([0.5, 1.0, 1e-3]), "heavy": r.choice([400.0, 5000.0]), "none": 0.0}[c["a"]]
        return a, z

    def energy(self, c):
        r = self.r
        return {"zero": 0.0, "negative": -self.g.logu(1e-6, 1e6), "below": self.g.logu(1e-12, 1e-3), "low": self.g.logu(1e-3, 10), "mid": self.g.logu(10, 5e3),
                "high": self.g.logu(5e3, 9.9e6), "end": r.choice([1e7, nexta(1e7, 0), nexta(1e7, 1e9), 1e-3, nexta(1e-3, 0)]), "beyond": self.g.logu(1.01e7, 1e15)}[c["t"]]

    def constituents(self, c):
        r = self.r
        one = {"light": lambda: (0.0, r.randint(1, 8), 1.0), "tabulated": lambda: (0.0, r.randint(9, 92), 1.0), "last": lambda: (0.0, r.randint(93, 110), 1.0),
               "unknown": lambda: (r.choice([300.0, 1.0]), r.randint(111, 300), 1.0), "massless": lambda: (0.0, r.randint(111, 300), 1.0),
               "chargeless": lambda: (r.choice([0.0, 1.0, 12.0]), r.choice([0, -1, -r.randint(2, 300)]), 1.0)}
        if c["m"] == "empty":
            return []
        if c["m"] == "mixed":
            return [(0.0, r.randint(1, 92), 2.0), one["unknown"](), (0.0, r.randint(1, 92), 1.0)]
        return [one[c["m"]]()]

    def material(self, c):
        th = {"zero": 0.0, "thin": self.g.logu(1e-12, 1e-5), "mid": self.g.logu(1e-3, 10), "thick": self.g.logu(1e3, 1e9)}[c["th"]]
        return mat(self.constituents(c), self.r.choice([1.0, 1e-6, 20.0]), th, self.r.choice([0.0, 0.0, 0.0, 75.0]))


@check("P32", "exploration", "all combinations of argument classes enumerated by the TLA+ specification, executed by the usual program and by one that stops at undefined behaviour, both traces related with TLC",
       "GenTotal.tla prints all classes of projectile, energy, material and thickness; every query is asked in both programs; element, isotope and material look-ups with arbitrary integers as well",
       ("undefined behaviour is what the compiler's instrumentation and the checked standard containers see: indices of arrays and containers, casts of numbers, integer arithmetic",))
def p32(run):
    r = run.rng
    k = Classes(r)
    cmds = []
    for c in run.generate("GenTotal"):
        for _ in range(run.scale(1, 5)):
            a, z = k.projectile(c)
            T = k.energy(c)
            p = proj(a, z, T, r.choice([0, 0, z, 1]))
            m = k.material(c)
            cf = cfg(r.choice([0, 1, 1, 1, 2, 3, 4, 5]), r.choice([0, r.randrange(16)]), r.randrange(2), r.randrange(2), r.choice([0, 1, 2, 255, 255]), r.choice([1.0, 0.5]))
            if r.random() < .2:
                cf = cfg()
            if c["a"] == "none" and c["z"] == "neutral" and c["m"] == "empty" and r.random() < .5:        # as the objects in places of the cache not yet used
                p, m, cf = proj(0, 0, T, 0), mat([], 1e-5, 0.0 if c["th"] == "zero" else 1.0, 0.0, 0.0), cfg()
            l = [{"op": "st_reset", "s": 0}, {"op": "calc", "p": p, "m": m, "c": cf}]
            for op in r.sample(SINGLE, 3):
                l.append({"op": op, "p": p, "m": m, "c": cf})
            T2 = r.choice([T * r.random(), 0.0, T, T * 2, k.energy(c)])
            op = r.choice(["ang_from_E", "en_from_E", "tof_E"])
            l.append({"op": op, "p": p, "m": m, "c": cf, "T2": D(T2)})
            l.append({"op": "layers", "p": p, "ls": [m, k.material(dict(c, th=r.choice(["zero", "thin", "mid"]))), m][:r.randint(0, 3)], "c": cf})
            e = k.constituents(c)
            if e:
                t = tgt(e[0][0], e[0][1])
                l.append({"op": "dedx_var", "p": p, "t": t, "c": cf})
                l.append({"op": "zeff", "p": p, "t": t, "c": cf})
                l.append({"op": "srim", "pz": z, "tz": e[0][1], "T": D(T), "v95": r.randrange(2)})
            l.append({"op": r.choice(["ls", "lsx"]), "p": p})
            known = (c["a"] == "nuclide" and c["z"] in ("hydrogen", "tabulated") and c["t"] in ("low", "mid", "high") and c["m"] in ("light", "tabulated")
                     and cf[0] in (1, 4, 5) and cf[4] in (0, 255) and p[2] == D(0))
            cmds.append({"op": "seq", "cmds": l, "known": known, "class": c})
    for z in list(range(-300, 501)) + EXTREME + [r.randrange(-2**31, 2**31) for _ in range(200)]:
        cmds.append({"op": "element", "z": z})
        cmds.append({"op": "isotope", "z": z, "i": r.choice([r.randint(-3, 14), r.randrange(-2**31, 2**31)] + EXTREME)})
        cmds.append({"op": "predefined", "id": z})
    r.shuffle(cmds)
    groups = run.shards(cmds)
    run.harness()
    run.harness(extra=GUARD)
    plain = run.execute(groups)
    guarded = run.execute(groups, extra=GUARD, env=GUARD_ENV)
    try:
        run.harness(extra=CLANG)
    except (CheckError, OSError) as e:              # not with this compiler
        run.extra["second compiler"] = str(e)[-300:]
    else:
        run.execute(groups, extra=CLANG, env=GUARD_ENV)     # has to return
        run.extra["second compiler"] = CLANG[0][9:]
    events = [[enc.line(dict(c, v=[json.loads(x)["r"], json.loads(y)["r"]])) for c, x, y in zip(g, a, b)] for g, a, b in zip(groups, plain, guarded)]
    run.check_events("T_Total", events, cfg="Trace.cfg")
