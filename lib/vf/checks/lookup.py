"""P21, P22: look-ups of elements, isotopes and predefined materials"""
from . import check

EXTREME = [-2147483648, -2147483647, -100000, 100000, 65536, 2147483646, 2147483647]


@check("P21", "exploration", "TLC trace check of all look-ups against the specified tables",
       "every element -300..500 and every isotope index -4..20 is looked up and checked with Elements.tla, whose own "
       "consistency (abundances, order, masses) TLC evaluates")
def p21(run):
    zs = list(range(-300, 501)) + EXTREME + [run.rng.randrange(-2**31, 2**31) for _ in range(run.scale(200, 5000))]
    cmds = [{"op": "element", "z": z} for z in zs]
    for z in list(range(-6, 131)) + EXTREME:
        for i in list(range(-4, 21)) + EXTREME:
            cmds.append({"op": "isotope", "z": z, "i": i})
    for _ in range(run.scale(300, 5000)):
        cmds.append({"op": "isotope", "z": run.rng.choice([run.rng.randint(1, 109), run.rng.randrange(-2**31, 2**31)]),
                     "i": run.rng.choice([run.rng.randint(-12, 12), run.rng.randrange(-2**31, 2**31)])})
    run.check("T_Lookup", cmds, cfg="Trace.cfg")


@check("P22", "exploration", "TLC trace check of all predefined materials against the specified compositions",
       "all identifiers -400..1000 and random ones, by number and by name")
def p22(run):
    ids = list(range(-400, 1001)) + EXTREME + [run.rng.randrange(-2**31, 2**31) for _ in range(run.scale(200, 5000))]
    run.check("T_Lookup", [{"op": "predefined", "id": i} for i in ids], cfg="Trace.cfg")
