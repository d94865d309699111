"""P14 - P18: local physics against the formulas of Physics.tla"""
from . import check
from ..gen import *

SPECIAL = (1e-3, 25e-3, 1.0, 2.5, 10.0, 30.0, 50000.0, 1e7)
LS_Z = 108                                   # elements of the tabulated Lindhard corrections
T_NOTE = "a change smaller than 1e-7 of a value is not seen"


def seq(rel, why, cmds, **kw):
    return dict(op="seq", rel=rel, why=why, cmds=cmds, **kw)


@check("P14", "exploration", "TLA+ model of the stopping power as oracle for recorded evaluations",
       "stopping power, relativistic part and each of its terms evaluated by the library at random and boundary inputs "
       "and compared by TLC with Physics.tla; cases of the model reached are reported", (T_NOTE,))
def p14(run):
    g = Gen(run.rng)
    cmds = []
    for _ in range(run.scale(1500, 20000)):
        cmds.append({"op": "dedx", "p": g.projectile(g.energy(special=SPECIAL)), "m": g.material(), "c": g.config()})
    for z in range(1, 99):                      # every target and every projectile in every regime
        for lo, hi in ((1e-3, 10), (10, 30), (30, 5e4), (5e4, 1e7)):
            cmds.append({"op": "dedx", "p": g.projectile(g.logu(lo, hi)), "m": mat([(0, z, 1)], 1), "c": g.config()})
            cmds.append({"op": "dedx", "p": proj(g.mass(z), z, g.logu(lo, hi)), "m": g.material(), "c": []})
    for T in (10.0, 30.0, 50000.0):             # around the boundaries of the regimes, also compounds of many elements
        for _ in range(run.scale(60, 600)):
            p = g.projectile(T * g.r.choice([1 - g.logu(1e-6, 0.2), 1 + g.logu(1e-6, 0.2), 1 + g.r.uniform(0, 0.1)]), g.r.choice([10, 108]))
            cmds.append({"op": "dedx", "p": p, "m": g.r.choice([g.material(), g.material(12), mat([(0.0, g.tz(92), s) for s in g.amounts(g.r.randint(4, 14))], 1)]), "c": g.config()})
    for T in (0.0, -1.0, 1e-9):
        cmds.append({"op": "dedx", "p": g.projectile(T), "m": g.material(), "c": cfg(1)})
    for c in range(16):
        for _ in range(run.scale(25, 200)):
            z = g.tz()
            cmds.append({"op": "bethe_t", "p": g.projectile(g.energy(2.6, 1e7, SPECIAL + (8.0,)), 108), "t": g.target(),
                         "c": cfg(run.rng.choice([0, 1, 2, 3, 4, 5]), c), "I": D(run.rng.choice([0.0, 0.0, run.rng.uniform(20, 900)]))})
    for _ in range(run.scale(200, 3000)):
        cmds.append({"op": "bethe_m", "p": g.projectile(g.energy(2.6, 1e7, SPECIAL)), "m": g.material(), "c": g.config()})
        cmds.append({"op": "barkas", "z": D(g.logu(0.5, 92)), "eta": D(g.logu(1e-3, 10.0)), "tz": D(g.tz())})
        cmds.append({"op": "pair", "p": g.projectile(g.logu(1e3, 1e7)), "t": g.target()})
        cmds.append({"op": "brems", "p": g.projectile(g.logu(1e3, 1e7)), "t": g.target()})
    for z in range(1, 121):
        for x in (-2.0, -1.0, 0.0, 0.1, 0.3, 1.0, 2.0, 3.0, 4.5):
            bg = 10 ** (x + g.r.uniform(-.2, .2))
            b = bg / math.sqrt(1 + bg * bg)
            cmds.append({"op": "density", "b": D(b), "tz": z})
    for z, row in enumerate(DENSITY_EFFECT, 1):
        for dx in (-9e-4, -1e-6, 1e-6, 9e-4):
            bg = 10 ** (row[0] + dx)
            cmds.append({"op": "density", "b": D(bg / math.sqrt(1 + bg * bg)), "tz": z})
    for _ in range(run.scale(60, 600)):
        # each correction removes its own term: two switched off together remove the sum
        p = g.projectile(g.logu(31, 1e7))
        m = g.material()
        for T in (10.0, 30.0, 50000.0):
            cmds.append(seq("continuous", "regimes", [{"op": "dedx", "p": proj(F(p[0]), F(p[1]), x), "m": m, "c": cfg(1, 8 if T > 100 else 0)}
                                                      for x in (nexta(T, 0), T, nexta(T, 1e9))], tol=D(1e-9)))
    run.check("T_Physics", cmds, cfg="Trace.cfg")


@check("P15", "exploration", "TLA+ model of mixtures as oracle and relations between equivalent compositions",
       "every averaged quantity of random mixtures compared with the weighted average of Composition.tla; permuted, split and "
       "scaled compositions related by the specification", (T_NOTE,))
def p15(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []
    ops = [("dedx", 1e-3, 1e7), ("bethe_m", 3.0, 1e7), ("sezi", 1e-3, 30), ("dedx_n_m", 1e-3, 1e3), ("domega2dx", 1.1, 1e6),
           ("da2dx", 1e-2, 1e6)]

    def one(op, lo, hi, p, m, c):
        e = {"op": op, "p": p, "m": m, "c": c}
        if op == "dedx_n_m":
            e.pop("c")
        return e
    for _ in range(run.scale(250, 3000)):
        for op, lo, hi in ops:
            cmds.append(one(op, lo, hi, g.projectile(g.energy(lo, hi, SPECIAL)), g.material(6), g.config()))
        cmds.append({"op": "radlen_m", "m": g.material(6)})
        cmds.append({"op": "scat_m", "p": g.projectile(g.logu(1e-2, 1e6)), "m": g.material(6), "es": r.choice([[], D(r.uniform(100, 300))])})
    for _ in range(run.scale(120, 1500)):
        for op, lo, hi in ops:
            p = g.projectile(g.logu(lo, hi))
            c = g.config()
            n = r.randint(2, 5)
            e = [(0.0, g.tz(92), s) for s in g.amounts(n)]
            I = r.choice([0.0, 75.0])
            e2 = e[:]
            r.shuffle(e2)
            var = [mat(e, 1, 0, I), mat(e2, 1, 0, I)]
            if e[0][2] >= 1.0:
                k = r.choice([2.0, 3.0, 7.0, 1.5])
                var.append(mat([(a, z, s * k) for a, z, s in e], 1, 0, I))
                var.append(mat([(e[0][0], e[0][1], 1.0 + e[0][2] * (k - 1.0))] + [(e[0][0], e[0][1], e[0][2] * k - 1.0 - e[0][2] * (k - 1.0))]
                               + [(a, z, s * k) for a, z, s in e[1:]], 1, 0, I) if e[0][2] > 2.0 else var[0])
            else:
                a, z, s = e[0]
                var.append(mat([(a, z, s * 0.25)] + e[1:] + [(a, z, s * 0.75)], 1, 0, I))
                # the same as numbers of atoms
                at = [(a, z, s / WEIGHT[z]) for a, z, s in e]
                k = 2.0 / min(s for _, _, s in at)
                var.append(mat([(a, z, s * k) for a, z, s in at], 1, 0, I))
            cmds.append(seq("equal", op, [one(op, lo, hi, p, m, c) for m in var]))
    run.check("T_Physics", cmds, cfg="Trace.cfg")


@check("P16", "exploration", "TLA+ model of the effective charge formulas as oracle",
       "all settings and formulas at random and boundary inputs, for every projectile and target element", (T_NOTE,))
def p16(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []
    for k in (0, 1, 2, 3, 4, 5):
        for z in range(1, 99):
            for _ in range(run.scale(1, 10)):
                cmds.append({"op": "zeff", "p": g.projectile(g.energy(1e-3, 1e7, (1.0, 2.5, 10.0, 30.0))), "t": tgt(WEIGHT[z], z), "c": cfg(k)})
                cmds.append({"op": "zeff", "p": proj(g.mass(z), z, g.energy(1e-3, 1e7, (2.5,)), g.charge(z)), "t": g.target(), "c": cfg(k, r.randrange(16), r.randrange(2), r.randrange(2))})
        for z in (1, 2, 4, 6):
            for _ in range(run.scale(20, 200)):
                cmds.append({"op": "zeff", "p": g.projectile(g.energy(1e-3, 1e7, (2.5,))), "t": tgt(WEIGHT[z], z), "c": cfg(k)})
    for _ in range(run.scale(300, 3000)):
        z = r.choice([r.randint(1, 28), g.pz()])
        T = g.energy(1e-3, 1e7, (30.0, 2000.0)) if z < 29 else r.choice([g.energy(1e-3, 29.9), nexta(30.0, 0), nexta(2000.0, 1e9), g.energy(2001, 1e7)])
        cmds.append({"op": "zeff", "p": proj(g.mass(z), z, T, g.charge(z)), "t": g.target(), "c": cfg(6)})
        cmds.append({"op": "zeff_raw", "k": 6, "z": D(z), "x": D(T), "tz": D(g.tz())})
    for k in (1, 2, 3, 4, 5):
        for _ in range(run.scale(150, 2000)):
            x = g.energy(1e-2, 1e5, (2.5,)) if k == 3 else r.choice([r.uniform(0.01, 0.99), g.logu(1e-3, 1.0)])
            cmds.append({"op": "zeff_raw", "k": k, "z": D(g.pz()), "x": D(x), "tz": D(g.tz())})
    for _ in range(run.scale(400, 4000)):
        # range where the formulas are physical
        k = r.choice([0, 1, 4, 5])
        t = g.target(92)
        # the polynomial of Winger does not end at full charge for heavy ions in the lightest targets
        if k and not (k == 4 and t[1] < 5):
            cmds.append({"op": "zeff", "p": g.projectile(g.logu(10, 1e6)), "t": t, "c": cfg(k), "bound": 1})
    run.check("T_Physics", cmds, cfg="Trace.cfg")


@check("P17", "exploration", "TLA+ model of nuclear and low energy stopping as oracle",
       "all projectile and target elements in both coefficient sets, every branch of the scaling reached", (T_NOTE,))
def p17(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []
    for v in (0, 1):
        for z in range(1, 99):
            for pz in (1, 2, r.randint(3, 20), r.randint(3, 92)):
                for _ in range(run.scale(1, 6)):
                    cmds.append({"op": "srim", "pz": pz, "tz": z, "T": D(g.energy(1e-3, 30, (25e-3, 1e-3))), "v95": v})
        for pz in range(1, 109):
            for _ in range(run.scale(5, 40)):
                cmds.append({"op": "srim", "pz": pz, "tz": g.tz(), "T": D(g.energy(1e-3, 30)), "v95": v})
        for _ in range(run.scale(150, 2000)):
            cmds.append({"op": "sezi", "p": g.projectile(g.energy(1e-3, 30)), "m": g.material(), "c": cfg(1, 0, 1, v)})
    for z in range(1, 99):
        cmds.append({"op": "dedx_n_t", "p": g.projectile(g.logu(1e-4, 1e2)), "t": tgt(WEIGHT[z], z)})
        cmds.append({"op": "dedx_n_t", "p": proj(g.mass(z), z, g.logu(1e-4, 10.0)), "t": g.target()})
    for _ in range(run.scale(300, 4000)):
        cmds.append({"op": "dedx_n_t", "p": g.projectile(g.logu(1e-5, 1e3)), "t": g.target()})
        cmds.append({"op": "reduced", "p": g.projectile(g.logu(1e-5, 1e3)), "t": g.target()})
        cmds.append({"op": "dedx_n_m", "p": g.projectile(g.logu(1e-5, 1e3)), "m": g.material()})
    cmds.append({"op": "dedx_n_t", "p": g.projectile(0.0), "t": g.target()})
    for _ in range(run.scale(60, 600)):
        tz, pz = g.tz(), r.choice([1, 2])
        cmds.append(seq("continuous", "proton 25 keV", [{"op": "srim", "pz": pz, "tz": tz, "T": D(x), "v95": r.randrange(1)} for x in
                                                        (25e-3 * (1 - 1e-12), 25e-3, 25e-3 * (1 + 1e-12))], tol=D(1e-9)))
    run.check("T_Physics", cmds, cfg="Trace.cfg")


@check("P18", "exploration", "TLA+ model of straggling and scattering rates as oracle",
       "all projectile and target elements, all straggling and scattering settings", (T_NOTE,))
def p18(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []
    for _ in range(run.scale(900, 9000)):
        cmds.append({"op": "dedx_var", "p": g.projectile(g.energy(1e-3, 1e7, (1.0, 30.0)), 108), "t": g.target(), "c": g.config()})
    for z in range(1, 99):
        cmds.append({"op": "dedx_var", "p": g.projectile(g.logu(1, 30)), "t": tgt(WEIGHT[z], z), "c": g.config()})
        cmds.append({"op": "dedx_var", "p": proj(g.mass(z), z, g.logu(30, 1e5)), "t": g.target(), "c": g.config()})
        cmds.append({"op": "radlen", "z": z, "a": D(WEIGHT[z])})
        cmds.append({"op": "radlen", "z": z, "a": D(WEIGHT[z] * r.uniform(.9, 1.1))})
        cmds.append({"op": "scat_t", "p": g.projectile(g.logu(1e-3, 1e6)), "t": tgt(WEIGHT[z], z), "es": r.choice([[], D(r.uniform(100, 300))])})
        cmds.append({"op": "radlen_m", "m": mat([(0, z, 1)], 1)})
    for _ in range(run.scale(300, 4000)):
        cmds.append({"op": "domega2dx", "p": g.projectile(g.energy(1e-3, 1e7)), "m": g.material(), "c": g.config()})
        cmds.append({"op": "da2dx", "p": g.projectile(g.energy(1e-3, 1e7)), "m": g.material(), "c": g.config()})
        cmds.append({"op": "scat_t", "p": g.projectile(g.energy(1e-3, 1e7)), "t": g.target(), "es": []})
        cmds.append({"op": "scat_m", "p": g.projectile(g.energy(1e-3, 1e7)), "m": g.material(), "es": r.choice([[], D(225.0)])})
        cmds.append({"op": "firsov", "z1": D(g.pz()), "T": D(g.logu(1e-3, 30)), "z2": D(g.tz()), "m2": D(r.uniform(1, 240))})
        T1 = g.logu(1, 1e5)
        cmds.append({"op": "scat_xs", "p": g.projectile(T1 * r.uniform(0.3, 0.95)), "T1": D(T1), "m": g.material(), "es": r.choice([[], D(200.0)])})
    for _ in range(run.scale(100, 1000)):
        p, m = g.projectile(g.logu(1e-2, 1e6), charge=False), g.material()
        A, Z, Q, T = [F(x) for x in p]
        f = r.uniform(0.1, 4)
        sc = r.choice([0, 1, 255])
        cmds.append(seq("ratio", "scattering factor", [{"op": "da2dx", "p": p, "m": m, "c": cfg(scat=sc, sf=1.0)}, {"op": "da2dx", "p": p, "m": m, "c": cfg(scat=sc, sf=f)}],
                        factors=[D(1), D(f)]))
        cmds.append(seq("ratio", "charge", [{"op": "da2dx", "p": proj(A, 1, T), "m": m, "c": cfg(scat=sc)}, {"op": "da2dx", "p": proj(A, Z, T), "m": m, "c": cfg(scat=sc)}],
                        factors=[D(1), D(Z * Z)]))
    run.check("T_Physics", cmds, cfg="Trace.cfg")


@check("P29", "exploration", "TLA+ model of the tabulated corrections as oracle for table lookup and direct calculation",
       "all projectile elements; table values compared with the transcribed tables, direct calculations with the table at tabulated energies and masses, between them and for other masses",
       (T_NOTE,))
def p29(run):
    g = Gen(run.rng)
    r = run.rng
    node = [math.exp(math.log(10.0) * i * 7.0 / 199.0) for i in range(200)]
    node[199] *= 1 - 1e-12                      # inside of the table, however its end is rounded
    cmds = []
    for z in range(1, 109):
        w = WEIGHT[z]
        for i in sorted({0, 1, 198, r.randrange(100)} | set(r.sample(range(200), run.scale(3, 30)))):
            for op in ("ls_pair", "lsx_pair"):
                cmds.append({"op": op, "p": proj(w * r.choice([1.0, 1.05]), z, node[i])})
        for _ in range(run.scale(3, 20)):
            for op in ("ls_pair", "lsx_pair"):
                cmds.append({"op": op, "p": proj(w * r.uniform(.92, 1.08), z, node[r.randrange(200)])})
                cmds.append({"op": op, "p": proj(w * r.uniform(.92, 1.08), z, g.energy(1.0, 9.99e6))})
    for z in range(1, LS_Z + 1):                # every entry of the tables
        for op in ("ls", "lsx"):
            for f in (1.0, 1.05):
                cmds.append({"op": op + "_nodes", "A": D(WEIGHT[z] * f), "Z": z, "T": [D(x) for x in node]})
    for _ in range(run.scale(1500, 15000)):
        z = r.choice([r.randint(1, 108), r.randint(100, 118)])
        w = WEIGHT.get(z, 2.6 * z) * r.choice([1.0, r.uniform(.8, 1.2), r.uniform(.3, 4)])
        cmds.append({"op": r.choice(["ls", "lsx"]), "p": proj(w, z, g.energy(1e-3, 9.99e6, (1.0, 1e3)))})
    r.shuffle(cmds)
    run.check("T_Physics", cmds, cfg="Trace.cfg")
