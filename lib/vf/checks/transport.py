"""P06 - P09, P11, P12, P19, P20, P28, P30, P31: transport through slabs and stacks"""
from . import check
from ..gen import *
from .physics import seq

EZERO = 1e-3
SOUND_Z = (0, 1, 4, 5)          # formulas without unphysical regions
SPECIAL = (1e-3, 1.0, 10.0, 30.0, 1e4, 5e4)
T_NOTE = "quantities of the tables are compared with the tables' own values, the tables with the rates in P28"


def soundmat(g, n=4):
    """a custom ionisation potential near that of the element: the shell correction makes others unphysical"""
    m = g.material(n, ipot=0)
    if len(m["e"]) == 1 and g.r.random() < 0.4:
        m["I"] = D(ELEMENTS[m["e"][0][1] - 1][2] * g.r.uniform(0.85, 1.15))
    return m


class Keys:
    """combinations of projectile, material and configuration with the range at chosen energies"""
    def __init__(self, run, n, hi=1e5, lo=1e-3, nT=1, zeffs=(0, 1, 2, 3, 4, 5), scats=(0, 1, 2, 255), corr=True, ids=True, zmax=92, plain=0.2):
        self.run = run
        self.g = g = Gen(run.rng)
        r = run.rng
        self.items = []
        for _ in range(n):
            a, z = g.nuclide(zmax)
            q = g.charge(z)
            c = g.config(zeffs, scats, corr, plain)
            if c[0] == 0 and 0 < q < 0.3 * z:
                q = math.ceil(0.3 * z)    # known finding of P08 below
            if c[0] == 3 and lo < 2.5:
                c[0] = 1                  # this formula gives no charge below 2.5 MeV/u
            if ids and r.random() < 0.2:
                m = {"id": r.choice([r.randint(1, 92), r.randint(201, 349)]), "rho": r.choice([[], D(g.logu(1e-3, 20))]), "th": D(0)}
            else:
                m = soundmat(g)
            for _ in range(nT):
                self.items.append(dict(a=a, z=z, q=q, c=c, m=m, T=g.energy(lo, hi, SPECIAL)))
        rs = run.query([dict(op="seq", rel="", why="", cmds=[{"op": o, "p": self.p(k), "m": k["m"], "c": k["c"]} for o in ("range", "dedx_r")]) for k in self.items])
        for k, r in zip(self.items, rs):
            k["range"] = F(r["rs"][0]["v"])
            k["dedx"] = F(r["rs"][1]["v"])

    def p(self, k, T=None):
        return proj(k["a"], k["z"], k["T"] if T is None else T, k["q"])

    def m(self, k, th):
        return dict(k["m"], th=D(th))

    def fraction(self):
        """thickness in units of the range"""
        r = self.run.rng
        return r.choice([r.random(), r.random(), self.g.logu(1e-6, 1.0), 1.0 - self.g.logu(1e-7, 0.1)])

    def energy_at(self, wants):
        """wants: list of (key, T2); ranges at T2"""
        rs = self.run.query([{"op": "range", "p": self.p(k, T), "m": k["m"], "c": k["c"]} for k, T in wants])
        return [F(r["v"]) for r in rs]


def sound(k):
    return k["c"][0] in SOUND_Z and k["c"][4] in (0, 255) and k["T"] <= 1e5


def thicknesses(K, k):
    R = k["range"]
    r = K.run.rng
    t = [0.0]
    if R > 0:
        t += [R * K.fraction() for _ in range(3)]
        t += [R, nexta(R, 0), nexta(R, 1e99), R * (1 + r.choice([1e-9, 0.1, 9.0])), R * K.g.logu(1e-6, 1e-3)]
    else:
        t += [1e-9, 1.0]
    return t


def full(K, k, th, T=None):
    e = {"op": "calc_full", "p": K.p(k, T), "m": K.m(k, th), "c": k["c"]}
    if sound(k):
        e["finite"] = 1
    return e


@check("P06", "model_checking", "TLA+ model of a slab: exhaustive check of an abstract range machine and trace validation of recorded calculations",
       "Slab.tla is checked exhaustively for all strictly increasing range functions of small size; recorded calculations at "
       "random thicknesses and at the range itself, one rounding step below and above it, are validated by T_Transport.tla", (T_NOTE,))
def p06(run):
    run.model("Slab")
    K = Keys(run, run.scale(260, 3000), hi=1e7)
    cmds = []
    for k in K.items:
        for th in thicknesses(K, k):
            cmds.append({"op": "calc_bal", "p": K.p(k), "m": K.m(k, th), "c": k["c"]})
    # the thicknesses with the largest deviation among many
    some = [k for k in K.items if k["range"] > 0][:run.scale(80, 800)]
    jobs = [(k, a * k["range"], b * k["range"]) for k in some for a, b in ((1e-6, 1 - 1e-9), (0.2, 1 - 1e-12))]
    for (k, a, b), w in zip(jobs, run.query([{"op": "scan_balance", "p": K.p(k), "m": K.m(k, 0), "c": k["c"], "a": D(a), "b": D(b), "n": 3000} for k, a, b in jobs])):
        cmds.append({"op": "calc_bal", "p": K.p(k), "m": K.m(k, F(w["x"])), "c": k["c"]})
    run.check("T_Transport", cmds, cfg="Trace.cfg")


@check("P07", "exploration", "TLA+ model of the result of a slab in each transport case, trace validation",
       "every field of recorded results is compared with the case analysis of Transport.tla evaluated with the dedicated functions of the library", (T_NOTE,))
def p07(run):
    K = Keys(run, run.scale(200, 2500))
    cmds = []
    for k in K.items:
        for th in thicknesses(K, k):
            cmds.append(full(K, k, th))
        for T in (0.0, 1e-6, nexta(EZERO, 0) - 1e-14, EZERO, -1.0):
            cmds.append(full(K, k, run.rng.choice([0.0, 1e-5, 1.0]), T))
    run.check("T_Transport", cmds, cfg="Trace.cfg")


@check("P08", "exploration", "monotonicity clauses of the TLA+ model over recorded sequences",
       "sequences of energies and thicknesses with steps from one rounding unit to decades", (T_NOTE,))
def p08(run):
    g = Gen(run.rng)
    r = run.rng
    K = Keys(run, run.scale(220, 2500), zeffs=SOUND_Z, scats=(0, 255))
    cmds = []
    # grid points of the tables are included
    grid = [10 ** (-3 + 10 * i / 599.0) for i in range(600)]
    for k in K.items:
        Ts = sorted({g.logu(1e-3, 1e5) for _ in range(12)} | {T for i in r.sample(range(1, 475), 4) for T in (grid[i] * (1 - 1e-9), grid[i], grid[i] * (1 + 1e-9))})
        Ts = [T for T in Ts if T >= EZERO]
        cmds.append(seq("monotone", "range", [{"op": "range", "p": K.p(k, T), "m": k["m"], "c": k["c"]} for T in Ts]))
        cmds.append(seq("monotone", "variance", [{"op": "range_var", "p": K.p(k, T), "m": k["m"], "c": k["c"]} for T in Ts]))
        R = k["range"]
        ths = sorted({R * K.fraction() for _ in range(8)} | {0.0, R, R * 1.5, R * (1 - 1e-9), R * 0.5, R * 0.5 * (1 + 1e-7)})
        cmds.append(seq("monotone", "thickness", [{"op": "calc", "p": K.p(k), "m": K.m(k, t), "c": k["c"]} for t in ths], p=K.p(k), tof=0, toftol=D(0)))
        th = R * r.random()
        Ts = sorted({k["T"] * f for f in (0.5, 0.9, 0.99, 1.0, 1 + 1e-9, 1.01, 1.1, 2.0, 10.0, 1 + g.logu(1e-9, 1e-1))})
        cmds.append(seq("monotone", "energy", [{"op": "calc", "p": K.p(k, T), "m": K.m(k, th), "c": k["c"]} for T in Ts if EZERO <= T <= 1e5], p=K.p(k)))
    # the neighbours closest to a violation among many
    some = [k for k in K.items if k["range"] > 0][:run.scale(60, 600)]
    jobs = [(k, kind, th, a, b) for k in some for kind, th, a, b in
            (("range", 0.0, EZERO, 1e5), ("variance", 0.0, EZERO, 1e5), ("thickness", 0.0, 1e-5 * k["range"], k["range"] * (1 - 1e-9)),
             ("energy", k["range"] * r.random(), k["T"], min(1e5, 100 * k["T"])))]
    for (k, kind, th, a, b), w in zip(jobs, run.query([{"op": "scan", "k": kind, "p": K.p(k), "m": K.m(k, th), "c": k["c"], "a": D(a), "b": D(b), "n": 20000} for k, kind, th, a, b in jobs])):
        x = [F(w["x1"]), F(w["x2"])]
        if kind == "thickness":
            cmds.append(seq("monotone", kind, [{"op": "calc", "p": K.p(k), "m": K.m(k, t), "c": k["c"]} for t in x], p=K.p(k), tof=0, toftol=D(0)))
        else:
            op = {"range": "range", "variance": "range_var", "energy": "calc"}[kind]
            cmds.append(seq("monotone", kind, [{"op": op, "p": K.p(k, T), "m": K.m(k, th), "c": k["c"]} for T in x], p=K.p(k)))
    # a given charge far below that of the ion
    Ts = [28.828562750214342, 28.855128398088027]
    for op, why in (("range", "range"), ("range_var", "variance")):
        run.known("%s of 77Ge2+ in compound 263 with the given charge" % why, "T_Transport",
                  [seq("monotone", why, [{"op": op, "p": proj(77.01069356564783, 32, T, 2), "m": {"id": 263, "rho": D(0.010588374034750152), "th": D(0)}, "c": cfg(0, 0, 1, 1, 0)} for T in Ts])], cfg="Trace.cfg")
    # flight time: losses for which a single integration is accurate
    K = Keys(run, run.scale(60, 800), lo=50, hi=1e4, zeffs=SOUND_Z, scats=(0, 255))
    for k in K.items:
        ths = [k["range"] * f for f in sorted(r.uniform(0.0, 0.4) for _ in range(8))]
        cmds.append(seq("monotone", "thickness", [{"op": "calc", "p": K.p(k), "m": K.m(k, t), "c": k["c"]} for t in ths], p=K.p(k), tof=1, toftol=D(1e-9)))
    run.check("T_Transport", cmds, cfg="Trace.cfg")


def stack(K, k, n, T):
    """layers of random materials, some absent, with thicknesses of the order of the range"""
    r = K.run.rng
    g = K.g
    ls = []
    for _ in range(n):
        m = K.m(k, 0) if r.random() < 0.3 else soundmat(g) if r.random() < 0.8 else {"id": r.choice([r.randint(1, 92), r.randint(201, 349)]), "rho": [], "th": D(0)}
        ls.append(m)
    return ls


def place(K, jobs):
    """thicknesses as fractions of the range of each layer's material at the initial energy"""
    cmds = [{"op": "range", "p": K.p(k), "m": m, "c": k["c"]} for k, ls, fr in jobs for m in ls]
    rs = [F(r["v"]) for r in K.run.query(cmds)]
    out = []
    i = 0
    for k, ls, fr in jobs:
        out.append([dict(m, th=D(rs[i + j] * f)) for j, (m, f) in enumerate(zip(ls, fr))])
        i += len(ls)
    return out


def fractions(K, n):
    r = K.run.rng
    x = r.choice([0.3, 0.8, 1.5, 3.0]) / max(1, n)
    return [0.0 if r.random() < 0.12 else x * r.random() * r.choice([1, 1, 0.01]) for _ in range(n)]


@check("P09", "model_checking", "TLA+ model of a stack: exhaustive check of the abstract machine and trace validation of recorded stacks",
       "Slab.tla checks chaining, absorption of the stopped state and totals of all small stacks; recorded stacks and the separate "
       "calculations of their layers are validated by the fold of Transport.tla", (T_NOTE,))
def p09(run):
    run.model("Slab")
    r = run.rng
    K = Keys(run, run.scale(220, 2500), lo=1.0)
    jobs = []
    for k in K.items:
        n = r.choice([0, 1, 2, 2, 3, 4, 6])
        jobs.append((k, stack(K, k, n, k["T"]), fractions(K, n)))
    for k in K.items[:run.scale(4, 40)]:
        # many layers of few materials, thin and thick
        n = r.randint(20, 70)
        ms = [dict(m, th=D(0)) for m in stack(K, k, 3, k["T"])]
        jobs.append((k, [r.choice(ms) for _ in range(n)], [x * r.choice([1, 0.01]) for x in fractions(K, n)]))
    cmds = [{"op": "chain", "p": K.p(k), "ls": ls, "c": k["c"], "ps": [D(0)] * 3} for (k, _, _), ls in zip(jobs, place(K, jobs))]
    for k in K.items[:20]:
        cmds.append({"op": "chain", "p": K.p(k, r.choice([0.0, 5e-4, EZERO])), "ls": [K.m(k, 1e-3), K.m(k, 0.0)], "c": k["c"], "ps": [D(0)] * 3})
    run.check("T_Transport", cmds, cfg="Trace.cfg")


@check("P12", "model_checking", "TLA+ model of the beam moments: exhaustive check of the transport algebra and trace validation of recorded stacks",
       "PhaseSpace.tla checks composition and cutting of slabs exactly in integers; recorded stacks with random beams are validated by the fold of Transport.tla",
       (T_NOTE,))
def p12(run):
    run.model("PhaseSpace")
    r = run.rng
    g = Gen(run.rng)
    K = Keys(run, run.scale(200, 2500), lo=10.0, zeffs=SOUND_Z, scats=(0, 255))
    jobs = []
    for k in K.items:
        n = r.choice([1, 1, 2, 3, 5])
        jobs.append((k, stack(K, k, n, k["T"]), fractions(K, n)))
    cmds = []
    for (k, _, _), ls in zip(jobs, place(K, jobs)):
        for kind in range(3):
            x, a = [(0, 0), (g.logu(1e-3, 10), g.logu(1e-5, 1)), r.choice([(g.logu(1e-3, 10), 0), (0, g.logu(1e-5, 1))])][kind]
            c = r.uniform(-1, 1) * x * a
            cmds.append({"op": "chain", "p": K.p(k), "ls": ls, "c": k["c"], "ps": [D(x), D(a), D(c)]})
        if r.random() < 0.2:                     # nothing to pass, or no energy
            T = r.choice([0.0, 5e-4, k["T"]])
            cmds.append({"op": "chain", "p": K.p(k, T), "ls": r.choice([[], ls[:1]]), "c": k["c"],
                         "ps": [D(g.logu(1e-3, 10)), D(g.logu(1e-5, 1)), D(0)]})
    cmds += cuts(run, run.scale(50, 500), True)
    run.check("T_Transport", cmds, cfg="Trace.cfg")


def cuts(run, n, beam, thin=False):
    r = run.rng
    K = Keys(run, n, lo=200.0 if thin else 1.0 if not beam else 30.0, hi=1e4, zeffs=SOUND_Z, scats=(255,), ids=False)
    g = K.g
    cmds = []
    for k in K.items:
        f = r.uniform(0.01, 0.5) if beam else r.choice([r.uniform(0.001, 0.6), r.uniform(0.6, 0.85), r.uniform(1.03, 2.0)])
        if thin:
            f = g.logu(1e-3, 0.05)
        th = k["range"] * f
        p = K.p(k)
        ps = [D(0), D(0), D(0)] if not beam or r.random() < 0.3 else [D(g.logu(1e-3, 1)), D(g.logu(1e-4, 0.1)), D(0)]
        var = [[th]]
        for _ in range(3):
            m = r.choice([2, 2, 3, 5, 8])
            cut = sorted(r.random() for _ in range(m - 1))
            var.append([th * (b - a) for a, b in zip([0.0] + cut, cut + [1.0])])
        accurate = f < 0.6
        cmds.append(seq("cut", "", [{"op": "layers_ps", "p": p, "ps": ps, "ls": [K.m(k, t) for t in v], "c": k["c"]} for v in var],
                        p=p, dedx=D(max(k["dedx"], 1e-3) * 50), toltof=D(2e-5 if thin else 1e-3 if accurate else 5e-2),
                        tolx=D(2e-3), tola=D(2e-3), ang=1 if beam else 0))
    return cmds


@check("P11", "model_checking", "TLA+ model of a stack: exhaustive check that cuts commute with transport, trace validation of recorded cuts",
       "Slab.tla checks all cuts of all small slabs; recorded slabs are compared with random cuts of them and with stacks holding empty layers",
       (T_NOTE,))
def p11(run):
    run.model("Slab")
    r = run.rng
    cmds = cuts(run, run.scale(150, 1500), False) + cuts(run, run.scale(100, 1000), False, thin=True)
    K = Keys(run, run.scale(60, 600), lo=1.0, zeffs=SOUND_Z, scats=(0, 255))
    for k in K.items:
        base = [K.m(k, k["range"] * x) for x in fractions(K, r.randint(1, 3))]
        var = [base]
        for _ in range(3):
            v = base[:]
            for _ in range(r.randint(1, 3)):
                v.insert(r.randint(0, len(v)), dict(soundmat(K.g), th=D(0)) if r.random() < .5 else K.m(k, 0.0))
            var.append(v)
        cmds.append(seq("emptylayers", "", [{"op": "layers", "p": K.p(k), "ls": v, "c": k["c"]} for v in var]))
    run.check("T_Transport", cmds, cfg="Trace.cfg")


@check("P19", "exploration", "equality clauses of the TLA+ model over recorded call forms",
       "every alternative call form and batch query compared bit by bit with the single query, random lists including empty, "
       "repeated, unordered and below-threshold energies", (T_NOTE,))
def p19(run):
    r = run.rng
    g = Gen(run.rng)
    K = Keys(run, run.scale(250, 2500), hi=1e6)
    cmds = []
    for k in K.items:
        th = k["range"] * r.choice([0.0, K.fraction(), K.fraction(), 1.0, 1.2])
        Ts = [g.energy(1e-3, 1e6, SPECIAL) for _ in range(r.choice([0, 0, 1, 3, 7, 40]))]
        Ts += [r.choice([0.0, 5e-4, nexta(EZERO, 0), EZERO, nexta(EZERO, 1), k["T"], k["T"]]) for _ in range(r.choice([0, 1, 2]))]
        r.shuffle(Ts)
        m = K.m(k, th)
        for b, s in (("eout_v", "eout"), ("dedx_rv", "dedx_r")):
            cmds.append(seq("batch", b, [{"op": b, "p": K.p(k, r.choice([0.0, 100.0])), "T": [D(T) for T in Ts], "m": m, "c": k["c"]}]
                            + [{"op": s, "p": K.p(k, T), "m": m, "c": k["c"]} for T in Ts]))
        T0 = D(r.choice([0.0, 77.0, k["T"] * 2]))
        cmds.append(seq("same", "energy argument", [{"op": "calc", "p": K.p(k), "m": m, "c": k["c"]},
                                                    {"op": "calc_T", "p": K.p(k), "T0": T0, "m": m, "c": k["c"]}]))
        low = K.p(k, r.choice([0.0, 5e-4, nexta(EZERO, 0), EZERO]))
        cmds.append(seq("same", "low energy argument", [{"op": "calc", "p": low, "m": m, "c": k["c"]},
                                                        {"op": "calc_T", "p": low, "T0": T0, "m": m, "c": k["c"]}]))
        for op in ("range_str", "range_var", "domega2de", "en_from_E", "wmag"):
            q = {"op": op, "p": K.p(k), "m": m, "c": k["c"], "T2": D(k["T"] * 0.7)}
            cmds.append(seq("same", op, [q, dict(q, T0=T0)]))
        cmds.append(seq("onelayer", "", [{"op": "calc", "p": K.p(k), "m": m, "c": k["c"]},
                                         {"op": "layers", "p": K.p(k), "ls": [m], "c": k["c"]}]))
        ls = [K.m(k, th * x) for x in (0.2, 0.0, 0.5)]
        cmds.append(seq("same", "energy argument of a stack", [{"op": "layers", "p": K.p(k), "ls": ls, "c": k["c"]},
                                                               {"op": "layers_T", "p": K.p(k), "T0": T0, "ls": ls, "c": k["c"]},
                                                               {"op": "layers_ps", "p": K.p(k), "ps": [D(0)] * 3, "ls": ls, "c": k["c"]}]))
        tz, ta, rho = g.tz(92), r.choice([0.0, 1.0]), g.logu(1e-3, 20)
        ta = ta * WEIGHT[tz]
        t = g.logu(1e-4, 1.0)
        pa, pz = k["a"], k["z"]
        cmds.append(seq("same", "plain numbers", [{"op": "calc", "p": proj(pa, pz, k["T"]), "m": mat([(ta, tz, 1.0)], rho, t), "c": []},
                                                  {"op": "calc_plain", "pa": D(pa), "pz": pz, "T": D(k["T"]), "ta": D(ta), "tz": D(tz), "th": D(t), "rho": D(rho)}]))
    run.check("T_Transport", cmds, cfg="Trace.cfg")


GL8 = [0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363]
GLX = [-x for x in reversed(GL8)] + GL8


def depths(L):
    return [L / 2 * (1 + x) for x in GLX]


@check("P20", "exploration", "TLA+ model of reaction cross section and survival as oracle, trace validation",
       "recorded survival probabilities compared with the exponent integrated by the model over the recorded energies at depth; cross "
       "section, production and rate formulas compared at random inputs", (T_NOTE, "exponent compared within 1e-3"))
def p20(run):
    r = run.rng
    g = Gen(run.rng)
    K = Keys(run, run.scale(450, 5000), lo=20, hi=2e3)
    cmds = []
    for k in K.items:
        th = k["range"] * r.choice([0.0, K.fraction(), r.random() * 0.3, r.random(), 1.2])
        cmds.append({"op": "survival", "p": K.p(k), "m": K.m(k, th), "c": k["c"], "x": [D(x) for x in depths(th)]})
    for k in K.items[:60]:
        # around the limit: energies just above and below 30 MeV/u before or behind
        for T in (30.0, nexta(30.0, 0), nexta(30.0, 100), 29.0, 30.5):
            th = r.choice([0.0, 1e-6, 1e-3])
            cmds.append({"op": "survival", "p": K.p(k, T), "m": K.m(k, th), "c": k["c"], "x": [D(x) for x in depths(th)]})
        ths = sorted(k["range"] * r.random() for _ in range(8))
        cmds.append(seq("monotone", "thickness", [{"op": "calc", "p": K.p(k), "m": K.m(k, t), "c": k["c"]} for t in ths], p=K.p(k), tof=0, toftol=D(0)))
    run.check("T_Transport", cmds, cfg="Trace.cfg")
    cmds = []
    for _ in range(run.scale(600, 6000)):
        ap, zp = g.nuclide()
        at, zt = g.nuclide()
        cmds.append({"op": "kox", "ap": max(1, round(ap)), "zp": zp, "T": D(g.energy(1.5, 1e5, (10 ** 1.5, 30.0))), "at": max(1, round(at)), "zt": zt})
        r1 = g.logu(1, 3000)
        m = dict(g.material(), th=D(g.logu(1e-4, 30)))
        cmds.append({"op": "production", "cs": D(g.logu(1e-3, 500)), "r1": D(r1), "r2": D(r.choice([r1, r1 + r.uniform(-7, 7), r1 + 5, r1 - 5, g.logu(1, 3000)])), "m": m, "c": r.choice([[], cfg()])})
        cmds.append({"op": "rates", "s": D(g.logu(1e-3, 5000)), "n": D(g.logu(1e-6, 10))})
    run.check("T_Physics", cmds, cfg="Trace.cfg")


def tables(run, n=1.0):
    r = run.rng
    g = Gen(run.rng)
    cmds = []
    for _ in range(int(n * run.scale(70, 700))):
        a, z = g.nuclide()
        q = g.charge(z)
        c = g.config((0, 1, 2, 4, 5), (0, 1, 2, 255))
        if c[0] == 2:
            c[0] = 1
        m = soundmat(g, 3)
        for lo, hi in ((0, 100), (100, 240), (240, 269), (270, 460), (460, 596)):
            i = r.randint(lo, hi)
            T = [10 ** (-3 + 10 * j / 599.0) for j in (i, i + 1)]
            # 10 and 30 MeV/u, 50 GeV/u; slow ions have limits of the effective charge at energies of their own
            kink = i < 180 or any(abs(i - x) < 6 for x in (239.6, 268.2, 460.7))
            cmds.append({"op": "tab2", "p": proj(a, z, 0, q), "m": m, "c": c, "T": None, "k": i, "n": 1, "tol": D(2e-5), "dtol": D(2e-2 if kink else 3e-3) if r.random() < .7 and hi < 500 and c[0] else []})
    for e in cmds:
        if e["T"] is None:
            i = e["k"]
            e["T"] = [D(x) for x in grid_points(run)[i:i + 2]]
    for _ in range(int(n * run.scale(30, 300))):
        m = soundmat(g, 2)
        T = g.logu(1.0, 1e4)
        T2 = T * r.choice([r.uniform(0.6, 0.99), 1 - g.logu(1e-6, 0.4)])
        cmds.append({"op": "tof_E", "p": g.projectile(T), "T2": D(T2), "m": m, "c": g.config((1, 4, 5), (255,)), "n": 1, "tol": D(1e-6)})
    for _ in range(int(n * run.scale(12, 60))):
        i = r.choice([0, r.randint(0, 590)])
        cmds.append({"op": "tof_v", "p": g.projectile(0), "k": [i, i + 1], "m": soundmat(g, 2), "c": g.config((1, 4, 5), (255,))})
    return cmds


@check("P28", "exploration", "TLA+ model integrates the local rates of Physics.tla and is compared with recorded table values",
       "neighbouring grid points over the whole grid for random combinations, wider intervals, flight time integrals",
       ("integration accuracy 1e-6 between neighbouring grid points",))
def p28(run):
    run.check("T_Transport", tables(run), cfg="Trace.cfg")


_grid = []


def grid_points(run):
    if not _grid:
        _grid.extend(F(x) for x in run.query([{"op": "lib_grid_vals"}])[0]["v"])
    return _grid


@check("P30", "exploration", "TLA+ model of the kinematics and of the magnification as oracle, trace validation",
       "identities at random and extreme energies, magnification against the recorded outgoing energies", (T_NOTE,))
def p30(run):
    r = run.rng
    g = Gen(run.rng)
    cmds = []
    for _ in range(run.scale(1500, 20000)):
        a, _ = g.nuclide()
        cmds.append({"op": "kin", "T": D(g.logu(1e-6, 1e7)), "A": D(a), "At": D(g.mass(g.tz()))})
        cmds.append({"op": "kin_lib", "T": D(g.logu(1e-6, 1e7)), "A": D(a)})
    for _ in range(run.scale(50, 500)):
        Ts = sorted(g.logu(1e-3, 1e5) for _ in range(6))
        cmds.append({"op": "kin_seq", "T": [D(x) for x in Ts], "A": D(g.nuclide()[0])})
    run.check("T_Physics", cmds, cfg="Trace.cfg")
    K = Keys(run, run.scale(450, 5000), lo=1.5e-3, hi=9e4)
    cmds = []
    for k in K.items:
        th = k["range"] * r.choice([0.0, K.fraction(), K.fraction(), 1.0, 1.01, 1.5])
        m = K.m(k, th)
        T = k["T"]
        cmds.append(seq("magnification", "", [{"op": "wmag", "p": K.p(k), "m": m, "c": k["c"]},
                                              {"op": "eout_v", "p": K.p(k), "T": [D(0.99 * T), D(T), D(1.01 * T)], "m": m, "c": k["c"]}]))
    run.check("T_Transport", cmds, cfg="Trace.cfg")


@check("P31", "exploration", "TLA+ model integrates the moments of the scattering rate over the recorded energies at depth",
       "all scattering models, transmitted and stopped projectiles", (T_NOTE, "moments compared within 1e-5"))
def p31(run):
    r = run.rng
    K = Keys(run, run.scale(350, 4000), lo=1.0, hi=1e5)
    cmds = []
    wants = []
    for k in K.items:
        f = r.choice([r.uniform(0.001, 0.9), r.uniform(0.001, 0.9), 1.5])
        th = k["range"] * f
        m = K.m(k, th)
        cmds.append({"op": "moments", "p": K.p(k), "m": m, "c": k["c"], "x": [D(x) for x in depths(min(th, k["range"]))]})
        wants.append((k, k["T"] * r.uniform(0.1, 0.99)))
    wants = [(k, T2) for k, T2 in wants if T2 > EZERO]
    for (k, T2), R2 in zip(wants, K.energy_at(wants)):
        cmds.append(seq("fromE", "", [{"op": "ang_from_E", "p": K.p(k), "T2": D(T2), "m": K.m(k, 0.0), "c": k["c"]},
                                      {"op": "ang_str", "p": K.p(k), "m": K.m(k, k["range"] - R2), "c": k["c"]}]))
    run.check("T_Transport", cmds, cfg="Trace.cfg")
