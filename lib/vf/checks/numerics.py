"""P23, P24: grids, interpolation and quadrature"""
import bisect
from . import check
from ..gen import *
from .. import build

SIZES = (3, 5, 8, 20, 100, 600)
GL = (3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 32, 64, 128)
GK = (7, 15, 21, 31, 61)


def grid_spec(r):
    k = r.choice([0, 0, 1, 2])
    if k == 2:
        lo = r.choice([0.0, 1.0, r.uniform(-50, 50)])
        return k, lo, lo + r.choice([1.0, 10.0, r.uniform(0.1, 1e4)])
    lo = r.choice([-3.0, 0.0, r.uniform(-4, 3)])
    return k, lo, r.choice([7.0, lo + 1, lo + r.uniform(0.5, 9)]) if lo < 5 else lo + 2


def around(r, v, g):
    """values at, next to, between and outside of the grid points v"""
    out = []
    for _ in range(12):
        i = r.choice([0, 1, len(v) - 2, len(v) - 1, r.randrange(len(v)), r.randrange(len(v))])
        x = v[i]
        c = r.randrange(9)
        if c == 0:
            x = nexta(x, -math.inf)
        elif c == 1:
            x = nexta(x, math.inf)
        elif c == 2:
            x *= 1 + r.choice([-1, 1]) * g.logu(1e-15, 1e-6)
        elif c == 3 and i + 1 < len(v):
            x += (v[i + 1] - x) * r.random()
        elif c == 4:
            x = v[0] - abs(v[0]) * r.choice([1e-9, 0.1, 0.5])
        elif c == 5:
            x = v[-1] + abs(v[-1]) * r.choice([1e-12, 1e-3, 0.5])
        out.append(x)
    return out


@check("P23", "exploration", "grid searches and interpolations of the real code validated event by event against a TLA+ specification of grid, linear interpolation and cubic spline",
       "Numerics.tla solves the spline equations itself; energies at, one rounding step beside, between and outside of grid points of all kinds of grids; both ways to find the index are built and run")
def p23(run):
    g = Gen(run.rng)
    r = run.rng
    specs = []
    for n in SIZES:
        for _ in range(run.scale(6, 40)):
            specs.append((n,) + grid_spec(r))
        specs.append((n, 0, -3.0, 7.0))
    vals = [[F(x) for x in q["v"]] for q in run.query([{"op": "grid_vals", "N": n, "k": k, "lo": D(lo), "hi": D(hi)} for n, k, lo, hi in specs])]
    lib = [F(x) for x in run.query([{"op": "lib_grid_vals"}])[0]["v"]]
    searched = frozenset(build.DEFAULT - {"ET_CALCULATED_INDEX"})
    cmds = []
    for (n, k, lo, hi), v in zip(specs, vals):
        cmds.append({"op": "grid_vals", "N": n, "k": k, "lo": D(lo), "hi": D(hi)})
        for _ in range(run.scale(4, 30)):
            cmds.append({"op": "grid", "N": n, "k": k, "lo": D(lo), "hi": D(hi), "x": [D(x) for x in around(r, v, g)]})
    for i in range(0, 600, run.scale(6, 1)):
        xs = [lib[i], nexta(lib[i], 0), nexta(lib[i], 1e9), lib[i] * (1 - 1e-14), lib[i] * (1 + 1e-14), lib[i] * 1.01]
        cmds.append({"op": "lib_grid", "x": [D(x) for x in xs]})
    run.check("T_Numerics", cmds, name="grid", cfg="Trace.cfg")
    run.check("T_Numerics", [c for c in cmds if c["op"] != "grid_vals"], name="grid searched", options=searched, cfg="Trace.cfg")
    cmds = []
    for (n, k, lo, hi), v in zip(specs, vals):
        if n > 100 and not run.thorough:
            continue
        for _ in range(run.scale(4, 20)):
            shape = r.randrange(5)
            if shape == 0:
                y = [r.uniform(-1, 1) for _ in v]
            elif shape == 1:
                y = [math.sqrt(abs(x)) for x in v]
            elif shape == 2:
                a, b = r.uniform(-3, 3), r.uniform(-2, 2)
                y = [a + b * (x - v[0]) / (v[-1] - v[0]) for x in v]     # straight line
            elif shape == 3:
                j = r.randrange(n)
                y = [1.0 if i == j else 0.0 for i in range(n)]
            else:
                y = [math.sin(3.0 * i / n) * 10 ** r.uniform(-1, 1) for i in range(n)]
            xs = [D(x) for x in around(r, v, g)]
            cmds.append({"op": "spline", "N": n, "k": k, "lo": D(lo), "hi": D(hi), "y": [D(x) for x in y], "nat": r.choice([1, 1, 0]), "x": xs})
            if k == 0:
                cmds.append({"op": "interp", "N": n, "lo": D(lo), "hi": D(hi), "y": [D(x) for x in y], "x": xs})
    run.check("T_Numerics", cmds, name="interpolation", cfg="Trace.cfg")
    cmds = []
    for n in [n for n in SIZES if n <= 20]:
        for _ in range(run.scale(40, 400)):
            a, c, b = ([r.uniform(-1, 1) for _ in range(n)] for _ in range(3))
            a[0] = c[n - 1] = 0.0
            d = [(abs(a[i]) + abs(c[i]) + r.uniform(0.1, 2)) * r.choice([-1, 1]) for i in range(n)]
            zero = r.choice(["no", "no", "first", "later"])
            if zero == "first":
                d[0] = 0.0
            elif zero == "later":
                j = r.randrange(1, n)
                d[:j + 1], a[1:j + 1], c[:j] = [1.0] * (j + 1), [0.0] * (j - 1) + [1.0], [0.0] * (j - 1) + [1.0]
            cmds.append(dict({"op": "tridiag", "N": n, "row": r.randrange(n)}, **{k: [D(x) for x in v] for k, v in zip("adcb", (a, d, c, b))}))
    run.check("T_Numerics", cmds, name="tridiagonal", cfg="Trace.cfg")
    run.check("T_Numerics", cmds[::3], name="interpolation searched", options=searched, cfg="Trace.cfg")


def integrand(r, g, lo, hi, deg=None, smooth=False):
    mid, w = 0.5 * (lo + hi), abs(hi - lo)
    k = 0 if deg is not None else r.choice([0, 1, 2, 3])
    if k == 0:
        n = deg if deg is not None else r.randint(0, 8)
        s = 2.0 / w if w else 1.0
        c = [r.uniform(-2, 2) * s ** i for i in range(n + 1)]
        if deg is not None and r.random() < 0.5:
            c = [0.0] * n + [s ** n]                    # a single power
        return {"k": 0, "a": [D(mid)] + [D(x) for x in c]}
    if k == 1:
        b = r.uniform(-4, 4) / w
        b = max(-1.0, min(1.0, b * max(1.0, abs(mid)) / 50)) * 50 / max(1.0, abs(mid))       # no overflow far from the origin
        return {"k": 1, "a": [D(r.uniform(.5, 2)), D(b)]}
    if k == 2:
        return {"k": 2, "a": [D(r.uniform(.5, 5)), D(mid + w * r.uniform(-.5, .5)), D(w * r.uniform(.1 if smooth else .05, 1.0))]}
    return {"k": 3, "a": [D(r.uniform(.5, 2)), D(min(lo, hi) - w * r.uniform(.2, 2))]}


def interval(r, deg=0):
    """of a width whose powers up to the degree can be represented"""
    while True:
        lo, hi = any_interval(r)
        if abs(math.log10(2.0 / (hi - lo))) * deg < 100:
            return lo, hi


def any_interval(r):
    lo = r.choice([-1.0, 0.0, 1.0, r.uniform(-100, 100)])
    return lo, lo + r.choice([2.0, 1.0, r.uniform(0.01, 50), 10 ** r.uniform(-3, 3)])


@check("P24", "exploration", "integrals computed by the real rules validated against rules and antiderivatives computed in the TLA+ specification",
       "Quadrature.tla derives points and weights of every order from the Legendre polynomials; polynomials up to the nominal degree, exponentials, peaks and reciprocals on random intervals, all orders")
def p24(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []
    for n in GL:
        degs = list(range(0, 2 * n)) if n <= 20 else sorted({0, 1, 2 * n - 1, 2 * n - 2} | {r.randrange(2 * n) for _ in range(12)})
        for d in degs * run.scale(1, 6):
            lo, hi = interval(r, d)
            if r.random() < 0.2:
                lo, hi = hi, lo
            cmds.append({"op": "gl", "n": n, "lo": D(lo), "hi": D(hi), "f": integrand(r, g, lo, hi, d)})
            if n == 8:
                cmds.append({"op": "gl_lib", "lo": D(lo), "hi": D(hi), "f": integrand(r, g, lo, hi, d)})
        for _ in range(run.scale(6, 60)):
            lo, hi = interval(r)
            if r.random() < 0.3:
                lo, hi = hi, lo
            cmds.append({"op": "gl", "n": n, "lo": D(lo), "hi": D(hi), "f": integrand(r, g, lo, hi)})
            cmds.append({"op": "gl_points", "n": n, "lo": D(lo), "hi": D(hi)})
            lo2, hi2 = interval(r)
            if n <= 32:
                cmds.append({"op": "gl2", "n": n, "lo": D(lo), "hi": D(hi), "lo2": D(lo2), "hi2": D(hi2), "f": integrand(r, g, lo, hi), "h": integrand(r, g, lo2, hi2)})
    for n, k in ((4, 8), (8, 4), (3, 8), (8, 3), (5, 7), (6, 16)):
        for _ in range(run.scale(5, 40)):
            lo, hi = interval(r)
            lo2, hi2 = interval(r)
            cmds.append({"op": "gl2a", "n": n, "k": k, "lo": D(lo), "hi": D(hi), "lo2": D(lo2), "hi2": D(hi2), "f": integrand(r, g, lo, hi), "h": integrand(r, g, lo2, hi2)})
    for n in GK:
        for d in list(range(0, 3 * ((n - 1) // 2) + 2)) * run.scale(1, 6) + [None] * run.scale(30, 300):
            lo, hi = interval(r, d or 0)
            if r.random() < 0.1:
                lo, hi = hi, lo
            cut = sorted([lo, hi] + [r.uniform(lo, hi) for _ in range(r.randint(0, 3))])
            f = integrand(r, g, lo, hi, d)
            eps, reps = r.choice([(1e-3, 1e-6), (1e-6, 1e-9), (1e-9, 1e-9), (1e-9, 1e-3)])
            cmds.append({"op": "gk", "n": n, "lo": D(lo), "hi": D(hi), "f": f, "eps": D(eps), "reps": D(reps), "parts": r.choice([1, 1, 2, 5]), "cut": [D(x) for x in cut]})
            if d is None:
                cmds.append({"op": "gk_points", "n": n, "lo": D(lo), "hi": D(hi)})
                if lo < hi:
                    cmds.append({"op": "gk_lib", "lo": D(lo), "hi": D(hi), "f": f, "eps": D(eps), "reps": D(reps)})
        for _ in range(run.scale(20, 200)):             # peaks which take several divisions
            lo, hi = interval(r)
            b = (hi - lo) * g.logu(1e-3, 5e-2)
            f = {"k": 2, "a": [D(r.uniform(.5, 5) / b), D(r.uniform(lo, hi)), D(b)]}
            eps, reps = r.choice([(1e-6, 1e-9), (1e-9, 1e-9), (1e-9, 1e-6)])
            cmds.append({"op": "gk", "n": n, "lo": D(lo), "hi": D(hi), "f": f, "eps": D(eps), "reps": D(reps), "parts": r.choice([1, 2, 5]),
                         "cut": [D(x) for x in sorted([lo, hi] + [r.uniform(lo, hi) for _ in range(r.randint(0, 3))])]})
            cmds.append({"op": "gk_lib", "lo": D(lo), "hi": D(hi), "f": f, "eps": D(eps), "reps": D(reps)})
        for _ in range(run.scale(25, 250)):             # many intervals share an absolute tolerance
            lo, hi = interval(r)
            k = r.randint(8, 40)
            b = (hi - lo) / k * g.logu(0.1, 0.5)
            f = {"k": 2, "a": [D(r.uniform(.5, 5) / b), D(r.uniform(lo, hi)), D(b)]}
            cmds.append({"op": "gk", "n": n, "lo": D(lo), "hi": D(hi), "f": f, "eps": D(r.choice([1e-3, 1e-4])), "reps": D(0), "parts": k,
                         "cut": [D(lo + (hi - lo) * i / k) for i in range(k)] + [D(hi)]})
    r.shuffle(cmds)
    run.check("T_Quadrature", cmds, cfg="Trace.cfg")


@check("P33", "exploration", "recorded values of the complex functions validated with TLC against independent series and functional equations in the TLA+ specification",
       "Complex.tla computes log gamma by the asymptotic series and the hypergeometric function by its series; recurrence, conjugation and Kummer's transformation are checked on recorded values; "
       "real, imaginary, negative and large arguments",
       ("log gamma to 1e-8, the hypergeometric function to 2e-5: the sum is ended at terms of 1e-6",))
def p33(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []

    def gamma(x, y):
        if x <= 0 and math.hypot(x - round(x), y) < 1e-3:
            return
        cmds.append({"op": "lngamma", "z": [D(x), D(y)]})
    for n in range(1, 60):
        gamma(n, 0.0)
        gamma(n - 0.5, 0.0)
        gamma(-n + 0.5, 0.0)
        gamma(-n, g.logu(1e-2, 30))
        gamma(0.0, r.choice([1, -1]) * g.logu(1e-2, 100))
    for _ in range(run.scale(2500, 30000)):
        y = r.choice([0.0, r.uniform(-3, 3), r.uniform(-60, 60), g.logu(1e-6, 1)])
        gamma(r.choice([r.uniform(0, 3), r.uniform(0, 100), g.logu(1e-6, 1e4), r.uniform(-30, 0), -g.logu(1e-6, 1)]), y)
    for _ in range(run.scale(2500, 30000)):
        # ranges of the partial wave sums: b = 2 s + 1 with s > 0 or its reflection, z imaginary
        a = [D(r.uniform(0.1, 30)), D(r.uniform(-8, 8))]
        b = [D(r.uniform(0.3, 60)), D(0.0)]
        lo = 1e-4
        if r.random() < 0.2:
            b = [D(-r.randint(0, 2) - r.uniform(0.1, 0.9)), D(0.0)]      # further left the terms grow again after having been small
            lo = 0.5
        z = [D(r.choice([0.0, 0.0, r.uniform(-2, 2)])), D(r.choice([-1, 1]) * g.logu(lo, 6))]
        cmds.append({"op": "hyperg", "a": a, "b": b, "z": z})
    for _ in range(run.scale(500, 6000)):
        # many terms: the nuclear radius at the highest energies
        a = [D(r.uniform(0.1, 30)), D(r.uniform(-8, 8))]
        b = [D(r.uniform(0.3, 60)), D(0.0)]
        z = r.choice([[0.0, r.choice([-1, 1]) * g.logu(6, 40)], [r.uniform(-3, 40), r.uniform(-5, 5)]])
        cmds.append({"op": "hyperg", "a": a, "b": b, "z": [D(x) for x in z]})
    run.check("T_Special", cmds, cfg="Trace.cfg")
