"""Random inputs. Every choice is made with the generator of the run."""
import math, os
from .enc import *
from .paths import DATA


def _table(name):
    return [[float(x) for x in l.split()] for l in open(os.path.join(DATA, name)) if l.strip() and not l.startswith("#")]


ELEMENTS = _table("elements.txt")
WEIGHT = {i + 1: r[0] for i, r in enumerate(ELEMENTS)}
DENSITY_EFFECT = _table("density_effect.txt")
DENSITY = {i + 1: r[1] for i, r in enumerate(ELEMENTS)}
COMPOUNDS = {int(r[0]): r for r in _table("materials.txt")}


def nexta(x, to):
    return math.nextafter(x, to)


class Gen:
    def __init__(self, rng):
        self.r = rng

    def logu(self, a, b):
        return math.exp(self.r.uniform(math.log(a), math.log(b)))

    def energy(self, lo=1e-3, hi=1e7, special=()):
        s = [x for x in special if lo <= x <= hi]
        if s and self.r.random() < 0.25:
            x = self.r.choice(s)
            x = self.r.choice([x, x, nexta(x, 0), nexta(x, 1e9), x * 1.001, x * 0.999])
            return min(max(x, lo), hi)
        return self.logu(lo, hi)

    def pz(self, zmax=92):
        r = self.r
        return r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, zmax), r.randint(1, zmax)])

    def mass(self, z):
        """mass of a nuclide of element z"""
        r = self.r
        w = WEIGHT.get(z, 2.5 * z)
        return r.choice([w, float(round(w)), max(1.0, round(w * r.uniform(0.9, 1.1))), max(1.0, w * r.uniform(0.92, 1.08))])

    def nuclide(self, zmax=92):
        z = self.pz(zmax)
        return self.mass(z), z

    def charge(self, z):
        return self.r.choice([0, 0, 0, z, max(1, z - self.r.randint(0, 3)), self.r.randint(1, z)])

    def projectile(self, T=None, zmax=92, charge=True):
        a, z = self.nuclide(zmax)
        return proj(a, z, self.energy() if T is None else T, self.charge(z) if charge else 0)

    def tz(self, zmax=98):
        r = self.r
        return r.choice([1, 2, 4, 6, 7, 8, 13, 14, 29, 32, 79, 82, r.randint(1, zmax), r.randint(1, zmax), r.randint(1, zmax)])

    def target(self, zmax=98):
        z = self.tz(zmax)
        return tgt(self.r.choice([WEIGHT[z], WEIGHT[z], float(round(WEIGHT[z])), WEIGHT[z] * self.r.uniform(.97, 1.03)]), z,
                   self.r.choice([1.0, 1.0, 2.0]))

    def config(self, zeffs=(0, 1, 2, 3, 4, 5), scats=(0, 1, 2, 255), corr=True, plain=0.2):
        r = self.r
        if r.random() < plain:
            return cfg()
        return cfg(r.choice(zeffs), r.choice([0, 0, r.randrange(16)]) if corr else 0, r.choice([0, 1]), r.choice([0, 1]),
                   r.choice(scats), r.choice([1.0, 1.0, r.choice([0.5, 2.0, r.uniform(0.1, 3.0)])]))

    def amounts(self, n):
        """amounts of n constituents: numbers of atoms or weight fractions"""
        r = self.r
        trace = n > 1 and r.random() < 0.25
        if r.random() < 0.5:
            res = [float(r.choice([1, 1, 2, 3, r.randint(1, 12), 1 + r.random() * 5])) for _ in range(n)]
            if trace:
                res[r.randrange(n)] *= float(round(self.logu(100, 1e5)))
            return res
        w = [r.uniform(0.05, 1.0) for _ in range(n)]
        if trace:
            w[r.randrange(n)] *= self.logu(1e-6, 1e-1)
        s = sum(w)
        return [x / s for x in w]

    def composition(self, nmax=4, zmax=92, natural=0.7):
        r = self.r
        n = r.choice([1, 1, 2, r.randint(1, nmax)])
        am = [1.0] if n == 1 and r.random() < .8 else self.amounts(n)
        if n == 1:
            am = [max(1.0, am[0])]
        res = []
        for s in am:
            z = self.tz(zmax)
            res.append((0.0 if r.random() < natural else WEIGHT[z] * r.uniform(0.98, 1.02), z, s))
        return res

    def material(self, nmax=4, zmax=92, th=0.0, ipot=0.2):
        r = self.r
        e = self.composition(nmax, zmax)
        I = r.choice([r.uniform(20.0, 900.0)]) if r.random() < ipot else 0.0
        return mat(e, self.logu(1e-4, 22.0), th, I, None)
