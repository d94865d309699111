"""P10, P13: materials and stacks of layers as objects"""
from . import check
from ..gen import *


class Values:
    def __init__(self, run):
        self.g = Gen(run.rng)
        self.r = run.rng

    def constituent(self, weight=None):
        r = self.r
        z = self.g.tz(92)
        a = r.choice([0.0, 0.0, WEIGHT[z], float(round(WEIGHT[z])), -1.0])
        if weight is None:
            weight = r.random() < 0.5
        s = r.choice([0.25, 0.5, 0.999, nexta(1.0, 0), r.random() + 1e-9]) if weight else float(r.choice([1, 1, 2, 3, 12, nexta(1.0, 2), 1 + 5 * r.random()]))
        return a, z, s

    def pos(self):
        return self.r.choice([1.0, self.g.logu(1e-6, 30), self.g.logu(1e-2, 20)])

    def op(self, name, d, others):
        r = self.r
        if name in ("list", "listM", "listW"):
            n = r.randint(1, 6)
            w = [self.constituent(name == "listW") for _ in range(n)]
            if name == "listW":
                t = sum(x[2] for x in w) * r.choice([1, 1, 1.1])
                w = [(a, z, s / t) for a, z, s in w] if n > 1 else w
            elif r.random() < 0.15:
                w = [self.constituent() for _ in range(n)]           # both conventions
            e = [[D(a), z, D(s)] for a, z, s in w]
            return {"op": "m_list", "d": d, "e": e, "rho": D(self.pos()), "I": D(r.choice([0.0, 75.0])), "mm": D(self.pos() * 10 if name == "listM" else 0.0),
                    "form": 3 if name == "listM" else r.randint(0, 3)}
        if name == "elem":
            a, z, s = self.constituent()
            return {"op": "m_elem", "d": d, "a": D(a), "z": z, "rho": D(self.pos()), "th": D(self.pos()), "I": D(r.choice([0.0, 80.0])), "form": r.randint(0, 3)}
        if name in ("add", "addW"):
            a, z, s = self.constituent(name == "addW")
            return {"op": "m_add", "d": d, "a": D(a), "z": z, "stn": D(s)}
        if name == "copy":
            return {"op": "m_copy", "d": d, "a": r.choice(others)}
        if name == "chain":
            return {"op": "m_chain", "d": d, "rho": D(self.pos()), "th": D(self.pos()), "I": D(self.pos())}
        if name in ("calc", "new"):
            return {"op": "m_" + name, "d": d}
        return {"op": "m_" + name, "d": d, "v": D(r.choice([self.pos(), self.pos(), 0.0]) if name in ("th", "cm", "I") else self.pos())}


@check("P13", "model_checking", "TLA+ state machine of material objects checked exhaustively; all its short programs and random long ones replayed on the real class",
       "MaterialModel.tla: all programs of 3 steps over two objects with small value sets; every program of 3 (thorough 4) operations up to symmetry is replayed with random values, "
       "all quantities of all objects compared with Material.tla after every step")
def p13(run):
    run.model("MaterialModel")
    v = Values(run)
    r = run.rng
    sessions = []
    programs = run.generate("GenMaterial", "GenMaterialDeep.cfg" if run.thorough else "GenMaterial.cfg")
    if len(programs) > run.scale(6000, 60000):
        programs = r.sample(programs, run.scale(6000, 60000))
    for pr in programs:
        s = [{"op": "m_reset", "n": 2}]
        for a in pr:
            s.append(v.op(a["op"], a["d"], [1 - a["d"]]))
        sessions.append(s)
    for _ in range(run.scale(120, 2000)):
        n = 3
        s = [{"op": "m_reset", "n": n}]
        size = [0] * n
        for _ in range(12):
            d = r.randrange(n)
            names = ["elem", "list", "listM", "listW", "add", "addW", "add", "M", "rho", "th", "cm", "I", "chain"]
            if size[d]:
                names += ["calc", "calc", "nd", "nd"]
            full = [k for k in range(n) if size[k] and k != d]
            if full:
                names += ["copy"]
            k = r.choice(names)
            if k == "nd":
                s.append({"op": "m_nd", "d": d, "i": r.choice([0, size[d] - 1, size[d], size[d] + 1, r.randint(0, 30)])})
                continue
            c = v.op(k, d, full)
            s.append(c)
            size[d] = len(c["e"]) if k.startswith("list") else 1 if k == "elem" else size[d] + 1 if k.startswith("add") else size[c["a"]] if k == "copy" else size[d]
        sessions.append(s)
    run.check_sessions("T_Material", sessions)


@check("P10", "model_checking", "TLA+ state machine of layer stacks checked exhaustively; all its short programs and random long ones replayed on the real class",
       "LayersModel.tla: all programs of 5 steps over two stacks and two materials; every program of 4 (thorough 5) steps printed by GenLayers.tla is replayed, "
       "all stacks and materials compared after every step")
def p10(run):
    run.model("LayersModel")
    g = Gen(run.rng)
    r = run.rng

    def th():
        return D(0.0 if r.random() < 0.2 else g.logu(1e-4, 5))

    def materials(n):
        return [dict(g.material(), th=th()) for _ in range(n)]
    sessions = []
    programs = run.generate("GenLayers", "GenLayersDeep.cfg" if run.thorough else "GenLayers.cfg")
    if len(programs) > run.scale(6000, 40000):
        programs = r.sample(programs, run.scale(6000, 40000))
    for pr in programs:
        s = [{"op": "l_reset", "n": 2, "ms": materials(1)}]
        for a in pr:
            o = {"op": "l_" + a["op"], "d": a["d"]}
            if a["op"] == "addm":
                o["m"] = a["a"]
            elif a["op"] == "catm":
                o.update(a=a["a"], m=a["b"])
            elif a["op"] == "cat":
                o.update(a=a["a"], b=a["b"])
            elif a["op"] in ("addl", "copy"):
                o["a"] = a["a"]
            elif a["op"] == "addi":
                o["i"] = a["a"]
            elif a["op"] == "setth":
                o.update(i=a["a"], v=th())
            elif a["op"] == "msetth":
                o = {"op": "l_msetth", "m": a["d"], "v": th()}
            s.append(o)
        sessions.append(s)
    for _ in range(run.scale(100, 1500)):
        n, k = 3, 4
        s = [{"op": "l_reset", "n": n, "ms": materials(k)}]
        size = [0] * n
        for _ in range(14):
            d, a, b = (r.randrange(n) for _ in range(3))
            m = r.randrange(k)
            x = r.choice(["addm", "addm", "addl", "cat", "catm", "copy", "msetth", "new"] + (["addi", "setth", "setrho"] * 2 if size[d] else []))
            o = {"op": "l_" + x, "d": d}
            if x == "addm":
                o["m"] = m
                size[d] += 1
            elif x == "addl":
                if size[d] + size[a] > 40:
                    continue
                o["a"] = a
                size[d] += size[a]
            elif x == "cat":
                if size[b] + size[a] > 40:
                    continue
                o.update(a=a, b=b)
                size[d] = size[a] + size[b]
            elif x == "catm":
                o.update(a=a, m=m)
                size[d] = size[a] + 1
            elif x == "copy":
                o["a"] = a
                size[d] = size[a]
            elif x == "new":
                size[d] = 0
            elif x == "addi":
                o["i"] = r.randrange(size[d])
                size[d] += 1
            elif x in ("setth", "setrho"):
                o.update(i=r.randrange(size[d]), v=D(g.logu(1e-3, 5)) if x == "setrho" else th())
            else:
                o = {"op": "l_msetth", "m": m, "v": th()}
            s.append(o)
        sessions.append(s)
    run.check_sessions("T_Layers", sessions)
