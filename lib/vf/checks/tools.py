"""P25 - P27: calculator, Mocadi export, build options"""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import check
from ..gen import *
from .. import build, enc
from ..paths import NPROC, CheckError
from .transport import soundmat, SOUND_Z, Keys

NUM = r"([-+0-9.eEinfa]+)"


def parse_output(text):
    r = {"refused": True, "message": bool(text.strip()), "names": sorted(set(re.findall(r"(?i)atima\s*v(1\.[34])", text))), "A": D(0), "Z": D(0), "mats": [], "runs": []}
    run = where = None
    for l in text.splitlines():
        m = re.search(r"Projectile:\s*A\s*=\s*%s\s*,\s*Z\s*=\s*%s" % (NUM, NUM), l)
        if m:
            r["A"], r["Z"] = D(float(m.group(1).rstrip(","))), D(float(m.group(2)))
            continue
        m = re.search(r"#\d+.*density\s*=\s*%s.*thickness\s*=\s*%s" % (NUM, NUM), l)
        if m:
            r["mats"].append({"rho": D(float(m.group(1))), "th": D(float(m.group(2)))})
            continue
        m = re.search(r"--\s*T\s*=\s*%s" % NUM, l)
        if m:
            run = {"T": D(float(m.group(1))), "ms": [], "tot": {}}
            r["runs"].append(run)
            r["refused"] = False
            continue
        if run is None:
            continue
        if re.match(r"\s*material\s*#", l):
            where = {}
            run["ms"].append(where)
        elif re.match(r"\s*total", l):
            where = run["tot"]
        else:
            m = re.match(r"\s*([A-Za-z_]+)(?:\([A-Za-z]+\))?\s*=\s*%s" % NUM, l)
            if m and where is not None:
                where[{"dEdx": "dEdx"}.get(m.group(1), m.group(1))] = D(float(m.group(2)))
    return r


class Files:
    """configuration files with their description for the specification"""
    def __init__(self, run):
        self.run = run
        self.r = run.rng
        self.g = Gen(run.rng)

    def number(self, lo, hi):
        return float("%.5g" % self.g.logu(lo, hi))

    def entry(self, shape=None, bad=None):
        r = self.r
        s = shape or {"Z": r.choice(["element", "compound"]), "A": r.choice(["none", "zero", "given"]), "rho": r.choice(["none", "zero", "given"]),
                      "th": r.choice(["given", "given", "none"]), "I": r.choice(["none", "none", "zero", "given"])}
        z = r.randint(1, 92) if s["Z"] == "element" else r.randint(201, 349)
        j, d = {"Z": z}, {"k": "object", "Z": z, "A": [], "rho": [], "th": [], "I": []}
        vals = {"A": WEIGHT.get(z, 10.0) * r.choice([1.0, 1.01]), "rho": self.number(1e-3, 20), "th": self.number(1e-4, 2),
                "I": ELEMENTS[z - 1][2] * r.choice([0.9, 1.1]) if z < 200 else COMPOUNDS[z][3] or 70.0}
        for k, name in (("A", "A"), ("rho", "density"), ("th", "thickness"), ("I", "Ipot")):
            if s[k] != "none":
                v = 0.0 if s[k] == "zero" else vals[k]
                j[name] = v
                d[k] = D(v)
        if bad == "noZ":
            del j["Z"]
            d["k"] = "bad"
        elif bad in ("zeroZ", "negativeZ"):
            j["Z"] = 0 if bad == "zeroZ" else -r.randint(1, 100)
            d["Z"] = j["Z"]
        elif bad == "stringZ":
            j["Z"] = "carbon"
            d["k"] = "bad"
        return j, d

    def file(self, p="array", e="number", m="object", c="", entry=None):
        r = self.r
        j = {}
        a, z = self.g.nuclide(92)
        f = {"valid": True, "proj": {"k": p, "A": D(a), "Z": D(z)}, "en": {"k": e}, "ms": {"k": "bad", "l": []}, "conf": c}
        if p != "missing":
            j["projectile"] = {"array": [a, z], "string": "12C", "object": {"A": a, "Z": z}, "short": [a], "strings": ["a", "b"]}[p]
        E = lambda: self.number(0.5, 2e3)
        if e in ("number", "string"):
            v = E()
            j["energy"] = v if e == "number" else repr(v)
            f["en"]["v"] = D(v)
        elif e == "list":
            l = [E() for _ in range(r.randint(1, 5))]
            if r.random() < 0.3:
                l.insert(r.randrange(len(l) + 1), r.choice(l))           # the same energy twice
            j["energy"] = l
            f["en"]["l"] = [D(x) for x in l]
        elif e in ("step", "num", "num1", "nomax", "nostep"):
            n = r.randint(2, 12)
            step = r.choice([1.0, 0.5, 0.25, 10.0, 12.5, 0.125])          # exactly representable
            lo = float(r.randint(1, 400))
            o = {"min": lo, "max": lo + step * (n - 1)}
            f["en"].update(min=D(lo), max=D(o["max"]))
            if e == "step":
                o["step"] = step
                f["en"]["step"] = D(step)
            elif e == "num":
                o["num"] = n
                f["en"]["num"] = n
                if r.random() < 0.3:
                    o["step"] = step * r.choice([1.0, 2.0, 0.5])          # the number decides
            elif e == "num1":
                o["num"] = r.choice([1, 0, -3])
            elif e == "nomax":
                del o["max"]
                o["num"] = n
            j["energy"] = o
        elif e == "emptylist":
            j["energy"] = []
        elif e == "bool":
            j["energy"] = True
        elif e == "badstring":
            j["energy"] = "fast"
        es = {"object": 1, "list1": 1, "list2": 2, "list3": 3}.get(m, 1)
        bad = m if m in ("noZ", "zeroZ", "negativeZ", "stringZ") else None
        ents = [self.entry(entry, bad) for _ in range(es)]
        if m == "secondbad":
            ents.append(self.entry(None, r.choice(["noZ", "zeroZ", "stringZ"])))
            m = "list2"
        if m in ("object", "noZ", "zeroZ", "negativeZ", "stringZ") and r.random() < (1.0 if m == "object" else 0.5):
            j["material"] = ents[0][0]
            f["ms"] = {"k": "object", "l": [ents[0][1]]}
        elif m == "emptylist":
            j["material"] = []
            f["ms"] = {"k": "list", "l": []}
        elif m == "number":
            j["material"] = 6
        elif m == "nonobject":
            j["material"] = [ents[0][0], 6]
            f["ms"] = {"k": "list", "l": [ents[0][1], {"k": "bad", "Z": 6}]}
        elif m != "missing":
            j["material"] = [x for x, _ in ents]
            f["ms"] = {"k": "list", "l": [d for _, d in ents]}
        if c:
            j["config"] = c
        text = json.dumps(j)
        return text, f

    def broken(self):
        text, f = self.file()
        f["valid"] = False
        k = self.r.randrange(4)
        if k == 0:
            text = text[:self.r.randint(1, len(text) - 1)]
        elif k == 1:
            text = ""
        elif k == 2:
            text = text.replace('"energy":', '"energy"')
        else:
            text = None                                          # no file
        return text, f


def queries(f):
    """library calls for an accepted file"""
    if not f["valid"] or f["proj"]["k"] != "array":
        return []
    en = f["en"]
    if en["k"] in ("number", "string"):
        es = [F(en["v"])]
    elif en["k"] == "list":
        es = [F(x) for x in en["l"]]
    elif en["k"] in ("step", "num"):
        lo, hi = F(en["min"]), F(en["max"])
        n = en["num"] if en["k"] == "num" else 1 + int((hi - lo) / F(en["step"]) + 1e-6)
        es = [lo + i * ((hi - lo) / (n - 1)) if i < n - 1 else hi for i in range(n)] if n >= 2 else []
    else:
        es = []
    ls = []
    for m in f["ms"]["l"]:
        if m["k"] != "object" or m["Z"] <= 0:
            return []
        rho = m["rho"] if m["rho"] and F(m["rho"]) > 0 else []
        th = m["th"] or D(0)
        I = m["I"] if m["I"] and F(m["I"]) > 0 else None
        if m["Z"] > 200:
            x = {"id": m["Z"], "rho": rho, "th": th}
            if I:
                x["I"] = I
        else:
            a = m["A"] or D(0)
            x = {"e": [[a, m["Z"], D(1)]], "rho": rho or D(DENSITY[m["Z"]]), "th": th, "I": I or D(0), "M": []}
        ls.append(x)
    if not ls:
        return []
    c = cfg()
    return [{"op": "layers", "p": [f["proj"]["A"], f["proj"]["Z"], D(0), D(T)], "ls": ls, "c": c} for T in es]


@check("P25", "exploration", "all forms of configuration files enumerated by the TLA+ specification, run with the real calculator and validated against the meaning the specification gives them",
       "GenCalculator.tla prints every combination of forms of the fields (one or more of them wrong included) and of the optional values of a material; values are random; the printed output is "
       "compared with library results to the printed precision",
       ("energy ranges with steps that divide the range exactly; with other steps the documentation does not say where the range ends",
        "the identifiers of materials are those of elements up to 92 and of predefined compounds"))
def p25(run):
    exe = build.calculator()
    fs = Files(run)
    r = run.rng
    shapes = run.generate("GenCalculator")
    jobs = []
    for s in shapes:
        x = s["f"]
        if s["k"] == "file":
            good = x["p"] == "array" and x["e"] in ("number", "string", "list", "step", "num") and x["m"] in ("object", "list1", "list2", "list3")
            for _ in range(run.scale(4 if good else 1, 20 if good else 2)):
                jobs.append((dict(form="file"),) + fs.file(x["p"], x["e"], x["m"], {"other": "fancy"}.get(x["c"], x["c"])))
        else:
            for _ in range(run.scale(2, 15)):
                jobs.append((dict(form="entry"),) + fs.file(e=r.choice(["number", "list"]), entry=x, m=r.choice(["object", "list1", "list2"])))
    for _ in range(run.scale(40, 300)):
        jobs.append((dict(form="broken"),) + fs.broken())
    d = os.path.join(run.dir, "calc")
    os.makedirs(d)

    def one(i):
        info, text, f = jobs[i]
        name = os.path.join(d, "%d.json" % i)
        if text is not None:
            with open(name, "w") as h:
                h.write(text)
        for again in range(2):
            try:
                p = subprocess.run([exe, name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=d)
            except subprocess.TimeoutExpired:
                end = "does not end"
                continue
            if p.returncode >= 0:
                return dict(parse_output(p.stdout.decode(errors="replace")), exit=p.returncode), ""
            end = "ended by signal %d" % -p.returncode
        return None, end
    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(one, range(len(jobs))))
    qs = [queries(f) for _, _, f in jobs]
    answers = run.query([q for l in qs for q in l])
    k = 0
    events = []
    for (info, text, f), (o, rc), l in zip(jobs, outs, qs):
        if o is None:
            run.violation("T_Calculator", ["the program " + rc], [text], {"op": "calculator", "text": text}, None)
        rs = answers[k:k + len(l)]
        k += len(l)
        events.append(enc.line({"op": "calculator", "form": info["form"], "text": text or "", "file": f, "r": o, "q": [dict(q, r=a) for q, a in zip(l, rs)]}))
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=d)
    events.append(enc.line({"op": "usage", "r": {"exit": p.returncode, "words": [w for w in ("calculator", "config_file") if w in p.stdout.decode(errors="replace")]}}))
    run.check_events("T_Calculator", run.shards(events), cfg="Trace.cfg")


def parse_mocadi(text):
    nums = lambda s: [D(float(x)) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf", s)]
    head, _, rest = text.partition("BEAM")
    rest, e, end = rest.partition("ERWARTUNGSWERTE")
    parts = rest.split("MATTER")
    return {"begin": "atima" in head, "end": bool(e) and "SAVE" in end and "END" in end, "beam": nums(parts[0]), "mats": [nums(x) for x in parts[1:]]}


@check("P26", "exploration", "exported files read back as traces and validated with TLC against the beam and stack they describe",
       "every element and every predefined compound is exported, alone and inside of random stacks; beams and spreads random over the written range",
       ("a compound which is not in the database has no identifier in the format; for it only density and length are claimed",))
def p26(run):
    g = Gen(run.rng)
    r = run.rng
    cmds = []

    def ps():
        return [D(g.logu(1e-4, 10) * r.choice([1, 0])), D(g.logu(1e-4, 1) * r.choice([1, 0])), D(0)]

    def layer():
        k = r.random()
        th = g.logu(1e-4, 1e3) if r.random() < 0.9 else 0.0
        if k < 0.35:
            return {"id": r.randint(1, 98), "rho": r.choice([[], D(g.logu(1e-3, 25))]), "th": D(th)}
        if k < 0.75:
            return {"id": r.choice(sorted(COMPOUNDS)), "rho": r.choice([[], [], D(g.logu(1e-3, 25))]), "th": D(th)}
        return dict(soundmat(g), th=D(th))

    def altered(i):
        """compound i written out, with one quantity of one constituent or the density changed"""
        row = COMPOUNDS[i]
        e = [(row[q], int(row[q + 1]), row[q + 2]) for q in range(4, len(row), 3)]
        k = r.randrange(len(e))
        a, z, s = e[k]
        what = r.choice(["Z", "Z", "A", "stn", "rho", "order", "less", ""])
        rho = row[1]
        if what == "Z":
            z += r.choice([-1, 1]) if z > 1 else 1
        elif what == "A":
            a *= 1 + r.choice([1e-3, -1e-3, 1e-6])
        elif what == "stn":
            s *= 1 + r.choice([1e-2, 1e-5])
        elif what == "rho":
            rho *= r.choice([1.1, 1.001])
        e[k] = (a, z, s)
        if what == "order":
            e.reverse()
        if what == "less" and len(e) > 2:
            e.pop()
        return mat(e, rho, g.logu(1e-3, 100))

    def export(ls):
        a, z = g.nuclide(100)
        form = r.randrange(3)
        return {"op": "mocadi", "file": "m%d.in" % len(cmds), "form": form, "p": proj(a, z, g.energy(1e-2, 1e6)), "ls": ls, "x": ps(), "y": ps(), "possible": True}
    for i in list(range(1, 99)) + sorted(COMPOUNDS):
        for _ in range(run.scale(1, 5)):
            m = {"id": i, "rho": [], "th": D(g.logu(1e-3, 100))}
            cmds.append(export([m]))
            cmds.append({"op": "db_id", "m": m})
    for i in sorted(COMPOUNDS):
        for _ in range(run.scale(2, 10)):
            m = altered(i)
            cmds.append({"op": "db_id", "m": m})
            cmds.append(export([m]))
    for _ in range(run.scale(400, 6000)):
        cmds.append(export([layer() for _ in range(r.randint(0, 6))]))
    for _ in range(3):
        cmds.append(dict(export([layer()]), file="missing/x.in", possible=False))
    events = []
    for lines in run.execute(run.shards(cmds)):
        for l in lines:
            e = json.loads(l)
            if e["op"] == "mocadi":
                e["r"] = dict(parse_mocadi(e["r"]["text"]), ok=e["r"]["ok"])
            events.append(enc.line(e))
    run.check_events("T_Mocadi", run.shards(events), cfg="Trace.cfg")


@check("P27", "exploration", "the same generated calls executed by builds with different options and the joint trace validated with TLC against the relation between the builds",
       "quick: the build with all options against each option disabled alone and all disabled; thorough: all sixteen builds",
       ("the option which adds GLOBAL needs sources that are not in the repository",
        "below a relative energy loss of 1e-6 the difference of two variances has no accuracy and is not compared with the approximation"))
def p27(run):
    every = build.OPTIONS
    variants = [frozenset(o for i, o in enumerate(every) if k >> i & 1) for k in range(15, -1, -1)]
    if not run.thorough:
        variants = [v for v in variants if len(v) in (4, 3, 0)]
    K = Keys(run, run.scale(300, 2500), zeffs=SOUND_Z)
    r = run.rng
    g = K.g
    cmds = []
    for k in K.items:
        k["T"] = max(k["T"], 1.0001e-3)         # at the lowest energy itself the rounding of the grid decides
        base = {"p": K.p(k), "c": k["c"]}
        th = K.fraction() * k["range"]
        if r.random() < 0.4:
            th = k["T"] * k["a"] / max(k["dedx"], 1e-9) * g.logu(1e-6, 2e-3)      # around the limit of the approximation
        cmds.append(dict(base, op="calc", m=K.m(k, th)))
        if r.random() < 0.5:
            ls = [K.m(k, th / 3)]
            for _ in range(r.randint(0, 2)):
                ls.append(dict(soundmat(g), th=D(g.logu(1e-5, 1) * th)))
            r.shuffle(ls)
            cmds.append(dict(base, op="layers", ls=ls))
        m = K.m(k, th)
        ops = [{"op": o, "p": base["p"], "m": m, "c": k["c"]} for o in ("range", "dedx_r", "eout", "ang_str")]
        To = k["T"] * r.choice([r.random(), 0.9995, 0.99])
        if To > 1e-2:
            ops += [{"op": o, "p": base["p"], "m": m, "c": k["c"], "T2": D(To)} for o in ("en_from_E", "ang_from_E", "tof_E")]
        cmds.append({"op": "seq", "rel": "", "why": "", "cmds": ops})
    from ..build import harness
    for v in variants:
        harness(v)
    variants = [(v, ()) for v in variants]
    try:
        harness(build.DEFAULT, ("-DVETABLE",))      # the energy grid as a function instead of an array, a macro only
        variants.append((build.DEFAULT, ("-DVETABLE",)))
    except CheckError:
        run.extra["not built"] = "VETABLE"
    groups = run.shards(cmds)
    joint = None
    for v, flags in variants:
        out = [[json.loads(l)["r"] for l in lines] for lines in run.execute(groups, options=v, extra=flags)]
        if joint is None:
            joint = [[dict(c, v=[]) for c in grp] for grp in groups]
        for js, rs in zip(joint, out):
            for j, x in zip(js, rs):
                j["v"].append({"o": sorted(v) + ["VETABLE"] * len(flags), "r": x})
    run.extra["builds"] = [sorted(v) + list(flags) for v, flags in variants]
    run.check_events("T_Options", [[enc.line(j) for j in js] for js in joint], cfg="Trace.cfg")


@check("P34", "exploration", "tables regenerated by the generator program, compiled into the library and all look-ups validated with TLC against the function the generator was given",
       "the direct calculation is replaced by a simple function of mass, charge and energy, the generator writes the complete file, the library is built with it and every entry is read back",
       ("the direct calculation itself takes an hour for the whole table; it is compared with the shipped table by P29",))
def p34(run):
    r = run.rng
    exe = build.generator()
    build.harness()
    d = os.path.join(run.dir, "generator")
    os.makedirs(d)
    try:
        p = subprocess.run([exe], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired:
        raise CheckError("the generator does not end; is the direct calculation replaced?")
    out = os.listdir(d)
    if p.returncode or out != ["generated_LS_coeff.h"]:
        run.violation("T_Generator", ["the generator wrote %s, exit %s" % (out, p.returncode)], [], {"op": "generator"}, None)
    with open(d + "/generated_LS_coeff.h", "rb") as f:
        flags = build.with_tables(f.read())
    try:
        build.harness(extra=flags)
    except CheckError as e:
        run.violation("T_Generator", ["the library does not build with the regenerated tables", str(e)[-1000:]], [], {"op": "generator"}, None)
    node = [math.exp(math.log(10.0) * i * 7.0 / 199.0) for i in range(200)]
    node[199] *= 1 - 1e-12                      # inside of the table, however its end is rounded
    cmds = []
    for z in range(1, 109):
        for op in ("ls_nodes", "lsx_nodes"):
            for f in [1.0, 1.05] + [r.uniform(0.9, 1.1) for _ in range(run.scale(1, 10))]:
                cmds.append({"op": op, "A": D(WEIGHT[z] * f), "Z": z, "T": [D(x) for x in node]})
    groups = run.shards(cmds)
    run.check_events("T_Generator", run.execute(groups, extra=flags), cfg="Trace.cfg")
