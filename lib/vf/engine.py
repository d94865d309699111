"""One run of the check of a property: executes commands with the library,
checks the recorded events with TLC, writes the evidence file."""
import hashlib, json, os, random, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, enc, tlc
from .paths import *

HARNESS_ERROR = 3


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


class Died(Exception):
    def __init__(self, cmds, why):
        Exception.__init__(self, why)
        self.cmds = cmds
        self.why = why


def nontrivial(r):
    if isinstance(r, dict):
        return any(nontrivial(v) for v in r.values())
    if isinstance(r, list):
        if len(r) == 2 and all(type(x) is int for x in r):
            return enc.F(r) not in (0.0, 1.0, -1.0)
        return any(nontrivial(v) for v in r)
    return isinstance(r, str) and r != ""


# multiples of the basic number of inputs for checks which need little time
MORE = {"P07": 3, "P08": 3, "P09": 3, "P11": 2, "P12": 2, "P14": 4, "P15": 4, "P16": 5, "P17": 5, "P18": 5, "P19": 3, "P20": 2, "P26": 2, "P28": 3, "P30": 2, "P31": 3, "P33": 4}


class Run:
    def __init__(self, prop, level, tier=None, seed=None):
        self.prop = prop
        self.level = level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tlc.rundir()
        self.models = []
        self.events = 0
        self.sessions = 0
        self.states = 0
        self.transitions = 0
        self.distinct = set()
        self.labels = {}
        self.suites = {}
        self.samples = []
        self.assumptions = []
        self.rule = "distinct commands whose recorded result holds a value other than 0, 1 and -1"
        self.extra = {}
        self.serial = 0

    def scale(self, quick, thorough=None):
        if self.thorough:
            return thorough if thorough is not None else quick * 10
        return quick * MORE.get(self.prop, 1)

    # ---------------------------------------------------------------- models
    def model(self, module, cfg=None, **kw):
        m = tlc.model(module, cfg, **kw)
        self.models.append(m)
        self.states += m["states"]
        self.transitions += m["transitions"]
        return m

    def generate(self, module, cfg=None, tag="BEHAVIOUR", **kw):
        """behaviours which the specification prints as JSON"""
        rc, out, wall = tlc.run(module, cfg or module + ".cfg", mem=3072, **kw)
        if "Error:" in out and "Model checking completed. No error" not in out:
            raise CheckError("generation %s failed rc=%d:\n%s" % (module, rc, tlc.clean(out)[-3000:]))
        gen, dist = tlc.stats(out)
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "states": dist, "transitions": gen, "wall_s": round(wall, 2)})
        self.states += dist
        self.transitions += gen
        res = []
        for l in out.splitlines():
            if l.startswith('<<"%s", "' % tag):
                s = l[len('<<"%s", ' % tag):-2]
                res.append(json.loads(json.loads(s)))
        if not res:
            raise CheckError("no behaviour generated by %s:\n%s" % (module, tlc.clean(out)[-3000:]))
        return res

    # -------------------------------------------------------------- execution
    def harness(self, options=build.DEFAULT, extra=()):
        return build.harness(options, extra)

    def _exec(self, binary, cmds, args=(), timeout=300, env=None):
        data = "\n".join(enc.line(c) for c in cmds) + "\n"
        try:
            r = subprocess.run([binary] + list(args), input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, cwd=self.dir, env=dict(os.environ, **env) if env else None)
            rc, out, err = r.returncode, r.stdout, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, out, err = "timeout", e.stdout or b"", ""
        lines = out.decode(errors="replace").split("\n")
        lines = [l for l in lines if l]
        if rc == 0 and len(lines) == len(cmds):
            return lines
        if rc == HARNESS_ERROR:
            raise CheckError("harness: " + err[-2000:])
        n = len(lines)
        raise Died(cmds[:n + 1], "execution ended (%s) in %s" % (rc, enc.line(cmds[min(n, len(cmds) - 1)])))

    def execute(self, groups, fresh=False, sessions=False, options=build.DEFAULT, timeout=None, extra=(), env=None):
        """groups: lists of commands executed by one process each, in order; returns lists of event lines"""
        binary = self.harness(options, extra)
        timeout = timeout or self.scale(250, 400)
        args = ["--fresh"] if fresh else ["--sessions"] if sessions else []
        with ThreadPoolExecutor(NPROC) as ex:
            fut = [ex.submit(self._exec, binary, g, args, timeout, env) for g in groups]
            res = []
            for g, f in zip(groups, fut):
                try:
                    res.append(f.result())
                except Died as d:
                    try:
                        self._exec(binary, d.cmds, args, timeout, env)
                    except Died as again:
                        self.violation("the program does not return", again.why, d.cmds, None, None)
                    raise CheckError("not repeatable: " + d.why)
        return res

    def query(self, cmds, options=build.DEFAULT):
        """answers of the library, used to place inputs at interesting values"""
        res = []
        for lines in self.execute(self.shards(cmds), options=options):
            res += [json.loads(l)["r"] for l in lines]
        return res

    # --------------------------------------------------------------- checking
    def _possible(self, cmds, options):
        """commands for operations which the library still has; functions that are not part of its
        documented interface may be renamed or change their arguments"""
        ops = set(subprocess.run([self.harness(options), "--ops"], stdout=subprocess.PIPE, check=True).stdout.decode().split())
        missing = set()

        def known(c):
            sub = c.get("cmds", ())
            if c["op"] not in ops:
                missing.add(c["op"])
            return c["op"] in ops and all([known(x) for x in sub])
        res = [c for c in cmds if known(c)]
        if missing:
            sys.stderr.write("operations without counterpart in the library: %s\n" % " ".join(sorted(missing)))
            self.extra["operations not in the library"] = sorted(missing)
        return res

    def shards(self, cmds, n=NPROC):
        k = max(1, min(n, (len(cmds) + 49) // 50))
        size = (len(cmds) + k - 1) // k
        return [cmds[i * size:(i + 1) * size] for i in range(k) if cmds[i * size:(i + 1) * size]]

    def check(self, module, cmds, name=None, fresh=False, options=build.DEFAULT, env=None, cfg=None, timeout=800):
        """stateless commands: every event is a step of the specification by itself"""
        groups = self.shards(self._possible(cmds, options))
        if not groups:
            return
        self._check(module, groups, name or module, dict(fresh=fresh, options=options), env, cfg, False, timeout)

    def check_sessions(self, module, sessions, name=None, options=build.DEFAULT, env=None, cfg=None, timeout=800, shards=NPROC):
        """every session starts in a new process and the specification in its initial state"""
        k = max(1, min(shards, len(sessions)))
        groups = [[] for _ in range(k)]
        for i, s in enumerate(sessions):
            g = min(groups, key=len)
            g += [{"op": "begin"}] + list(s)
        self.sessions += len(sessions)
        self._check(module, groups, name or module, dict(sessions=True, options=options), env, cfg, True, timeout)

    def known(self, key, module, cmds, cfg=None):
        """a violation listed in known-findings.txt, which is reported and nothing else"""
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            text = [l.split(" ", 2)[2].strip() for l in f if l.startswith("known: property=%s %s" % (self.prop, key))]
        ev = self.execute([cmds])[0]
        r = tlc.trace(module, [self._write(ev)], cfg=cfg)[0]
        self._account(module, ev, r)
        if not r["ok"]:
            if not text:
                self.violation(module, r["clause"], cmds, json.loads(ev[r["index"] - 1]), cfg)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text[0]))

    def _write(self, lines):
        self.serial += 1
        f = os.path.join(self.dir, "trace%d.ndjson" % self.serial)
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        return f

    def check_events(self, module, groups, name=None, env=None, cfg=None, timeout=800):
        """events recorded in another way; lists of JSON lines"""
        files = [self._write(g) for g in groups]
        rs = tlc.trace(module, files, cfg=cfg, env=env, timeout=timeout)
        for g, r in zip(groups, rs):
            self._account(name or module, g, r)
        self._fails(groups, rs)
        for g, r in zip(groups, rs):
            if not r["ok"]:
                e = json.loads(g[r["index"] - 1])
                self.violation(module, r["clause"], g[max(0, r["index"] - 50):r["index"]], e, cfg)

    def _fails(self, events, rs):
        """with VERIF_ALL: the clauses which do not hold, for development"""
        if os.environ.get("VERIF_ALL"):
            for e, r in zip(events, rs):
                for c, i in r["fails"]:
                    print("FAIL", c, json.dumps(enc.human(json.loads(e[int(i) - 1])))[:1500])

    def _account(self, name, lines, r):
        n = r["events"] if r["ok"] else r["index"] - 1
        self.events += n
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.labels.setdefault(name, set()).update(r["labels"])
        s = self.suites.setdefault(name, {"events": 0, "tlc_s": 0.0})
        s["events"] += n
        s["tlc_s"] = round(max(s["tlc_s"], r["wall_s"]), 2)
        for i, l in enumerate(lines[:n]):
            e = json.loads(l)
            k = "r" if "r" in e else "v"      # joint results of several builds are in v
            if nontrivial(e.get(k)):
                c = dict(e)
                c.pop(k)
                self.distinct.add(hashlib.sha1(enc.line(c).encode()).digest()[:10])
            if i in (0, n // 2) and len(self.samples) < 6:
                self.samples.append(enc.human(e) if len(l) < 3000 else {"op": e.get("op"), "bytes": len(l)})

    def _check(self, module, groups, name, how, env, cfg, stateful, timeout):
        events = self.execute(groups, **how)
        files = [self._write(e) for e in events]
        rs = tlc.trace(module, files, cfg=cfg, env=env, timeout=timeout)
        for e, r in zip(events, rs):
            self._account(name, e, r)
        self._fails(events, rs)
        for g, e, r in zip(groups, events, rs):
            if not r["ok"]:
                i = r["index"] - 1
                if stateful:
                    first = max([k for k in range(i + 1) if g[k]["op"] == "begin"])
                    attempts = [g[first:i + 1], g[:i + 1]]
                else:
                    attempts = [[g[i]], g[:i + 1]]
                for a in attempts:
                    ev = self.execute([a], **how)[0]
                    r2 = tlc.trace(module, [self._write(ev)], cfg=cfg, env=env, timeout=timeout)[0]
                    if not r2["ok"]:
                        k = r2["index"] - 1
                        self.violation(module, r2["clause"], a[:k + 1], json.loads(ev[k]), cfg)
                raise CheckError("rejection of event %d not repeatable: %s %s" % (i, r["clause"], e[i][:500]))

    def violation(self, module, clause, cmds, event, cfg):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "specification": module, "configuration": cfg, "clauses": clause,
                       "event": enc.human(event), "commands": cmds,
                       "how": "feed the commands, one per line, to the harness built by /verif/lib/vf/build.py (--sessions when there is a begin) and check the output with the specification"}, f, indent=1)
        raise Violation("%s %s" % (module, clause), path)

    # --------------------------------------------------------------- evidence
    def evidence(self, violations=0):
        cov = {"samples": self.samples,
               "suites": self.suites,
               "cases": {k: sorted(v) for k, v in self.labels.items()},
               "models": self.models}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.sessions if self.sessions else self.events,
                       events_validated=self.events, distinct_nontrivial=len(self.distinct))
        else:
            cov.update(evaluations=self.events, distinct_nontrivial=len(self.distinct), rule=self.rule,
                       states=self.states, transitions=self.transitions)
        cov.update(self.extra)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "violations": violations, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.rename(p + ".tmp", p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def main(prop, func, level, assumptions=()):
    run = Run(prop, level)
    run.assumptions = list(assumptions)
    try:
        func(run)
        if not run.events:
            raise CheckError("nothing was checked")
        run.evidence()
        print("OK property=%s tier=%s events=%d states=%d wall=%.1fs" % (prop, run.tier, run.events, run.states, time.time() - run.t0))
        return 0
    except Violation as v:
        run.evidence(1)
        print("%s: %s" % (prop, v.what))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except CheckError as e:
        sys.stderr.write("CHECK-ERROR property=%s: %s\n" % (prop, e))
        return 2
    except Exception:
        sys.stderr.write("CHECK-ERROR property=%s: %s\n" % (prop, traceback.format_exc()))
        return 2
    finally:
        run.close()
