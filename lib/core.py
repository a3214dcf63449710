"""What every check needs: scratch space, the built code, conformance of recorded runs, evidence."""
import json
import os
import random
import shutil
import tempfile
import time

from . import gen, impl, models, pycall, scn, tlc

ASSUMPTIONS = [
    "TLC, the Java overrides of Num and Curve (spec/java) and the harness (harness/harness.cpp) are trusted",
    "the code is observed through its public functions and members, compiled with g++ -O1 and one build per run",
    "settings outside the sampled and enumerated ranges (see DESIGN.md) are not looked at",
]
# verdict on a record in which the specification has no next step (a value it has no meaning for)
NO_STEP = "reject: no such step in the specification"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Enough(Exception):
    """there are violations, and going on would take too long"""


class Ctx:
    def __init__(self, pid, thorough=False, seed=1):
        self.pid, self.thorough, self.seed = pid, thorough, seed
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, runs_of_the_code=0)
        self.cases = []
        self.notes = {}
        self._exe = {}
        self._py = None
        self.n_tlc = 0

    # ---- the code under test
    def exe(self, asan=False):
        if asan not in self._exe:
            self._exe[asan] = impl.build(self.work, asan)
        return self._exe[asan]

    def run(self, scens, asan=False):
        """run on the real code; a valid scenario that crashes, exits or throws is a violation"""
        res = impl.run(self.exe(asan), scens, asan=asan)
        self.cov["runs_of_the_code"] += len(scens)
        for x in scens[:2]:
            self.sample(x)
        n = 0
        for s, r in zip(scens, res):
            if r["outcome"] != "ok" and not s.get("invalid") and n < 5:
                again = impl.run(self.exe(asan), [s], jobs=1, asan=asan)[0]
                if again["outcome"] != "ok":
                    n += 1
                    self.violation("a valid setting does not run: %s" % again["outcome"], s)
                if again["outcome"] == "crash:14":
                    raise Enough
        self.late()
        return res

    def late(self):
        if self.violations and time.time() - self.t0 > 500:
            raise Enough

    def python(self, calls, jobs=8):
        """make calls of the Python package; a valid call that fails or ends the process is a violation"""
        if not self._py:
            self._py = pycall.build(self.work)
        res = pycall.run(self._py, calls, jobs)
        self.cov["runs_of_the_code"] += len(calls)
        for x in calls[:2]:
            self.sample(x)
        n = 0
        for i, (x, r) in enumerate(zip(calls, res)):
            if r["outcome"] != "ok" and n < 5 and any(pycall.run(self._py, y, 1)[-1]["outcome"] != "ok" for y in ([x], calls[i % jobs:i + 1:jobs])):
                self.violation("a valid call of the Python package does not return: %s" % r["outcome"], x)
                n += 1
                if r["outcome"].startswith("ended with -14"):
                    raise Enough
        self.late()
        return res

    # ---- the specification
    def tlc(self, module, which="dbl", env=None, note=None, **kw):
        self.n_tlc += 1
        r = tlc.run(self.work, module, which, env=env, tag="%s_%d" % (module, self.n_tlc), **kw)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.generated
        n = self.notes.setdefault(module, dict(states=0, runs=0, wall=0.0))
        n["states"] += r.states
        n["runs"] += 1
        n["wall"] = round(n["wall"] + r.wall, 1)
        return r

    def model(self, module, conf=None, which="rat", **kw):
        """check a design model; the model does not depend on the code, so that a violated
        invariant is an error of the specification"""
        env = {}
        if conf is not None:
            path = os.path.join(self.work, "conf_%d.json" % self.n_tlc)
            models.dump(path, conf)
            env["CONF"] = path
        r = self.tlc(module, which, env=env, **kw)
        if r.violated:
            raise tlc.TlcError("design model %s violates %s:\n%s" % (module, r.violated, r.trace[:4000]))
        return r

    def verdicts(self, module, records, **kw):
        """verdict of the specification for each recorded run (dict by id)"""
        if not records:
            return {}
        path = os.path.join(self.work, "trace_%d.ndjson" % self.n_tlc)
        tlc.write_ndjson(path, records)
        try:
            r = self.tlc(module, "dbl", env=dict(TRACE=path), **kw)
        except tlc.TlcError as e:
            if "Parsing or semantic analysis failed" in str(e):
                raise
            if len(records) > 1:      # which record is it?
                h = len(records) // 2
                a, b = records[:h], records[h:]
                va = self.verdicts(module, a, **kw)
                if any(t == NO_STEP for t in va.values()):
                    return dict(va, **{str(x["id"]): "skip" for x in b})
                return dict(va, **self.verdicts(module, b, **kw))
            if not any(x in str(e) for x in ("Attempted", "attempted", "CHOOSE", "evaluating")):
                raise
            return {str(records[0]["id"]): NO_STEP}
        finally:
            os.unlink(path)
        if r.violated:
            raise tlc.TlcError("%s: the specification itself violates %s on a recorded run:\n%s"
                               % (module, r.violated, r.trace[:4000]))
        v = {p[0]: p[1] for p in r.prints}
        missing = [x["id"] for x in records if x["id"] not in v]
        if missing:
            raise tlc.TlcError("%s: no verdict for %s" % (module, missing[:5]))
        return v

    def conform(self, module, scens, record, judge=None, asan=False, results=None):
        """run scenarios on the real code and have the specification judge them; a rejection is
        repeated from the run of the code on before it counts"""
        res = results if results is not None else self.run(scens, asan)
        ok = [i for i in range(len(scens)) if res[i] is not None and res[i]["outcome"] == "ok"]
        recs = [record(scens[i], res[i], i) for i in ok]
        v = self.verdicts(module, recs)
        count = {}
        bad = []
        for i in ok:
            t = v[str(i)]
            k = t.split(" ")[0]
            count[k] = count.get(k, 0) + 1
            if k == "reject" and (judge is None or t == NO_STEP or judge(t)):
                bad.append(i)
        self.cov["traces_validated_against_impl"] += len(ok)
        n = self.notes.setdefault("verdicts " + module, {})
        for k in count:
            n[k] = n.get(k, 0) + count[k]
        for i in bad[:3]:
            if results is None:
                r2 = impl.run(self.exe(asan), [scens[i]], jobs=1, asan=asan)[0]
                if r2["outcome"] != "ok":
                    self.violation("a valid setting does not run: %s" % r2["outcome"], scens[i])
                    continue
                t2 = self.verdicts(module, [record(scens[i], r2, i)])[str(i)]
                if not (t2.startswith("reject") and (judge is None or t2 == NO_STEP or judge(t2))):
                    continue
                self.violation("%s: %s" % (module, t2), scens[i])
            else:
                self.violation("%s: %s" % (module, v[str(i)]), scens[i])
        return v

    def images(self, scens, **kw):
        return self.conform("TraceImage", scens, lambda s, r, i: scn.j_img(s, r["image"], i), **kw)

    def managers(self, scens, want=scn.CLASSES):
        return self.conform("TraceTraps", scens, lambda s, r, i: scn.j_mgr(s, r, i, want=want))

    def roes(self, scens, classes):
        return self.conform("TraceRoe", scens, scn.j_roe_scn, lambda t: any(c in t for c in classes))

    def utils(self, scens, **kw):
        return self.conform("TraceUtil", scens, scn.j_util, **kw)

    def taken(self, scens, record):
        """settings, valid or not: the specification says which are to be taken and which rejected with an error"""
        for s in scens:
            s["invalid"] = 1
        res = self.run(scens)
        recs, n = [], 0
        for i, (s, r) in enumerate(zip(scens, res)):
            if r["outcome"] in ("ok", "throw") or (r["outcome"].startswith("exit:") and r["outcome"] not in ("exit:99", "exit:0")):
                recs.append(record(s, int(r["outcome"] == "ok"), r, i))
            elif n < 3:
                n += 1
                self.violation("neither taken nor rejected: %s" % r["outcome"], s)
        v = self.verdicts("TraceUtil", recs)
        self.cov["traces_validated_against_impl"] += len(recs)
        for x in [x for x in recs if v[x["id"]] != "accept"][:3]:
            self.violation("TraceUtil: %s" % v[x["id"]], scens[int(x["id"])])

    # ---- design models, replayed on the code
    def trap_model(self, kinds, depth, want, per=None):
        """every history of MC_Traps up to `depth` operations, replayed on the real trap managers"""
        ms = models.trap_managers(kinds)
        r = self.model("MC_Traps", dict(managers=ms, depth=depth))
        scens = []
        for mi, ops, rets, helds in r.prints:
            m = ms[int(mi) - 1]
            s = models.scenario(m, ops)
            if m["kind"] in ("ic", "sc") and "~" not in ops:
                s["exact"] = (models.wants(rets), models.wants(helds))
            scens.append(s)
        self.notes["histories of MC_Traps"] = len(scens)
        if per and len(scens) > per:
            scens = self.rng.sample(scens, per)
        self.managers(scens, want)

    def roe_model(self, conf, classes, per=None):
        self.model("MC_Roe", conf)
        scens = models.roe_configs(conf)
        if per and len(scens) > per:
            scens = self.rng.sample(scens, per)
        self.roes(scens, classes)

    def clock_model(self, which, n=None):
        """every (or n per setting) small image of MC_Clock, and the final images compared with the code"""
        st = models.clock_settings(which)
        conf = models.clock_conf(st, self.rng, n)
        r = self.model("MC_Clock", conf)
        index = [(s, k) for s in range(len(st)) for k in range(len(conf["images"][s]))]
        cases = []
        for job, near, text in r.prints:
            s, k = index[int(job) - 1]
            im = conf["images"][s][k]
            x = models.s_setting(st[s][0], im)
            if x is None or near == "near":
                continue
            v, c = models.wants(text), len(im[0])
            cases.append(scn.rel("expected", [x], ins=[[v[i * c:(i + 1) * c] for i in range(len(im))]], tol=1e-9,
                                 scale=10.0, note="MC_Clock"))
        self.relations(cases)

    # ---- relations between runs
    def run_cases(self, cases):
        """case = dict(rel, scens=[scenario or function of the results so far], ...); sets case["res"]"""
        for c in cases:
            c["done"], c["res"] = [], []
        while True:
            todo = []
            for c in cases:
                while len(c["done"]) < len(c["scens"]):
                    x = c["scens"][len(c["done"])]
                    if callable(x):
                        if len(c["res"]) < len(c["done"]):
                            break
                        if any(r["outcome"] != "ok" for r in c["res"]):
                            c["done"] = [y for y in c["scens"] if not callable(y)]
                            c["bad"] = True
                            break
                        x = x([r["image"] for r in c["res"]])
                    c["done"].append(x)
                    todo.append((c, x))
                if c.get("bad"):
                    continue
            if not todo:
                break
            for (c, x), r in zip(todo, self.run([x for _, x in todo])):
                c["res"].append(r)

    def relations(self, cases, report=True):
        """run the cases on the real code and have the specification judge the relations"""
        for attempt in (0, 1):
            self.run_cases(cases)
            recs, ok = [], []
            for i, c in enumerate(cases):
                if len(c["res"]) != len(c["scens"]) or any(r["outcome"] != "ok" for r in c["res"]):
                    continue
                ok.append(i)
                recs.append(scn.j_rel(c, i))
            v = self.verdicts("TraceRel", recs)
            bad = [i for i in ok if v[str(i)] != "accept"]
            if attempt == 0:
                n = self.notes.setdefault("relations", {})
                for i in ok:
                    n[cases[i]["rel"]] = n.get(cases[i]["rel"], 0) + 1
                self.cov["traces_validated_against_impl"] += sum(len(cases[i]["scens"]) for i in ok)
            if not bad or not report:
                return [cases[i] for i in bad]
            cases = [cases[i] for i in bad]
        for c in cases[:3]:
            self.violation("relation %s does not hold between runs of the code (%s)" % (c["rel"], c.get("note", "")), c["done"])
        return cases

    # ---- outcome
    def violation(self, what, scen=None):
        d = os.path.join(HERE, "work", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, scenario=scen, seed=self.seed), f, indent=1, default=str)
        self.violations.append((what, path))

    def known_finding(self, key, what):
        """a defect of the code that is recorded, not repaired: listed in KNOWN_FINDINGS, or a violation"""
        with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
            listed = any(l.startswith("known: property=%s %s:" % (self.pid, key)) for l in f)
        if listed:
            self.known.append("%s: %s" % (key, what))
        else:
            self.violation("%s: %s" % (key, what))

    def sample(self, x):
        if len(self.cases) < 4:
            t = json.dumps(x, default=str)
            self.cases.append(x if len(t) < 1500 else t[:1500] + "...")

    def evidence(self, level, assumptions):
        cov = dict(self.cov)
        cov["samples"] = self.cases or ["none"]
        cov["explanation"] = json.dumps(self.notes, sort_keys=True)
        return dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=self.seed, level=level,
                    coverage=cov, assumptions=assumptions, wall_s=round(time.time() - self.t0, 1),
                    violations=len(self.violations))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
