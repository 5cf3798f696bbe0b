"""Properties decided by interleaving several runs, or evaluations, in one process."""
import hashlib
import math
import threading

import numpy as np

from .. import algos, ambient, engine, gen, prng, sched
from ..harness import Prop, Result
from ..meter import Meter
from ..objective import SimProblem, bounds_of
from niapy.problems import Problem
from niapy.util.factory import get_problem
from .compare import diff, same
from .trace import TraceProp, gen_raise


class Shared(Problem):
    """One problem object used by several runs at once; each run keeps its own record of it."""

    def __init__(self, like):
        self.views = {}
        self.like = like
        super().__init__(like.dimension, *getattr(like, "given", (like.lower, like.upper)))

    def _evaluate(self, x):
        return self.views[threading.get_ident()][-1]._evaluate(x)


class Run:
    """One optimisation among several: its own optimiser, task, record and fault plan."""

    def __init__(self, spec, shared=None, hook=None, inner=None):
        self.spec = spec
        self.view = SimProblem(spec["problem"], spec.get("faults"), hook=hook)
        if inner is not None:
            self.view.inner = inner
            self.view.func = lambda x, c, lo, h: float(inner.evaluate(x))
        self.shared = shared
        self.hook = hook
        self.o = None
        self.nested = []

    def body(self):
        spec = self.spec
        o = engine.Outcome()
        o.prob = self.view
        o.start = 0
        o.x = o.f = o.exc = o.live_x = None
        o.returned = o.exceeded = False
        o.ticks = 0
        o.crash_exc = o.task = o.rec = o.alg = None
        self.o = o
        if self.shared is not None:
            self.shared.views.setdefault(threading.get_ident(), []).append(self.view)
        try:
            o.task = engine.make_task(spec, self.shared if self.shared is not None else self.view)
            o.rec = engine.Recorder(o.task, self.view, spec.get("cb_faults"), hook=self.hook, evals=None)
            o.alg = engine.make_algorithm(spec, callbacks=[o.rec])
            o.live_x, o.f = o.alg.run(o.task)
            o.returned = True
        except sched.StepBudgetExceeded as e:
            o.exceeded = True
            o.exc = e
            raise
        except BaseException as e:  # noqa: B902
            o.exc = e
        finally:
            if self.shared is not None:
                self.shared.views[threading.get_ident()].pop()
        if isinstance(o.alg.exception if o.alg is not None else None, sched.StepBudgetExceeded):
            o.exceeded = True
        if o.live_x is not None:
            o.x = np.array(o.live_x, dtype=float)
        return o


def outcome_failure(o):
    return type(o.alg.exception) if getattr(o, "alg", None) is not None and o.alg.exception is not None else None


class Concurrent(TraceProp):
    """C08: concurrent and nested runs do not influence each other."""
    ID = "C08"
    N = {"quick": 1000, "thorough": 60000}
    CHUNK = 8
    TECHNIQUE = "deterministic simulation: seeded thread scheduler preempting at source lines and bytecodes, nested runs, failing and stalled threads; histories compared with solo runs"
    RULE = ("scenario i is drawn from PRNG(property, seed, i): 2-4 runs, shared or own problem objects, fault plan, scheduling policy; "
            "distinct = distinct digests of the joint history; non-trivial when at least two runs evaluated and a switch happened between two of their steps")
    STATES = "(optimisers, sharing, policy class, faults) tuples reached"
    STUB = ["objective function", "user callbacks", "thread scheduler (parks all threads but one)", "operating-system entropy and global generators"]

    def gen(self, r, i, tier):
        n = r.choice([2, 2, 2, 3, 4])
        base = gen.gen_spec(r, i, evals=(20, 110), w=(0.9, 0.0, 0.1), builtin=0.25)
        runs = [base]
        u = r.random()
        for k in range(n - 1):
            if u < 0.75:        # the same kind of optimiser
                s = gen.gen_spec(r, name=base["alg"], evals=(20, 110), w=(1.0, 0, 0), builtin=0.25)
                if r.random() < 0.3:
                    s["params"] = dict(base["params"])
            else:
                s = gen.gen_spec(r, evals=(20, 110), w=(1.0, 0, 0), builtin=0.25)
            runs.append(s)
        share = r.choice(["own", "shared", "shared-opposite"])
        if share != "own":
            for s in runs[1:]:
                s["problem"] = dict(base["problem"])
                s["opt"] = base["opt"] if share == "shared" else r.choice(["min", "max"])
        for s in runs:
            s["problem"].pop("negate", None)
            if r.random() < 0.12:
                gen_raise(r, s)
            elif r.random() < 0.08:
                s["crash_step"] = r.randint(1, 2000)
        scn = {"runs": runs, "share": share}
        if r.random() < 0.2:
            scn["mode"] = "nested"
            scn["at"] = sorted(r.randint(0, 15) for _ in range(r.randint(1, 2)))
            scn["runs"] = runs[:2 if n < 4 else 3]
            for s in scn["runs"]:
                for fk in ("cb_faults", "repair_faults", "faults", "crash_step"):
                    s.pop(fk, None)
        else:
            scn["mode"] = "threads"
            scn["policy"] = sched.gen_policy(r)
            scn["instr"] = r.random() < 0.12
        return scn

    def shrink(self, scn):
        if scn["mode"] == "threads" and "seed" in scn["policy"]:
            rec = self.record(scn)
            if rec:
                yield dict(scn, policy=rec)
        if scn["mode"] == "threads":
            for p in sched.shrink_policy(scn["policy"]):
                yield dict(scn, policy=p)
        rs = scn["runs"]
        if len(rs) > 2:
            for k in range(len(rs)):
                yield dict(scn, runs=rs[:k] + rs[k + 1:])
        for k, s in enumerate(rs):
            for t in gen.shrink_spec(s):
                if scn["share"] != "own" and t["problem"] != s["problem"]:
                    continue
                yield dict(scn, runs=rs[:k] + [t] + rs[k + 1:])
        if scn["mode"] == "nested" and len(scn["at"]) > 1:
            yield dict(scn, at=scn["at"][:1])

    def record(self, scn):
        try:
            s, _ = self.together(scn)
            return s.explicit()
        except Exception:       # noqa: B902
            return None

    @staticmethod
    def build(scn, hook=None):
        rs = scn["runs"]
        shared = inner = None
        if scn["share"] != "own":
            first = SimProblem(rs[0]["problem"])
            shared = Shared(first)
            inner = first.inner
        return [Run(s, shared, hook, inner) for s in rs]

    def together(self, scn):
        ambient.pin(scn["runs"][0]["seed"])
        s = sched.Scheduler(scn["policy"], budget=1_000_000, instructions=scn.get("instr", False))
        runs = self.build(scn, hook=lambda w, n: s.point())
        s.run([x.body for x in runs], {k: x["crash_step"] for k, x in enumerate(scn["runs"]) if "crash_step" in x})
        return s, runs

    def execute(self, scn):
        res = Result()
        if scn["mode"] == "nested":
            return self.nested(scn, res)
        s, runs = self.together(scn)
        solos = []
        for k, spec in enumerate(scn["runs"]):
            one = dict(scn, runs=[spec], share="own", policy={"switches": [], "first": 0})
            ambient.pin(spec["seed"] + 1)
            t = sched.Scheduler(one["policy"], budget=1_000_000, instructions=scn.get("instr", False))
            solo = Run(spec, None, (lambda w, n, t=t: t.point()))
            t.run([solo.body], {0: spec["crash_step"]} if "crash_step" in spec else None)
            solos.append(solo)
        h = hashlib.sha1(repr((s.first, s.switches)).encode())
        active = 0
        for k, (a, b) in enumerate(zip(runs, solos)):
            if a.o is None or b.o is None or a.o.alg is None or b.o.alg is None:
                # interrupted, or out of budget, before the optimiser existed
                if (a.o is None or a.o.alg is None) != (b.o is None or b.o.alg is None) and not s.over:
                    res.add("interference:%s" % a.spec["alg"], "run %d was set up in only one of the two executions" % k)
                continue
            res.absorb(a.o)
            h.update(engine.digest(a.o).encode())
            active += len(a.o.log) > 0
            if s.threads[k].crash_exc is not None:
                res.faults["async-interrupt"] += 1
            name = a.spec["alg"]
            if a.o.exceeded or b.o.exceeded:
                continue
            d = diff(b.o, a.o)
            if d is None and outcome_failure(a.o) is not outcome_failure(b.o):
                d = "alone it reported %r, here %r" % (outcome_failure(b.o), outcome_failure(a.o))
            if d:
                res.add("interference:%s" % name, "run %d (%s) differs from running alone: %s" % (k, name, d))
        res.faults["context-switches"] += len(s.switches)
        res.nontrivial = active > 1 and len(s.switches) > len(runs)
        res.ticks += s.steps
        pol = scn["policy"]
        res.states.add((tuple(sorted(x["alg"] for x in scn["runs"])), scn["share"], pol.get("kind"), pol.get("gap"), bool(scn.get("instr"))))
        res.digest = h.hexdigest()
        return res

    def nested(self, scn, res):
        """Runs inside the objective of another run (tuning an optimiser with an optimiser)."""
        ats = scn["at"]
        runs = []
        inner_outcomes = []
        pend = list(scn["runs"][1:])

        def hook(where, n):
            if where == "eval" and n in ats and len(inner_outcomes) < 4:
                for spec in pend:
                    x = Run(spec, runs[0].shared, None, runs[0].view.inner if runs[0].shared is not None else None)
                    inner_outcomes.append((spec, x))
                    x.body()
        ambient.pin(7)
        runs.append(self.build(dict(scn, runs=scn["runs"][:1]), hook)[0])
        with Meter(12_000_000) as m:
            try:
                runs[0].body()
            except sched.StepBudgetExceeded:
                pass
        ex = m.exceeded
        ambient.pin(8)
        h = hashlib.sha1()
        for k, (spec, x) in enumerate([(scn["runs"][0], runs[0])] + inner_outcomes):
            with Meter(12_000_000) as m2:
                solo = Run(spec)
                try:
                    solo.body()
                except sched.StepBudgetExceeded:
                    pass
            if x.o.exceeded or solo.o.exceeded or ex or m2.exceeded:
                res.inconclusive += 1
                continue
            res.absorb(x.o)
            h.update(engine.digest(x.o).encode())
            d = diff(solo.o, x.o)
            if d:
                res.add("nested-interference:%s" % spec["alg"], "%s run %s differs from running alone: %s"
                        % ("the outer" if k == 0 else "a nested", spec["alg"], d))
        res.probes["nested_runs"] += len(inner_outcomes)
        res.ticks += m.ticks
        res.states.add((tuple(x["alg"] for x in scn["runs"]), scn["share"], "nested"))
        res.nontrivial = len(inner_outcomes) > 0
        res.digest = h.hexdigest()
        return res
