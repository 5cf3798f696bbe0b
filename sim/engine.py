"""Drives one simulated optimisation from a JSON scenario and records its history."""
import hashlib
import math

import numpy as np

from . import env, algos, ambient, meter  # noqa: F401
from .objective import SimProblem, FAULT_EXCEPTIONS
from niapy.algorithms.algorithm import Individual
from niapy.callbacks import Callback, CallbackList
from niapy.task import Task, OptimizationType
from niapy.util import repair as _repair

DEFAULT_TICKS = 6_000_000
INF = math.inf


def opt_type(s):
    return OptimizationType.MAXIMIZATION if s == "max" else OptimizationType.MINIMIZATION


def sign(spec):
    return -1.0 if spec.get("opt") == "max" else 1.0


def lim(v):
    return INF if v is None else v


# a user's own repair function may just as well return a new array and leave its argument alone
REPAIRS = {
    "own_limit": lambda x, lower, upper, rng=None: np.clip(x, lower, upper),
    "own_centre": lambda x, lower, upper, rng=None: np.where((x < lower) | (x > upper), lower + 0.5 * (upper - lower), x),
    "own_rand": lambda x, lower, upper, rng=None: _repair.rand(np.array(x), lower, upper, rng=rng),
}


class RepairProbe:
    """User-supplied repair function: one of the library's, counted, with a fault plan."""

    def __init__(self, name, faults=None):
        self.fn = REPAIRS.get(name) or getattr(_repair, name)
        self.n = 0
        self.faults = {f["at"]: f for f in (faults or [])}
        self.fired = {}
        self.last_exc = None

    def __call__(self, x, lower, upper, **kw):
        n = self.n
        self.n += 1
        f = self.faults.get(n)
        if f is not None:
            self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
            self.last_exc = FAULT_EXCEPTIONS[f["kind"][6:]]("injected in repair %d" % n)
            raise self.last_exc
        return self.fn(x, lower, upper, **kw)


def members(pop):
    """The points of whatever an algorithm calls its population."""
    if isinstance(pop, Individual):
        return [pop.x]
    if isinstance(pop, np.ndarray) and pop.dtype != object:
        return [pop] if pop.ndim == 1 else list(pop)
    return [p.x if isinstance(p, Individual) else p for p in pop]


class Recorder(Callback):
    """User callback: records what the loop hands to user code at every hook, and checks
    the online invariants that were asked for."""

    def __init__(self, task, prob, faults=None, hook=None, align=False, evals=None, tag=None, sink=None):
        super().__init__()
        self.task, self.prob = task, prob
        self.events = []
        self.faults = {(f["where"], f["at"]): f for f in (faults or [])}
        self.counts = {}
        self.fired = {}
        self.hook = hook
        self.align = align
        self.bad = []
        self.extra = {(e["where"], e["at"]): e for e in (evals or [])}
        self.extra_done = 0
        self.last_exc = None
        self.tag = tag
        self.sink = sink

    def _rec(self, where, bx=None, bf=None, pop=None, fit=None):
        n = self.counts.get(where, 0)
        self.counts[where] = n + 1
        ev = {"where": where, "n": n, "calls": self.prob.calls, "evals": self.task.evals,
              "iters": self.task.iters, "task_best": self.task.x_f, "raised": False, "stop": self.task.stopping_condition()}
        if bf is not None:
            live = bx.x if isinstance(bx, Individual) else bx
            ev["live"] = live
            ev["bx"] = np.array(live, dtype=float, copy=True)
            ev["bf"] = float(bf)
        self.events.append(ev)
        if self.sink is not None:
            self.sink.append((self.tag, where, n))
        if self.align and pop is not None:
            self._check_alignment(where, n, pop, fit)
        if self.hook is not None:
            self.hook(where, n)
        e = self.extra.get((where, n))
        if e is not None:
            ev["raised"] = True
            for k in range(e["k"]):
                fr = ((n * 7 + k * 3 + 1) % 11) / 11.0
                self.extra_done += 1
                self.task.eval(self.prob._lo + fr * (self.prob._hi - self.prob._lo))
            ev["raised"] = False
        f = self.faults.get((where, n))
        if f is not None:
            self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
            ev["raised"] = True
            self.last_exc = FAULT_EXCEPTIONS[f["kind"][6:]]("injected in callback %s %d" % (where, n))
            raise self.last_exc

    def _check_alignment(self, where, n, pop, fit):
        fit = np.atleast_1d(np.asarray(fit, dtype=float))
        pts = members(pop)
        if len(pts) != len(fit):
            self.bad.append("at %s %d: %d population members but %d fitness values" % (where, n, len(pts), len(fit)))
            return
        seen = self.prob.seen
        sg = self.task.optimization_type.value
        for k, (x, f) in enumerate(zip(pts, fit)):
            x = np.asarray(x, dtype=float)
            if x.tobytes() not in seen or not np.isfinite(f):
                continue
            v = sg * self.prob.pure(x)
            if abs(v - f) > 1e-9 * max(1.0, abs(v)):
                self.bad.append("at %s %d: member %d has value %r but fitness %r" % (where, n, k, v, float(f)))
                return

    def before_run(self):
        self._rec("before_run")

    def after_run(self):
        self._rec("after_run")

    def before_iteration(self, population, fitness, best_x, best_fitness, **params):
        self._rec("before_iteration", best_x, best_fitness, population, fitness)

    def after_iteration(self, population, fitness, best_x, best_fitness, **params):
        self._rec("after_iteration", best_x, best_fitness, population, fitness)


def make_algorithm(spec, callbacks=None):
    cls = algos.CLASSES[spec["alg"]]
    kw = algos.build_params(spec.get("params", {}))
    if "seed" in spec:
        kw["seed"] = spec["seed"]
    return cls(callbacks=callbacks, **kw)


def make_task(spec, prob, **over):
    kw = dict(optimization_type=opt_type(spec.get("opt")),
              repair_function=RepairProbe(spec.get("repair", "limit"), spec.get("repair_faults")),
              max_evals=lim(spec.get("max_evals")), max_iters=lim(spec.get("max_iters")),
              cutoff_value=spec.get("cutoff"), enable_logging=bool(spec.get("log")))
    kw.update(over)
    return Task(prob, **kw)


class Outcome:
    __slots__ = ("prob", "task", "alg", "rec", "x", "f", "exc", "exceeded", "ticks", "returned", "start", "live_x", "crash_exc")

    def brief(self):
        return {"f": None if self.f is None else float(self.f), "evals": self.task.evals,
                "iters": self.task.iters, "calls": self.prob.calls, "exc": repr(self.exc), "ticks": self.ticks}

    @property
    def log(self):
        """The part of the objective's history that belongs to this run."""
        return self.prob.log[self.start:]

    def fired(self):
        d = {}
        for src in (self.prob.fired, self.rec.fired, getattr(self.task.repair_function, "fired", {})):
            for k, v in src.items():
                d[k] = d.get(k, 0) + v
        if getattr(self, "crash_exc", None) is not None:
            d["async-interrupt"] = d.get("async-interrupt", 0) + 1
        return d

    def stop_reason(self):
        t = self.task
        if self.exceeded:
            return "tick-budget"
        if self.exc is not None:
            return "exception"
        r = []
        if t.evals >= t.max_evals:
            r.append("evals")
        if t.iters >= t.max_iters:
            r.append("iters")
        sg = t.optimization_type.value
        if t.cutoff_value * sg >= t.x_f * sg:
            r.append("cutoff")
        return "+".join(r) or "none"


def digest(o):
    h = hashlib.sha1()
    for n, x, v, k in o.log:
        h.update(x.tobytes())
        h.update(repr((v, k)).encode())
    for e in o.rec.events:
        h.update(repr((e["where"], e["n"], e["calls"], e.get("bf"))).encode())
    h.update(repr((o.returned, None if o.f is None else float(o.f), type(o.exc).__name__)).encode())
    if o.x is not None:
        h.update(np.asarray(o.x, dtype=float).tobytes())
    return h.hexdigest()


def simulate(spec, prob=None, task=None, alg=None, rec=None, ticks=None, align=False, pin=True):
    """One algorithm.run under the logical clock. Never raises."""
    if pin:
        ambient.pin(spec.get("ambient", 0))
    o = Outcome()
    o.prob = prob or SimProblem(spec["problem"], spec.get("faults"))
    o.start = len(o.prob.log)
    o.task = task or make_task(spec, o.prob)
    o.rec = rec or Recorder(o.task, o.prob, spec.get("cb_faults"), align=align, evals=spec.get("cb_evals"))
    o.x = o.f = o.exc = o.live_x = None
    o.returned = False
    o.alg = alg
    with meter.Meter(ticks or spec.get("ticks", DEFAULT_TICKS), spec.get("crash_tick")) as m:
        try:
            if o.alg is None:
                o.alg = make_algorithm(spec, callbacks=[o.rec])
            else:
                o.alg.callbacks = CallbackList([o.rec])
                o.alg.callbacks.set_algorithm(o.alg)
            o.live_x, o.f = o.alg.run(o.task)
            o.returned = True
        except BaseException as e:  # noqa: B902 - everything a run raises is data here
            o.exc = e
    if o.live_x is not None:
        o.x = np.array(o.live_x, dtype=float, copy=True)
    o.exceeded = m.exceeded
    o.crash_exc = m.crash_exc
    o.ticks = m.ticks
    return o
