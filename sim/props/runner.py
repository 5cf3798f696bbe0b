"""The experiment runner: its matrix (C13) and its exports (C14) on a failing disk with a bad clock."""
import copy
import hashlib
import io
import json
import math
import threading

import numpy as np
import pandas as pd

from .. import algos, ambient, engine, gen, prng, sched, world
from ..harness import Prop, Result
from ..meter import AsyncInterrupt, Meter, StepBudgetExceeded
from ..objective import FAULT_EXCEPTIONS, SimProblem
from niapy import problems as _problems
from niapy.algorithms.algorithm import Algorithm
from niapy.task import Task
from niapy.util.factory import get_problem
from .compare import same
from .lookups import PROBLEMS
from .trace import pick_exc

NAMED = ["ackley", "alpine1", "bent_cigar", "griewank", "happy_cat", "levy", "michalewicz", "qing", "rastrigin", "rosenbrock", "salomon",
         "schwefel", "sphere", "styblinski_tang", "whitley", "zakharov", "Sphere2", "Step"]
REGISTERED = [n.strip() for n in open(__file__.rsplit("/", 2)[0] + "/registered.txt") if n.strip()]
# cost per run out of proportion with the budgets used here
CHEAP = [n for n in gen.NAMES if n not in ("CoralReefsOptimization",)]
EXT = {"dataframe": ".pkl", "json": ".json", "excel": ".xlsx"}


def gen_cfg(r, i, tag, small=False):
    """What one Runner is given. JSON-able."""
    dim = r.choice([1, 2, 2, 3, 5])
    na, npr = r.choice([1, 1, 2, 3]), r.choice([1, 2, 2, 3])
    if small:
        na, npr = r.choice([1, 1, 2]), r.choice([1, 2])
    used, algs = set(), []
    for k in range(na):
        named = r.random() < 0.4
        n = gen.pick_alg(r, i) if k == 0 and i is not None else r.choice(CHEAP)
        if named and n not in REGISTERED:
            n = r.choice(REGISTERED)
        if n in used or n == "CoralReefsOptimization":
            continue
        used.add(n)
        if named:
            algs.append({"name": n})
        else:
            algs.append({"alg": n, "params": algos.gen_params(r, n, maxpop=20), "seed": r.randint(0, 2 ** 31)})
    if not algs:
        algs.append({"name": "GreyWolfOptimizer"})
    probs, usedp = [], set()
    for k in range(npr):
        u = r.random()
        if u < 0.4:
            n = r.choice(NAMED)
            c = PROBLEMS[n.lower()]
            if c in usedp:
                continue
            usedp.add(c)
            probs.append({"name": n} if r.random() < 0.7 else {"inst": n, "dim": r.choice([2, 3, dim])})
        else:
            p = gen.gen_problem(r, builtin=0.0)
            if p["kind"] in ("infpen", "allinf"):
                p["kind"] = "sphere"
            probs.append({"spec": p, "cls": "SimP%s%d" % (tag, k)})
    if not probs:
        probs.append({"spec": {"kind": "sphere", "dim": 2}, "cls": "SimP%s9" % tag})
    return {"dimension": dim, "max_evals": r.choice([1, r.randint(1, 40), r.randint(30, 150)]) if not small else r.randint(1, 30),
            "runs": r.choice([1, 2, 2, 3, 0] if not small else [1, 1, 2, 3]), "algs": algs, "probs": probs}


def alg_key(a):
    return a.get("name") or a["alg"]


def prob_key(p):
    return p.get("name") or (PROBLEMS[p["inst"].lower()] if "inst" in p else p["cls"])


class Recorder:
    """Wraps `_evaluate` of benchmark classes: a log per thread and class."""

    def __init__(self, cfgs, point=None):
        self.logs = {}
        self.saved = []
        self.point = point
        for n in sorted({PROBLEMS[(p.get("name") or p.get("inst")).lower()] for c in cfgs for p in c["probs"] if "spec" not in p}):
            cls = getattr(_problems, n)
            self.saved.append((cls, cls.__dict__["_evaluate"]))
            cls._evaluate = self.wrap(cls, cls.__dict__["_evaluate"])
        self.on = True

    def wrap(self, cls, f):
        def _evaluate(problem, x, *a, **kw):
            xc = np.array(x, dtype=float, copy=True)
            v = f(problem, x, *a, **kw)
            if self.on:
                log = self.log(cls.__name__)
                log.append((len(log), xc, float(v), None))
            return v
        return _evaluate

    def log(self, name):
        return self.logs.setdefault((threading.get_ident(), name), [])

    def close(self):
        for cls, f in self.saved:
            cls._evaluate = f


class Actor:
    """One runner and what its user does with it."""

    def __init__(self, spec, module, rec, shared=None, point=None):
        self.spec = spec
        self.rec = rec
        c = self.cfg = spec["cfg"]
        faults = {}
        for f in spec.get("faults") or []:
            faults.setdefault(f["prob"] % len(c["probs"]), []).append({"at": f["at"], "kind": f["kind"]})
        self.faults = faults
        self.algs = {}
        al = []
        for a in c["algs"]:
            if "name" in a:
                al.append(a["name"])
            else:
                self.algs[a["alg"]] = engine.make_algorithm(a)
                al.append(self.algs[a["alg"]])
        self.probs, pl = {}, []
        for k, p in enumerate(c["probs"]):
            if "name" in p:
                pl.append(p["name"])
            elif "inst" in p:
                key = (p["inst"], p["dim"])
                if shared is not None:
                    if key not in shared:
                        shared[key] = get_problem(p["inst"], dimension=p["dim"])
                    pl.append(shared[key])
                else:
                    pl.append(get_problem(p["inst"], dimension=p["dim"]))
            else:
                cls = type(p["cls"], (SimProblem,), {})
                q = cls(p["spec"], faults.get(k), hook=(lambda w, n: point()) if point else None)
                self.probs[p["cls"]] = q
                pl.append(q)
        self.pl = pl
        if spec.get("tuple"):
            al, pl = tuple(al), tuple(pl)
        self.runner = module.Runner(dimension=c["dimension"], max_evals=c["max_evals"], runs=c["runs"], algorithms=al, problems=pl)
        self.al = al
        self.done = []          # one record per operation
        self.taken = {}

    def snapshot(self):
        st = {k: copy.deepcopy(a.rng.bit_generator.state) for k, a in self.algs.items()}
        calls = {k: p.calls for k, p in self.probs.items()}
        logs = {prob_key(p): len(self.rec.log(PROBLEMS[(p.get("name") or p["inst"]).lower()])) for p in self.cfg["probs"] if "spec" not in p}
        return st, calls, logs

    def apply_edit(self, op):
        """The user changes the runner's public attributes between two executions."""
        for k, v in (op.get("edit") or {}).items():
            if k == "algs":
                self.runner.algorithms = [self.al[j % len(self.al)] for j in sorted({x % len(self.al) for x in v})]
            elif k == "probs":
                self.runner.problems = [self.pl[j % len(self.pl)] for j in sorted({x % len(self.pl) for x in v})]
            else:
                setattr(self.runner, k, v)
        if "bad" in op and self.runner.runs:
            self.runner.algorithms = list(self.runner.algorithms) + ["NoSuchAlgorithm"]
        self.now = {"algs": [a for a in self.cfg["algs"] if any((a.get("name") == x) if isinstance(x, str) else x is self.algs.get(a.get("alg")) for x in self.runner.algorithms)],
                    "probs": [p for p, o in zip(self.cfg["probs"], self.pl) if any(o is x for x in self.runner.problems)],
                    "max_evals": self.runner.max_evals, "runs": self.runner.runs}

    def operate(self, op):
        self.apply_edit(op)
        r = {"op": op, "snap": self.snapshot(), "now": self.now, "exc": None, "res": None, "returned": False, "main": threading.current_thread() is threading.main_thread()}
        try:
            r["res"] = self.runner.run(export=op["export"], verbose=op.get("verbose", False))
            r["returned"] = True
        except StepBudgetExceeded:
            r["exceeded"] = True
            self.done.append(r)
            raise
        except world.Crash as e:
            r["exc"] = e
        except BaseException as e:  # noqa: B902
            r["exc"] = e
        if r["res"] is not None:
            r["copy"] = copy.deepcopy(r["res"])
        r["logs"] = {k: p.calls for k, p in self.probs.items()}
        r["nlogs"] = self.snapshot()[2]
        if "bad" in op:
            self.runner.algorithms = [x for x in self.runner.algorithms if x != "NoSuchAlgorithm"]
        self.done.append(r)
        return r


def same_cell(a, b):
    (x, f), (y, g) = a, b
    if (x is None) != (y is None) or (f is None) != (g is None):
        return False
    if x is not None and np.asarray(x, dtype=float).tobytes() != np.asarray(y, dtype=float).tobytes():
        return False
    return f is None or same(float(f), float(g))


def judge_matrix(actor, r, add):
    """The oracle of C13: what this execution of the runner had to evaluate and return."""
    now, (states, calls, logs) = r["now"], r["snap"]
    main = r["main"]
    clones = {}
    for a in now["algs"]:
        if "alg" in a:
            clones[a["alg"]] = engine.make_algorithm(a)
            clones[a["alg"]].rng.bit_generator.state = copy.deepcopy(states[a["alg"]])
    pos = dict(calls)
    npos = dict(logs)
    res = r["res"]
    if r["returned"]:
        want = {alg_key(a) for a in now["algs"]}
        if set(res) != want:
            return add("matrix", "results for algorithms %s, asked for %s" % (sorted(res), sorted(want)))
    by_index = {p["cls"]: k for k, p in enumerate(actor.cfg["probs"]) if "spec" in p}
    n_ok = 0
    for a in now["algs"]:
        if r["returned"]:
            want = {prob_key(p) for p in now["probs"]}
            if set(res[alg_key(a)]) != want:
                return add("matrix", "%s has results for problems %s, asked for %s" % (alg_key(a), sorted(res[alg_key(a)]), sorted(want)))
        for p in now["probs"]:
            if r["returned"] and len(res[alg_key(a)][prob_key(p)]) != now["runs"]:
                return add("matrix", "%d results for %s on %s, asked for %d" % (len(res[alg_key(a)][prob_key(p)]), alg_key(a), prob_key(p), now["runs"]))
            for rep in range(now["runs"]):
                where = "%s on %s, run %d" % (alg_key(a), prob_key(p), rep + 1)
                if "spec" in p:
                    q = actor.probs[p["cls"]]
                    lo = pos[p["cls"]]
                    seg = []
                    for e in q.log[lo:lo + now["max_evals"]]:
                        seg.append(e)
                        if e[2] is None:
                            break
                    pos[p["cls"]] = lo + len(seg)
                else:
                    lo = npos[prob_key(p)]
                    seg = r["nl"][prob_key(p)][lo:lo + now["max_evals"]]
                    npos[prob_key(p)] = lo + len(seg)
                failed = bool(seg) and seg[-1][2] is None
                cell = res[alg_key(a)][prob_key(p)][rep] if r["returned"] else None
                if "alg" in a:
                    if "spec" in p:
                        m = SimProblem(p["spec"], actor.faults.get(by_index[p["cls"]]))
                        m.calls = lo
                    else:
                        m = get_problem(p.get("name") or p["inst"], dimension=p.get("dim", actor.cfg["dimension"]))
                    task = Task(problem=m, max_evals=now["max_evals"])
                    exc = None
                    try:
                        with Meter(3_000_000):
                            want = clones[a["alg"]].run(task)
                    except StepBudgetExceeded:
                        return None
                    except Exception as e:
                        exc = e
                    except BaseException as e:  # noqa: B902
                        exc = e
                    if exc is not None or clones[a["alg"]].exception is not None:
                        want = (None, None)
                    if "spec" in p:
                        ml = m.log
                        k = next((k for k, (s, t) in enumerate(zip(seg, ml)) if s[1].tobytes() != t[1].tobytes()), None)
                        if k is not None or len(ml) != len(seg):
                            return add("differs", "%s: %s" % (where, "%d evaluations, run directly %d" % (len(seg), len(ml)) if k is None else
                                                             "evaluation %d differs from running the optimiser directly" % (k + 1)))
                    elif len(seg) != now["max_evals"] and not failed:
                        return add("budget", "%s used %d evaluations of %d" % (where, len(seg), now["max_evals"]))
                    if cell is not None and not same_cell(cell, want):
                        return add("differs", "%s reports %r, run directly it gives %r" % (where, cell, want))
                else:
                    if not failed and len(seg) != now["max_evals"]:
                        return add("budget", "%s used %d evaluations of %d" % (where, len(seg), now["max_evals"]))
                    if cell is not None and failed:
                        if not same_cell(cell, (None, None)):
                            return add("failed-cell", "%s failed, but reports %r" % (where, cell))
                    elif cell is not None:
                        best = min(e[2] for e in seg)
                        if cell[0] is None or not same(float(cell[1]), best):
                            return add("foreign-result", "%s reports %r, the best of its own evaluations is %r" % (where, cell[1], best))
                        if not any(e[2] == best and e[1].tobytes() == np.asarray(cell[0], dtype=float).tobytes() for e in seg):
                            return add("foreign-result", "%s reports a point it never evaluated with that value" % where)
                if failed and main:
                    if r["returned"]:
                        return add("failure-lost", "%s failed, the experiment went on" % where)
                    if r["exc"] is not None and type(r["exc"]) is not FAULT_EXCEPTIONS[seg[-1][3][6:]]:
                        return add("failure-changed", "%s failed with %s, run() raised %r" % (where, seg[-1][3], r["exc"]))
                    return check_rest(actor, r, pos, npos, add)
                n_ok += 1
    if not r["returned"]:
        e = r["exc"]
        if "bad" in r["op"] and now["runs"]:
            if not isinstance(e, KeyError):
                return add("bad-name", "an unknown optimiser name gave %r" % (e,))
        elif r["op"]["export"] not in EXT:
            if not isinstance(e, TypeError):
                return add("bad-export", "an unknown export type gave %r" % (e,))
        else:
            return add("spurious-failure", "every cell succeeded but run() raised %r" % (e,))
    elif ("bad" in r["op"] and now["runs"]) or r["op"]["export"] not in EXT:
        return add("bad-accepted", "an unknown name or export type was accepted")
    return check_rest(actor, r, pos, npos, add)


def check_rest(actor, r, pos, npos, add):
    for k, n in r["logs"].items():
        if n != pos[k]:
            return add("extra-evaluations", "%d evaluations of %s belong to no cell" % (n - pos[k], k))
    for k, n in r["nlogs"].items():
        if n != npos[k]:
            return add("extra-evaluations", "%d evaluations of %s belong to no cell" % (n - npos[k], k))


def gen_ops(r, cfg, many, failing):
    ops = []
    for _ in range(r.choice([1, 1, 2, 3]) if many else 1):
        op = {"export": r.choice(["dataframe", "dataframe", "json", "excel"])}
        if r.random() < 0.2:
            op["verbose"] = True
        if ops and r.random() < 0.6:
            e = {}
            for k in r.sample(["runs", "max_evals", "algs", "probs"], r.choice([1, 1, 2])):
                e[k] = {"runs": lambda: r.choice([1, 2, 3]), "max_evals": lambda: r.randint(1, 80),
                        "algs": lambda: [r.randrange(3) for _ in range(r.choice([1, 2]))],
                        "probs": lambda: [r.randrange(3) for _ in range(r.choice([1, 2]))]}[k]()
            op["edit"] = e
        if failing and r.random() < 0.07:
            op["bad"] = 1
        if failing and r.random() < 0.05:
            op["export"] = r.choice(["pandas", "csv", "", "JSON"])
        ops.append(op)
    return ops


def gen_clock(r):
    start = r.choice([9.5e8, 1.1e9, 1.7e9]) + r.randint(0, 10 ** 7) + r.choice([0.0, 0.5, 0.123456, 0.999999])
    kind = r.choice(["stall", "stall", "tick", "back", "repeat", "coarse", "micro", "jump", "dst"])
    steps = {"stall": [0.0], "tick": [1.0], "back": [0.0, -1.0, 1.0], "repeat": [0.0, 0.000001, -0.000001], "coarse": [0.0] * 7 + [1.0],
             "micro": [0.000001], "jump": [3600.0, -3600.0], "dst": [0.0, 0.0, -3600.0, 1800.0, 1800.0]}[kind]
    return {"start": round(start, 6), "steps": steps, "kind": kind}


class Base(Prop):
    LEVEL = "exploration"
    REAL = ["niapy.Runner", "every optimiser and Task", "pandas / openpyxl writers", "real files in a scratch directory"]
    STUB = ["objective functions of half of the cells", "clock (datetime, time)", "disk faults (file objects and os calls wrapped)", "thread scheduler",
            "operating-system entropy and global generators"]

    def shrink_actors(self, scn):
        ac = scn["actors"]
        if len(ac) > 1:
            for k in range(len(ac)):
                yield dict(scn, actors=ac[:k] + ac[k + 1:])
        for k, a in enumerate(ac):
            def put(**kw):
                b = dict(a, **kw)
                return dict(scn, actors=ac[:k] + [{x: y for x, y in b.items() if y is not None}] + ac[k + 1:])
            ops = a["ops"]
            for j in range(len(ops)):
                if len(ops) > 1:
                    yield put(ops=ops[:j] + ops[j + 1:])
            for key in ("faults", "disk", "crash_tick", "tuple"):
                if a.get(key):
                    yield put(**{key: None})
                    if isinstance(a[key], list) and len(a[key]) > 1:
                        for j in range(len(a[key])):
                            yield put(**{key: a[key][:j] + a[key][j + 1:]})
            c = a["cfg"]
            for key in ("algs", "probs"):
                if len(c[key]) > 1:
                    for j in range(len(c[key])):
                        yield put(cfg=dict(c, **{key: c[key][:j] + c[key][j + 1:]}))
            if c["runs"] > 1:
                yield put(cfg=dict(c, runs=1))
            for v in (1, c["max_evals"] // 2):
                if 1 <= v < c["max_evals"]:
                    yield put(cfg=dict(c, max_evals=v))
            for j, op in enumerate(ops):
                for key in ("verbose", "edit", "bad"):
                    if key in op:
                        yield put(ops=ops[:j] + [{x: y for x, y in op.items() if x != key}] + ops[j + 1:])


class Matrix(Base):
    """C13."""
    ID = "C13"
    N = {"quick": 1300, "thorough": 100000}
    CHUNK = 4
    TECHNIQUE = "deterministic simulation: seeded runner histories with failing cells, interrupts and edits, several runners interleaved by a seeded thread scheduler; every cell replayed directly"
    RULE = ("scenario i is drawn from PRNG(property, seed, i): 1-3 runners with their algorithms, problems, repetitions, operations, edits and faults; "
            "distinct = distinct digests of results and evaluation histories; non-trivial when a cell was evaluated")
    STATES = "(optimiser, given by name or object, problem kind, thread or main, how the execution ended) tuples reached"

    def gen(self, r, i, tier):
        n = r.choice([1, 1, 1, 2, 3])
        actors = []
        for k in range(n):
            cfg = gen_cfg(r, i if k == 0 else None, "abc"[k])
            a = {"cfg": cfg, "ops": gen_ops(r, cfg, True, True)}
            if r.random() < 0.35:
                cells = max(1, len(cfg["algs"]) * cfg["runs"])
                a["faults"] = [{"prob": r.randrange(3), "at": r.randint(0, cells * cfg["max_evals"]), "kind": "raise:" + pick_exc(r, "eval")} for _ in range(r.choice([1, 1, 2]))]
            if n == 1 and r.random() < 0.12:
                a["crash_tick"] = r.randint(1, r.choice([200, 5000, 40000]))
            if r.random() < 0.15:
                a["tuple"] = 1
            actors.append(a)
        if n == 1 and r.random() < 0.05:
            # many repetitions of small cells
            c = actors[0]["cfg"]
            c["runs"], c["max_evals"] = r.randint(9, 25), r.randint(1, 15)
            c["probs"] = c["probs"][:2]
            actors[0]["ops"] = actors[0]["ops"][:2]
        scn = {"actors": actors, "clock": gen_clock(r), "mode": "main"}
        if n > 1 or r.random() < 0.12:
            scn["mode"] = "threads"
            scn["policy"] = sched.gen_policy(r, fine=0.3)
            scn["share"] = r.random() < 0.5
            for a in actors:
                a["cfg"]["max_evals"] = min(a["cfg"]["max_evals"], 30)
        return scn

    def shrink(self, scn):
        if scn["mode"] == "threads":
            if "seed" in scn["policy"]:
                s = self.play(scn, Result())[1]
                if s is not None:
                    yield dict(scn, policy=s.explicit())
            else:
                for p in sched.shrink_policy(scn["policy"]):
                    yield dict(scn, policy=p)
        yield from self.shrink_actors(scn)

    def play(self, scn, res):
        ambient.pin("runner")
        s = sched.Scheduler(scn["policy"], budget=3_000_000) if scn["mode"] == "threads" else None
        point = s.point if s is not None else None
        rec = Recorder([a["cfg"] for a in scn["actors"]])
        actors = []
        try:
            with world.World(scn["clock"], point) as w:
                module = world.load_runner()
                shared = {} if scn.get("share") else None
                actors = [Actor(a, module, rec, shared, point) for a in scn["actors"]]

                def body(a):
                    w.actor(None)
                    for op in a.spec["ops"]:
                        r = a.operate(op)
                        r["nl"] = {prob_key(p): list(rec.log(PROBLEMS[(p.get("name") or p["inst"]).lower()])) for p in a.cfg["probs"] if "spec" not in p}
                if s is None:
                    a = actors[0]
                    m = Meter(12_000_000, a.spec.get("crash_tick"))
                    with m:
                        try:
                            body(a)
                        except StepBudgetExceeded:
                            pass
                    res.ticks += m.ticks
                    a.crash = m.crash_exc
                else:
                    s.run([lambda a=a: body(a) for a in actors])
                    res.ticks += s.steps
                    for a, t in zip(actors, s.threads):
                        a.crash = None
                        if t.exc is not None and not isinstance(t.exc, StepBudgetExceeded):
                            raise t.exc
                rec.on = False
                self.look(scn, res, w, actors, s)
        finally:
            rec.close()
        return actors, s

    def look(self, scn, res, w, actors, s):
        h = hashlib.sha1()
        if s is not None:
            res.faults["context-switches"] += len(s.switches)
            h.update(repr((s.first, s.switches)).encode())
        for k, a in enumerate(actors):
            for j, r in enumerate(a.done):
                res.runs += 1
                if r.get("exceeded") or "logs" not in r or "nl" not in r:
                    res.inconclusive += 1
                    continue
                ended = "returned" if r["returned"] else type(r["exc"]).__name__
                for g in r["now"]["algs"]:
                    for p in r["now"]["probs"]:
                        res.states.add((alg_key(g), "name" in g, "spec" in p, scn["mode"], ended))
                h.update(repr((ended, r["logs"], r["nlogs"], r["res"] is None or [[(q, [(None if x is None else np.asarray(x).tolist(), f) for x, f in c]) for q, c in d.items()] for d in r["copy"].values()])).encode())
                if isinstance(r["exc"], AsyncInterrupt):
                    res.faults["async-interrupt"] += 1
                    if r["exc"] is not a.crash:
                        res.add("failure-changed:Runner", "another interrupt than the one delivered arrived")
                    continue
                if a.crash is not None and j == 0 and r["returned"] and a.crash is not r["exc"] and len(a.done) == 1:
                    res.add("interrupt-swallowed:Runner", "an interrupt during the experiment was swallowed")
                    continue
                if a.crash is not None:
                    # which execution the interrupt hit cannot be told from outside when it was not raised
                    if not any(isinstance(q["exc"], AsyncInterrupt) for q in a.done):
                        res.add("interrupt-swallowed:Runner", "an interrupt during the experiment was swallowed")
                        continue
                judge_matrix(a, r, lambda sig, msg, k=k, j=j: res.add("%s:Runner" % sig, "runner %d, execution %d: %s" % (k, j + 1, msg)))
                if "copy" in r and not self.equal(r["res"], r["copy"]):
                    res.add("results-changed:Runner", "runner %d: the results returned by execution %d changed afterwards" % (k, j + 1))
                for f in a.spec.get("faults") or []:
                    pass
            for q in a.probs.values():
                res.evals += len(q.log)
                for kind, c in q.fired.items():
                    res.faults[kind] += c
        res.nontrivial = any(r.get("logs") and any(r["logs"].values()) or r.get("nlogs") and any(r["nlogs"].values()) for a in actors for r in a.done)
        res.digest = h.hexdigest()

    @staticmethod
    def equal(a, b):
        return set(a) == set(b) and all(set(a[k]) == set(b[k]) and all(len(a[k][q]) == len(b[k][q]) and all(map(same_cell, a[k][q], b[k][q])) for q in a[k]) for k in a)

    def execute(self, scn):
        res = Result()
        self.play(scn, res)
        return res


# exports ---------------------------------------------------------------------
def close(u, v):
    if u is None or v is None:
        w = v if u is None else u
        return w is None or not math.isfinite(w)
    if not (math.isfinite(u) and math.isfinite(v)):
        return same(float(u), float(v))
    return abs(u - v) <= 1e-9 * max(1.0, abs(u), abs(v))


def reads_back(data, ext, results):
    """None when the file holds exactly these results, else why not."""
    try:
        if ext == ".pkl":
            df = pd.read_pickle(io.BytesIO(data))
            got = {str(c): {str(p): df[c][p] for p in df.index} for c in df.columns}
        elif ext == ".json":
            got = json.loads(data.decode("utf8"))
        else:
            df = pd.read_excel(io.BytesIO(data), index_col=0, keep_default_na=False)
            got = {str(c): {str(p): df[c][p] for p in df.index} for c in df.columns}
    except Exception as e:
        return "it cannot be read back: %s: %s" % (type(e).__name__, str(e)[:200])
    if set(got) != set(results):
        return "it holds algorithms %s, the results %s" % (sorted(got), sorted(results))
    for a in results:
        if set(got[a]) != set(results[a]):
            return "for %s it holds problems %s, the results %s" % (a, sorted(got[a]), sorted(results[a]))
        for p in results[a]:
            want, have = results[a][p], got[a][p]
            if ext == ".xlsx":
                if str(want) != have:
                    return "for %s on %s it holds %r, the results are %r" % (a, p, have, str(want))
                continue
            if len(have) != len(want):
                return "for %s on %s it holds %d results, not %d" % (a, p, len(have), len(want))
            for (x, f), (y, g) in zip(want, have):
                if ext == ".pkl":
                    ok = same_cell((x, f), (y, g))
                else:
                    ok = (x is None) == (y is None) and (x is None or (len(x) == len(y) and all(close(u, v) for u, v in zip(x, y)))) and close(f, g)
                if not ok:
                    return "for %s on %s it holds %r, the result is %r" % (a, p, (y, g), (x, f))
    return None


DISK = ["enospc", "eio", "eacces", "erofs", "emfile", "short", "torn", "crash", "interrupt", "edquot"]


class Exports(Base):
    """C14."""
    ID = "C14"
    N = {"quick": 1300, "thorough": 150000}
    CHUNK = 4
    TECHNIQUE = "deterministic simulation: real exports on a faulty simulated disk and clock, crash and restart, concurrent runners; files read back and compared with the results"
    RULE = ("scenario i is drawn from PRNG(property, seed, i): sessions (process lifetimes) of 1-3 runners, clock plan, disk fault plan, thread schedule; "
            "distinct = distinct digests of disk operations and file contents; non-trivial when at least one export was attempted")
    STATES = "(export format, disk fault and operation, clock kind, concurrency, how it ended) tuples reached"

    def gen(self, r, i, tier):
        sessions = []
        for _ in range(r.choice([1, 2, 2, 3])):
            n = r.choice([1, 1, 2, 3])
            mode = "seq" if n == 1 or r.random() < 0.35 else r.choice(["threads", "procs"])
            actors = []
            for k in range(n):
                cfg = gen_cfg(r, None, "abc"[k], small=True)
                a = {"cfg": cfg, "ops": gen_ops(r, cfg, True, False)}
                if r.random() < 0.5:
                    a["disk"] = [{"at": r.choice([r.randint(0, 3), r.randint(0, 8), r.randint(0, 40)]), "kind": r.choice(DISK)} for _ in range(r.choice([1, 1, 2]))]
                if r.random() < 0.08:
                    a["faults"] = [{"prob": 0, "at": r.randint(0, 20), "kind": "raise:" + pick_exc(r, "eval")}]
                actors.append(a)
            s = {"mode": mode, "actors": actors}
            if mode != "seq":
                s["policy"] = sched.gen_policy(r, fine=0.6)
            sessions.append(s)
        scn = {"sessions": sessions, "clock": gen_clock(r)}
        if r.random() < 0.05:
            # many exports in one process
            cfg = gen_cfg(r, None, "a", small=True)
            cfg["max_evals"], cfg["runs"] = r.randint(1, 5), 1
            f = r.choice(["json", "dataframe", "excel"])
            sessions[:] = [{"mode": "seq", "actors": [{"cfg": cfg, "ops": [{"export": f} for _ in range(r.randint(9, 30))]}]}] + sessions[:1]
        if r.random() < 0.25:
            scn["same"] = 1     # the clock restarts at the same reading in every session
        if r.random() < 0.2:
            scn["old"] = r.choice(["foreign", "dir"])
        return scn

    def shrink(self, scn):
        ss = scn["sessions"]
        for k in range(len(ss)):
            if len(ss) > 1:
                yield dict(scn, sessions=ss[:k] + ss[k + 1:])
        for key in ("old", "same"):
            if key in scn:
                yield {x: y for x, y in scn.items() if x != key}
        for k, s in enumerate(ss):
            for t in self.shrink_actors(s):
                yield dict(scn, sessions=ss[:k] + [t] + ss[k + 1:])
            if s["mode"] != "seq":
                yield dict(scn, sessions=ss[:k] + [{"mode": "seq", "actors": s["actors"]}] + ss[k + 1:])
                if "seed" in s["policy"]:
                    res = Result()
                    self.play(scn, res)
                    if k < len(self.explicit) and self.explicit[k]:
                        yield dict(scn, sessions=ss[:k] + [dict(s, policy=self.explicit[k])] + ss[k + 1:])
                else:
                    for p in sched.shrink_policy(s["policy"]):
                        yield dict(scn, sessions=ss[:k] + [dict(s, policy=p)] + ss[k + 1:])

    def execute(self, scn):
        res = Result()
        self.play(scn, res)
        return res

    def play(self, scn, res):
        self.explicit = []
        cfgs = [a["cfg"] for s in scn["sessions"] for a in s["actors"]]
        rec = Recorder(cfgs)
        h = hashlib.sha1()
        ambient.pin("exports")
        try:
            with world.World(scn["clock"]) as w:
                self.exported = {}      # path -> content
                if scn.get("old") == "foreign":
                    w.put("export/notes.txt", b"keep me")
                    self.exported["export/notes.txt"] = b"keep me"
                elif scn.get("old") == "dir":
                    w.put("export/2026/old.json", b"{}")
                    self.exported["export/2026/old.json"] = b"{}"
                for k, s in enumerate(scn["sessions"]):
                    if scn.get("same"):
                        w.clock.now = scn["clock"]["start"]
                        w.clock.k = 0
                    if not self.session(scn, s, k, w, rec, res, h):
                        break
                for kind, c in w.fired.items():
                    res.faults[kind] += c
                res.faults["clock:" + scn["clock"]["kind"]] += w.clock.reads
                h.update(repr(w.trace).encode())
                for p, d in sorted(w.files().items()):
                    h.update(p.encode())
                    if not p.endswith(".xlsx"):
                        h.update(d)
        finally:
            rec.close()
        res.digest = h.hexdigest()

    def session(self, scn, s, k, w, rec, res, h):
        sc = sched.Scheduler(s["policy"], budget=2_000_000) if s["mode"] != "seq" else None
        w.point = sc.point if sc is not None else (lambda: None)
        module = world.load_runner()
        mods = [world.load_runner() if s["mode"] == "procs" else module for _ in s["actors"]]
        actors = [Actor(a, m, rec, None, None) for a, m in zip(s["actors"], mods)]
        before = w.files()
        claims, failures = [], [0]
        viol = []

        def body(a, n):
            w.actor(a.spec.get("disk"))
            me = w.me()
            for j, op in enumerate(a.spec["ops"]):
                if me["dead"]:
                    failures[0] += 1
                    break
                start = w.files()
                f0 = len(me["fired"])
                r = a.operate(op)
                res.runs += 1
                fired = me["fired"][f0:]
                failing = [f for f in fired if f[2] != "short"]
                where = "session %d, runner %d, export %d (%s)" % (k + 1, n + 1, j + 1, op["export"])
                ended = "returned" if r["returned"] else type(r["exc"]).__name__
                res.states.add((op["export"], fired[0][1:] if fired else None, scn["clock"]["kind"], s["mode"], ended))
                if r["returned"]:
                    files = w.files()
                    ext = EXT[op["export"]]
                    cand = [p for p in sorted(files) if p not in start and p not in self.exported and p.endswith(ext)]
                    why = "no new %s file" % ext
                    for p in cand:
                        why = reads_back(files[p], ext, r["res"])
                        if why is None:
                            self.exported[p] = files[p]
                            claims.append(p)
                            break
                        why = "%s: %s" % (p, why)
                    else:
                        sig = "swallowed" if failing else "incomplete"
                        if any(f[2] == "short" for f in fired) and not failing:
                            sig = "short-write"
                        viol.append((sig, "%s returned%s, but %s" % (where, " although %s" % (failing,) if failing else "", why)))
                    if s["mode"] == "seq":
                        new = [p for p in files if p not in start]
                        if len(new) != 1 and why is None and not failing:
                            viol.append(("extra-files", "%s left %d new files: %s" % (where, len(new), sorted(new))))
                else:
                    failures[0] += 1
                    failed_cell = any(p.last_exc is not None for p in a.probs.values())
                    if not failing and not failed_cell and not (me["dead"] or any(x["dead"] for x in w.actors.values())):
                        viol.append(("spurious-failure", "%s raised %r although nothing failed%s" % (where, r["exc"], " (a short write)" if fired else "")))
                    if isinstance(r["exc"], world.Crash) or me["dead"]:
                        if s["mode"] == "threads":
                            for x in w.actors.values():
                                x["dead"] = x["dead"] or me["dead"]
                        break
                self.unchanged(w, viol, where)

        if sc is None:
            for n, a in enumerate(actors):
                w.actors.clear()
                with Meter(12_000_000) as m:
                    try:
                        body(a, n)
                    except StepBudgetExceeded:
                        viol.append(("no-progress", "session %d, runner %d makes no progress" % (k + 1, n + 1)))
                res.ticks += m.ticks
                if (w.me() or {}).get("dead"):
                    break           # the whole process is gone
            self.explicit.append(None)
        else:
            w.actors.clear()
            sc.run([lambda a=a, n=n: body(a, n) for n, a in enumerate(actors)])
            res.ticks += sc.steps
            res.faults["context-switches"] += len(sc.switches)
            h.update(repr((sc.first, sc.switches)).encode())
            self.explicit.append(sc.explicit())
            if sc.over:
                viol.append(("no-progress", "session %d makes no progress" % (k + 1)))
            else:
                for t in sc.threads:
                    if t.exc is not None:
                        raise t.exc
        w.actors.clear()
        after = w.files()
        if not failures[0] and not viol:
            new = [p for p in after if p not in before]
            if sorted(new) != sorted(claims):
                viol.append(("extra-files", "session %d exported %d results, %d new files exist: %s" % (k + 1, len(claims), len(new), sorted(new))))
        self.unchanged(w, viol, "session %d" % (k + 1))
        for a in actors:
            for q in a.probs.values():
                res.evals += len(q.log)
                for kind, c in q.fired.items():
                    res.faults[kind] += c
        res.nontrivial = True
        for sig, msg in viol[:3]:
            res.add("%s:export" % sig, msg)
        return not viol

    def unchanged(self, w, viol, where):
        files = w.files()
        for p, d in self.exported.items():
            if files.get(p) != d:
                viol.append(("overwritten", "%s: the earlier export %s was %s" % (where, p, "removed" if p not in files else "changed")))
                return
