"""Histories and interleavings of factory lookups (C16) and benchmark evaluations (C18)."""
import hashlib
import math
import os
import pickle

import numpy as np

from .. import algos, ambient, engine, gen, prng, sched
from ..harness import Prop, Result
from ..meter import Meter
from niapy import problems as _problems
from niapy.algorithms import basic as _basic, modified as _modified, other as _other
from niapy.algorithms.algorithm import Algorithm
from niapy.problems import Problem
from niapy.task import Task
from niapy.util.factory import get_algorithm, get_problem
from .compare import freeze, same

PROBLEMS = {
    "ackley": "Ackley", "alpine1": "Alpine1", "alpine2": "Alpine2", "bent_cigar": "BentCigar", "chung_reynolds": "ChungReynolds",
    "cosine_mixture": "CosineMixture", "csendes": "Csendes", "discus": "Discus", "dixon_price": "DixonPrice", "elliptic": "Elliptic",
    "conditioned_elliptic": "Elliptic", "expanded_griewank_plus_rosenbrock": "ExpandedGriewankPlusRosenbrock",
    "expanded_schaffer": "ExpandedSchaffer", "griewank": "Griewank", "happy_cat": "HappyCat", "hgbat": "HGBat", "katsuura": "Katsuura",
    "levy": "Levy", "michalewicz": "Michalewicz", "modified_schwefel": "ModifiedSchwefel", "perm": "Perm", "pinter": "Pinter",
    "powell": "Powell", "qing": "Qing", "quintic": "Quintic", "rastrigin": "Rastrigin", "ridge": "Ridge", "rosenbrock": "Rosenbrock",
    "salomon": "Salomon", "schaffer2": "SchafferN2", "schaffer4": "SchafferN4", "schumer_steiglitz": "SchumerSteiglitz",
    "schwefel": "Schwefel", "schwefel221": "Schwefel221", "schwefel222": "Schwefel222", "sphere": "Sphere", "sphere2": "Sphere2",
    "sphere3": "Sphere3", "step": "Step", "step2": "Step2", "step3": "Step3", "stepint": "Stepint", "styblinski_tang": "StyblinskiTang",
    "sum_squares": "SumSquares", "trid": "Trid", "weierstrass": "Weierstrass", "whitley": "Whitley", "zakharov": "Zakharov"}
NO_BOUNDS = {"perm", "trid"}
FIXED_DIM = {"schaffer2", "schaffer4"}
def alg_class(name):
    return algos.CLASSES[name]


def prob_class(name):
    return getattr(_problems, PROBLEMS[name.lower()])


def gen_prob_kwargs(r, name, bounds=0.4):
    kw = {}
    n = name.lower()
    if n not in FIXED_DIM and r.random() < 0.8:
        kw["dimension"] = r.choice([2, 2, 3, 4, 5, 7, 10] if n != "katsuura" else [2, 3, 4])
    if n not in NO_BOUNDS and r.random() < bounds:
        kw["lower"], kw["upper"] = r.choice([(-1.5, 2.5), (0.5, 3.0), (-40.0, -3.0), (-5, 5), ([-1.0, -2.0], [3.0, 2.0])])
    extra = {"ackley": {"a": 10.0, "b": 0.3}, "michalewicz": {"m": 4}, "weierstrass": {"k_max": 5, "a": 0.4}, "perm": {"beta": 2.0},
             "happy_cat": {"alpha": 0.5}}.get(n)
    if extra and r.random() < 0.4:
        kw.update(extra)
    return kw


class Lookups(Prop):
    """C16: lookups by name are total, stateless and give new independent objects."""
    ID = "C16"
    N = {"quick": 2000, "thorough": 80000}
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation: seeded histories of lookups, failures and object mutations in 1-4 threads preempted at source lines, compared with direct construction"
    RULE = ("scenario i is drawn from PRNG(property, seed, i): 1-4 threads of lookups / failures / mutations and a scheduling policy; "
            "distinct = distinct history digests; non-trivial when at least two lookups succeeded")
    STATES = "(operation kind, name) pairs reached"
    REAL = ["niapy.util.factory, every algorithm and problem class, Task construction and runs by name"]
    STUB = ["thread scheduler", "operating-system entropy"]
    names = None

    def gen(self, r, i, tier):
        if Lookups.names is None:
            Lookups.names = [n for n in algos.CLASSES if n in REGISTERED]
        threads = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            ops = []
            pool_a = r.sample(Lookups.names, 3)
            pool_p = r.sample(sorted(PROBLEMS), 3)
            long = r.random() < 0.03 and not threads
            for _ in range(r.randint(4, 14) if not long else r.randint(60, 200)):
                u = r.random() * (0.9 if long else 1.0)
                if u < 0.25:
                    n = r.choice(pool_a)
                    kw = algos.gen_params(r, n) if r.random() < 0.6 else {}
                    op = {"op": "alg", "name": n, "kw": kw}
                    if r.random() < 0.5:
                        op["seed"] = r.randint(0, 10 ** 6)
                elif u < 0.55:
                    n = r.choice(pool_p)
                    op = {"op": "prob", "name": r.choice([n, n, n.upper(), n.title()]), "kw": gen_prob_kwargs(r, n)}
                elif u < 0.65:
                    op = {"op": "bad", "what": r.choice(["alg", "prob", "task"]),
                          "name": r.choice(["NoSuch", "", "Sphere ", "ackley2", "batalgorithm", "__class__", "problem", "Algorithm"])}
                elif u < 0.74:
                    op = {"op": "fail", "what": r.choice(["alg", "prob"]), "name": None}
                    op["name"] = r.choice(pool_a if op["what"] == "alg" else pool_p)
                elif u < 0.9:
                    op = {"op": "mutate", "k": r.randint(0, 30)}
                else:
                    n = r.choice(pool_p)
                    kw = gen_prob_kwargs(r, n)
                    kw = {k: v for k, v in kw.items() if k in ("dimension", "lower", "upper")}
                    if n in FIXED_DIM:
                        kw.pop("dimension", None)
                    op = {"op": "task", "name": n, "kw": kw, "alg": r.choice(pool_a), "seed": r.randint(0, 10 ** 6), "evals": r.randint(5, 60)}
                ops.append(op)
            threads.append(ops)
        return {"threads": threads, "policy": sched.gen_policy(r)}

    def shrink(self, scn):
        ts = scn["threads"]
        if len(ts) > 1:
            for k in range(len(ts)):
                yield dict(scn, threads=ts[:k] + ts[k + 1:])
        for k, ops in enumerate(ts):
            n = len(ops)
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    yield dict(scn, threads=ts[:k] + [ops[:a] + ops[a + size:]] + ts[k + 1:])
                size //= 2
        if "seed" in scn["policy"]:
            yield dict(scn, policy=self.together(scn)[0].explicit())
        else:
            for p in sched.shrink_policy(scn["policy"]):
                yield dict(scn, policy=p)

    def execute(self, scn):
        res = Result()
        s, got = self.together(scn)
        h = hashlib.sha1()
        objs = []
        for k, hist in enumerate(got):
            for j, ev in enumerate(hist):
                h.update(repr((k, j, ev["op"]["op"], ev["sum"])).encode())
                for sig, msg in ev["bad"]:
                    res.add(sig, "thread %d, operation %d (%s): %s" % (k, j, ev["op"], msg))
                objs += ev["objs"]
                res.states.add((ev["op"]["op"], ev["op"].get("name")))
                res.runs += 1
                if ev["op"]["op"] in ("bad", "fail"):
                    res.faults["lookup:" + ev["op"]["op"]] += 1
        ids = [id(o) for o in objs]
        if len(set(ids)) != len(ids):
            res.add("same-object", "two lookups returned the very same object")
        for k, t in enumerate(s.threads):
            if t.exc is not None:
                res.add("lookup-failed", "thread %d ended with %r" % (k, t.exc))
        # nothing mutable may be shared between the objects handed out
        owner = {}
        for o in objs:
            for n, v in sorted(vars(o).items()):
                if isinstance(v, (np.random.Generator, dict, list, bytearray, set)) or (isinstance(v, np.ndarray) and v.flags.writeable):
                    if id(v) in owner and owner[id(v)][0] is not o:
                        res.add("shared-state", "objects for two lookups share their attribute %s" % n)
                    owner[id(v)] = (o, v)
        res.faults["context-switches"] += len(s.switches)
        res.ticks = s.steps
        res.nontrivial = len(objs) > 1
        res.digest = h.hexdigest()
        return res

    def together(self, scn):
        ambient.pin(3)
        s = sched.Scheduler(scn["policy"])
        got = [[] for _ in scn["threads"]]
        bodies = [lambda k=k, ops=ops: [self.step(op, got[k]) for op in ops] for k, ops in enumerate(scn["threads"])]
        s.run(bodies)
        return s, got

    def step(self, op, hist):
        ev = {"op": op, "bad": [], "objs": [], "sum": None}
        hist.append(ev)
        getattr(self, "do_" + op["op"])(op, ev, hist)

    def do_alg(self, op, ev, hist):
        kw = algos.build_params(op["kw"])
        if "seed" in op:
            kw["seed"] = op["seed"]
        want = alg_class(op["name"])(**kw)
        try:
            o = get_algorithm(op["name"], **kw)
        except Exception as e:  # noqa: B902
            ev["bad"].append(("lookup-failed", "raised %r" % (e,)))
            return
        if type(o) is not alg_class(op["name"]):
            ev["bad"].append(("wrong-class", "gave a %s" % type(o).__name__))
            return
        a, b = freeze(o.get_parameters()), freeze(want.get_parameters())
        if a != b:
            ev["bad"].append(("wrong-arguments", "parameters %r, constructing directly gives %r" % (a, b)))
        if "seed" in op and o.rng.bit_generator.state != want.rng.bit_generator.state:
            ev["bad"].append(("wrong-arguments", "the random state is not that of the given seed"))
        ev["objs"].append(o)
        ev["sum"] = a[:1] + (type(o).__name__,)

    def do_prob(self, op, ev, hist):
        kw = dict(op["kw"])
        want = prob_class(op["name"])(**kw)
        try:
            o = get_problem(op["name"], **kw)
        except Exception as e:  # noqa: B902
            ev["bad"].append(("lookup-failed", "raised %r" % (e,)))
            return
        if type(o) is not prob_class(op["name"]):
            ev["bad"].append(("wrong-class", "gave a %s" % type(o).__name__))
            return
        d = self.problem_diff(o, want)
        if d:
            ev["bad"].append(("wrong-arguments", d))
        ev["objs"].append(o)
        ev["sum"] = (type(o).__name__, o.dimension)

    @staticmethod
    def problem_diff(o, want):
        if o.dimension != want.dimension or not np.array_equal(o.lower, want.lower) or not np.array_equal(o.upper, want.upper):
            return "dimension and bounds %r, constructing directly gives %r" % (
                (o.dimension, np.asarray(o.lower).tolist(), np.asarray(o.upper).tolist()),
                (want.dimension, np.asarray(want.lower).tolist(), np.asarray(want.upper).tolist()))
        x = np.asarray(want.lower, dtype=float) + 0.37 * (np.asarray(want.upper, dtype=float) - np.asarray(want.lower, dtype=float))
        u, v = Purity.value(o, x.copy()), Purity.value(want, x.copy())
        if not (same(u, v) if isinstance(u, float) and isinstance(v, float) else u == v):
            return "evaluates a point to %r, a directly constructed problem to %r" % (u, v)
        return None

    def do_bad(self, op, ev, hist):
        try:
            if op["what"] == "alg":
                o = get_algorithm(op["name"])
            elif op["what"] == "prob":
                o = get_problem(op["name"])
            else:
                o = Task(problem=op["name"], max_evals=10)
        except KeyError:
            ev["sum"] = "KeyError"
            return
        except Exception as e:  # noqa: B902
            ev["bad"].append(("unknown-name", "an unknown name raised %r instead of KeyError" % (e,)))
            return
        ev["bad"].append(("unknown-name", "an unknown name gave %r" % (o,)))

    def do_fail(self, op, ev, hist):
        """The constructor itself fails; the lookup reports exactly that and the name stays usable."""
        if op["what"] == "alg":
            def direct():
                return alg_class(op["name"])(callbacks=5)

            def via():
                return get_algorithm(op["name"], callbacks=5)
        else:
            def direct():
                return prob_class(op["name"])(dimension="x", lower={}, upper={})

            def via():
                return get_problem(op["name"], dimension="x", lower={}, upper={})
        a = b = None
        try:
            direct()
        except Exception as e:  # noqa: B902
            a = e
        try:
            via()
        except Exception as e:  # noqa: B902
            b = e
        if type(a) is not type(b):
            ev["bad"].append(("constructor-failure", "direct construction ended with %r, the lookup with %r" % (a, b)))
        ev["sum"] = type(b).__name__

    def do_mutate(self, op, ev, hist):
        """A user changes an object he was given; nobody else may notice."""
        objs = [o for e in hist for o in e["objs"]]
        if not objs:
            return
        o = objs[op["k"] % len(objs)]
        if isinstance(o, Algorithm):
            o.population_size = 3
            o.rng.random(5)
            o.callbacks.append(engine.Recorder(None, None))
        else:
            for b in (o.lower, o.upper):
                if isinstance(b, np.ndarray) and b.flags.writeable:
                    b[...] = 1
        ev["sum"] = type(o).__name__

    def do_task(self, op, ev, hist):
        """A task made from a name behaves as one given a new object of that name."""
        kw = dict(op["kw"])
        t1 = Task(problem=op["name"], max_evals=op["evals"], **kw)
        t2 = Task(problem=prob_class(op["name"])(**kw), max_evals=op["evals"])
        if type(t1.problem) is not prob_class(op["name"]):
            ev["bad"].append(("wrong-class", "the task's problem is a %s" % type(t1.problem).__name__))
            return
        d = self.problem_diff(t1.problem, t2.problem)
        if d:
            ev["bad"].append(("wrong-arguments", "task by name: " + d))
        out = []
        for t in (t1, t2):
            a = alg_class(op["alg"])(seed=op["seed"])
            x, f = a.run(t)
            out.append((None if x is None else x.tobytes(), None if f is None else float(f), t.evals, t.iters, type(a.exception).__name__))
        if out[0] != out[1]:
            ev["bad"].append(("task-differs", "a run on the task made from the name differs: %r / %r" % (out[0][1:], out[1][1:])))
        ev["objs"].append(t1.problem)
        ev["sum"] = out[0][1:]


REGISTERED = set(n for n in algos.CLASSES)


def _init_registered():
    # frozen list: classes that had a registered name when the check was written
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "registered.txt")) as f:
        REGISTERED.intersection_update(f.read().split())


_init_registered()


def point(r, lo, hi, dim):
    """A JSON-able description of an argument."""
    u = r.random()
    if u < 0.5:
        v = [round(float(lo[k] + (hi[k] - lo[k]) * r.random()), r.choice([1, 3, 12])) for k in range(dim)]
    elif u < 0.6:
        v = [float(lo[k]) if r.random() < 0.5 else float(hi[k]) for k in range(dim)]
    elif u < 0.7:
        v = [r.choice([0.0, 1.0, -1.0, 0.5]) for _ in range(dim)]
    elif u < 0.8:
        v = [float(2 * hi[k] + 1.0) * r.choice([1, -1]) for k in range(dim)]
    else:
        v = [r.uniform(-3, 3) for _ in range(dim)]
    return v


class Purity(Prop):
    """C18: evaluating a benchmark problem is pure whatever was evaluated before."""
    ID = "C18"
    N = {"quick": 4000, "thorough": 120000}
    CHUNK = 1
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation: seeded histories of evaluations over several problem instances in 1-4 threads preempted at source lines and bytecodes, compared with fresh instances in a pristine process"
    RULE = ("scenario i is drawn from PRNG(property, seed, i): instances (problem, dimension, bounds), evaluation sequences per thread, rejected calls "
            "and a scheduling policy; distinct = distinct history digests; non-trivial when at least two evaluations were made")
    STATES = "(problem, dimension, bounds form, threads) tuples reached"
    REAL = ["every registered benchmark problem and the Problem base class"]
    STUB = ["thread scheduler", "operating-system entropy and global generators"]

    def gen(self, r, i, tier):
        names = sorted(PROBLEMS)
        focus = names[i % len(names)]
        inst = []
        for k in range(r.choice([1, 2, 2, 3, 4])):
            n = focus if k == 0 or r.random() < 0.7 else r.choice(names)
            inst.append({"name": n, "kw": gen_prob_kwargs(r, n, bounds=0.3)})
        threads = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(r.randint(3, 12) if threads or r.random() >= 0.05 else r.randint(100, 700)):
                k = r.randrange(len(inst))
                u = r.random()
                if u < 0.08:
                    ops.append({"op": "reject", "i": k, "d": r.choice([-1, 1, 3])})
                elif u < 0.14:
                    ops.append({"op": "broken", "i": k, "how": r.choice(["str", "none", "nan"])})
                elif u < 0.2:
                    ops.append({"op": "doc", "i": k})
                elif u < 0.3 and ops:
                    prev = [o for o in ops if o["op"] == "eval"]
                    if prev:
                        ops.append(dict(r.choice(prev)))
                else:
                    n, kw = inst[k]["name"], inst[k]["kw"]
                    dim, lo, hi = self.shape(n, kw)
                    ops.append({"op": "eval", "i": k, "x": point(r, lo, hi, dim),
                                "form": r.choice(["array", "array", "readonly", "view", "call", "fortran"])})
            threads.append(ops)
        return {"inst": inst, "threads": threads, "policy": sched.gen_policy(r, fine=0.8), "instr": r.random() < 0.3}

    @staticmethod
    def shape(n, kw):
        p = prob_class(n)(**kw)
        return p.dimension, np.asarray(p.lower, dtype=float), np.asarray(p.upper, dtype=float)

    def shrink(self, scn):
        ts = scn["threads"]
        if len(ts) > 1:
            for k in range(len(ts)):
                yield dict(scn, threads=ts[:k] + ts[k + 1:])
        for k, ops in enumerate(ts):
            n = len(ops)
            size = max(1, n // 2)
            while size >= 1 and n > 0:
                for a in range(0, n, size):
                    yield dict(scn, threads=ts[:k] + [ops[:a] + ops[a + size:]] + ts[k + 1:])
                size //= 2
        if "seed" in scn["policy"]:
            yield dict(scn, policy=self.together(scn)[0].explicit())
        else:
            for p in sched.shrink_policy(scn["policy"]):
                yield dict(scn, policy=p)

    def reference(self, scn):
        """The values fresh instances give, one evaluation per instance, in a pristine process
        (a fork of this one that has evaluated nothing) and in the opposite order."""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                out = {}
                for k, ops in reversed(list(enumerate(scn["threads"]))):
                    for j, op in reversed(list(enumerate(ops))):
                        if op["op"] == "eval":
                            d = scn["inst"][op["i"]]
                            p = prob_class(d["name"])(**d["kw"])
                            out[(k, j)] = self.value(p, np.array(op["x"], dtype=float))
                        elif op["op"] == "doc":
                            d = scn["inst"][op["i"]]
                            out[(k, j)] = self.doc(prob_class(d["name"])(**d["kw"]))
                with os.fdopen(wfd, "wb") as f:
                    f.write(pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data)

    @staticmethod
    def value(p, x):
        try:
            return float(p.evaluate(x))
        except Exception as e:  # noqa: B902
            return type(e).__name__

    @staticmethod
    def doc(p):
        return (p.name(), p.latex_code() if hasattr(p, "latex_code") else None)

    def execute(self, scn):
        res = Result()
        ref = self.reference(scn)
        s, insts, got = self.together(scn)
        h = hashlib.sha1()
        nev = 0
        for k, hist in enumerate(got):
            for j, (op, val, bad) in enumerate(hist):
                n = scn["inst"][op["i"]]["name"]
                h.update(repr((k, j, val)).encode())
                if bad:
                    res.add("argument-changed:%s" % n, "thread %d operation %d: %s" % (k, j, bad))
                if op["op"] == "eval":
                    nev += 1
                    w = ref[(k, j)]
                    ok = same(val, w) if isinstance(val, float) and isinstance(w, float) else val == w
                    if not ok:
                        res.add("value-depends-on-history:%s" % n,
                                "thread %d operation %d: %s%r gave %r, a fresh instance in a pristine process gives %r" % (k, j, n, op["x"], val, w))
                elif op["op"] == "doc" and val != ref[(k, j)]:
                    res.add("value-depends-on-history:%s" % n, "name or description changed: %r / %r" % (val, ref[(k, j)]))
                elif op["op"] == "reject":
                    res.faults["rejected-point"] += 1
                    if val != "ValueError":
                        res.add("wrong-dimension-accepted:%s" % n, "a point of the wrong dimension gave %r" % (val,))
                elif op["op"] == "broken":
                    res.faults["failing-evaluation"] += 1
        for d, p, snap in insts:
            now = self.snap(p, snap)
            if now != snap:
                bad = sorted(k for k in snap if snap[k] != now.get(k))
                res.add("problem-changed:%s" % d["name"], "evaluating changed the problem's %s" % ", ".join(bad))
            res.states.add((d["name"], p.dimension, "lower" in d["kw"], len(scn["threads"])))
        res.runs = nev
        res.evals = nev
        res.ticks = s.steps
        res.faults["context-switches"] += len(s.switches)
        res.nontrivial = nev > 1
        res.digest = h.hexdigest()
        return res

    @staticmethod
    def snap(p, keys=None):
        return {k: freeze(v) for k, v in vars(p).items() if not k.startswith("_") and (keys is None or k in keys)}

    def together(self, scn):
        ambient.pin(5)
        insts = []
        for d in scn["inst"]:
            p = prob_class(d["name"])(**d["kw"])
            insts.append((d, p, self.snap(p)))
        got = [[] for _ in scn["threads"]]
        s = sched.Scheduler(scn["policy"], instructions=scn.get("instr", False))
        s.run([lambda k=k, ops=ops: [self.step(op, insts, got[k]) for op in ops] for k, ops in enumerate(scn["threads"])])
        for t in s.threads:
            if t.exc is not None:
                raise t.exc
        return s, insts, got

    def step(self, op, insts, hist):
        p = insts[op["i"]][1]
        bad = None
        if op["op"] == "eval":
            x = np.array(op["x"], dtype=float)
            form = op["form"]
            if form == "view":
                big = np.full((len(x), 3), 9.0)
                big[:, 1] = x
                y = big[:, 1]
            elif form == "fortran":
                y = np.asfortranarray(np.stack([x, x]))[0]
            else:
                y = x.copy()
                if form == "readonly":
                    y.flags.writeable = False
            try:
                val = float(p(y) if form == "call" else p.evaluate(y))
            except Exception as e:  # noqa: B902
                val = type(e).__name__
            if y.tobytes() != x.tobytes():
                bad = "the point handed to %s was changed from %r to %r" % (insts[op["i"]][0]["name"], x.tolist(), y.tolist())
        elif op["op"] == "doc":
            val = self.doc(p)
        else:
            if op["op"] == "reject":
                y = np.zeros(max(0, p.dimension + op["d"]))
            elif op["how"] == "str":
                y = np.array(["a"] * p.dimension, dtype=object)
            elif op["how"] == "none":
                y = np.array([None] * p.dimension, dtype=object)
            else:
                y = np.full(p.dimension, math.nan)
            try:
                val = float(p.evaluate(y))
                val = "value" if op["op"] == "broken" else val
            except Exception as e:  # noqa: B902
                val = type(e).__name__
        hist.append((op, val, bad))
