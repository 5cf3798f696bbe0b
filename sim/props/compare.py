"""Properties decided by comparing whole histories of two or more simulated executions."""
import copy
import json
import math
import os
import re
import subprocess
import sys
import threading

import numpy as np

from .. import algos, ambient, engine, env, gen, prng
from ..harness import Prop, Result
from ..objective import SimProblem
from .trace import TraceProp, gen_raise, state


def first_difference(a, b):
    """Where two evaluation logs part (human readable), or None."""
    for k, (p, q) in enumerate(zip(a, b)):
        if p[1].tobytes() != q[1].tobytes():
            return "evaluation %d got %r in one run, %r in the other" % (k + 1, p[1].tolist(), q[1].tolist())
        if p[3] != q[3] or not same(p[2], q[2]):
            return "evaluation %d returned %r / %r" % (k + 1, p[2], q[2])
    if len(a) != len(b):
        return "%d evaluations in one run, %d in the other" % (len(a), len(b))
    return None


def same(u, v):
    if u is None or v is None:
        return u is v
    return u == v or (math.isnan(u) and math.isnan(v))


def diff(o, p):
    """First observable difference between two outcomes (histories compared bit by bit)."""
    d = first_difference(o.log, p.log)
    if d:
        return d
    if o.returned != p.returned or type(o.exc) is not type(p.exc):
        return "one run ended with %r, the other with %r" % (o.exc or "a result", p.exc or "a result")
    if (o.x is None) != (p.x is None) or (o.x is not None and (o.x.tobytes() != p.x.tobytes() or not same(float(o.f), float(p.f)))):
        return "returned %r / %r" % (o.f, p.f)
    ev, ew = ([(e["where"], e["n"], e["calls"] - x.start, e.get("bf")) for e in x.rec.events] for x in (o, p))
    if ev != ew:
        k = next((k for k, (s, t) in enumerate(zip(ev, ew)) if s != t), min(len(ev), len(ew)))
        return "callback %d differs: %r / %r" % (k, ev[k:k + 1], ew[k:k + 1])
    return None


def prior_spec(r, like, related):
    """A spec for an earlier run in the same process."""
    if related:
        s = gen.gen_spec(r, name=like["alg"], w=(0.8, 0.1, 0.1), evals=(10, 250))
    else:
        s = gen.gen_spec(r, w=(0.8, 0.1, 0.1), evals=(10, 250))
    u = r.random()
    if u < 0.25:
        gen_raise(r, s)
    elif u < 0.45:
        s["crash_tick"] = r.randint(1, r.choice([60, 3000, 30000]))
    return s


CHILD = """
import json, sys
sys.path.insert(0, %r)
from sim import env
from sim.props.compare import child_main
child_main()
"""


def child_main():
    """Runs specs from stdin in the order given; prints their digests."""
    job = json.load(sys.stdin)
    out = []
    for k, s in enumerate(job["specs"]):
        s = dict(s, ambient=job["ambient"] + k)
        o = engine.simulate(s, ticks=job["ticks"])
        out.append([engine.digest(o), o.exceeded])
    print(json.dumps(out))


def in_new_interpreter(specs, hashseed, amb, ticks):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-c", CHILD % env.VERIF], input=json.dumps({"specs": specs, "ambient": amb, "ticks": ticks}),
                       capture_output=True, text=True, env=e, timeout=140)
    if p.returncode:
        raise RuntimeError("child interpreter failed: " + p.stderr[-800:])
    return json.loads(p.stdout.strip().splitlines()[-1])


class Seeded(TraceProp):
    """C07: a seeded run is a function of seed, configuration and problem."""
    ID = "C07"
    N = {"quick": 3000, "thorough": 120000}
    TECHNIQUE = "deterministic simulation: seeded ambient faults (entropy, clocks, global generators, hash seed, earlier and failed runs), bitwise history comparison"
    STATES = "(optimiser, kinds of ambient change applied, stop reason) tuples reached"
    MODES = ["ambient", "history", "thread", "child", "heap"]

    def gen(self, r, i, tier):
        if i % 150 == 75:
            # a batch compared with a new interpreter under another hash seed, in another order
            k = 16
            specs = [gen.gen_spec(r, (i // 150) * k + j, evals=(20, 250)) for j in range(k)]
            return {"spec": specs[0], "specs": specs, "hashseed": r.randint(1, 10 ** 6), "amb": r.randint(1, 10 ** 6),
                    "order": r.sample(range(k), k)}
        spec = gen.gen_spec(r, i, evals=(10, 600), w=(0.75, 0.1, 0.15))
        if r.random() < 0.2:
            spec["faults"] = [{"at": r.randint(0, 200), "kind": "inf" if spec["opt"] == "min" else "-inf"} for _ in range(r.randint(1, 3))]
        if r.random() < 0.15:
            gen_raise(r, spec)
        if r.random() < 0.08:
            return {"spec": spec, "modes": ["seeds"], "seeds": [r.randint(0, 2 ** 31) for _ in range(3)]}
        scn = {"spec": spec, "modes": sorted(set(r.choice(self.MODES) for _ in range(2))), "amb": r.randint(1, 10 ** 6)}
        if "history" in scn["modes"]:
            scn["priors"] = [prior_spec(r, spec, r.random() < 0.6) for _ in range(r.randint(1, 3))]
        return scn

    def shrink(self, scn):
        if "specs" in scn:
            k = len(scn["specs"])
            if k > 1:
                for half in (range(k // 2), range(k // 2, k)):
                    keep = list(half)
                    ss = [scn["specs"][j] for j in keep]
                    yield dict(scn, specs=ss, spec=ss[0], order=list(range(len(ss))))
            return
        for m in scn["modes"]:
            if len(scn["modes"]) > 1:
                yield dict(scn, modes=[x for x in scn["modes"] if x != m])
        pr = scn.get("priors", [])
        for k in range(len(pr)):
            if len(pr) > 1:
                yield dict(scn, priors=pr[:k] + pr[k + 1:])
        yield from super().shrink(scn)

    def execute(self, scn):
        res = Result()
        if "specs" in scn:
            return self.batch(scn, res)
        spec = scn["spec"]
        a = spec["alg"]
        base = engine.simulate(dict(spec, ambient=0))
        res.absorb(base)
        res.digest = engine.digest(base)
        if base.exceeded:
            return res
        if scn["modes"] == ["seeds"]:
            runs = [engine.simulate(dict(spec, seed=s)) for s in scn["seeds"]]
            for o in runs:
                res.absorb(o)
            logs = {tuple(x.tobytes() for _, x, _, _ in o.log) for o in runs + [base]}
            if len(logs) == 1 and len(base.log) >= 3 and not spec.get("faults"):
                res.add("seed-ignored:%s" % a, "seeds %r and %r give identical runs" % (spec["seed"], scn["seeds"]))
            res.probes["seed_variation"] += 1
            return res
        k = 0
        for mode in scn["modes"]:
            k += 1
            amb = scn["amb"] + k
            res.faults["ambient:" + mode] += 1
            if mode == "history":
                for p in scn["priors"]:
                    q = engine.simulate(dict(p, ambient=amb), ticks=2_000_000)
                    res.absorb(q)
                o = engine.simulate(dict(spec, ambient=amb + 7))
            elif mode == "ambient":
                o = self.skewed(spec, amb)
            elif mode == "heap":
                r = prng.make("heap", amb)
                junk = [bytearray(r.randint(1, 5000)) for _ in range(300)] + [object() for _ in range(r.randint(0, 3000))]
                o = engine.simulate(dict(spec, ambient=amb))
                del junk
            else:
                o = self.elsewhere(spec, mode, amb)
            res.absorb(o)
            d = diff(base, o) if mode not in ("thread", "child") else first_difference(base.log, o.log) or self.same_result(base, o)
            if d:
                res.add("not-reproducible:%s" % a, "under changed ambient state (%s): %s" % (mode, d))
        res.states.add((a, tuple(scn["modes"]), base.stop_reason()))
        return res

    @staticmethod
    def same_result(o, p):
        if o.returned and o.x is not None and (p.x is None or o.x.tobytes() != p.x.tobytes() or not same(float(o.f), float(p.f))):
            return "returned %r / %r" % (o.f, p.f)
        return None

    @staticmethod
    def skewed(spec, amb):
        ambient.pin(amb, clocks=True)
        try:
            return engine.simulate(spec, pin=False)
        finally:
            ambient.release()

    @staticmethod
    def elsewhere(spec, mode, amb):
        import multiprocessing as mp
        if mode == "child":
            cp = mp.current_process()
            old = cp.name
            cp.name = "Process-3"
            try:
                return engine.simulate(dict(spec, ambient=amb))
            finally:
                cp.name = old
        box = []
        t = threading.Thread(target=lambda: box.append(engine.simulate(dict(spec, ambient=amb))))
        t.start()
        t.join()
        return box[0]

    def batch(self, scn, res):
        ticks = 2_000_000
        here = []
        for s in scn["specs"]:
            o = engine.simulate(dict(s, ambient=0), ticks=ticks)
            res.absorb(o)
            here.append((engine.digest(o), o.exceeded))
        order = scn["order"]
        there = in_new_interpreter([scn["specs"][k] for k in order], scn["hashseed"], scn["amb"], ticks)
        res.faults["ambient:interpreter+hashseed"] += 1
        res.probes["specs_in_new_interpreter"] += len(order)
        for pos, k in enumerate(order):
            a = scn["specs"][k]["alg"]
            if not here[k][1] and not there[pos][1] and here[k][0] != there[pos][0]:
                res.add("not-reproducible:%s" % a, "in a new interpreter (PYTHONHASHSEED=%d) the run of %s differs" % (scn["hashseed"], a))
            res.states.add((a, "interpreter"))
        import hashlib
        res.digest = hashlib.sha1(repr(here).encode()).hexdigest()
        return res


def freeze(v):
    """A comparable deep snapshot of a parameter value."""
    if isinstance(v, np.ndarray) and v.dtype != object:
        return ("arr", v.shape, v.tobytes(), str(v.dtype))
    if isinstance(v, dict):
        return ("dict", tuple(sorted((repr(k), freeze(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple, np.ndarray)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(repr(x) for x in v)))
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return (type(v).__name__, repr(v))
    if callable(v):
        return ("fn", getattr(v, "__module__", ""), getattr(v, "__qualname__", repr(type(v))))
    return ("obj", id(v))


class Reuse(TraceProp):
    """C12: a used optimiser behaves as a fresh one with the same random state."""
    ID = "C12"
    N = {"quick": 3600, "thorough": 150000}
    TECHNIQUE = "deterministic simulation: seeded run histories with crash faults on one optimiser object, bitwise comparison with a fresh object in the same random state"
    STATES = "(optimiser, how the earlier runs ended, changed dimension / direction / bounds, stop reason) tuples reached"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(10, 500), w=(0.7, 0.15, 0.15))
        priors = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = {"problem": gen.gen_problem(r), "opt": r.choice(["min", "max"]), "repair": r.choice(gen.REPAIRS),
                 "params": dict(spec["params"]), "alg": spec["alg"]}
            if r.random() < 0.3:
                t["problem"] = dict(spec["problem"])
            gen.penalty(t)
            gen.gen_limits(r, spec["alg"], t, (0.7, 0.15, 0.15), (1, 300))
            if r.random() < 0.15:
                t["cutoff"] = r.choice([-4.0, 0.5, 3.0])
            u = r.random()
            if u < 0.35:
                gen_raise(r, t)
            elif u < 0.5:
                t["crash_tick"] = r.randint(1, r.choice([60, 3000, 30000]))
            elif u < 0.65:
                t["faults"] = [{"at": r.randint(0, 200), "kind": "inf" if t["opt"] == "min" else "-inf"} for _ in range(3)]
            t["params"] = None
            priors.append(t)
        for t in priors:
            if "max_evals" not in t:
                t["max_evals"] = 2000
        if r.random() < 0.04:
            # a long history of short runs
            priors = (priors * 10)[:r.randint(6, 12)]
            priors = [dict(t, max_evals=min(t["max_evals"], r.randint(1, 60))) for t in priors]
        return {"spec": spec, "priors": priors}

    def shrink(self, scn):
        pr = scn["priors"]
        for k in range(len(pr)):
            if len(pr) > 1:
                yield dict(scn, priors=pr[:k] + pr[k + 1:])
        for k, t in enumerate(pr):
            for fk in ("faults", "cb_faults", "repair_faults", "cutoff", "crash_tick"):
                if t.get(fk):
                    u = {x: y for x, y in t.items() if x != fk}
                    yield dict(scn, priors=pr[:k] + [u] + pr[k + 1:])
            if t["problem"] != scn["spec"]["problem"]:
                yield dict(scn, priors=pr[:k] + [dict(t, problem=scn["spec"]["problem"], opt=scn["spec"]["opt"])] + pr[k + 1:])
            for v in (t.get("max_evals", 0) // 4, t.get("max_evals", 0) // 2):
                if v >= 1:
                    yield dict(scn, priors=pr[:k] + [dict(t, max_evals=v)] + pr[k + 1:])
        yield from super().shrink(scn)

    def execute(self, scn):
        spec = scn["spec"]
        a = spec["alg"]
        res = Result()
        alg = engine.make_algorithm(spec)
        p0 = freeze(alg.get_parameters())
        dig, how = "", []
        for k, t in enumerate(scn["priors"]):
            o = engine.simulate(dict(t, params={}), alg=alg, ticks=3_000_000)
            res.absorb(o)
            dig += engine.digest(o)
            how.append(o.stop_reason().split("+")[0])
            if o.exceeded:
                res.digest = dig
                return res
            if freeze(alg.get_parameters()) != p0:
                self.report_params(res, a, p0, alg, "after run %d (%s)" % (k + 1, o.stop_reason()))
                break
        st = copy.deepcopy(alg.rng.bit_generator.state)
        fresh = engine.make_algorithm(spec)
        fresh.rng.bit_generator.state = st
        u = engine.simulate(spec, alg=alg)
        f = engine.simulate(spec, alg=fresh)
        res.absorb(u)
        res.absorb(f)
        d = diff(f, u)
        if d and not (u.exceeded or f.exceeded):
            res.add("reuse-differs:%s" % a, "after %d earlier run(s) (%s) the used optimiser differs from a fresh one: %s"
                    % (len(how), ", ".join(how), d))
        if freeze(alg.get_parameters()) != p0:
            self.report_params(res, a, p0, alg, "after its last run")
        fd = [t["problem"].get("dim") != spec["problem"].get("dim") for t in scn["priors"]]
        res.states.add((a, tuple(sorted(set(how))), any(fd), u.stop_reason()))
        res.digest = dig + engine.digest(u)
        return res

    @staticmethod
    def report_params(res, a, p0, alg, when):
        d0, d1 = dict(p0[1]), dict(freeze(alg.get_parameters())[1])
        bad = sorted(k for k in set(d0) | set(d1) if d0.get(k) != d1.get(k))
        res.add("parameters-changed:%s" % a, "%s get_parameters() reports another %s: %r instead of %r"
                % (when, ", ".join(bad), [d1.get(k) for k in bad], [d0.get(k) for k in bad]))


FIXED_ARGS = {"callbacks", "seed", "initialization_function", "individual_type"}
_full = {}


def full_config(name, params):
    """Every parameter the constructor accepts, explicitly: the defaults overridden by `params`."""
    if name not in _full:
        kw = {k: v for k, v in algos.DEFAULTS[name].items() if k not in FIXED_ARGS}
        while True:
            try:
                algos.CLASSES[name](seed=1, **kw)
                break
            except TypeError as e:      # an argument this class decides for its base class
                m = re.search(r"multiple values for (?:keyword )?argument '(\w+)'", str(e))
                if not m or m.group(1) not in kw:
                    raise
                kw.pop(m.group(1))
        _full[name] = kw
    kw = dict(_full[name])
    kw.update(algos.build_params(params))
    return kw


class Reconfigure(TraceProp):
    """C19: setting parameters on a used optimiser equals creating one with them."""
    ID = "C19"
    N = {"quick": 4000, "thorough": 160000}
    TECHNIQUE = "deterministic simulation: seeded histories of reconfigurations, runs and crashes on one optimiser object, bitwise comparison with a newly configured object in the same random state"
    STATES = "(optimiser, number of reconfigurations, how the runs in between ended, stop reason) tuples reached"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(10, 400), w=(0.8, 0.0, 0.2))
        steps = []
        for _ in range(r.choice([0, 1, 1, 2])):
            t = {"alg": spec["alg"], "problem": gen.gen_problem(r), "opt": r.choice(["min", "max"]),
                 "repair": r.choice(gen.REPAIRS), "max_evals": r.randint(1, 250)}
            gen.penalty(t)
            u = r.random()
            if u < 0.3:
                gen_raise(r, t)
            elif u < 0.45:
                t["crash_tick"] = r.randint(1, r.choice([60, 3000, 30000]))
            t["set"] = algos.gen_params(r, spec["alg"]) if r.random() < 0.6 else None
            steps.append(t)
        return {"spec": spec, "initial": algos.gen_params(r, spec["alg"]), "steps": steps}

    def shrink(self, scn):
        st = scn["steps"]
        for k in range(len(st)):
            yield dict(scn, steps=st[:k] + st[k + 1:])
        for k, t in enumerate(st):
            for fk in ("faults", "cb_faults", "repair_faults", "crash_tick", "set"):
                if t.get(fk):
                    yield dict(scn, steps=st[:k] + [dict({x: y for x, y in t.items() if x != fk}, set=None if fk == "set" else t["set"])] + st[k + 1:])
        for k in list(scn["initial"]):
            yield dict(scn, initial={x: y for x, y in scn["initial"].items() if x != k})
        yield from super().shrink(scn)

    def execute(self, scn):
        spec = scn["spec"]
        a = spec["alg"]
        res = Result()
        alg = engine.make_algorithm(dict(spec, params=scn["initial"]))
        dig, how = "", []
        try:
            for t in scn["steps"]:
                if t["set"] is not None:
                    alg.set_parameters(**full_config(a, t["set"]))
                    res.probes["reconfigured"] += 1
                o = engine.simulate(t, alg=alg, ticks=3_000_000)
                res.absorb(o)
                dig += engine.digest(o)
                how.append(o.stop_reason().split("+")[0])
                if o.exceeded:
                    res.digest = dig
                    return res
            kw = full_config(a, spec["params"])
            alg.set_parameters(**kw)
            res.probes["reconfigured"] += 1
        except TypeError as e:
            res.add("set-parameters-failed:%s" % a, "set_parameters with the arguments of the constructor raised %r" % (e,))
            return res
        fresh = algos.CLASSES[a](seed=1, **kw)
        g0, g1 = dict(freeze(fresh.get_parameters())[1]), dict(freeze(alg.get_parameters())[1])
        if g0 != g1:
            bad = sorted(k for k in set(g0) | set(g1) if g0.get(k) != g1.get(k))
            res.add("parameters-differ:%s" % a, "after set_parameters %s read %r, on a newly created optimiser %r"
                    % (", ".join(bad), [g1.get(k) for k in bad], [g0.get(k) for k in bad]))
        fresh.rng.bit_generator.state = copy.deepcopy(alg.rng.bit_generator.state)
        u = engine.simulate(spec, alg=alg)
        f = engine.simulate(spec, alg=fresh)
        res.absorb(u)
        res.absorb(f)
        d = diff(f, u)
        if d and not (u.exceeded or f.exceeded):
            res.add("reconfigured-differs:%s" % a, "after set_parameters and %d run(s) the optimiser differs from a newly created one: %s" % (len(how), d))
        res.states.add((a, len(how), tuple(sorted(set(how))), u.stop_reason()))
        res.digest = dig + engine.digest(u)
        return res


class Mirror(TraceProp):
    """C15: maximising f is minimising -f."""
    ID = "C15"
    N = {"quick": 5000, "thorough": 200000}
    TECHNIQUE = "deterministic simulation: each seeded run is simulated in both directions with mirrored fault plans, histories compared point by point"
    STATES = "(optimiser, problem kind, stop reason, fault kinds) tuples reached"
    FLIP = {"inf": "-inf", "-inf": "inf"}

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(5, 600), w=(0.7, 0.1, 0.2))
        spec["opt"] = "min"
        spec["problem"].pop("negate", None)
        if r.random() < 0.35:
            spec["problem"] = gen.gen_problem(r, kinds=gen.ODD)
        u = r.random()
        if u < 0.25:
            spec["faults"] = [{"at": r.randint(0, 300), "kind": r.choice(["inf", "zero"])} for _ in range(r.randint(1, 5))]
        elif u < 0.35:
            gen_raise(r, spec, where=("eval", "cb"))
        scn = {"spec": spec}
        if r.random() < 0.35:
            scn["pick"] = r.random()
        if r.random() < 0.2:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0, 0.0])
        return scn

    @classmethod
    def mirrored(cls, spec):
        s = dict(spec, opt="max", problem=dict(spec["problem"], negate=not spec["problem"].get("negate", False)))
        if spec.get("faults"):
            s["faults"] = [dict(f, kind=cls.FLIP.get(f["kind"], f["kind"])) for f in spec["faults"]]
        if spec.get("cutoff") is not None:
            s["cutoff"] = -spec["cutoff"]
        return s

    def execute(self, scn):
        spec = scn["spec"]
        a = spec["alg"]
        res = Result()
        o = engine.simulate(spec)
        res.absorb(o)
        if "pick" in scn and not o.exceeded:
            vals = sorted({v for _, _, v, _ in o.log if v is not None and math.isfinite(v)})
            if vals:
                spec = dict(spec, cutoff=vals[int(scn["pick"] * scn["pick"] * len(vals))])
                o = engine.simulate(spec)
                res.absorb(o)
        m = engine.simulate(self.mirrored(spec))
        res.absorb(m)
        res.states.add((a, spec["problem"]["kind"], o.stop_reason(), tuple(sorted(o.fired()))))
        res.digest = engine.digest(o) + engine.digest(m)
        if o.exceeded or m.exceeded:
            return res
        d = self.compare(o, m)
        if d:
            res.add("not-mirrored:%s" % a, d)
        return res

    @staticmethod
    def compare(o, m):
        for k, (p, q) in enumerate(zip(o.log, m.log)):
            if p[1].tobytes() != q[1].tobytes():
                return "evaluation %d got %r when minimising, %r when maximising the negation" % (k + 1, p[1].tolist(), q[1].tolist())
            if p[2] is not None and not same(p[2], -q[2]):
                return "harness: values %r / %r" % (p[2], q[2])
        if len(o.log) != len(m.log):
            return "%d evaluations when minimising, %d when maximising the negation" % (len(o.log), len(m.log))
        if type(o.exc) is not type(m.exc):
            return "minimising ended with %r, maximising with %r" % (o.exc, m.exc)
        if o.returned and o.x is not None:
            if m.x is None or o.x.tobytes() != m.x.tobytes() or not same(float(o.f), -float(m.f)):
                return "minimising returned %r, maximising the negation %r" % (o.f, m.f)
        s, t = o.task, m.task
        if (s.evals, s.iters) != (t.evals, t.iters) or not same(float(s.x_f), -float(t.x_f)):
            return "tasks report %r and %r" % ((s.evals, s.iters, s.x_f), (t.evals, t.iters, t.x_f))
        for ax in ("evals", "iters"):
            (x1, y1), (x2, y2) = s.convergence_data(ax), t.convergence_data(ax)
            if list(x1) != list(x2) or [float(v) for v in y1] != [-float(v) for v in y2]:
                return "convergence data over %s is not mirrored" % ax
        if s.stopping_condition() != t.stopping_condition():
            return "stopping conditions differ"
        return None


class Ownership(TraceProp):
    """C17: runs change neither their inputs nor results already handed out."""
    ID = "C17"
    N = {"quick": 4500, "thorough": 180000}
    TECHNIQUE = "deterministic simulation: seeded histories of runs and crashes sharing one optimiser / problem / task, snapshots of everything handed in or out compared at the end"
    STATES = "(optimiser, what later runs shared, how they ended, bound form) tuples reached"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(10, 350), w=(0.7, 0.15, 0.15), builtin=0.15)
        later = []
        for _ in range(r.choice([1, 1, 2, 3])):
            share = r.choice(["all", "alg", "problem", "task"])
            t = {"share": share, "alg": spec["alg"] if r.random() < 0.6 else r.choice(gen.NAMES)}
            s = gen.gen_spec(r, name=t["alg"], evals=(10, 250), w=(0.8, 0.1, 0.1))
            t.update({k: s[k] for k in ("params", "seed", "max_evals", "max_iters", "problem", "opt", "repair") if k in s})
            u = r.random()
            if u < 0.25:
                gen_raise(r, t)
            elif u < 0.4:
                t["crash_tick"] = r.randint(1, r.choice([60, 3000, 30000]))
            later.append(t)
        if spec.get("max_evals", 0) > 5 and r.random() < 0.5:
            spec["first_evals"] = r.randint(5, spec["max_evals"])     # the shared task is raised to max_evals afterwards
        return {"spec": spec, "later": later}

    def shrink(self, scn):
        ls = scn["later"]
        for k in range(len(ls)):
            yield dict(scn, later=ls[:k] + ls[k + 1:])
        for k, t in enumerate(ls):
            for fk in ("faults", "cb_faults", "repair_faults", "crash_tick"):
                if t.get(fk):
                    yield dict(scn, later=ls[:k] + [{x: y for x, y in t.items() if x != fk}] + ls[k + 1:])
        yield from super().shrink(scn)

    def execute(self, scn):
        spec = scn["spec"]
        a = spec["alg"]
        res = Result()
        held = []           # (what, live object, snapshot)

        def hold(what, obj):
            held.append((what, obj, freeze(np.asarray(obj)) if isinstance(obj, np.ndarray) else freeze(obj)))

        prob = SimProblem(spec["problem"], spec.get("faults"))
        for k, g in enumerate(getattr(prob, "given", ())):
            hold("the %s bounds passed by the user" % ("lower", "upper")[k], g)
        hold("problem.lower", prob.lower)
        hold("problem.upper", prob.upper)
        sp = dict(spec)
        if "first_evals" in sp:
            sp["max_evals"] = sp["first_evals"]
        task = engine.make_task(sp, prob)
        for n in ("lower", "upper", "range"):
            hold("task." + n, getattr(task, n))
        alg = engine.make_algorithm(spec)
        hold("the optimiser's parameters", alg.get_parameters())
        arrays = {k: v for k, v in alg.get_parameters().items() if isinstance(v, np.ndarray)}
        for k, v in sorted(arrays.items()):
            hold("the array parameter " + k, v)
        o = engine.simulate(sp, prob=prob, task=task, alg=alg)
        res.absorb(o)
        dig, ends = engine.digest(o), [o.stop_reason()]
        self.hold_run(hold, o, "run 1")
        task.max_evals = engine.lim(spec.get("max_evals")) * 2
        for k, t in enumerate(scn["later"]):
            if o.exceeded:
                break
            share = t["share"]
            kw = {"alg": alg if share in ("all", "alg") else None}
            q = dict(t)
            if share in ("all", "task"):
                kw.update(prob=prob, task=task)
            elif share == "problem":
                kw.update(prob=prob)
            if kw["alg"] is not None:
                q["alg"] = spec["alg"]
            if "max_evals" not in q:
                q["max_evals"] = 1500
            if prob.inner is not None and share == "alg":
                q["problem"] = dict(spec["problem"])
            o = engine.simulate(q, ticks=3_000_000, **kw)
            res.absorb(o)
            dig += engine.digest(o)
            ends.append(o.stop_reason())
            self.hold_run(hold, o, "run %d" % (k + 2))
        for what, obj, snap in held:
            now = freeze(obj)
            if now != snap:
                sig = "changed-input" if "run " not in what else "changed-result"
                res.add("%s:%s" % (sig, a), "%s changed during the history" % what)
                break
        res.states.add((a, tuple(sorted({t["share"] for t in scn["later"]})), tuple(sorted(set(ends))), spec["problem"].get("form")))
        res.digest = dig
        return res

    @staticmethod
    def hold_run(hold, o, label):
        if o.live_x is not None and isinstance(o.live_x, np.ndarray):
            hold("the solution returned by %s" % label, o.live_x)
        for e in o.rec.events:
            if "live" in e:
                # what the callback was given must still be what it was then
                snap = ("arr", e["bx"].shape, e["bx"].tobytes(), "float64")
                if isinstance(e["live"], np.ndarray) and freeze(np.asarray(e["live"], dtype=float)) != snap:
                    hold_changed(hold, "the best solution handed to %s %d of %s" % (e["where"], e["n"], label))
                    return
        for e in o.rec.events[:: max(1, len(o.rec.events) // 40)]:
            if "live" in e and isinstance(e["live"], np.ndarray):
                hold("the best solution handed to %s %d of %s" % (e["where"], e["n"], label), e["live"])


def hold_changed(hold, what):
    box = np.zeros(1)
    hold(what, box)
    box[0] = 1.0
