"""Properties decided on the history of one simulated optimisation (or a few in a row)."""
import math

import numpy as np

from .. import engine, gen
from ..harness import Prop, Result
from ..objective import COMMON, FAULT_EXCEPTIONS, RARE, SimProblem

def pick_exc(r, where):
    u = r.random()
    if u < 0.06 and where == "cb":
        return r.choice(["StopIteration", "StopAsyncIteration"])
    return r.choice(COMMON if u < 0.5 else RARE)


def gen_raise(r, spec, where=("eval", "cb", "repair")):
    """One crash point: the n-th evaluation, callback call or repair call raises."""
    w = r.choice(where)
    kind = "raise:" + pick_exc(r, w)
    if w == "eval":
        spec.setdefault("faults", []).append({"at": r.choice([0, r.randint(0, 30), r.randint(0, 300)]), "kind": kind})
    elif w == "cb":
        spec.setdefault("cb_faults", []).append(
            {"where": r.choice(["before_run", "before_iteration", "after_iteration", "after_iteration", "after_run"]),
             "at": r.choice([0, 0, 1, 2, 4]), "kind": kind})
        if spec["cb_faults"][-1]["where"].endswith("run"):
            spec["cb_faults"][-1]["at"] = 0
    else:
        spec.setdefault("repair_faults", []).append({"at": r.choice([0, r.randint(0, 30), r.randint(0, 200)]), "kind": kind})


def best_of(log, sg):
    vals = [sg * v for _, _, v, _ in log if v is not None and not math.isnan(v)]
    return min(vals) if vals else math.inf


def state(spec, o):
    return (spec["alg"], spec.get("opt"), o.stop_reason(),
            tuple(sorted({"raise:other" if k[6:] in FAULT_EXCEPTIONS and k[6:] not in COMMON else k for k in o.fired()})))


def planned(o):
    """Did the run end by an exception the fault plan injected?"""
    return o.exc is not None and any(o.exc is e for e in (
        o.prob.last_exc, o.rec.last_exc, getattr(o.task.repair_function, "last_exc", None)))


class TraceProp(Prop):
    LEVEL = "exploration"
    RULE = ("scenario i is drawn from PRNG(property, seed, i): optimiser (round robin), documented parameters, problem, "
            "bounds, repair, direction, limits and fault plan; distinct = distinct history digests; a case is "
            "non-trivial when the objective was called at least once")

    def shrink(self, scn):
        for s in gen.shrink_spec(scn["spec"]):
            yield dict(scn, spec=s)
        for k in ("spec2", "resume"):
            if scn.get(k):
                t = dict(scn)
                t.pop(k)
                yield t


class Budget(TraceProp):
    """C01: the evaluation budget is hard and fully used."""
    ID = "C01"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, w=(0.75, 0.0, 0.25))
        if r.random() < 0.1:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0])
        mode = r.random()
        if mode < 0.25:
            for _ in range(r.randint(1, 2)):
                gen_raise(r, spec)
        elif mode < 0.4:
            spec["faults"] = [{"at": r.randint(0, 200), "kind": r.choice(["inf", "zero", "huge"])} for _ in range(r.randint(1, 4))]
        elif mode < 0.55:
            spec["cb_evals"] = [{"where": r.choice(["before_iteration", "after_iteration"]), "at": r.randint(0, 3),
                                 "k": r.randint(1, 40)} for _ in range(r.randint(1, 3))]
        scn = {"spec": spec}
        if r.random() < 0.5:
            scn["resume"] = r.choice(["same", "other"])
            scn["resume_alg"] = r.choice(gen.NAMES)
            scn["resumes"] = r.randint(1, 3)
        return scn

    def check(self, res, spec, prob, task, o, label, cap):
        if prob.calls > cap:
            res.add("budget-exceeded:%s" % spec["alg"],
                    "%s: the objective was called %d times under a budget of %d evaluations" % (label, prob.calls, cap))
        if not o.exceeded and task.evals != prob.calls:
            res.add("evals-miscounted:%s" % spec["alg"],
                    "%s: task counts %r evaluations, the objective was called %d times" % (label, task.evals, prob.calls))

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        cap = spec["max_evals"]
        o = engine.simulate(spec)
        res.absorb(o)
        res.states.add(state(spec, o))
        self.check(res, spec, o.prob, o.task, o, "run", cap)
        for e in o.rec.events:
            if e["evals"] != e["calls"] and not o.exceeded:
                res.add("evals-miscounted:%s" % spec["alg"], "at %s %d the task counts %r evaluations, the objective saw %d"
                        % (e["where"], e["n"], e["evals"], e["calls"]))
                break
        if o.returned and o.stop_reason() in ("evals", "none") and spec.get("max_iters") is None and o.prob.calls != cap:
            res.add("budget-unused:%s" % spec["alg"], "only %d of %d evaluations were made although nothing else limits the run"
                    % (o.prob.calls, cap))
        dig = engine.digest(o)
        # the budget belongs to the task: further runs on it may only use what is left
        if scn.get("resume") and not o.exceeded:
            for k in range(scn["resumes"]):
                sp = spec if scn["resume"] == "same" else dict(spec, alg=scn["resume_alg"], params={})
                sp = {x: y for x, y in sp.items() if x not in ("cb_faults", "repair_faults")}
                before = o.prob.calls
                exhausted = o.task.stopping_condition()
                p = engine.simulate(sp, prob=o.prob, task=o.task, alg=o.alg if scn["resume"] == "same" and o.alg is not None else None)
                res.absorb(p)
                res.probes["resumed_on_used_task"] += 1
                self.check(res, sp, p.prob, p.task, p, "run %d on the same task" % (k + 2), cap)
                if exhausted and p.prob.calls != before:
                    res.add("budget-exceeded:%s" % sp["alg"], "an exhausted task still evaluated %d points" % (p.prob.calls - before))
                dig += engine.digest(p)
                if p.exceeded:
                    break
        res.digest = dig
        return res


class Iterations(TraceProp):
    """C02: iteration limits and every other limit stop the run at the first boundary."""
    ID = "C02"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, w=(0.0, 0.55, 0.45), evals=(20, 700))
        if r.random() < 0.2:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0])
        if r.random() < 0.3:
            gen_raise(r, spec)
        scn = {"spec": spec}
        if r.random() < 0.4:
            scn["resume"] = True
        return scn

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        o = engine.simulate(spec)
        res.absorb(o)
        res.states.add(state(spec, o) + (min(o.task.iters, 3),))
        self.check(res, spec, o, 0)
        dig = engine.digest(o)
        if scn.get("resume") and not o.exceeded:
            done = self.completed(o)
            sp = {x: y for x, y in spec.items() if x not in ("cb_faults", "repair_faults")}
            before = o.prob.calls
            exhausted = o.task.stopping_condition()
            p = engine.simulate(sp, prob=o.prob, task=o.task)
            res.absorb(p)
            self.check(res, sp, p, done)
            if exhausted and (p.prob.calls != before):
                res.add("ran-past-limit:%s" % spec["alg"], "a finished task evaluated %d more points" % (p.prob.calls - before))
            dig += engine.digest(p)
        res.digest = dig
        return res

    @staticmethod
    def completed(o):
        return sum(1 for e in o.rec.events if e["where"] == "after_iteration" and not e["raised"])

    def check(self, res, spec, o, prior):
        a = spec["alg"]
        if o.exceeded:
            return
        n = self.completed(o)
        if o.task.iters != prior + n:
            res.add("iters-miscounted:%s" % a, "%d iterations completed, the task counts %r" % (prior + n, o.task.iters))
        m = spec.get("max_iters")
        begun = sum(1 for e in o.rec.events if e["where"] == "before_iteration")
        if m is not None and prior + begun > m:
            if not any(e["raised"] for e in o.rec.events) and o.exc is None:
                res.add("ran-past-limit:%s" % a, "%d iterations were begun under a limit of %d" % (prior + begun, m))
        for e in o.rec.events:
            if e["where"] == "before_iteration" and e["stop"]:
                res.add("ran-past-limit:%s" % a, "iteration %d began although the stopping condition already held" % e["n"])
                break
        last = [e for e in o.rec.events if e["where"] == "after_iteration"]
        if last and m is not None and last[-1]["iters"] + 1 >= m and o.prob.calls > last[-1]["calls"]:
            res.add("ran-past-limit:%s" % a, "the objective was called after the last iteration")
        if o.returned:
            if o.stop_reason() == "none":
                res.add("stopped-early:%s" % a, "the run ended after %d iterations and %d evaluations with no limit reached"
                        % (o.task.iters, o.prob.calls))
            if m is not None and spec.get("max_evals") is None and spec.get("cutoff") is None and prior + n != m:
                res.add("stopped-early:%s" % a, "%d of %d iterations were run" % (prior + n, m))


class Cutoff(TraceProp):
    """C03: reaching the target value stops all evaluation at once."""
    ID = "C03"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, w=(0.8, 0.05, 0.15), evals=(30, 400))
        if spec["problem"].get("ret") == "f32":  # numpy compares a float32 with a float target in single precision
            spec["problem"]["ret"] = "float"
        if r.random() < 0.15:
            gen_raise(r, spec, where=("eval", "cb"))
        if r.random() < 0.12:
            # targets that are special as numbers
            spec["problem"]["kind"] = r.choice(["signed", "negative", "linear", "hash", "zero", "plateau", "sphere"])
            spec["cutoff"] = r.choice([0.0, 0, -0.0, 1, -1, 0.5])
        return {"spec": spec, "pick": r.random(), "nudge": r.choice([0, 0, 0, 1, -1]), "again": r.random() < 0.3}

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        sg = engine.sign(spec)
        if "cutoff" in spec:
            cut = spec["cutoff"]
            base_len = None
        else:
            # a target that this very run can reach: the value of some evaluation of an unlimited run
            base = engine.simulate({k: v for k, v in spec.items() if k not in ("faults", "cb_faults")})
            res.absorb(base)
            vals = sorted({v for _, _, v, _ in base.log if v is not None and math.isfinite(v)})
            if not vals:
                res.digest = engine.digest(base)
                return res
            cut = vals[min(len(vals) - 1, int(scn["pick"] * len(vals)))]
            if scn["nudge"]:
                cut = float(np.nextafter(cut, cut + scn["nudge"] * 1e300))
            base_len = base.prob.calls
        sp = dict(spec, cutoff=cut)
        o = engine.simulate(sp)
        res.absorb(o)
        res.states.add(state(sp, o))
        res.digest = engine.digest(o)
        self.check(res, sp, o, cut, sg)
        if scn.get("again") and not o.exceeded:
            before = o.prob.calls
            stop = o.task.stopping_condition()
            p = engine.simulate({k: v for k, v in sp.items() if k not in ("cb_faults",)}, prob=o.prob, task=o.task)
            res.absorb(p)
            if stop and p.prob.calls != before:
                res.add("evaluated-past-target:%s" % sp["alg"], "a task that had reached its target evaluated %d more points"
                        % (p.prob.calls - before))
            elif not stop:
                self.check(res, sp, p, cut, sg)
        return res

    def check(self, res, sp, o, cut, sg):
        a = sp["alg"]
        hit = next((k for k, (_, _, v, _) in enumerate(o.prob.log) if v is not None and sg * v <= sg * cut), None)
        if hit is not None and len(o.prob.log) > hit + 1:
            res.add("evaluated-past-target:%s" % a, "evaluation %d reached the target %r (%s), yet %d more evaluations followed"
                    % (hit + 1, cut, sp.get("opt"), len(o.prob.log) - hit - 1))
        if o.exceeded or not o.returned:
            return
        if hit is None:
            me, mi = sp.get("max_evals"), sp.get("max_iters")
            if (me is None or o.prob.calls < me) and (mi is None or o.task.iters < mi):
                res.add("stopped-before-target:%s" % a, "the run ended after %d evaluations with no value reaching %r and no other limit reached"
                        % (o.prob.calls, cut))
        else:
            if not o.task.stopping_condition():
                res.add("target-not-noticed:%s" % a, "the target was reached but the stopping condition does not hold")
            if hit >= o.start:
                res.probes["target_reached"] += 1
                if o.f is None or not sg * o.f <= sg * cut:
                    res.add("target-not-returned:%s" % a, "the target %r was reached with %r but the run returned %r"
                            % (cut, o.prob.log[hit][2], o.f))


class Best(TraceProp):
    """C04: a run returns the best solution it evaluated, with its true value."""
    ID = "C04"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(1, 600))
        if r.random() < 0.15:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0])
        if r.random() < 0.2:
            # transient failures of the measurement: a few calls report an infinite penalty
            spec["faults"] = [{"at": r.randint(0, 300), "kind": "inf" if spec["opt"] == "min" else "-inf"} for _ in range(r.randint(1, 5))]
        scn = {"spec": spec}
        if r.random() < 0.25:
            # crash, then run again on the same task: only what the second run saw counts
            scn["crash"] = r.randint(0, 120)
        elif r.random() < 0.5 and "max_evals" in spec:
            # end the budget exactly at an evaluation that improves on everything before it
            scn["edge"] = r.random()
        return scn

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        if "crash" in scn:
            sp = dict(spec, faults=(spec.get("faults") or []) + [{"at": scn["crash"], "kind": "raise:InjectedFault"}])
            o = engine.simulate(sp)
            res.absorb(o)
            if not o.returned and not o.exceeded:
                self.partial(res, sp, o)
                o = engine.simulate(spec, prob=o.prob, task=o.task, alg=o.alg)
                res.absorb(o)
                res.probes["rerun_after_crash"] += 1
        else:
            o = engine.simulate(spec)
            res.absorb(o)
            if "edge" in scn and o.returned:
                self.check(res, spec, o)
                sg, run, steps = engine.sign(spec), math.inf, []
                for k, (_, _, v, _) in enumerate(o.log):
                    if sg * v < run:
                        run = sg * v
                        steps.append(k + 1)
                if steps:
                    spec = dict(spec, max_evals=steps[-1 - int(scn["edge"] * min(len(steps), 6))])
                    o = engine.simulate(spec)
                    res.absorb(o)
                    res.probes["budget_ends_at_improvement"] += 1
        res.states.add(state(spec, o))
        res.digest = engine.digest(o)
        self.check(res, spec, o)
        return res

    def partial(self, res, spec, o):
        # nothing was returned, but the solutions reported to callbacks so far must be the best known then
        sg = engine.sign(spec)
        for e in o.rec.events:
            if "bf" in e and e["bf"] > best_of(o.prob.log[o.start:e["calls"]], sg):
                res.add("best-lost:%s" % spec["alg"], "before the crash, at %s %d the reported best was %r but %r had been evaluated"
                        % (e["where"], e["n"], e["bf"], best_of(o.prob.log[o.start:e["calls"]], sg)))
                return

    def check(self, res, spec, o):
        if o.exceeded or not o.returned or not len(o.log):
            return
        a, sg = spec["alg"], engine.sign(spec)
        best = best_of(o.log, sg)
        if o.x is None or o.f is None:
            res.add("no-result:%s" % a, "the run returned %r, %r" % (o.x, o.f))
            return
        f = float(o.f)
        if not sg * f == best:
            res.add("best-lost:%s" % a, "returned value %r, but the best of the %d evaluated solutions is %r"
                    % (f, len(o.log), sg * best))
        if o.x.shape != (o.task.dimension,):
            res.add("result-shape:%s" % a, "returned solution has shape %r for dimension %d" % (o.x.shape, o.task.dimension))
            return
        key = o.x.tobytes()
        pairs = [v for _, x, v, _ in o.log if x.tobytes() == key]
        if not pairs:
            d = min(float(np.max(np.abs(x - o.x))) for _, x, _, _ in o.log)
            v = o.prob.pure(o.x)
            if not (math.isfinite(f) and abs(v - f) <= 1e-9 * max(1.0, abs(f)) and d <= 1e-9 * max(1.0, float(np.max(np.abs(o.x))))):
                res.add("result-never-evaluated:%s" % a, "the returned solution was never evaluated (returned value %r, true value %r)" % (f, v))
        elif f not in pairs:
            res.add("result-mismatch:%s" % a, "the returned solution evaluates to %r, the run returned %r" % (pairs[0], f))


class Bookkeeping(TraceProp):
    """C05: progress records equal the exact evaluation history."""
    ID = "C05"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(5, 500), w=(0.6, 0.15, 0.25))
        if r.random() < 0.15:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0])
        u = r.random()
        if u < 0.25:
            gen_raise(r, spec)
        elif u < 0.4:
            spec["faults"] = [{"at": r.randint(0, 200), "kind": r.choice(["inf", "-inf", "zero", "huge"])} for _ in range(r.randint(1, 4))]
        if r.random() < 0.3:
            spec["cb_evals"] = [{"where": r.choice(["before_iteration", "after_iteration"]), "at": r.randint(0, 3),
                                 "k": r.randint(1, 10)} for _ in range(r.randint(1, 3))]
        return {"spec": spec, "runs": r.choice([1, 1, 2, 3])}

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        o, ends, dig = None, [], ""
        for k in range(scn["runs"]):
            sp = spec if k == 0 else {x: y for x, y in spec.items() if x not in ("cb_faults", "repair_faults")}
            p = engine.simulate(sp, **({} if o is None else {"prob": o.prob, "task": o.task}))
            o = p
            res.absorb(o)
            dig += engine.digest(o)
            if o.exceeded:
                break
            ends += [e["calls_after"] for e in self.iteration_ends(o)]
            self.check(res, spec, o, ends)
        res.states.add(state(spec, o))
        res.digest = dig
        return res

    @staticmethod
    def iteration_ends(o):
        """Evaluations made when each completed iteration was counted (callbacks may evaluate too)."""
        out = []
        evs = o.rec.events
        for k, e in enumerate(evs):
            if e["where"] == "after_iteration" and not e["raised"]:
                nxt = evs[k + 1]["calls"] if k + 1 < len(evs) else o.prob.calls
                out.append({"calls_after": nxt})
        return out

    def check(self, res, spec, o, ends):
        a, sg, t = spec["alg"], engine.sign(spec), o.task
        log = o.prob.log
        if t.evals != len(log):
            res.add("evals-miscounted:%s" % a, "task counts %r evaluations, %d were made" % (t.evals, len(log)))
            return
        run, steps, hist = math.inf, [], []
        for k, (_, _, v, _) in enumerate(log):
            if v is not None and sg * v < run:
                run = sg * v
                steps.append(k + 1)
            hist.append(run)
        want = sg * run
        if not (t.x_f == want):
            res.add("best-value-wrong:%s" % a, "task reports best value %r, the history says %r" % (t.x_f, want))
        xs, ys = t.convergence_data("evals")
        xs, ys = [int(v) for v in xs], [float(v) for v in ys]
        if len(xs) != len(ys):
            res.add("convergence-evals:%s" % a, "%d evaluation counts but %d values" % (len(xs), len(ys)))
            return
        if xs != sorted(set(xs)) or (xs and xs != list(range(xs[0], xs[0] + len(xs)))):
            res.add("convergence-evals:%s" % a, "evaluation axis is not consecutive: %r..." % xs[:8])
        for x, y in zip(xs, ys):
            if not (1 <= x <= len(log)) or hist[x - 1] != sg * y:
                res.add("convergence-evals:%s" % a, "after %d evaluations the curve says %r, the history %r"
                        % (x, y, sg * hist[x - 1] if 1 <= x <= len(log) else None))
                break
        miss = [s for s in steps if s not in set(xs)]
        if miss:
            res.add("convergence-evals:%s" % a, "the improvement at evaluation %d is missing from the curve" % miss[0])
        xi, yi = t.convergence_data("iters")
        if len(xi) != t.iters or len(yi) != t.iters or t.iters != len(ends):
            res.add("convergence-iters:%s" % a, "%d iterations completed, task counts %r, curve has %d/%d entries"
                    % (len(ends), t.iters, len(xi), len(yi)))
            return
        for k, (y, c) in enumerate(zip(yi, ends)):
            w = sg * (hist[c - 1] if c else math.inf)
            if not float(y) == w:
                res.add("convergence-iters:%s" % a, "after iteration %d the curve says %r, the history %r" % (k + 1, float(y), w))
                break


class Feasible(TraceProp):
    """C06: the objective only ever sees feasible points."""
    ID = "C06"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, evals=(20, 700), d1=0.1, builtin=0.1)
        if r.random() < 0.35:
            spec["problem"] = gen.gen_problem(r, kinds=gen.ODD, d1=0.1)
            gen.penalty(spec)
        if r.random() < 0.25:
            spec["faults"] = [{"at": r.randint(0, 300), "kind": r.choice(["inf", "huge", "zero"] if spec["opt"] == "min" else ["-inf", "zero"])}
                              for _ in range(r.randint(1, 5))]
        return {"spec": spec}

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        o = engine.simulate(spec)
        res.absorb(o)
        res.states.add(state(spec, o) + (spec.get("repair"), spec["problem"].get("bounds")))
        res.digest = engine.digest(o)
        a, p = spec["alg"], o.prob
        tol = 1e-12 * np.maximum(1.0, np.maximum(np.abs(p._lo), np.abs(p._hi)))
        for n, x, _, _ in o.prob.log:
            if x.shape != (p.dimension,):
                res.add("wrong-shape:%s" % a, "evaluation %d got a point of shape %r, the problem has dimension %d" % (n, x.shape, p.dimension))
                break
            if not np.all(np.isfinite(x)):
                res.add("not-finite:%s" % a, "evaluation %d got %r" % (n, x.tolist()))
                break
            if np.any(x < p._lo - tol) or np.any(x > p._hi + tol):
                k = int(np.argmax((x < p._lo - tol) | (x > p._hi + tol)))
                res.add("out-of-bounds:%s" % a, "evaluation %d got coordinate %d = %r outside [%r, %r] (repair %s)"
                        % (n, k, float(x[k]), float(p._lo[k]), float(p._hi[k]), spec.get("repair")))
                break
        if o.exc is not None and not o.exceeded and isinstance(o.exc, ValueError) and "Dimensions do not match" in str(o.exc):
            res.add("wrong-shape:%s" % a, "the problem rejected a point: %s" % o.exc)
        if o.returned and o.x is not None and (np.any(o.x < p._lo - tol) or np.any(o.x > p._hi + tol)):
            res.add("result-out-of-bounds:%s" % a, "the returned solution %r is not feasible" % o.x.tolist())
        return res


CRO_GROWTH = {"alg": "CoralReefsOptimization", "params": {"population_size": 10}, "seed": 3, "max_iters": 6, "opt": "min",
              "problem": {"kind": "sphere", "dim": 3, "bounds": "sym", "shift": 1}, "repair": "limit"}


class Liveness(TraceProp):
    """C10: every run finishes, without failing by itself."""
    ID = "C10"
    LEVEL = "exploration"

    def gen(self, r, i, tier):
        u = r.random()
        if i == 0:
            return {"spec": CRO_GROWTH}
        spec = gen.gen_spec(r, i, w=(0.7, 0.15, 0.15), evals=(1, 700), d1=0.12, builtin=0.06)
        if "max_evals" not in spec and spec["alg"] not in gen.HEAVY and r.random() < 0.3:
            spec["max_iters"] = r.randint(20, 50)
        if u < 0.5:
            spec["problem"] = gen.gen_problem(r, kinds=gen.ODD + ["allinf"], d1=0.12)
            gen.penalty(spec)
        scn = {"spec": spec}
        if r.random() < 0.15:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0])
        if r.random() < 0.3:
            bad = "inf" if spec["opt"] == "min" else "-inf"
            a0 = r.randint(0, 60)
            # an outage: consecutive calls answer with the penalty value, then the service recovers
            spec["faults"] = [{"at": a0 + k, "kind": bad} for k in range(r.choice([1, 3, 12, 60]))]
        elif r.random() < 0.3:
            scn["crashes"] = sorted(r.randint(0, 200) for _ in range(r.randint(1, 3)))
        return scn

    def execute(self, scn):
        spec = scn["spec"]
        res = Result()
        a = spec["alg"]
        prob = SimProblem(spec["problem"], (spec.get("faults") or []) + [{"at": c, "kind": "raise:InjectedFault"} for c in scn.get("crashes", [])])
        task = engine.make_task(spec, prob)
        alg, dig = None, ""
        for k in range(len(scn.get("crashes", [])) + 1):
            o = engine.simulate(spec, prob=prob, task=task, alg=alg)
            res.absorb(o)
            alg = o.alg
            dig += engine.digest(o)
            if o.exceeded:
                res.inconclusive -= 1
                res.add("no-progress:%s" % a, "the run did not finish within %d steps (%d evaluations, %d iterations done)"
                        % (engine.DEFAULT_TICKS, prob.calls, task.iters))
                break
            if o.exc is not None and not planned(o):
                import traceback
                tb = [f for f in traceback.extract_tb(o.exc.__traceback__) if "niapy" in f.filename]
                at = "%s:%s" % (tb[-1].filename.split("niapy/")[-1], tb[-1].name) if tb else "?"
                res.add("failed-by-itself:%s:%s" % (a, type(o.exc).__name__), "%r raised in %s after %d evaluations" % (o.exc, at, prob.calls))
                break
            if o.exc is None and (o.x is None or o.f is None):
                res.add("no-result:%s" % a, "the run ended without a result")
            if o.exc is None:
                break
        if not o.exceeded:
            # progress per step must not be bought with ever growing iterations
            ends = [e["calls"] for e in o.rec.events if e["where"] == "after_iteration"]
            cost = [b - c for c, b in zip([0] + ends, ends)]
            steep = [b > 1.5 * c for c, b in zip(cost, cost[1:])]
            run4 = any(all(steep[k:k + 4]) for k in range(len(steep) - 3))
            if (run4 and max(cost) > 3000) or (len(cost) > 4 and max(cost[3:]) > 40 * (max(cost[:3]) + 40)):
                res.add("unbounded-growth:%s" % a, "iterations cost %r evaluations: the work per iteration grows without bound" % cost[:12])
        if not o.exceeded and o.exc is None and not task.stopping_condition():
            res.add("stopped-early:%s" % a, "the run returned although no limit is reached")
        res.states.add(state(spec, o) + (spec["problem"]["kind"],))
        res.digest = dig
        return res

    def matches_known(self, k, sig, scn):
        s = scn["spec"]
        return k["signature"] == sig and s["alg"] == "CoralReefsOptimization" and s.get("max_evals") is None

    def shrink(self, scn):
        for k in range(len(scn.get("crashes", []))):
            yield dict(scn, crashes=scn["crashes"][:k] + scn["crashes"][k + 1:])
        yield from super().shrink(scn)


class Callbacks(TraceProp):
    """C11: callbacks see the run in order, with correct data."""
    ID = "C11"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, w=(0.55, 0.2, 0.25), evals=(5, 500))
        if r.random() < 0.1:
            spec["cutoff"] = r.choice([-4.0, 0.5, 3.0])
        scn = {"spec": spec, "n_cb": r.choice([1, 2, 2, 3, 3, 3, 7]), "how": r.choice(["list", "CallbackList", "append"])}
        if r.random() < 0.35:
            gen_raise(r, spec, where=("cb", "cb", "eval"))
            scn["raiser"] = r.randint(0, scn["n_cb"] - 1)
        scn["again"] = r.random() < 0.25
        return scn

    def execute(self, scn):
        from niapy.callbacks import CallbackList
        from .. import ambient, meter
        spec = scn["spec"]
        res = Result()
        a, sg = spec["alg"], engine.sign(spec)
        prob = SimProblem(spec["problem"], spec.get("faults"))
        task = engine.make_task(spec, prob)
        sink = []
        n = scn["n_cb"]
        raiser = scn.get("raiser", 0)
        recs = [engine.Recorder(task, prob, spec.get("cb_faults") if k == raiser else None, align=(k == 0), tag=k, sink=sink) for k in range(n)]
        ambient.pin(0)
        if scn["how"] == "list":
            alg = engine.make_algorithm(spec, callbacks=list(recs))
        elif scn["how"] == "CallbackList":
            alg = engine.make_algorithm(spec, callbacks=CallbackList(recs))
        else:
            cl = CallbackList()
            for c in recs:
                cl.append(c)
            alg = engine.make_algorithm(spec, callbacks=cl)
        dig = ""
        for attempt in range(2 if scn["again"] else 1):
            for c in recs:
                c.events, c.counts = [], {}
                if attempt:
                    c.faults = {}
            del sink[:]
            o = engine.Outcome()
            o.prob, o.task, o.rec, o.alg = prob, task, recs[0], alg
            o.start = len(prob.log)
            o.x = o.f = o.exc = o.live_x = None
            o.returned = False
            with meter.Meter(engine.DEFAULT_TICKS) as m:
                try:
                    o.live_x, o.f = alg.run(task)
                    o.returned = True
                except BaseException as e:  # noqa: B902
                    o.exc = e
            o.exceeded, o.ticks = m.exceeded, m.ticks
            if o.live_x is not None:
                o.x = np.array(o.live_x, dtype=float)
            res.absorb(o)
            for c in recs[1:]:
                res.faults.update(c.fired)
            if o.exceeded:
                break
            self.check(res, spec, o, recs, sink, n, scn, attempt)
            dig += engine.digest(o)
        res.states.add(state(spec, o) + (n, scn["how"]))
        res.digest = dig
        return res

    def check(self, res, spec, o, recs, sink, n, scn, attempt):
        a, sg = spec["alg"], engine.sign(spec)
        ev = recs[0].events
        seq = [e["where"] for e in ev]
        # protocol
        want = ["before_run"]
        k = (len(seq) - 1) // 2
        ok = seq[:1] == ["before_run"]
        body = seq[1:]
        if o.returned:
            ok = ok and body[-1:] == ["after_run"]
            body = body[:-1]
            ok = ok and len(body) % 2 == 0
        elif body[-1:] == ["after_run"]:
            body = body[:-1]
        for j, w in enumerate(body):
            ok = ok and w == ("before_iteration", "after_iteration")[j % 2]
        if not ok:
            res.add("protocol:%s" % a, "callback sequence was %s ... %s (run %s)" % (seq[:6], seq[-4:], "returned" if o.returned else "raised"))
        # all callbacks, in registration order, at every point
        raised_at = None
        j = 0
        while j < len(sink):
            grp = sink[j:j + n]
            tags = [t for t, _, _ in grp]
            names = {(w, c) for _, w, c in grp}
            if tags != list(range(n)) or len(names) != 1:
                last = j + len(grp) >= len(sink) or True
                # a raising callback may cut the last group short
                cut = sink[j:]
                if o.exc is not None and [t for t, _, _ in cut] == list(range(len(cut))) and len(cut) <= n:
                    break
                res.add("callback-order:%s" % a, "callbacks were called as %r, registered were %d" % (grp, n))
                break
            j += n
        # data
        prev = None
        for e in ev:
            if "bf" not in e:
                continue
            seg = o.prob.log[o.start:e["calls"]]
            best = best_of(seg, sg)
            if e["bf"] != best:
                res.add("reported-best-wrong:%s" % a, "at %s %d the reported best fitness is %r, the best evaluated so far is %r"
                        % (e["where"], e["n"], e["bf"], best))
                break
            if math.isfinite(e["bf"]):
                v = sg * o.prob.pure(e["bx"])
                if abs(v - e["bf"]) > 1e-9 * max(1.0, abs(v)):
                    res.add("reported-best-mismatch:%s" % a, "at %s %d the reported best solution is worth %r, reported %r"
                            % (e["where"], e["n"], v, e["bf"]))
                    break
            if prev is not None and e["bf"] > prev:
                res.add("reported-best-worsened:%s" % a, "the reported best went from %r to %r" % (prev, e["bf"]))
                break
            prev = e["bf"]
        for b in recs[0].bad[:1]:
            res.add("population-misaligned:%s" % a, b)
        for k, e in enumerate(ev):
            if e["where"] == "after_iteration" and k + 1 < len(ev) and ev[k + 1]["where"] == "before_iteration":
                if ev[k + 1]["bf"] != e["bf"] or ev[k + 1]["calls"] != e["calls"]:
                    res.add("protocol:%s" % a, "state changed between the end of iteration %d and the start of the next" % e["n"])
                    break
        if o.returned and ev:
            lastb = [e for e in ev if "bf" in e]
            if lastb and (sg * float(o.f) != lastb[-1]["bf"] or not np.array_equal(lastb[-1]["bx"], o.x)):
                res.add("result-differs-from-last-callback:%s" % a, "returned %r, the last callback was told %r" % (float(o.f), lastb[-1]["bf"]))


class Faults(TraceProp):
    """C09: failures of user code reach the caller, and nothing is left behind."""
    ID = "C09"

    def gen(self, r, i, tier):
        spec = gen.gen_spec(r, i, w=(0.8, 0.1, 0.1), evals=(20, 400))
        k = r.choice([1, 1, 2])
        for _ in range(k):
            gen_raise(r, spec)
        scn = {"spec": spec, "ctx": r.choice(["main", "main", "thread", "child"]), "recover": r.choice(["same-task", "new-task", "new-task"])}
        if scn["ctx"] == "main" and r.random() < 0.4:
            # an interrupt that hits the library itself, between any two of its steps
            spec["crash_tick"] = r.randint(1, r.choice([60, 3000, 30000]))
        return scn

    def shrink(self, scn):
        if "crash_tick" in scn["spec"]:
            yield dict(scn, spec={k: v for k, v in scn["spec"].items() if k != "crash_tick"})
        if scn["ctx"] != "main":
            yield dict(scn, ctx="main")
        yield from super().shrink(scn)

    def execute(self, scn):
        import multiprocessing as mp
        import threading
        from .. import ambient, meter
        spec = scn["spec"]
        res = Result()
        a = spec["alg"]
        prob = SimProblem(spec["problem"], spec.get("faults"))
        task = engine.make_task(spec, prob)
        rec = engine.Recorder(task, prob, spec.get("cb_faults"))
        ambient.pin(0)
        alg = engine.make_algorithm(spec, callbacks=[rec])
        dig = ""
        for attempt in range(5):
            o = self.once(res, scn, spec, prob, task, rec, alg)
            if o is None:
                break
            res.absorb(o)
            dig += engine.digest(o)
            if o.exceeded:
                break
            injected = o.crash_exc or self.injected(prob, task, rec)
            if not self.check(res, scn, spec, o, alg, injected):
                break
            if o.exc is None and injected is None:
                break
            # recovery: the fault is gone (its call index has passed); run again with the same algorithm
            prob.last_exc = rec.last_exc = task.repair_function.last_exc = None
            if scn["recover"] == "new-task":
                p2 = SimProblem(spec["problem"])
                rf = task.repair_function
                task = engine.make_task({k: v for k, v in spec.items() if k != "repair_faults"}, p2)
                prob = p2
                rec.task, rec.prob = task, p2
                rec.faults = {}
            res.probes["recoveries"] += 1
        res.states.add((a, scn["ctx"], tuple(sorted(res.faults))))
        res.digest = dig
        return res

    @staticmethod
    def injected(prob, task, rec):
        for e in (prob.last_exc, rec.last_exc, task.repair_function.last_exc):
            if e is not None:
                return e
        return None

    def once(self, res, scn, spec, prob, task, rec, alg):
        import multiprocessing as mp
        import threading
        from .. import meter
        o = engine.Outcome()
        o.prob, o.task, o.rec, o.alg = prob, task, rec, alg
        o.start = len(prob.log)
        o.x = o.f = o.exc = o.live_x = None
        o.returned = False
        rec.events, box = [], {}

        def body():
            try:
                box["r"] = alg.run(task)
            except BaseException as e:  # noqa: B902
                box["e"] = e
        with meter.Meter(engine.DEFAULT_TICKS, scn["spec"].get("crash_tick") if not res.probes["recoveries"] else None) as m:
            if scn["ctx"] == "thread":
                t = threading.Thread(target=body)
                t.start()
                t.join()
            elif scn["ctx"] == "child":
                cp = mp.current_process()
                old = cp.name
                cp.name = "Process-1"
                try:
                    body()
                finally:
                    cp.name = old
            else:
                body()
        o.exceeded, o.ticks, o.crash_exc = m.exceeded, m.ticks, m.crash_exc
        o.exc = box.get("e")
        if "r" in box:
            o.returned = True
            o.live_x, o.f = box["r"]
            if o.live_x is not None:
                o.x = np.array(o.live_x, dtype=float)
        return o

    def check(self, res, scn, spec, o, alg, injected):
        a = spec["alg"]
        if isinstance(o.exc, meter_exc()) or isinstance(alg.exception, meter_exc()):
            return False
        if injected is None:
            if o.exc is not None or (o.x is None and len(o.log)):
                res.add("failed-after-recovery:%s" % a, "no fault was injected, yet the run ended with %r / bad_run %r (%r)"
                        % (o.exc, alg.bad_run(), alg.exception))
                return False
            if alg.bad_run():
                res.add("stale-failure:%s" % a, "a run without failures is reported as bad (%r)" % (alg.exception,))
                return False
            return True
        # after the failure no more user code may run
        calls_at = len(o.prob.log)
        if o.prob.last_exc is not None and o.prob.log and not (o.prob.log[-1][3] or "").startswith("raise:"):
            res.add("continued-after-failure:%s" % a, "the objective was called again after it had raised")
        if scn["ctx"] == "main":
            if o.exc is not injected:
                res.add("fault-swallowed:%s" % a, "user code raised %r, the caller saw %r (returned %r)" % (injected, o.exc, o.returned))
                return False
        else:
            if o.exc is not None:
                res.add("worker-raised:%s" % a, "in a worker %s, run() raised %r instead of reporting it" % (scn["ctx"], o.exc))
                return False
            if o.live_x is not None or o.f is not None:
                res.add("fault-swallowed:%s" % a, "user code raised %r, run() returned %r" % (injected, o.f))
                return False
            if not alg.bad_run() or alg.exception is not injected:
                res.add("fault-unreported:%s" % a, "user code raised %r; bad_run() is %r, exception %r" % (injected, alg.bad_run(), alg.exception))
                return False
        return True


def meter_exc():
    from ..meter import StepBudgetExceeded
    return StepBudgetExceeded
