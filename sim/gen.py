"""Random scenarios: which optimiser, configured how, on which problem, under which limits."""
from . import algos

NAMES = list(algos.CLASSES)
SMOOTH = ["sphere", "rastrigin", "signed", "hash", "linear", "negative"]
ODD = ["plateau", "constant", "zero", "huge", "tiny", "infpen", "negative", "linear", "hash"]
BOUNDS = ["sym", "pos", "neg", "wide", "narrow", "unit", "mixed"]
FORMS = ["array", "array", "array", "list", "tuple", "scalar", "intscalar", "intarray", "longer", "view"]
REPAIRS = ["limit", "limit_inverse", "wang", "rand", "reflect", "limit", "limit_inverse", "wang", "rand", "reflect",
           "own_limit", "own_centre", "own_rand"]
RETS = ["float", "float", "float", "float", "npfloat", "npfloat", "f32", "0d", "int", "npint"]
BUILTINS = ["ackley", "griewank", "rosenbrock", "schwefel", "levy", "michalewicz", "styblinski_tang", "whitley"]
# algorithms whose cost per iteration is large or grows: keep their iteration-limited runs short
HEAVY = {n: 3 for n in NAMES if "MTS" in n or n.startswith("MultipleTrajectory")}
HEAVY.update({"CoralReefsOptimization": 4, "BacterialForagingOptimization": 8, "KrillHerd": 8,
              "LionOptimizationAlgorithm": 8, "FireflyAlgorithm": 6})
BIGPOP = {"SuccessHistoryAdaptiveDifferentialEvolution", "LpsrSuccessHistoryAdaptiveDifferentialEvolution",
          "ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution"}


def gen_problem(r, kinds=None, d1=0.06, builtin=0.05):
    if r.random() < builtin:
        return {"kind": "builtin:" + r.choice(BUILTINS), "dim": r.choice([2, 3, 5])}
    return {"kind": r.choice(kinds or (SMOOTH if r.random() < 0.6 else ODD)),
            "dim": 1 if r.random() < d1 else r.choice([2, 2, 3, 4, 5, 8]),
            "bounds": r.choice(BOUNDS), "shift": r.randint(0, 9), "ret": r.choice(RETS),
            "form": r.choice(FORMS)}


def gen_limits(r, name, spec, w=(0.7, 0.15, 0.15), evals=(1, 500)):
    u = r.random()
    if u < w[0]:
        spec["max_evals"] = r.randint(*evals) if r.random() < 0.8 else r.randint(1, 40)
    elif u < w[0] + w[1]:
        spec["max_iters"] = r.randint(1, min(12, HEAVY.get(name, 12)))
    else:
        spec["max_evals"] = r.randint(*evals)
        spec["max_iters"] = r.randint(1, 14)
    if "max_evals" not in spec and name in BIGPOP:
        spec["params"].setdefault("population_size", r.randint(10, 24))
    if "max_evals" not in spec and name == "CoralReefsOptimization":
        spec["params"]["population_size"] = min(16, spec["params"].get("population_size", 12))


def pick_alg(r, i):
    """Round-robin over the algorithms (equal coverage), order differs per cycle."""
    cyc, k = divmod(i, len(NAMES))
    order = list(NAMES)
    r2 = __import__("random").Random("order|%d" % cyc)
    r2.shuffle(order)
    return order[k]


def penalty(spec):
    """The penalty of a maximised objective is -inf."""
    if spec["opt"] == "max" and spec["problem"]["kind"] in ("infpen", "allinf"):
        spec["problem"]["negate"] = True
    return spec


SEEDS = [0, 1, 2 ** 32, 2 ** 63 - 1, 2 ** 128 + 1]


def tail(r, name, spec):
    """The long tail: long runs, many iterations, high dimensions, large populations."""
    k = r.choice(["evals", "iters", "dim", "pop"])
    if k == "evals" and spec.get("max_evals"):
        spec["max_evals"] = r.randint(800, 3200)
    elif k == "iters" and spec.get("max_iters") and name not in HEAVY and name not in BIGPOP:
        spec["max_iters"] = r.randint(30, 140)
        spec["params"].pop("mu", None)
        if "population_size" in spec["params"]:
            spec["params"]["population_size"] = min(spec["params"]["population_size"], 12)
    elif k == "dim" and not spec["problem"]["kind"].startswith("builtin"):
        spec["problem"]["dim"] = r.choice([10, 13, 20, 32])
    elif k == "pop" and "population_size" in spec["params"] and spec.get("max_evals"):
        spec["params"]["population_size"] = r.randint(30, 90)
        spec["max_evals"] += 100


def gen_spec(r, i=None, name=None, kinds=None, w=(0.7, 0.15, 0.15), evals=(1, 500), d1=0.06, builtin=0.05, maxpop=26):
    name = name or (pick_alg(r, i) if i is not None else r.choice(NAMES))
    spec = {"alg": name, "params": algos.gen_params(r, name, maxpop=maxpop), "seed": r.randint(0, 2 ** 31),
            "problem": gen_problem(r, kinds, d1, builtin), "opt": r.choice(["min", "max"]),
            "repair": r.choice(REPAIRS)}
    penalty(spec)
    gen_limits(r, name, spec, w, evals)
    if r.random() < 0.1:
        spec["log"] = True
    if r.random() < 0.06:
        spec["seed"] = r.choice(SEEDS)
    if evals[1] >= 200 and r.random() < 0.06:
        tail(r, name, spec)
    return spec


def shrink_spec(s):
    """Simpler variants of one spec (tried in order)."""
    def w(**kw):
        t = dict(s)
        for k, v in kw.items():
            if v is None:
                t.pop(k, None)
            else:
                t[k] = v
        return t
    p = s["problem"]
    for fk in ("faults", "cb_faults", "repair_faults", "cb_evals"):
        fs = s.get(fk)
        if fs:
            yield w(**{fk: None})
            for j in range(len(fs)):
                yield w(**{fk: fs[:j] + fs[j + 1:]})
    for k in list(s.get("params", {})):
        q = dict(s["params"])
        q.pop(k)
        yield w(params=q)
    if s.get("max_iters") is not None and s.get("max_evals") is not None:
        yield w(max_iters=None)
        yield w(max_evals=None, max_iters=min(s["max_iters"], 4))
    for k in ("max_evals", "max_iters"):
        v = s.get(k)
        if v is not None:
            for c in (v // 4, v // 2, v * 3 // 4, v - 10, v - 1):
                if 1 <= c < v:
                    yield w(**{k: c})
    if p.get("dim", 0) > 1 and not p["kind"].startswith("builtin"):
        for d in (1, 2, p["dim"] - 1):
            if d < p["dim"]:
                yield w(problem=dict(p, dim=d))
    if p["kind"] != "sphere":
        yield w(problem={"kind": "sphere", "dim": p["dim"], "bounds": p.get("bounds", "sym"), "shift": p.get("shift", 0), "form": p.get("form", "array")})
    if p.get("bounds", "sym") != "sym":
        yield w(problem=dict(p, bounds="sym"))
    if p.get("form", "array") != "array":
        yield w(problem=dict(p, form="array"))
    if p.get("ret", "float") != "float":
        yield w(problem=dict(p, ret="float"))
    if s.get("repair", "limit") != "limit":
        yield w(repair="limit")
    if s.get("opt") == "max" and not p.get("negate"):
        yield w(opt="min")
    if s.get("log"):
        yield w(log=None)
    if s.get("cutoff") is not None:
        yield w(cutoff=None)
    if s.get("seed") not in (None, 1):
        yield w(seed=1)


def size(s):
    """Ordering used by minimisation: smaller is simpler."""
    return (sum(len(s.get(k) or []) for k in ("faults", "cb_faults", "repair_faults", "cb_evals")),
            s.get("max_evals") or 0, s.get("max_iters") or 0, len(s.get("params", {})), s["problem"].get("dim", 0))
