"""Discovery of the optimisers under test and generation of their configurations."""
import importlib
import inspect
import pkgutil

from . import env  # noqa: F401
import niapy.algorithms as _A
from niapy.algorithms.algorithm import Algorithm, default_individual_init, default_numpy_init


def discover():
    """{class name: class} of every concrete algorithm the package ships, in sorted order."""
    out = {}
    for pkg in ("niapy.algorithms.basic", "niapy.algorithms.modified", "niapy.algorithms.other"):
        mod = importlib.import_module(pkg)
        names = [m.name for m in pkgutil.walk_packages(mod.__path__, pkg + ".")]
        for name in [pkg] + sorted(names):
            m = importlib.import_module(name)
            for n, c in sorted(vars(m).items()):
                if inspect.isclass(c) and issubclass(c, Algorithm) and c is not Algorithm \
                        and c.__module__.startswith("niapy.") and not n.startswith("_"):
                    out[c.__name__] = c
    return dict(sorted(out.items()))


CLASSES = discover()


def ref(s):
    """'@module:name' -> object; lists/tuples recursively."""
    if isinstance(s, str) and s.startswith("@"):
        mod, _, n = s[1:].partition(":")
        return getattr(importlib.import_module(mod), n)
    if isinstance(s, list):
        return tuple(ref(v) for v in s)
    return s


def build_params(params):
    return {k: ref(v) for k, v in params.items()}


_DE = "@niapy.algorithms.basic.de:"
DE_STRATS = [_DE + n for n in ("cross_rand1", "cross_best1", "cross_rand2", "cross_best2", "cross_curr2rand1", "cross_curr2best1")]
_GA = "@niapy.algorithms.basic.ga:"
_ASO = "@niapy.algorithms.other.aso:"
_SA = "@niapy.algorithms.other.sa:"
_CRO = "@niapy.algorithms.basic.cro:"

# documented, ordinary parameter choices; the first entry of each list is the simplest
OPTIONS = {
    "ArtificialBeeColonyAlgorithm": {"limit": [100, 5, 1]},
    "BatAlgorithm": {"pulse_rate": [1.0, 0.5], "loudness": [1.0, 0.5]},
    "BeesAlgorithm": {"m": [5, 3], "e": [4, 2], "nep": [4, 2], "nsp": [2]},
    "BacterialForagingOptimization": {"n_chemotactic": [100, 3, 6, 2], "n_swim": [4, 1], "n_reproduction": [4, 2], "n_elimination": [2, 3], "swarming": [True, False]},
    "CamelAlgorithm": {"death_rate": [0.5, 0.9], "burden_factor": [0.25], "visibility": [0.5]},
    "ClonalSelectionAlgorithm": {"clone_factor": [0.1, 0.5], "num_rand": [1, 3], "bits_per_param": [16, 8]},
    "CoralReefsOptimization": {"k": [25, 2, 5], "brooding": [_CRO + "default_brooding"], "phi": [0.4, 0.2]},
    "CuckooSearch": {"pa": [0.25, 0.5]},
    "CatSwarmOptimization": {"mixture_ratio": [0.1, 0.5], "spc": [True, False]},
    "DifferentialEvolution": {"strategy": DE_STRATS, "crossover_probability": [0.8, 0.3], "differential_weight": [1, 0.5]},
    "DynNpDifferentialEvolution": {"strategy": DE_STRATS, "rp": [3, 2], "p_max": [50, 4]},
    "AgingNpDifferentialEvolution": {"age": [_DE + "proportional", _DE + "linear", _DE + "bilinear"], "max_lifetime": [12, 4]},
    "DynNpMultiStrategyDifferentialEvolution": {"p_max": [50, 4]},
    "EvolutionStrategy1p1": {"k": [10, 2]},
    "EvolutionStrategyMp1": {"k": [10, 2]},
    "EvolutionStrategyMpL": {"lam": [45, 8], "k": [10, 2]},
    "EvolutionStrategyML": {"lam": [45, 12], "k": [10, 2]},
    "ForestOptimizationAlgorithm": {"lifetime": [3, 1], "area_limit": [10, 5]},
    "BareBonesFireworksAlgorithm": {"num_sparks": [10, 3]},
    "FireworksAlgorithm": {"num_sparks": [50, 10], "num_gaussian": [5, 2]},
    "EnhancedFireworksAlgorithm": {"num_sparks": [50, 10], "num_gaussian": [5, 2]},
    "DynamicFireworksAlgorithm": {"num_sparks": [50, 10], "num_gaussian": [5, 2]},
    "DynamicFireworksAlgorithmGauss": {"num_sparks": [50, 10], "num_gaussian": [5, 2]},
    "GeneticAlgorithm": {"selection": [_GA + "tournament_selection", _GA + "roulette_selection"],
                         "crossover": [_GA + "uniform_crossover", _GA + "two_point_crossover", _GA + "crossover_uros"],
                         "mutation": [_GA + "uniform_mutation", _GA + "creep_mutation", _GA + "mutation_uros"],
                         "tournament_size": [5, 2], "mutation_rate": [0.25, 0.7]},
    "HarmonySearch": {"r_accept": [0.7], "r_pa": [0.35, 0.8]},
    "LionOptimizationAlgorithm": {"num_of_prides": [5, 2, 3]},
    "MonarchButterflyOptimization": {"period": [1.2]},
    "MantisSearchAlgorithm": {"use_reflection": [True, False], "normalize_space": [False, True]},
    "MutatedParticleSwarmOptimization": {"num_mutations": [10, 2]},
    "MutatedCenterParticleSwarmOptimization": {"num_mutations": [10, 2]},
    "MutatedCenterUnifiedParticleSwarmOptimization": {"num_mutations": [10, 2]},
    "ComprehensiveLearningParticleSwarmOptimizer": {"m": [10, 2]},
    "MultipleTrajectorySearch": {"num_tests": [5, 2], "num_searches": [5, 2], "num_searches_best": [5, 2], "num_enabled": [17, 2]},
    "MultipleTrajectorySearchV1": {"num_tests": [5, 2], "num_searches": [5, 2], "num_enabled": [17, 2]},
    "AnarchicSocietyOptimization": {"combination": [_ASO + "elitism", _ASO + "sequential", _ASO + "crossover"]},
    "SimulatedAnnealing": {"cooling_method": [_SA + "cool_delta", _SA + "cool_linear"], "starting_temperature": [2000, 1.5, 10, 2]},
    "HillClimbAlgorithm": {"delta": [0.5, 0.05]},
    "HybridBatAlgorithm": {"strategy": [DE_STRATS[1], DE_STRATS[0], DE_STRATS[2], DE_STRATS[5]]},
    "HybridSelfAdaptiveBatAlgorithm": {"strategy": [DE_STRATS[1], DE_STRATS[0], DE_STRATS[2], DE_STRATS[5]]},
    "SelfAdaptiveDifferentialEvolution": {"strategy": DE_STRATS},
    "SuccessHistoryAdaptiveDifferentialEvolution": {"hist_mem_size": [6, 2], "pbest_factor": [0.11, 0.3]},
    "LpsrSuccessHistoryAdaptiveDifferentialEvolution": {"hist_mem_size": [6, 2], "pbest_factor": [0.11, 0.3]},
    "ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution": {"hist_mem_size": [6, 3]},
}

_REP = "@niapy.util.repair:"
_MTS = "@niapy.algorithms.other.mts:mts_ls"
_LS = [_MTS + c for c in ("1", "2", "3")]
# parameters that mean the same wherever they occur
EVERYWHERE = {
    "strategy": DE_STRATS, "strategies": [[DE_STRATS[0], DE_STRATS[1], DE_STRATS[5], DE_STRATS[2]], [DE_STRATS[4], DE_STRATS[0]], [DE_STRATS[3]]],
    "num_tests": [5, 2], "num_searches": [5, 2], "num_searches_best": [5, 2], "num_enabled": [17, 2],
    "local_searches": [_LS, _LS[:2], [_LS[2], _LS[0]], [_MTS + "1v1", _MTS + "2"], [_MTS + "3v1", _MTS + "1"]],
    "bonus1": [10, 4], "bonus2": [1, 2], "repair": [_REP + n for n in ("reflect", "limit", "rand", "wang", "limit_inverse")],
    "min_lifetime": [0, 2], "max_neighbors": [5, 2],
    "supply_init": [10, 3], "endurance_init": [10, 3], "smp": [3, 5, 2], "min_w": [1.0, 0.5], "w_scale": [500.0, 20.0],
    "l0": [5, 2], "nt": [5, 2], "p_max": [50, 4], "rp": [3, 2], "f_lower": [0.0, 0.1], "f_upper": [1.0, 0.8], "tao_1": [0.1, 0.5], "tao_2": [0.1, 0.5],
    "max_amplitude": [40, 5], "a": {"SineCosineAlgorithm": [3, 2, 1]}, "beta0": [1, 0.5], "c": {"MonkeyKingEvolutionV1": [3, 2], "MonkeyKingEvolutionV2": [3, 2], "MonkeyKingEvolutionV3": [3, 2]},
    "starting_temperature": [2000, 10, 1.5], "delta_temperature": [0.8, 1, 0.5, 2.0], "ngh": [1, 0.3], "pbest_start": [0.2, 0.4], "beta1": [0.2, 0.5], "differential_weight": [1, 0.5],
    "alpha": {"FireflyAlgorithm": [1, 0.5]},
}
# pairs that have to stay ordered
PAIRS = [("min_velocity", "max_velocity", [(-1.5, 1.5), (-0.25, 0.25), (-4, 4)]), ("min_frequency", "max_frequency", [(0.0, 2.0), (0.5, 1.0)]),
         ("w_min", "w_max", [(0.4, 0.9), (0.2, 0.5)]), ("min_loudness", "max_loudness", [(0.9, 1.0), (0.2, 0.6)]),
         ("min_pulse_rate", "max_pulse_rate", [(0.001, 0.1), (0.2, 0.8)]), ("bw_min", "bw_max", [(1, 2), (0.01, 0.5)]),
         ("w1", "w0", [(0.4, 0.9), (0.2, 0.6)]), ("r_min", "r_max", [(0, 2), (1, 3)])]

NO_POP = {"EvolutionStrategy1p1", "BareBonesFireworksAlgorithm", "HillClimbAlgorithm", "RandomSearch",
          "SimulatedAnnealing", "ParameterFreeBatAlgorithm", "NelderMeadMethod"}
ES_POP = {"EvolutionStrategyMp1", "EvolutionStrategyMpL", "EvolutionStrategyML"}


# probabilities, rates and coefficients every algorithm documents as free in their range
JITTER = {"alpha", "gamma", "beta", "beta0", "rho", "pa", "p", "w", "c1", "c2", "c", "fc", "pulse_rate", "loudness",
          "death_rate", "visibility", "burden_factor", "crossover_probability", "differential_weight",
          "crossover_rate", "mutation_rate", "r_accept", "r_pa", "b_range", "transfer_rate", "broadcast_prob",
          "asexual_reproduction_prob", "depredation_prob", "mixture_ratio", "cdc", "srd", "prob_elimination",
          "step_size", "fluctuation_coeff", "population_rate", "delta_temperature", "delta", "levy", "partition",
          "k_value", "tao1", "tao2", "theta", "nt", "l0", "s", "nl", "f", "cr", "nomad_ratio", "female_ratio",
          "roaming_factor", "mating_factor", "mutation_factor", "immigration_factor", "amplification_coefficient",
          "reduction_coefficient", "amplification_coeff", "reduction_coeff", "n_max", "foraging_speed",
          "diffusion_speed", "c_t", "w_neighbor", "w_foraging", "d_s", "g0", "step_individual_init",
          "step_volitive_init", "delta_np", "omega", "clone_factor", "p0", "bonus1", "bonus2", "ngh", "c_a", "c_r",
          "starting_loudness", "extern_arc_rate"}
JITTER_SKIP = {("NelderMeadMethod", "alpha"), ("NelderMeadMethod", "gamma"), ("NelderMeadMethod", "rho")}


# arguments in a signature that the class decides itself
FIXED = {("MultiStrategySelfAdaptiveDifferentialEvolution", "strategy")}


def _defaults(cls):
    d = {}
    for k in cls.__mro__:
        if "__init__" in k.__dict__:
            for p in inspect.signature(k.__init__).parameters.values():
                if p.default is not inspect.Parameter.empty and p.name not in d:
                    d[p.name] = p.default
    return d


DEFAULTS = {n: _defaults(c) for n, c in CLASSES.items()}


def jitter(r, name, params):
    for k, v in sorted(DEFAULTS[name].items()):
        if k in JITTER and (name, k) not in JITTER_SKIP and k not in params and type(v) is float and v > 0 \
                and r.random() < 0.4:
            m = v * r.choice((0.4, 0.7, 1.0, 1.25))
            params[k] = round(min(m, 0.95) if v < 1.0 else m, 6)


def gen_params(r, name, minpop=8, maxpop=30, p_default=0.15):
    """Random documented parameters of algorithm `name` (JSON-able)."""
    params = {}
    if r.random() < p_default:
        return params
    if name in ES_POP:
        params["mu"] = r.randint(minpop, maxpop)
    elif name not in NO_POP:
        params["population_size"] = r.randint(minpop, maxpop)
    compact = r.random() < 0.25     # small populations and short cycles: every phase of an algorithm comes round often
    if compact and "population_size" in params:
        params["population_size"] = minpop
    rich = r.random() < 0.25        # nearly every parameter away from its default
    for k, vals in OPTIONS.get(name, {}).items():
        if compact and all(type(v) is int for v in vals):
            params[k] = min(vals)
        elif r.random() < (0.95 if rich else 0.6):
            params[k] = r.choice(vals)
    if r.random() < (0.9 if rich else 0.35):
        jitter(r, name, params)
    if r.random() < (0.95 if rich else 0.4):
        for k in sorted(DEFAULTS[name]):
            vals = EVERYWHERE.get(k)
            if isinstance(vals, dict):
                vals = vals.get(name)
            if vals and k not in params and k not in OPTIONS.get(name, {}) and (name, k) not in FIXED and r.random() < 0.4:
                params[k] = r.choice(vals)
        for lo, hi, vals in PAIRS:
            if lo in DEFAULTS[name] and hi in DEFAULTS[name] and not {(name, lo), (name, hi)} & FIXED and r.random() < 0.4:
                params[lo], params[hi] = r.choice(vals)
    if name == "BeesAlgorithm" and "m" in params:
        params["e"] = min(params.get("e", 2), params["m"])      # elite sites are among the selected ones
        params["m"] = min(params["m"], params["population_size"])
    return params


def _settle():
    """Finds the arguments a class decides for its base class (passing them is an error)."""
    for n, c in CLASSES.items():
        for k in DEFAULTS[n]:
            if k in EVERYWHERE or any(k in p[:2] for p in PAIRS):
                try:
                    c(seed=1, **{k: DEFAULTS[n][k]})
                except TypeError:
                    FIXED.add((n, k))


_settle()
