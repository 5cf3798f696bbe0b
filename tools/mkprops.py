"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALG = "src/niapy/algorithms/algorithm.py"
TASK = "src/niapy/task.py"
RUN = "src/niapy/runner.py"
CB = "src/niapy/callbacks.py"
FAC = "src/niapy/util/factory.py"
REP = "src/niapy/util/repair.py"
PRB = "src/niapy/problems/problem.py"
OPT = ["src/niapy/algorithms/basic/", "src/niapy/algorithms/modified/", "src/niapy/algorithms/other/"]


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech, "hook_needed": hook}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


TESTS = ("The unit tests run each optimiser with one seed on one or two smooth benchmark functions (mostly griewank and a "
         "custom sphere), minimising, with the default repair and round limits; ")

prop("C01", "The evaluation budget of a task is never exceeded and is counted exactly",
     "A user's objective function is never called more often than the evaluation limit of the task allows, over all runs and direct evaluations made on that task, and the task's evaluation count always equals the number of calls made, failed calls included. "
     "A run limited only by evaluations uses exactly that many.",
     ["configurations", "inputs", "fault_sequences", "histories"],
     "every optimiser and parameter choice, problem, direction and repair, every limit from 1 upwards, every point at which the objective, a callback or a repair fails, and every sequence of further runs (by the same or another optimiser) and callback evaluations on the same task",
     TESTS + "budgets that end inside an inner loop, failing objectives and reuse of a partly used task are not sampled.",
     [TASK, ALG] + OPT, [m("Task.eval guards and counts every evaluation", TASK + ":eval"), m("Task.stopping_condition", TASK + ":stopping_condition"),
                         m("Algorithm.run loop", ALG + ":run")], ["calls received by the objective function", "task.evals"])
prop("C02", "Runs stop at the first limit reached, and iterations are counted exactly",
     "No iteration begins and no objective evaluation is made once any limit of the task (evaluations, iterations, target value) has been reached; a run limited only by iterations completes exactly that many; a run never ends while no limit has been reached. "
     "The task's iteration count always equals the number of iterations completed on it, over every run on that task, including runs that were cut short by a failure.",
     ["configurations", "inputs", "fault_sequences", "histories"],
     "every optimiser, every combination of limits, every failure point, and continued runs on the same task",
     TESTS + "which limit is hit first and where inside an iteration is decided by configuration and seed, and continuation after a failure is never run.",
     [TASK, ALG], [m("Task.stopping_condition combines the limits", TASK + ":stopping_condition"), m("Task.next_iter", TASK + ":next_iter"), m("Algorithm.run loop", ALG + ":run")],
     ["callback sequence", "task.iters"])
prop("C03", "Reaching the target value stops the search at once and is returned",
     "When a task has a target value, the first evaluation whose value is at least as good as the target (smaller or equal when minimising, larger or equal when maximising) is the last evaluation made on that task, and the run returns a value that meets the target. "
     "A run does not end before that unless another limit is reached.",
     ["configurations", "inputs", "fault_sequences"],
     "every optimiser, direction, target that the run can reach (including exact equality and one unit in the last place to either side) at every position of the run",
     TESTS + "no test puts the target at an arbitrary evaluation inside an iteration or checks maximisation targets per optimiser.",
     [TASK, ALG] + OPT, [m("cutoff comparison in both directions", TASK + ":stopping_condition"), m("Task.eval refuses after stop", TASK + ":eval")])
prop("C04", "A run returns the best solution it evaluated, together with its true value",
     "Whatever ends a run (any limit, at any evaluation, in the middle of any step), the value it returns is the best of all values the objective returned during that run in the direction of optimisation, and the solution it returns is a point the objective was given and evaluates to that value. "
     "The same holds for a run started after an earlier one failed.",
     ["configurations", "inputs", "crash_points", "fault_sequences"],
     "every optimiser and parameter choice, direction, problem shape, and every evaluation at which the budget, the target or a failure can cut the run, with transient infinite (penalty) answers",
     TESTS + "they compare the returned value with a re-evaluation of the returned point at one stop point, and cannot see a better point that was evaluated and lost.",
     [ALG, TASK] + OPT, [m("get_best over the population", ALG + ":get_best"), m("best tracking in each optimiser", "run_iteration of every optimiser"), m("result sign for maximisation", ALG + ":run")],
     ["objective call history", "return value of run"])
prop("C05", "A task's progress records equal its exact evaluation history",
     "The best value a task reports, its evaluation and iteration counts and both of its convergence curves (over evaluations and over iterations) are, entry by entry and in both directions of optimisation, exactly what the sequence of values returned by the objective implies. "
     "This holds after any number of runs on the task, interrupted runs and evaluations made by callbacks included.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "every history of evaluations, iteration ends, failures, infinite values and continued runs on one task, minimising and maximising",
     TESTS + "the convergence tests look at the shape of the data for single uninterrupted minimisation runs.",
     [TASK], [m("improvement log", TASK + ":eval"), m("iteration log", TASK + ":next_iter"), m("curve reconstruction", TASK + ":convergence_data")])
prop("C06", "The objective only ever receives feasible points",
     "Every point handed to the objective function has the problem's dimension, only finite coordinates, and lies within the problem's bounds, for every optimiser, every repair strategy and every bound shape, also after infinite or extreme objective values; so does every returned solution.",
     ["inputs", "configurations", "fault_sequences"],
     "every optimiser and parameter choice, repair strategy, dimension from 1, symmetric, one-sided, per-coordinate, very narrow and very wide bounds, and objective values including zero, constant, huge, infinite and transiently wrong ones",
     TESTS + "a point outside the bounds is only noticed if the result itself is infeasible, and only for the default repair on symmetric bounds.",
     [REP, TASK] + OPT, [m("Task.repair with the task's bounds", TASK + ":repair"), m("repair functions", REP), m("initial population", ALG + ":default_numpy_init")],
     ["points received by the objective function"])
prop("C07", "A seeded run is a function of its seed, configuration and problem only",
     "Two runs of an optimiser created with the same seed and configuration on equal tasks hand the objective exactly the same points in the same order and return the same result, regardless of operating-system entropy, the state of global random generators, clocks, hash randomisation, the process they run in and whatever ran earlier in that process. "
     "Runs that differ only in the seed are not forced to coincide.",
     ["inputs", "configurations", "histories"],
     "every optimiser and parameter choice, repair strategy, ambient state (entropy, global generators, stepped clocks, hash seed) and every sequence of earlier runs in the process, failed ones included",
     TESTS + "reproducibility is at most compared for two back-to-back runs in one process with the default repair.",
     [ALG, REP, "src/niapy/util/random.py"] + OPT, [m("one generator per optimiser", ALG + ":__init__"), m("generator handed to repair, initialisation and helpers", "rng= arguments throughout the optimisers"),
                                                      m("repair functions fall back to fresh entropy without rng", REP)])
prop("C08", "Optimisers running concurrently do not influence each other",
     "When several optimisers run at the same time in one process, in threads under any interleaving or nested inside each other's objective function, each evaluates exactly the points and returns exactly the result it would have on its own, even when they are of the same kind, share the problem object or one of them fails.",
     ["schedules", "configurations", "fault_sequences"],
     "every interleaving (down to single source lines and, sampled, single bytecodes of the library) of two to four runs of every optimiser, with shared or separate problem objects, with nested runs, stalls and failures of some of the runs",
     "No test starts two runs at once, and a real thread schedule cannot be chosen or repeated by a test.",
     [ALG, TASK, PRB] + OPT, [m("all run state lives in the optimiser, the task and local variables", ALG + ":run"), m("no module or class level mutable state", "src/niapy/")],
     ["objective call history per run"])
prop("C09", "Failures of user code are never swallowed, and leave nothing behind",
     "When the objective function, a callback or the repair function raises anything, the run stops there: no further evaluation is made, the very same exception reaches a caller in the main thread, and in a worker thread or child process the run returns no result and the optimiser reports the failed run and its exception. "
     "Afterwards the same optimiser, on the same or a new task, runs to completion and reports a good run.",
     ["crash_points", "fault_sequences", "configurations"],
     "every call of the objective, each callback hook and the repair function of every optimiser as the failure point, ordinary errors as well as interrupts, exits and memory errors, in the main thread, a worker thread and a child process, followed by recovery",
     "The tests raise once from one stub optimiser; the failure point inside each of the optimisers is never varied.",
     [ALG, TASK, CB], [m("exception handling around the loop", ALG + ":run"), m("bad_run", ALG + ":bad_run")])
prop("C10", "Every run with a limit finishes, and never fails by itself",
     "A run on a task with a finite evaluation or iteration limit, whose objective returns numbers (infinite penalties, constants and zeros included), completes in a bounded number of steps and returns a result without raising an error of its own. "
     "The same holds when it is run again after user code failed or the objective answered with penalties for a while.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every optimiser and parameter choice in its documented range, dimension from 1, flat, constant, zero, negative, huge, tiny, discontinuous and infinite objectives, outages of any length followed by recovery, both directions",
     TESTS + "degenerate fitness landscapes (division by zero, empty candidate sets, endless retry loops) are not sampled.",
     [ALG, TASK] + OPT, [m("every loop of an optimiser consults the stopping condition or is bounded", "run_iteration of every optimiser"), m("Task.eval answers inf after the limit", TASK + ":eval")])
prop("C11", "Callbacks observe the run in order and with correct data",
     "Every registered callback is called in registration order: once before the run, then once before and once after each iteration, and once after the run if it completes; nothing else happens in between. "
     "The best solution and value they are given never worsen, are the best evaluated so far and belong together, and every reported population member at a point that was evaluated carries that point's value.",
     ["configurations", "inputs", "fault_sequences", "histories"],
     "every optimiser, any number of callbacks registered by each documented way, failures in any callback or evaluation, repeated runs",
     TESTS + "callback tests use one optimiser and count calls; the data handed over is not compared with the evaluation history.",
     [CB, ALG] + OPT, [m("CallbackList forwards in order", CB), m("hooks around each iteration", ALG + ":run")])
prop("C12", "An optimiser object can be reused: only its random state carries over",
     "Running an optimiser object again, on a new task of any dimension, bounds, direction or limits, and after any sequence of completed or failed runs, behaves exactly like a newly created optimiser with the same configuration whose random generator is in the same state. "
     "Its parameters read the same before and after any run.",
     ["histories", "configurations", "crash_points"],
     "every optimiser, every sequence of one to three earlier runs on differing tasks, each completed or failed at an arbitrary evaluation",
     "No test runs an optimiser object twice on different tasks and compares with a fresh one.",
     [ALG] + OPT, [m("per-run state is created in init_population", "init_population of every optimiser"), m("parameters are only written by set_parameters", ALG)])
prop("C13", "The runner completes its whole experiment matrix, each cell exactly once",
     "A runner reports, for every algorithm and problem it was given (names, objects or a mix of both, told apart by name), exactly the requested number of results, no others; each is the result of a separate run with the full evaluation budget, equal to running that optimiser on that problem directly in the same order. "
     "A cell that fails stops the experiment with that error in the main thread and never contaminates other cells in a worker thread; running again replaces the results.",
     ["configurations", "fault_sequences", "histories", "schedules"],
     "every combination of algorithms, problems, repetitions, budgets, repeated execution, failing objectives at any evaluation of any cell, and several runners interleaved in threads",
     "The runner tests run one or two fixed combinations with tiny budgets and only look at the export.",
     [RUN, FAC, ALG], [m("run matrix loop", RUN + ":run"), m("task_factory", RUN + ":task_factory")])
prop("C14", "Exports are complete, failures are reported, earlier exports survive",
     "When a runner finishes without an error, exactly one new export file exists and reading it back gives exactly the results it returned (to the precision of the format). "
     "When writing fails for whatever reason the error reaches the caller, and no export, successful, failed, interrupted or concurrent, and whatever the clock reads, changes any file exported earlier.",
     ["fault_sequences", "crash_points", "schedules", "histories"],
     "every export format and result matrix, every disk operation failing (no space, I/O error, permission, interruption, short write) or the process stopping there, clocks that stall, jump back and repeat, several runners interleaved on one directory",
     "The tests export once to a healthy disk with a real clock and only check that a file appeared.",
     [RUN], [m("export name from the clock", RUN + ":__generate_export_name"), m("export directory", RUN + ":__create_export_dir"), m("exporters", RUN)])
prop("C15", "Maximising a function equals minimising its negation",
     "A run that maximises f and a run that minimises -f with the same seed, configuration and limits evaluate exactly the same points in the same order, return the same solution and opposite values, and keep mirrored progress records; with a target value, mirrored targets stop both at the same evaluation.",
     ["inputs", "configurations", "fault_sequences"],
     "every optimiser and parameter choice, problem, limits, targets and transient penalty values",
     "Maximisation is exercised for a handful of optimisers; nothing compares the two directions step by step.",
     [TASK, ALG] + OPT, [m("sign applied once on evaluation and once on return", TASK + ":eval"), m("fxb * optimization_type.value", ALG + ":run")])
prop("C16", "Looking things up by name is total, stateless and always gives a new object",
     "Every registered algorithm and problem name yields, at any time, in any order of lookups and from any thread, a new independent object of the class registered under that name with the given arguments; an unknown name is reported as an error and affects nothing. "
     "A task or runner given a name behaves as if given a newly made object of that name.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence and thread interleaving of lookups, valid and invalid, with and without arguments, including constructor failures",
     "Tests look up single names once; sequences and concurrent lookups are not tried.",
     [FAC, TASK], [m("option tables built per lookup", FAC + ":_problem_options"), m("pop from the table", FAC + ":get_problem")])
prop("C17", "Runs never modify what the user gave them or was given",
     "Running an optimiser changes neither the bounds or other arrays the user passed in, nor the problem's and task's bounds, nor the optimiser's array-valued parameters; and a solution once returned from a run or handed to a callback as the best never changes afterwards, whatever runs later on the same objects.",
     ["histories", "configurations", "inputs"],
     "every optimiser and repair strategy, user-supplied bound arrays in every accepted form, and any later runs (completed or failed) on the same optimiser, task or problem",
     "Aliasing only shows when inputs and earlier results are compared after later steps, which no test does.",
     [TASK, PRB, ALG] + OPT, [m("best solution is copied when recorded", ALG + ":get_best"), m("bounds arrays", PRB + ":__init__")])
prop("C18", "Evaluating a benchmark problem is pure, whatever was evaluated before",
     "Each benchmark problem returns the same value for the same point whatever was evaluated before, on the same or other instances of any dimension and bounds, in whatever thread and interleaving, and also after failed evaluations; evaluation never changes the point it is given or the problem.",
     ["histories", "schedules"],
     "every registered benchmark problem, sequences and thread interleavings of evaluations over several instances of differing dimension and bounds, including rejected points",
     "Tests evaluate a known optimum once per problem; history dependence, shared state and argument mutation cannot show.",
     [PRB, "src/niapy/problems/"], [m("_evaluate is a pure function of x", "src/niapy/problems/*.py:_evaluate"), m("dimension check", PRB + ":evaluate")])

prop("C19", "Reconfiguring an optimiser equals creating it with that configuration",
     "After set_parameters is given every argument the constructor takes, an optimiser reads back the same parameters and behaves exactly as a newly created optimiser with these arguments whose random generator is in the same state, whatever it was configured with before and whatever runs, completed or failed, it made in between.",
     ["histories", "configurations", "crash_points"],
     "every optimiser, every sequence of reconfigurations interleaved with completed, failed and interrupted runs",
     "Tests call set_parameters on a new object at most once and read the values back; several optimisers are never reconfigured at all.",
     [ALG] + OPT, [m("set_parameters mirrors the constructor", "set_parameters of every optimiser")])

# properties that are pure functions of one input: nothing for a simulator to schedule or fail
prop("C90", "Benchmark functions compute their published formulas",
     "Each benchmark problem's value at every point of its domain equals the published definition of the function, and its documented optimum has the documented value.",
     ["inputs"], "every benchmark problem, dimension and point", "Tests evaluate the optimum and at most a few points.",
     ["src/niapy/problems/"], [m("formulas", "src/niapy/problems/*.py:_evaluate")])
prop("C91", "Repair functions return the closest documented feasible point",
     "Each repair function maps any finite point to a feasible point, leaves feasible coordinates unchanged and follows its documented rule for infeasible ones.",
     ["inputs"], "every finite point, bounds and repair function", "Tests use a few vectors.", [REP], [m("repair functions", REP)])
prop("C92", "Command line arguments are parsed as documented",
     "The argument parser accepts every documented option in any order and yields the documented values and defaults.",
     ["inputs"], "every argument vector", "Tests parse a few vectors.", ["src/niapy/util/argparser.py"], [m("parser", "src/niapy/util/argparser.py")])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
