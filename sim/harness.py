"""Seeded search over scenarios, minimisation, replay files, evidence."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import env, prng, ambient

REPLAYS = os.path.join(env.VERIF, "replays")
EVIDENCE = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.json")
WALL_CAP = {"quick": 420.0, "thorough": 6 * 3600.0}
SIM_WATCHDOG = 150
MEM_LIMIT = 5 << 30


class Watchdog(BaseException):
    pass


class Result:
    """What one simulated run reports."""

    def __init__(self):
        self.viol = []          # (signature, message)
        self.evals = 0
        self.ticks = 0
        self.runs = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.digest = ""
        self.nontrivial = False
        self.inconclusive = 0

    def add(self, sig, msg):
        self.viol.append((sig, msg))

    def absorb(self, o):
        """Account for one engine outcome."""
        self.runs += 1
        self.evals += len(o.log)
        self.ticks += o.ticks
        self.faults.update(o.fired())
        if o.exceeded:
            self.inconclusive += 1
        if len(o.log):
            self.nontrivial = True


def fold(faults):
    """The fault counts for the one-line summary: exceptions together (the evidence file has each kind)."""
    out = {}
    for k, v in faults.items():
        k = "raise" if k.startswith("raise:") else k
        out[k] = out.get(k, 0) + v
    return out


def scenario(prop, seed, index, tier):
    r = prng.make("scenario", prop.ID, seed, index)
    return prop.gen(r, index, tier)


def execute(prop, scn):
    """One simulated run of a scenario. Harness errors are told apart from violations."""
    try:
        res = prop.execute(scn)
        ambient.release()
        return res, None
    except Watchdog:
        ambient.release()
        return None, "watchdog: more than %d s" % SIM_WATCHDOG
    except BaseException as e:  # noqa: B902
        ambient.release()
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(env.NIAPY_DIR) for f in tb):
            last = [f for f in tb if f.filename.startswith(env.NIAPY_DIR)][-1]
            res = Result()
            res.add("unexpected-exception:%s" % type(e).__name__,
                    "%r raised at %s:%s" % (e, os.path.basename(last.filename), last.name))
            return res, None
        return None, traceback.format_exc()[-1500:]


def _worker_init():
    mp.current_process().name = "MainProcess"
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.stdout = open(os.devnull, "w")

    def bark(*_):
        raise Watchdog()
    signal.signal(signal.SIGALRM, bark)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


_PROP = None


def _sim(seed, index, tier):
    signal.alarm(SIM_WATCHDOG)
    try:
        scn = scenario(_PROP, seed, index, tier)
        t = time.time()
        res, err = execute(_PROP, scn)
        return index, scn, res, err, time.time() - t
    except Watchdog:
        return index, None, None, "watchdog", 0.0
    finally:
        signal.alarm(0)


def _chunk(a):
    seed, indices, tier = a
    return [_sim(seed, i, tier) for i in indices]


def _child(fn, arg, conn):
    _worker_init()
    try:
        conn.send(fn(arg))
    except BaseException:  # noqa: B902
        conn.send(("failed", traceback.format_exc()[-1500:]))
    conn.close()
    os._exit(0)


def pmap(fn, args, workers, deadline=None):
    """Every argument in a process of its own, forked from this one: no simulation can see
    what one in another chunk left behind. Yields (argument, result, error)."""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = collections.deque(args)
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            if deadline and time.time() > deadline:
                break
            arg = todo.popleft()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, arg, w))
            p.start()
            w.close()
            live[r] = (p, arg)
        if not live:
            break
        for r in wait(list(live), timeout=5):
            p, arg = live.pop(r)
            try:
                out, err = r.recv(), None
            except (EOFError, OSError) as e:
                out, err = None, "worker died (%r)" % (e,)
            r.close()
            p.join()
            if isinstance(out, tuple) and out and out[0] == "failed":
                out, err = None, out[1]
            yield arg, out, err
    for arg in todo:
        yield arg, None, "deadline"


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def sig_class(sig):
    return sig


def minimise(prop, scn, sig, budget_s=45.0, budget_n=250):
    """Greedy delta debugging over the scenario; keeps only the same signature."""
    t0, n = time.time(), 0
    cur = scn
    improved = True
    while improved and time.time() - t0 < budget_s and n < budget_n:
        improved = False
        for cand in prop.shrink(cur):
            if time.time() - t0 > budget_s or n >= budget_n:
                break
            n += 1
            signal.alarm(SIM_WATCHDOG)
            res, err = execute(prop, cand)
            signal.alarm(0)
            if res is not None and any(s == sig for s, _ in res.viol):
                cur = cand
                improved = True
                break
    return cur, n


def _fresh(a):
    """In a process of its own: does this scenario (after this history) show this signature?"""
    scn, sig, history = a
    for h in history:
        execute(_PROP, h)
    signal.alarm(SIM_WATCHDOG)
    res, err = execute(_PROP, scn)
    signal.alarm(0)
    if res is None:
        return None
    return [m for s, m in res.viol if s == sig], res.digest


def in_fresh_process(scn, sig, history=()):
    for _, out, err in pmap(_fresh, [(scn, sig, history)], 1):
        return out if out is not None else ([], "")


def _report(a):
    """Minimise one violation, prove that it reproduces in a fresh process, write the replay file."""
    sig, index, msg, orig, before, seed, tier = a
    scn, steps, history = orig, 0, []
    if in_fresh_process(orig, sig)[0]:
        try:
            scn, steps = minimise(_PROP, orig, sig)
        except Watchdog:
            scn = orig
        signal.alarm(0)
        if not in_fresh_process(scn, sig)[0]:
            scn = orig
    else:
        # needs what earlier simulations left behind in the process: keep (and thin out) that history
        history = [scenario(_PROP, seed, i, tier) for i in before]
        k = 0
        while k < len(history):
            cut = history[:k] + history[k + 1:]
            steps += 1
            if in_fresh_process(orig, sig, cut)[0]:
                history = cut
            else:
                k += 1
    hits, dig = in_fresh_process(scn, sig, history)
    os.makedirs(REPLAYS, exist_ok=True)
    key = hashlib.sha1((sig + json.dumps(scn, sort_keys=True)).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, "%s-%s.json" % (_PROP.ID, key))
    with open(path, "w") as f:
        json.dump({"property": _PROP.ID, "signature": sig, "message": hits[0] if hits else msg, "trace_digest": dig,
                   "reproduced_in_fresh_process": bool(hits), "seed": seed, "index": index,
                   "minimise_steps": steps, "scenario": scn, "history": history,
                   "original_scenario": orig}, f, indent=1, sort_keys=True)
    return path


def replay(prop, path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    mp.current_process().name = "MainProcess"
    for h in d.get("history", []):
        execute(prop, h)
    res, err = execute(prop, d["scenario"])
    if res is None:
        print("HARNESS-ERROR", err)
        return 2
    hit = [m for s, m in res.viol if s == d["signature"]]
    same = res.digest == d["trace_digest"]
    if not quiet:
        for s, m in res.viol:
            print("  %s: %s" % (s, m))
        print("trace digest %s (%s the recorded one)" % (res.digest, "equals" if same else "DIFFERS from"))
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("no violation reproduced")
    return 0


def run_check(prop, tier, seed, n=None, workers=None, wall=None, quiet=False):
    global _PROP
    _PROP = prop
    t0 = time.time()
    n = n or prop.N[tier]
    wall = wall or WALL_CAP[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    known = [k for k in load_known().get("findings", []) if k["property"] == prop.ID]
    faults, probes, states, digests = collections.Counter(), collections.Counter(), set(), {}
    total = collections.Counter()
    viols = {}
    harness_errors, watchdogs = [], []
    samples = []
    slow = (0.0, None)
    distinct = set()
    nontrivial = 0

    # chunks of consecutive scenarios share one forked process; every 20th chunk is simulated a
    # second time, in another process and in a different order of processes
    ck = prop.CHUNK
    chunks = [list(range(k, min(n, k + ck))) for k in range(0, n, ck)]
    again = chunks[::20][::-1]
    jobs = [(seed, tuple(c), tier) for c in chunks + again]
    mism, rechecked, truncated = [], 0, False
    chunk_of = {i: c for c in chunks for i in c}
    for job, out, err in pmap(_chunk, jobs, workers, t0 + wall):
        if out is None:
            if err == "deadline":
                truncated = True
            else:
                harness_errors.append((job[1][0], err))
            continue
        for index, scn, res, err, dt in out:
            if dt > slow[0]:
                slow = (dt, index)
            if res is None:
                (watchdogs if err and err.startswith("watchdog") else harness_errors).append((index, err))
            elif index in digests:
                rechecked += 1
                if digests[index] != res.digest:
                    mism.append(index)
            else:
                digests[index] = res.digest
                if res.nontrivial:
                    distinct.add(res.digest)
                total["runs"] += res.runs
                total["evals"] += res.evals
                total["ticks"] += res.ticks
                total["inconclusive"] += res.inconclusive
                faults.update(res.faults)
                probes.update(res.probes)
                states |= res.states
                nontrivial += bool(res.nontrivial)
                for s, m in res.viol:
                    viols.setdefault(s, []).append((index, m, scn))
                if len(samples) < 3 and res.nontrivial and index % 7 == 3:
                    samples.append({"index": index, "scenario": scn, "trace_digest": res.digest})

    # known findings: identified by signature and the scenario's own description
    reported, known_hits = {}, collections.Counter()
    for s, hits in sorted(viols.items()):
        left = []
        for index, m, scn in hits:
            k = next((k for k in known if prop.matches_known(k, s, scn)), None)
            if k:
                known_hits[k["id"]] += 1
            else:
                left.append((index, m, scn))
        if left:
            reported[s] = left
    for k in known:
        if prop.known_still_fails(k):
            known_hits[k["id"]] += 1
        if known_hits[k["id"]]:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]))

    out = []
    if reported:
        first = sorted(reported.items(), key=lambda kv: (-len(kv[1]), kv[0]))[:8]
        tasks = []
        for s, hits in first:
            index, m, scn = min(hits, key=lambda h: len(json.dumps(h[2])))
            tasks.append((s, index, m, scn, tuple(i for i in chunk_of[index] if i < index), seed, tier))
        for (s, index, m, scn, _, _, _), path, err in pmap(_report, tasks, workers):
            if path is None:
                harness_errors.append((index, err))
                continue
            with open(path) as f:
                msg = json.load(f)["message"]
            print("  [%s] %d scenarios, e.g. index %d: %s" % (s, len(reported[s]), index, msg))
            print("VIOLATION property=%s replay=%s" % (prop.ID, path))
            out.append(path)
    wall_s = time.time() - t0
    cov = {
        "evaluations": len(digests),
        "distinct_nontrivial": len(distinct),
        "rule": prop.RULE,
        "samples": samples,
        "optimiser_runs": total["runs"],
        "objective_evaluations": total["evals"],
        "simulated_time_ticks": total["ticks"],
        "seeds_per_hour": round(len(digests) / wall_s * 3600),
        "runs_per_hour": round(total["runs"] / wall_s * 3600),
        "faults_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_states": len(states),
        "state_measure": prop.STATES,
        "inconclusive_runs": total["inconclusive"],
        "watchdog_kills": len(watchdogs),
        "determinism_rechecked": rechecked,
        "determinism_mismatches": mism,
        "truncated_by_wall_cap": truncated,
        "slowest_simulation_s": round(slow[0], 2),
        "slowest_index": slow[1],
        "workers": workers,
        "components_real": prop.REAL,
        "components_stub": prop.STUB,
        "harness_errors": len(harness_errors),
        "known_findings_seen": dict(known_hits),
    }
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall_s, 2), "violations": len(reported)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s seed=%d: %d scenarios (%d optimiser runs, %d evaluations, %d ticks), %d distinct states, faults %s, "
          "%d inconclusive, recheck %d/%d equal, %.1fs%s" % (
              prop.ID, tier, seed, len(digests), total["runs"], total["evals"], total["ticks"], len(states),
              fold(faults), total["inconclusive"], rechecked - len(mism), rechecked, wall_s,
              " TRUNCATED" if truncated else ""))
    if reported:
        return 1
    if watchdogs:
        print("WATCHDOG", len(watchdogs), watchdogs[:3])
        return 3
    if harness_errors:
        print("HARNESS-ERROR", len(harness_errors), harness_errors[0][0], harness_errors[0][1])
        return 2
    return 0


class Prop:
    """Base of the property modules."""
    ID = None
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation with seeded fault injection, history oracles"
    NOTE = ("Sampled, not exhaustive: holds on every simulated run of the seeds explored. Trusts the recording objective, "
            "the oracle code and numpy; one seed is one exactly repeatable execution.")
    N = {"quick": 6000, "thorough": 200000}
    CHUNK = 12
    RULE = ""
    STATES = "(optimiser, direction, stop reason, fault kinds) tuples reached"
    REAL = ["every optimiser, Task, Problem base class, repair functions, callbacks (unmodified repository code)"]
    STUB = ["objective function", "user callbacks", "operating-system entropy and global generators"]
    ASSUMPTIONS = []

    def gen(self, r, i, tier):
        raise NotImplementedError

    def execute(self, scn):
        raise NotImplementedError

    def shrink(self, scn):
        return iter(())

    def matches_known(self, k, sig, scn):
        return False

    def known_still_fails(self, k):
        return False
