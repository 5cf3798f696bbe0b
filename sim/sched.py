"""Deterministic thread scheduler.

Real threads run real repository code, but only the thread that holds the token executes;
every other one is parked.  Preemption points are the source lines (optionally the single
bytecode instructions) of the repository's package, reported by `sys.monitoring`, plus
explicit `point()` calls in simulated user code and disk operations.  A seeded policy decides
at every point who continues; the switches that were made are recorded, and a recorded list of
switches (step number, thread) replays the same execution exactly.
"""
import _thread
import dis
import sys
import threading

from . import env, locks, prng
from .meter import StepBudgetExceeded

_mon = sys.monitoring
_TOOL = 3
_real_lock = _thread.allocate_lock

_STARTS = {}        # id(code) -> (code kept alive, offsets that count, offsets whose events stay on)


def _offsets(code):
    starts = keep = frozenset()
    if code.co_filename.startswith(env.NIAPY_DIR):
        starts = frozenset(o for o, _ in dis.findlinestarts(code))
        ins = [i.offset for i in dis.get_instructions(code)]
        # A combined (specialised) instruction swallows the one that follows it, so the
        # predecessor of a counted instruction has to stay instrumented as well.
        keep = starts | frozenset(a for a, b in zip(ins, ins[1:]) if b in starts)
    _STARTS[id(code)] = (code, starts, keep)
    return _STARTS[id(code)]


class _T:
    __slots__ = ("k", "gate", "ident", "done", "exc", "result", "waiting", "steps", "crash_at", "thread", "started", "crash_exc")


class Scheduler:
    """policy: {"seed", "gap", "kind"} or {"switches": [[step, thread], ...]}."""

    def __init__(self, policy, budget=4_000_000, instructions=False):
        self.policy = policy
        self.budget = budget
        self.instructions = instructions
        self.steps = 0
        self.switches = []
        self.threads = []
        self.by_ident = {}
        self.over = False
        self.cur = None
        self.stop = False
        self.sites = set()
        if "switches" in policy:
            self.plan = {s: t for s, t in policy["switches"]}
            self.rng = None
        else:
            self.plan = None
            self.rng = prng.make("sched", policy["seed"])
            self.next = self._gap()
        self.until = policy.get("until")

    # policy ------------------------------------------------------------
    def _gap(self):
        k = self.policy.get("kind", "random")
        g = self.policy.get("gap", 50)
        if k == "burst":            # long quiet stretches, then a storm of switches
            return self.steps + (1 if self.rng.random() < 0.8 else self.rng.randint(1, 40 * g))
        if k == "round":
            return self.steps + g
        return self.steps + 1 + int(self.rng.expovariate(1.0 / g))

    def _decide(self, runnable):
        """Who runs next (index) or None to go on."""
        if self.plan is not None:
            t = self.plan.get(self.steps)
            return t if t is not None and t in runnable else None
        if self.steps < self.next:
            return None
        self.next = self._gap()
        others = [t for t in runnable if t != self.cur]
        if not others:
            return None
        if self.policy.get("kind") == "round":
            return min(others, key=lambda t: (t - self.cur) % len(self.threads))
        return self.rng.choice(others)

    # points ------------------------------------------------------------
    def point(self, weight=1):
        t = self.by_ident.get(threading.get_ident())
        if t is None or t.done:
            return
        if self.stop:
            raise StepBudgetExceeded("simulation stopped")
        self.steps += weight
        t.steps += weight
        if t.crash_at is not None and t.steps >= t.crash_at:
            t.crash_at = None
            from .meter import AsyncInterrupt
            t.crash_exc = AsyncInterrupt("interrupted at step %d" % t.steps)
            raise t.crash_exc
        if self.steps > self.budget:
            self.over = self.stop = True
            raise StepBudgetExceeded("no progress after %d steps" % self.budget)
        if self.plan is None:
            if self.steps < self.next:
                return
        elif self.steps not in self.plan:
            return
        n = self._decide(self._runnable())
        if n is not None and n != t.k:
            self._switch(t, n)

    def _runnable(self):
        return [u.k for u in self.threads if not u.done and (u.waiting is None or u.waiting.owner is None)]

    def _switch(self, t, n):
        self.switches.append([self.steps, n])
        self._hand(t, n)

    def _hand(self, t, n):
        self.cur = n
        self.threads[n].gate.release()
        t.gate.acquire()
        if self.stop:
            raise StepBudgetExceeded("simulation stopped")

    def block_on(self, lock):
        """The running thread waits for a lock: somebody else has to run. False: nobody can."""
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return False
        t.waiting = lock
        others = [k for k in self._runnable() if k != t.k]
        if not others:
            t.waiting = None
            return False
        self.steps += 1
        n = self.plan.get(self.steps, others[0]) if self.rng is None else self.rng.choice(others)
        self._switch(t, n if n in others else others[0])
        t.waiting = None
        return True

    # monitoring --------------------------------------------------------
    # LINE events would depend on how far the adaptive interpreter has specialised the code, i.e.
    # on what ran before in the process; instruction offsets do not.
    def _event(self, code, offset):
        starts = _STARTS.get(id(code))
        if starts is None:
            starts = _offsets(code)
        if self.instructions:
            if not starts[1]:
                return _mon.DISABLE
        elif offset not in starts[1]:
            return None if offset in starts[2] else _mon.DISABLE
        self.point()
        return None

    # running -----------------------------------------------------------
    def run(self, bodies, crash_at=None):
        for k, body in enumerate(bodies):
            t = _T()
            t.k, t.gate, t.ident, t.done, t.exc, t.result = k, _real_lock(), None, False, None, None
            t.gate.acquire()
            t.waiting, t.steps, t.started, t.crash_exc = None, 0, False, None
            t.crash_at = (crash_at or {}).get(k)
            t.thread = threading.Thread(target=self._main, args=(t, body), name="sim-%d" % k, daemon=True)
            self.threads.append(t)
        self.finished = _real_lock()
        self.finished.acquire()
        ev = _mon.events.INSTRUCTION
        _mon.use_tool_id(_TOOL, "verif-sched")
        _mon.restart_events()
        _mon.register_callback(_TOOL, ev, self._event)
        _mon.set_events(_TOOL, ev)
        locks.CURRENT = self
        try:
            for t in self.threads:
                t.thread.start()
            first = 0 if self.rng is None else self.rng.randrange(len(self.threads))
            if self.plan is not None:
                first = self.policy.get("first", 0)
            self.first = first
            self.cur = first
            self.threads[first].gate.release()
            self.finished.acquire()
            for t in self.threads:
                t.thread.join()
        finally:
            locks.CURRENT = None
            _mon.set_events(_TOOL, 0)
            _mon.register_callback(_TOOL, ev, None)
            _mon.free_tool_id(_TOOL)
        return self

    def _main(self, t, body):
        t.gate.acquire()
        t.ident = threading.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.stop:
                t.result = body()
        except BaseException as e:  # noqa: B902
            t.exc = e
        t.done = True
        left = self._runnable() or [u.k for u in self.threads if not u.done]
        if not left:
            self.finished.release()
            return
        if self.stop:
            n = left[0]
        elif self.plan is not None:
            n = self.plan.get(-(t.k + 1), left[0])
            n = n if n in left else left[0]
        else:
            n = self.rng.choice(left)
        self.switches.append([-(t.k + 1), n])       # who continues when thread k is done
        self.cur = n
        self.threads[n].gate.release()

    def explicit(self):
        """The recorded schedule as a policy that replays it."""
        return {"switches": self.switches, "first": self.first}


def gen_policy(r, fine=0.5):
    kind = r.choice(["random", "random", "burst", "round"])
    gap = r.choice([1, 2, 4, 10] if r.random() < fine else [30, 100, 400, 2000])
    return {"seed": r.randint(0, 2 ** 31), "kind": kind, "gap": gap}


def shrink_policy(p):
    """Fewer context switches (only for recorded schedules)."""
    sw = p.get("switches")
    if not sw:
        return
    n = len(sw)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            yield dict(p, switches=sw[:a] + sw[a + size:])
        size //= 2
