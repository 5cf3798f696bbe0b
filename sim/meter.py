"""Deterministic logical clock of a simulated run.

`sys.monitoring` reports function starts and jumps executed inside the repository's
package (and nowhere else); each one is a tick of simulated time.  A run that exceeds
its tick budget is stopped with `StepBudgetExceeded`, so "does not terminate" is decided
by counting executed steps, never by a wall clock.
"""
import sys

from . import env

_mon = sys.monitoring
_TOOL = 4


class StepBudgetExceeded(BaseException):
    pass


class AsyncInterrupt(KeyboardInterrupt):
    """What a user pressing Ctrl-C, or a signal, delivers between two steps of the library."""


class Meter:
    def __init__(self, budget, crash_at=None):
        self.budget = budget
        self.crash_at = crash_at
        self.crash_exc = None
        self.ticks = 0
        self.exceeded = False

    def _tick(self, code, *_):
        if not code.co_filename.startswith(env.NIAPY_DIR):
            return _mon.DISABLE
        self.ticks += 1
        if self.ticks == self.crash_at:
            # an asynchronous interrupt between two steps of library code
            self.crash_exc = AsyncInterrupt("interrupted at step %d" % self.ticks)
            raise self.crash_exc
        if self.ticks > self.budget:
            self.exceeded = True
            raise StepBudgetExceeded("no progress after %d steps" % self.budget)
        return None

    def __enter__(self):
        _mon.use_tool_id(_TOOL, "verif-meter")
        _mon.restart_events()
        ev = _mon.events
        _mon.register_callback(_TOOL, ev.PY_START, self._tick)
        _mon.register_callback(_TOOL, ev.JUMP, self._tick)
        _mon.set_events(_TOOL, ev.PY_START | ev.JUMP)
        return self

    def __exit__(self, *a):
        ev = _mon.events
        _mon.set_events(_TOOL, 0)
        _mon.register_callback(_TOOL, ev.PY_START, None)
        _mon.register_callback(_TOOL, ev.JUMP, None)
        _mon.free_tool_id(_TOOL)
        return False
