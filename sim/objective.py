"""Simulated objective functions: the "remote service" every optimiser talks to.

A `SimProblem` is an ordinary user-defined `niapy.problems.Problem`.  It records every
point it is handed (value copied at call time) and consults a fault plan.
"""
import math

import numpy as np

from niapy.problems import Problem
from niapy.util.factory import get_problem


class InjectedFault(Exception):
    """The exception the simulator raises out of user code (objective, callback, ...)."""


class InjectedBaseFault(BaseException):
    """Same, but not an `Exception` (stands for KeyboardInterrupt / SystemExit delivery)."""


def _exceptions():
    """Every exception user code may raise: the built-in ones, numpy's, its own."""
    import builtins
    out = {c.__name__: c for c in (InjectedFault, InjectedBaseFault, np.linalg.LinAlgError)}
    for n, c in sorted(vars(builtins).items()):
        if isinstance(c, type) and issubclass(c, BaseException) and c.__name__ == n and not n.endswith("Group"):
            try:
                c("text")
            except TypeError:
                continue
            out[n] = c
    return out


FAULT_EXCEPTIONS = _exceptions()
# what is most often raised in practice, and everything else
COMMON = ["InjectedFault", "InjectedBaseFault", "ValueError", "ZeroDivisionError", "MemoryError", "OSError",
          "KeyboardInterrupt", "SystemExit", "TimeoutError"]
# a StopIteration cannot pass through a generator unchanged, wherever it comes from: only callbacks raise it
RARE = [n for n in FAULT_EXCEPTIONS if n not in ("StopIteration", "StopAsyncIteration")]


def _shift(dim, lo, hi, k):
    # deterministic interior optimum, different per coordinate
    fr = np.array([((i * 37 + k * 11) % 97) / 97.0 for i in range(dim)])
    return lo + (hi - lo) * (0.15 + 0.7 * fr)


def _sphere(x, c, lo, hi):
    return float(np.sum((x - c) ** 2))


def _rastrigin(x, c, lo, hi):
    z = (x - c) / (hi - lo) * 8.0
    return float(np.sum(z * z - 10.0 * np.cos(2 * np.pi * z) + 10.0))


def _linear(x, c, lo, hi):
    return float(np.sum((np.arange(len(x)) % 3 - 1.0) * (x - lo) / (hi - lo)))


def _plateau(x, c, lo, hi):
    return float(np.floor(4.0 * np.sum(np.abs((x - c) / (hi - lo)))))


def _constant(x, c, lo, hi):
    return 3.0


def _zero(x, c, lo, hi):
    return 0.0


def _negative(x, c, lo, hi):
    return -5.0 - 10.0 / (1.0 + float(np.sum(((x - c) / (hi - lo)) ** 2)))


def _huge(x, c, lo, hi):
    return 1e12 * float(np.sum(np.abs((x - c) / (hi - lo)))) - 3e11


def _tiny(x, c, lo, hi):
    return 1e-9 * float(np.sum(((x - c) / (hi - lo)) ** 2)) + 1e-12


def _signed(x, c, lo, hi):
    z = (x - c) / (hi - lo)
    return float(np.sum(np.sin(11.0 * z) + z))


def _infpen(x, c, lo, hi):
    z = (x - c) / (hi - lo)
    if z[0] > 0.2:
        return math.inf
    return float(np.sum(z * z))


def _allinf(x, c, lo, hi):
    return math.inf


def _hash(x, c, lo, hi):
    z = np.floor((x - lo) / (hi - lo) * 64.0)
    h = 1469598103934665603
    for v in z:
        h = ((h ^ (int(v) & 0xFFFF)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return ((h >> 20) % 100003) / 1000.0 + 1.0


KINDS = {f.__name__[1:]: f for f in (
    _sphere, _rastrigin, _linear, _plateau, _constant, _zero, _negative, _huge, _tiny,
    _signed, _infpen, _allinf, _hash)}

BOUNDS = {
    "sym": (-5.0, 5.0),
    "pos": (2.0, 9.0),
    "neg": (-30.0, -1.0),
    "wide": (-1000.0, 600.0),
    "narrow": (0.25, 0.375),
    "unit": (0.0, 1.0),
}


INTEGRAL = {"sym", "pos", "neg", "wide", "unit"}


def user_bounds(spec):
    """The bounds in the form a user hands them over: float or integer arrays, lists, tuples, scalars."""
    lo, hi = bounds_of(spec)
    form = spec.get("form", "array")
    if form == "scalar" and spec.get("bounds", "sym") != "mixed":
        return float(lo[0]), float(hi[0])
    if form == "intscalar" and spec.get("bounds", "sym") in INTEGRAL:
        return int(lo[0]), int(hi[0])
    if form == "list":
        return lo.tolist(), hi.tolist()
    if form == "tuple":
        return tuple(lo.tolist()), tuple(hi.tolist())
    if form == "intarray" and spec.get("bounds", "sym") in INTEGRAL:
        return lo.astype(int), hi.astype(int)
    if form == "longer":
        return np.append(lo, lo[:1] - 1.0), np.append(hi, hi[:1] + 1.0)
    if form == "view":
        return np.stack([lo, hi, lo - 7.0], axis=1)[:, 0], np.stack([lo, hi, lo - 7.0], axis=1)[:, 1]
    return lo, hi


def bounds_of(spec):
    dim = spec["dim"]
    b = spec.get("bounds", "sym")
    if b == "mixed":
        lows = [-5.0, 2.0, -30.0, 0.25, 0.0, -1000.0]
        ups = [5.0, 9.0, -1.0, 0.375, 1.0, 600.0]
        return (np.array([lows[i % 6] for i in range(dim)]), np.array([ups[i % 6] for i in range(dim)]))
    lo, hi = BOUNDS[b]
    return np.full(dim, lo), np.full(dim, hi)


# the number types objectives return in practice
RETURNS = {"npfloat": np.float64, "f32": np.float32, "0d": np.array,
           "int": lambda v: int(v) if math.isfinite(v) else v,
           "npint": lambda v: np.int64(v) if math.isfinite(v) else np.float64(v)}


class SimProblem(Problem):
    """User problem whose objective is pure, plus the fault plan and the call log."""

    def __init__(self, spec, faults=None, hook=None):
        self.spec = spec
        self.kind = spec["kind"]
        if self.kind.startswith("builtin:"):
            self.inner = get_problem(self.kind.split(":", 1)[1], **({"dimension": spec["dim"]}))
            lo, hi = self.inner.lower, self.inner.upper
            super().__init__(self.inner.dimension, np.array(lo, dtype=float), np.array(hi, dtype=float))
            self.func = lambda x, c, l, h: float(self.inner.evaluate(x))
            self.center = None
        else:
            self.inner = None
            self.given = user_bounds(spec)
            super().__init__(spec["dim"], *self.given)
            self.func = KINDS[self.kind]
            self.center = _shift(spec["dim"], np.array(self.lower), np.array(self.upper), spec.get("shift", 0))
        self.neg = bool(spec.get("negate"))
        self.faults = {f["at"]: f for f in (faults or [])}
        self.hook = hook
        self.calls = 0
        self.log = []           # (call index, copied point, value or None, fault kind or None)
        self.seen = set()       # points evaluated without a fault
        self.last_exc = None
        self.fired = {}
        self.rettype = spec.get("ret", "float")
        self._lo = np.array(self.lower, dtype=float)
        self._hi = np.array(self.upper, dtype=float)

    def pure(self, x):
        """The objective, without log, faults or hooks (the oracle's view of it)."""
        x = np.asarray(x, dtype=float)
        v = self.func(x, self.center, self._lo, self._hi)
        if self.rettype in ("int", "npint") and math.isfinite(v):
            v = float(math.floor(v))
        elif self.rettype == "f32":
            v = float(np.float32(v))
        return -v if self.neg else v  # after rounding: the mirrored problem is exactly -f

    def _evaluate(self, x):
        n = self.calls
        self.calls += 1
        xc = np.array(x, dtype=float, copy=True)
        f = self.faults.get(n)
        if self.hook is not None:
            self.hook("eval", n)
        if f is not None:
            kind = f["kind"]
            self.fired[kind] = self.fired.get(kind, 0) + 1
            if kind.startswith("raise:"):
                self.log.append((n, xc, None, kind))
                self.last_exc = FAULT_EXCEPTIONS[kind[6:]]("injected at evaluation %d" % n)
                raise self.last_exc
            v = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "zero": 0.0,
                 "huge": 1e308}[kind]
            self.log.append((n, xc, v, kind))
            return v
        v = self.pure(xc)
        self.log.append((n, xc, v, None))
        self.seen.add(xc.tobytes())
        return RETURNS.get(self.rettype, float)(v)
