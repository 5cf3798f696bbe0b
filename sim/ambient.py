"""Seam over everything a run could read from its surroundings besides its seed.

`pin(k)` makes operating-system entropy (as used by unseeded numpy generators),
the legacy global generators and the process clocks functions of the integer `k`.
"""
import os
import random
import time

import numpy as np
import numpy.random.bit_generator as _bg

from . import env  # noqa: F401

_real = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
                                       "perf_counter_ns", "process_time")}
_real_urandom = os.urandom
_real_randbits = _bg.randbits


def pin(k, clocks=False):
    src = random.Random("ambient|%s" % (k,))
    _bg.randbits = lambda n: src.getrandbits(n)
    np.random.seed(src.getrandbits(32))
    random.seed(src.getrandbits(64))
    if clocks:
        state = [1.0e9 + src.random() * 1e9]

        def now():
            # jumps in both directions: a stepped, skewed clock
            state[0] += src.choice((1e-6, 1e-3, 0.5, -0.25, 3600.0, -60.0))
            return state[0]

        for n in _real:
            setattr(time, n, (lambda: int(now() * 1e9)) if n.endswith("_ns") else now)
        os.urandom = lambda n: bytes(src.getrandbits(8) for _ in range(n))


def release():
    for n, f in _real.items():
        setattr(time, n, f)
    os.urandom = _real_urandom
    _bg.randbits = _real_randbits
