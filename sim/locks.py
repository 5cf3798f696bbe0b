"""Locks created by the code under test cooperate with the deterministic scheduler."""
import _thread
import sys
import threading

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock

CURRENT = None


class SchedLock:
    """A lock the repository's code created: waiting for it gives the token away."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            s = CURRENT
            if s is None or not s.block_on(self):
                raise RuntimeError("deadlock: lock held and nobody can release it")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install(package_dir):
    def lock():
        return SchedLock() if sys._getframe(1).f_code.co_filename.startswith(package_dir) else _real_lock()

    def rlock():
        return SchedLock(True) if sys._getframe(1).f_code.co_filename.startswith(package_dir) else _real_rlock()
    threading.Lock = lock
    threading.RLock = rlock
