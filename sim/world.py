"""The simulated world around the export code: a disk that fails and a clock that misbehaves.

Files are real files inside a private scratch directory.  Every operation that reaches the
"disk" is counted; a plan says at which one what happens.  Bytes still in user-space buffers
when the simulated process dies are lost, bytes the operating system accepted survive.
"""
import builtins
import datetime
import errno
import gc
import importlib.util
import io
import os
import pathlib
import shutil
import sys
import tempfile
import threading
import time

from . import env

_open = io.open
_os = {n: getattr(os, n) for n in ("mkdir", "open", "replace", "rename", "link", "unlink", "remove", "fsync", "write", "close", "ftruncate", "truncate")}
_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns")}
_localtime, _gmtime, _strftime = time.localtime, time.gmtime, time.strftime
_datetime = datetime.datetime
_date = datetime.date

ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "erofs": errno.EROFS, "edquot": errno.EDQUOT, "emfile": errno.EMFILE}


class Crash(BaseException):
    """The process stopped here; what follows in it never happened."""


class DiskInterrupt(KeyboardInterrupt):
    pass


class Clock:
    """plan: {"start": seconds, "steps": [seconds, ...]}: reading k adds steps[k mod len] first."""

    def __init__(self, plan):
        self.now = plan["start"]
        self.steps = plan["steps"]
        self.k = 0
        self.reads = 0
        self.back = 0

    def read(self):
        d = self.steps[self.k % len(self.steps)]
        self.k += 1
        self.reads += 1
        self.back += d < 0
        self.now += d
        return self.now


class World:
    """plan per actor: [{"at": n-th disk operation, "kind": ...}]; actors are simulated processes or threads."""

    def __init__(self, clock, point=None):
        self.clock = Clock(clock)
        self.root = None
        self.point = point or (lambda: None)
        self.actors = {}
        self.fired = {}
        self.trace = []
        self.active = False

    # actors -------------------------------------------------------------
    def actor(self, plan):
        """The calling thread acts under this fault plan from now on."""
        self.actors[threading.get_ident()] = {"n": 0, "plan": {f["at"]: f["kind"] for f in plan or []}, "dead": None, "fired": []}

    def me(self):
        return self.actors.get(threading.get_ident())

    def op(self, name, path):
        """One disk operation is about to happen. Returns None or 'short'."""
        self.point()
        a = self.me()
        if a is None:
            return None
        if a["dead"]:
            raise Crash(a["dead"])
        n = a["n"]
        a["n"] += 1
        self.trace.append((name, n))
        kind = a["plan"].pop(n, None)
        if kind is None:
            return None
        if kind == "short" and name != "write":
            return None
        if kind == "torn" and name != "write":
            kind = "crash"
        a["fired"].append((n, name, kind))
        self.fired["disk:%s@%s" % (kind, name)] = self.fired.get("disk:%s@%s" % (kind, name), 0) + 1
        if kind == "crash":
            a["dead"] = "process stopped at disk operation %d (%s)" % (n, name)
            raise Crash(a["dead"])
        if kind == "interrupt":
            raise DiskInterrupt("interrupted at disk operation %d (%s)" % (n, name))
        if kind in ("short", "torn"):
            return kind
        e = ERRNO[kind]
        raise OSError(e, os.strerror(e), path)

    def die(self, why):
        a = self.me()
        a["dead"] = why
        raise Crash(why)

    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    # installing ---------------------------------------------------------
    def __enter__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="verif-world-"))
        self.cwd = os.getcwd()
        os.mkdir(os.path.join(self.root, "work"))
        os.mkdir(os.path.join(self.root, "tmp"))
        os.chdir(os.path.join(self.root, "work"))
        self.tempdir, tempfile.tempdir = tempfile.tempdir, os.path.join(self.root, "tmp")
        self._install()
        sys.unraisablehook = lambda *a: None     # writers finalised after a simulated crash
        gc.disable()                             # nothing is finalised at a moment the seed does not decide
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        builtins.open = io.open = _open
        for n, f in _os.items():
            setattr(os, n, f)
        for n, f in _time.items():
            setattr(time, n, f)
        time.localtime, time.gmtime, time.strftime = _localtime, _gmtime, _strftime
        datetime.datetime, datetime.date = _datetime, _date
        tempfile.tempdir = self.tempdir
        gc.enable()
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    def _install(self):
        w = self

        class Raw(io.FileIO):
            """A file whose writes reach the simulated disk."""

            owner = None

            def write(self, b):
                how = w.op("write", getattr(self, "name", None))
                n = len(memoryview(b).cast("B"))
                if how == "short" and n > 1:
                    return super().write(memoryview(b).cast("B")[:n // 2])
                if how == "torn":
                    super().write(memoryview(b).cast("B")[:n // 2])
                    w.die("process stopped in the middle of a write")
                return super().write(b)

            def close(self):
                if not self.closed:
                    # finalised by the garbage collector, or its process is gone: no operation
                    a = w.me()
                    if not w.active or a is None or a is not self.owner or a["dead"]:
                        try:
                            super().close()
                        except OSError:
                            pass
                        return
                    try:
                        w.op("close", getattr(self, "name", None))
                    finally:
                        super().close()

        def opener(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not w.active or w.me() is None or isinstance(file, int) or not w.inside(file) or not set(mode) & set("wax+"):
                return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            w.op("open", os.fspath(file))
            raw = Raw(file, mode.replace("b", "").replace("t", ""), closefd=closefd, opener=opener)
            raw.owner = w.me()
            if "b" in mode and buffering == 0:
                return raw
            size = buffering if buffering > 1 else 8192
            if "+" in mode:
                buf = io.BufferedRandom(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)

        builtins.open = io.open = opener

        def wrap(name):
            real = _os[name]

            def f(*args, **kw):
                if w.active and w.me() is not None and args and not isinstance(args[0], int) and w.inside(args[0]):
                    if name != "open" or (len(args) > 1 and args[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) or "flags" in kw:
                        w.op(name, os.fspath(args[0]))
                elif w.active and w.me() is not None and name in ("fsync", "write", "ftruncate"):
                    w.op(name, None)
                return real(*args, **kw)
            return f
        for n in ("mkdir", "open", "replace", "rename", "link", "unlink", "remove", "fsync", "write", "ftruncate", "truncate"):
            setattr(os, n, wrap(n))

        # clocks --------------------------------------------------------
        def now():
            w.point()
            return w.clock.read() if w.me() is not None else _time["time"]()
        time.time = now
        time.time_ns = lambda: int(round(now() * 1e6)) * 1000
        for n in ("monotonic", "perf_counter"):
            # these never go back, but they may stall and restart with the process
            setattr(time, n, lambda: max(0.0, w.clock.now - 1e8))
            setattr(time, n + "_ns", lambda: int(max(0.0, w.clock.now - 1e8) * 1e9))
        time.localtime = lambda t=None: _localtime(now() if t is None else t)
        time.gmtime = lambda t=None: _gmtime(now() if t is None else t)
        time.strftime = lambda f, t=None: _strftime(f, time.localtime() if t is None else t)

        def at(cls, t, tz=None):
            return cls.fromtimestamp(round(t, 6), tz)

        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, _datetime)

            def __subclasscheck__(cls, c):
                return issubclass(c, _datetime)

        class FakeDatetime(_datetime, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return at(_datetime, now(), tz)

            @classmethod
            def utcnow(cls):
                return at(_datetime, now(), datetime.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return at(_datetime, now())

        class DMeta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, _date)

            def __subclasscheck__(cls, c):
                return issubclass(c, _date)

        class FakeDate(_date, metaclass=DMeta):
            @classmethod
            def today(cls):
                return at(_datetime, now()).date()
        datetime.datetime, datetime.date = FakeDatetime, FakeDate

    # looking ------------------------------------------------------------
    def files(self):
        """path below the working directory -> content, as a reader would see the disk now."""
        out = {}
        base = os.path.join(self.root, "work")
        for d, _, fs in os.walk(base):
            for f in fs:
                p = os.path.join(d, f)
                with _open(p, "rb") as h:
                    out[os.path.relpath(p, base)] = h.read()
        return out

    def put(self, rel, data):
        p = pathlib.Path(self.root, "work", rel)
        os.makedirs(p.parent, exist_ok=True)
        with _open(p, "wb") as h:
            h.write(data)


def load_runner():
    """The runner module loaded again, as in a process that just started."""
    path = os.path.join(env.NIAPY_DIR, "runner.py")
    spec = importlib.util.spec_from_file_location("niapy.runner", path)
    m = importlib.util.module_from_spec(spec)
    old = sys.modules.get("niapy.runner")
    sys.modules["niapy.runner"] = m
    try:
        spec.loader.exec_module(m)
    finally:
        if old is not None:
            sys.modules["niapy.runner"] = old
    return m
