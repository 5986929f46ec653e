"""Fault injection and thread scheduling inside pydmd code, through
sys.monitoring: no change to /repo is needed and none is made.

Two kinds of fault points are counted while pydmd code runs:

* ``call``: a call made by pydmd code into a numerical or I/O library (numpy,
  scipy, scikit-learn, xarray, ezyrb, pickle, files).  Failing it means raising
  in its place, which is what a LAPACK failure, an exhausted allocator or a
  failing system call looks like to pydmd.
* ``line``: the start of a source line of pydmd code.  Failing it means raising
  KeyboardInterrupt there, as Ctrl-C does.

The same line (or bytecode) events are the points where the baton scheduler
may hand control to another simulated thread.
"""
import hashlib
import os
import resource
import sys
import threading
import types

import numpy as np

mon = sys.monitoring
TOOL = 4
E = mon.events

EXT_ROOTS = {
    "numpy",
    "scipy",
    "sklearn",
    "xarray",
    "ezyrb",
    "pickle",
    "_pickle",
    "h5netcdf",
    "h5py",
    "matplotlib",
}


class Injected(Exception):
    """Marker mixed into injected exceptions."""


class InjectedLinAlgError(np.linalg.LinAlgError, Injected):
    pass


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedOSError(OSError, Injected):
    pass


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


EXC = {
    "linalg": InjectedLinAlgError,
    "memory": InjectedMemoryError,
    "oserror": InjectedOSError,
    "interrupt": InjectedInterrupt,
}


def _codes_of(obj, seen, out, prefix):
    if isinstance(obj, types.CodeType):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        if obj.co_filename.startswith(prefix):
            out.append(obj)
        for c in obj.co_consts:
            if isinstance(c, types.CodeType):
                _codes_of(c, seen, out, prefix)
        return
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, types.FunctionType):
        _codes_of(obj.__code__, seen, out, prefix)
        for cell in obj.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, (types.FunctionType, type, property)):
                _codes_of(v, seen, out, prefix)
        w = getattr(obj, "__wrapped__", None)
        if w is not None:
            _codes_of(w, seen, out, prefix)
    elif isinstance(obj, (staticmethod, classmethod)):
        _codes_of(obj.__func__, seen, out, prefix)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                _codes_of(f, seen, out, prefix)
    elif isinstance(obj, type):
        if (obj.__module__ or "").split(".")[0] == "pydmd":
            for v in list(vars(obj).values()):
                _codes_of(v, seen, out, prefix)
    else:
        # e.g. functools wrappers, cached properties
        for attr in ("func", "__func__", "__wrapped__"):
            f = getattr(type(obj), "__module__", "") and getattr(
                obj, attr, None
            )
            if isinstance(f, types.FunctionType):
                _codes_of(f, seen, out, prefix)


_CODES = None


def pydmd_codes():
    global _CODES
    if _CODES is None:
        import pydmd
        import os

        prefix = os.path.dirname(os.path.abspath(pydmd.__file__)) + os.sep
        seen, out = set(), []
        for name, m in sorted(sys.modules.items()):
            if name.split(".")[0] == "pydmd" and m is not None:
                for k in sorted(vars(m)):
                    try:
                        _codes_of(vars(m)[k], seen, out, prefix)
                    except Exception:
                        pass
        _CODES = out
    return _CODES


def is_library_call(fn):
    t = type(fn)
    if t is types.BuiltinFunctionType or t.__name__ in (
        "method_descriptor",
        "method-wrapper",
        "wrapper_descriptor",
    ):
        s = getattr(fn, "__self__", None)
        if isinstance(s, (np.ndarray, np.random.RandomState)):
            return True
        owner = getattr(fn, "__objclass__", None)
        if owner is not None and issubclass(owner, np.ndarray):
            return True
    if t is types.MethodType:
        s = fn.__self__
        root = (type(s).__module__ or "").split(".")[0]
        return root in EXT_ROOTS
    m = getattr(fn, "__module__", None)
    if isinstance(m, str):
        return m.split(".")[0] in EXT_ROOTS
    return (type(fn).__module__ or "").split(".")[0] in ("numpy",)


IO_ROOTS = {
    "posix",
    "os",
    "shutil",
    "io",
    "_io",
    "pickle",
    "_pickle",
    "tempfile",
    "pathlib",
    "h5netcdf",
    "h5py",
    "xarray",
    "netCDF4",
}
EXIT_CODE = 77


def is_io_call(fn):
    if type(fn) in (types.MethodType, types.BuiltinFunctionType):
        s = getattr(fn, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            return (type(s).__module__ or "").split(".")[0] in IO_ROOTS
    m = getattr(fn, "__module__", None)
    return isinstance(m, str) and m.split(".")[0] in IO_ROOTS


_active = {"on": False, "events": 0}


def _enable(events):
    if not _active["on"]:
        try:
            mon.use_tool_id(TOOL, "verif-sim")
        except ValueError:
            mon.free_tool_id(TOOL)
            mon.use_tool_id(TOOL, "verif-sim")
        _active["on"] = True
    if _active["events"] != events:
        for c in pydmd_codes():
            mon.set_local_events(TOOL, c, events)
        _active["events"] = events


class Points:
    """Count fault points of one kind while the `with` block runs, and raise at
    number `at` (0-based; None: only count).  Only the creating thread's
    points count."""

    def __init__(self, mode, at=None, exc="linalg", ctx=None):
        self.mode, self.at, self.exc, self.ctx = mode, at, exc, ctx
        self.n = 0
        self.fired = None
        self.tid = None

    def __enter__(self):
        self.tid = threading.get_ident()
        if self.mode in ("call", "io"):
            mon_events = E.CALL
        else:
            mon_events = E.LINE
        _enable(mon_events)
        if self.mode in ("call", "io"):
            mon.register_callback(TOOL, E.CALL, self._on_call)
        else:
            mon.register_callback(TOOL, E.LINE, self._on_line)
        return self

    def __exit__(self, *a):
        mon.register_callback(TOOL, E.CALL, None)
        mon.register_callback(TOOL, E.LINE, None)
        _enable(0)
        return False

    def _hit(self, code, what):
        n = self.n
        self.n += 1
        if n == self.at and self.fired is None:
            self.fired = f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_qualname}:{what}"
            if self.ctx is not None:
                self.ctx.fault(f"{self.mode}:{self.exc}")
            if self.exc == "exit":
                os._exit(EXIT_CODE)
            raise EXC[self.exc](f"injected at {self.fired}")

    def _on_call(self, code, offset, fn, arg0):
        if threading.get_ident() != self.tid:
            return
        try:
            lib = (
                is_io_call(fn) if self.mode == "io" else is_library_call(fn)
            )
        except Exception:
            lib = False
        if lib:
            self._hit(code, getattr(fn, "__name__", type(fn).__name__))

    def _on_line(self, code, line):
        if threading.get_ident() != self.tid:
            return
        self._hit(code, line)


class Deadlock(Exception):
    pass


class Baton:
    """Run bodies as real threads of which exactly one runs at a time; who runs
    next is decided at every point by the schedule.

    schedule: {"p": probability, "seed": int, "grain": "line"|"op"} for random
    schedules or {"switches": [[step, thread], ...], "grain": ...} for replay
    of an explicit (minimised) schedule."""

    def __init__(self, bodies, schedule, rng, ctx, max_steps=4_000_000):
        self.bodies = bodies
        self.n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.main = threading.Semaphore(0)
        self.cur = None
        self.step = 0
        self.trace = []
        self.schedule = schedule
        self.rng = rng
        self.ctx = ctx
        self.explicit = None
        if "switches" in schedule:
            self.explicit = {}
            for s, t in schedule["switches"]:
                self.explicit.setdefault(int(s), []).append(int(t))
        self.points = schedule.get("points")
        self.idx = {}
        self.max_steps = max_steps
        self.failed = None

    def run(self):
        grain = self.schedule.get("grain", "line")
        ev = E.LINE if grain == "line" else E.INSTRUCTION
        threads = []
        for k in range(self.n):
            t = threading.Thread(target=self._body, args=(k,), daemon=True)
            threads.append(t)
        _enable(ev)
        mon.register_callback(TOOL, ev, self._on_point)
        try:
            for t in threads:
                t.start()
            self.cur = self._pick(first=True)
            self.sems[self.cur].release()
            if not self.main.acquire(timeout=180):
                raise Deadlock("scheduler stalled")
        finally:
            mon.register_callback(TOOL, ev, None)
            _enable(0)
        if self.failed:
            raise Deadlock(self.failed)
        self.ctx.trace = self.trace
        self.ctx.interleaving = hashlib.sha256(
            repr(self.trace or self.schedule).encode()
        ).hexdigest()[:16]
        return self.results

    def _pick(self, first=False):
        live = [k for k in range(self.n) if not self.done[k]]
        if self.explicit is not None:
            want = self._next_explicit(self.step if not first else -1)
            if want in live:
                return want
            return live[0]
        nxt = live[self.rng.randrange(len(live))]
        self.trace.append([-1 if first else self.step, nxt])
        return nxt

    def _next_explicit(self, step):
        q = self.explicit.get(step)
        return q.pop(0) if q else None

    def point(self):
        """A scheduling point outside pydmd code (e.g. a write)."""
        self._on_point(None, None)

    def _body(self, k):
        self.sems[k].acquire()
        self.idx[threading.get_ident()] = k
        try:
            self.results[k] = ("ok", self.bodies[k]())
        except BaseException as e:  # the body's own outcome
            self.results[k] = ("raised", e)
        self.done[k] = True
        self.idx.pop(threading.get_ident(), None)
        if all(self.done):
            self.main.release()
            return
        nxt = self._pick()
        self.cur = nxt
        self.sems[nxt].release()

    def _on_point(self, code, where):
        k = self.idx.get(threading.get_ident())
        if k is None or k != self.cur:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.failed = "step budget exhausted"
            return
        if self.explicit is not None:
            nxt = self._next_explicit(self.step)
            if nxt is None or nxt == k or nxt >= self.n or self.done[nxt]:
                return
        else:
            if self.points is not None:
                if self.step not in self.points:
                    return
            elif self.rng.random() >= self.schedule["p"]:
                return
            live = [j for j in range(self.n) if not self.done[j] and j != k]
            if not live:
                return
            nxt = live[self.rng.randrange(len(live))]
            self.trace.append([self.step, nxt])
        self.ctx.switches += 1
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[k].acquire()


def in_child(fn):
    """Run fn in a process of its own; 'died', 'ok' or 'raised'."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            fn()
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "died"
    return {0: "ok", 1: "raised", EXIT_CODE: "died"}[
        os.WEXITSTATUS(st)
    ]
