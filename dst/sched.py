"""Deterministic scheduler for real threads, and faults at arbitrary source lines.

Only one simulated thread runs at any time. Control can change hands at every
traced event (source line or bytecode) in the package, and whenever a thread
blocks on a lock. Which thread runs when is given by the scenario.
"""
import _thread
import ast
import dis
import os
import sys
import threading

_PKG = None
_MORE = None         # a further directory whose code is traced
_CUR = {}            # thread ident -> (Sim, tid)
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class SimAbort(BaseException):
    """Raised into a simulated thread to end a run (deadlock, step cap)."""


class SelfDeadlock(BaseException):
    """The outcome of a call that would block forever."""


def set_package(p):
    global _PKG
    _PKG = p


# ------------------------------------------------------------- locks

class SimLock:
    """threading.Lock whose blocking is visible to the scheduler."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        cur = _CUR.get(_thread.get_ident())
        if cur is None:
            if self._l.acquire(False):
                return True
            if blocking and timeout < 0 and _thread._count() == 0:
                raise SelfDeadlock("the only thread waits for a lock that nobody will release")
            return self._l.acquire(blocking, timeout)
        sim, tid = cur
        while not self._l.acquire(False):
            if not blocking:
                return False
            if not sim.block(tid, self, timeout):
                return False
        return True

    def release(self):
        self._l.release()
        cur = _CUR.get(_thread.get_ident())
        if cur is not None:
            cur[0].unblock(self)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


class SimRLock:
    """threading.RLock whose blocking is visible to the scheduler."""

    def __init__(self):
        self._b = SimLock()
        self._o = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._o, self._n = me, 1
        return r

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._o = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        st = (self._n, self._o)
        self._n, self._o = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._n, self._o = st

    def _at_fork_reinit(self):
        self.__init__()


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ------------------------------------------------------------- lines where no fault is put

_EXCL = {}


def src(fname):
    with open(fname, "rb") as f:
        return f.read()


def _excluded(fname):
    """Lines of clean-up code, in which no program can survive an asynchronous exception."""
    if fname not in _EXCL:
        ex = set()
        try:
            tree = ast.parse(src(fname))
        except (OSError, SyntaxError):
            tree = ast.Module([], [])

        def rng(nodes):
            for n in nodes:
                for k in range(n.lineno, (n.end_lineno or n.lineno) + 1):
                    ex.add(k)
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                rng(n.finalbody)
                for h in n.handlers:
                    for k in range(h.lineno, (h.end_lineno or h.lineno) + 1):
                        ex.add(k)
                ex.add(n.lineno)        # `try:` itself: set-up done, not yet protected
            if isinstance(n, ast.With):     # leaving a with block also shows as its first line
                for k in range(n.lineno, max(n.lineno, n.body[0].lineno - 1) + 1):
                    ex.add(k)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in (
                    "__exit__", "__enter__", "__del__", "set_minimum"):
                rng([n])
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(
                    "contextmanager" in ast.dump(d) for d in n.decorator_list):
                rng([n])
        _EXCL[fname] = ex
    return _EXCL[fname]


_ATOM = {}


def _atomic(fname):
    """Line ranges of functions that numba compiles: no Python-level event happens inside them."""
    if fname not in _ATOM:
        out = []
        try:
            tree = ast.parse(src(fname))
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                txt = " ".join(ast.dump(d) for d in n.decorator_list)
                if any(w in txt for w in ("'njit'", "'jit'", "'vectorize'", "'guvectorize'")):
                    out.append((min(d.lineno for d in n.decorator_list), n.end_lineno))
        _ATOM[fname] = out
    return _ATOM[fname]


# ------------------------------------------------------------- lines that touch state shared by threads

_SHARED = None
# Names of routines and objects with effects on the process.
EFFECTS = {"set_minimum", "seterr", "seterrcall", "errstate", "chdir", "simplefilter", "filterwarnings", "resetwarnings",
           "catch_warnings", "acquire", "release", "seed", "set_state", "set_printoptions", "printoptions", "setlocale",
           "setrecursionlimit", "signal", "alarm", "environ", "putenv", "redirect_stdout", "redirect_stderr", "umask",
           "settrace", "setswitchinterval", "gc", "stdout", "stderr", "default_rng", "shuffle", "Thread", "localcontext"}


def shared_lines():
    """({(file, line)} that use mutable globals, {(file, line)} of the functions that do): guides the search only."""
    global _SHARED
    if _SHARED is None:
        hot, warm = set(), set()
        for m in list(sys.modules.values()):
            f = getattr(m, "__file__", None)
            if not f or not f.startswith(_PKG) or not f.endswith(".py"):
                continue
            try:
                top = compile(src(f), f, "exec")
            except (OSError, SyntaxError, ValueError):
                continue
            stored, codes, todo = set(), [], [(top, set())]
            while todo:
                c, loc = todo.pop()
                codes.append((c, loc))
                for x in c.co_consts:
                    if hasattr(x, "co_code"):
                        todo.append((x, set()))
            defaults = _mutable_defaults(m)
            for c, _ in codes:
                for i in dis.get_instructions(c):
                    if c is not top and i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                        stored.add(i.argval)
            for c, _ in codes:
                if c is top:
                    continue
                here, line = set(), None
                for i in dis.get_instructions(c):
                    line = i.positions.lineno or line
                    if i.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                        touch = i.argval in stored or i.argval in EFFECTS or _mutable(getattr(m, i.argval, None))
                    elif i.opname.startswith("LOAD_FAST"):
                        touch = (c.co_firstlineno, i.argval) in defaults
                    elif i.argval in EFFECTS and i.opname.startswith("LOAD_"):
                        touch = True
                    else:
                        touch = i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_ATTR", "DELETE_ATTR")
                    if touch:
                        here.add((f, line))
                if here:
                    hot |= here
                    lines = [x[2] for x in c.co_lines() if x[2]]
                    warm |= {(f, x) for x in lines}
        _SHARED = (hot, warm)
    return _SHARED


def _mutable(o):
    if o is None or isinstance(o, (type, str, bytes, int, float, complex, tuple, frozenset, type(sys))):
        return False
    if hasattr(o, "cache_info"):
        return True
    if callable(o) and getattr(o, "__dict__", None):     # a function with attributes
        return not hasattr(o, "__wrapped__") or len(o.__dict__) > 1
    if callable(o):
        return False
    return isinstance(o, (list, dict, set, bytearray)) or hasattr(o, "__dict__") or hasattr(o, "__array__")


def _mutable_defaults(m):
    out = set()
    for f in vars(m).values():
        for g in [f] + (list(vars(f).values()) if isinstance(f, type) else []):
            c = getattr(g, "__code__", None)
            if c is None:
                continue
            d = getattr(g, "__defaults__", None) or ()
            names = c.co_varnames[c.co_argcount-len(d):c.co_argcount]
            for n, v in list(zip(names, d)) + list((getattr(g, "__kwdefaults__", None) or {}).items()):
                if isinstance(v, (list, dict, set)) or hasattr(v, "__array__"):
                    out.add((c.co_firstlineno, n))
    return out


# ------------------------------------------------------------- tracing of one thread

class Tracer:
    """Counts events in package code; optionally raises at the k-th."""

    def __init__(self, mode="line", inject=None, profile=None, deep=False, on_event=None, cap=None):
        self.mode, self.inject, self.profile, self.deep = mode, inject, profile, deep
        self.on_event = on_event
        self.n = 0
        self.fired = None
        self.cap = cap
        self.opc = mode == "opcode"

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(_PKG) and not (_MORE and f.startswith(_MORE)) or frame.f_code.co_name == "<module>":
            return None
        if not self.deep:
            ln = frame.f_code.co_firstlineno
            for lo, hi in _atomic(f):
                if lo <= ln <= hi:
                    return None
        if self.opc:
            frame.f_trace_opcodes = True
        return self.loc

    def loc(self, frame, event, arg):
        if event == "line":
            if self.opc:
                return self.loc
        elif event != "opcode":
            return self.loc
        n = self.n
        self.n = n + 1
        if self.profile is not None:
            self.profile.append((frame.f_code.co_filename, frame.f_lineno))
        inj = self.inject
        if inj is not None and n >= inj["at"] and inj["exc"] == "KILL":
            os._exit(9)
        if inj is not None and n >= inj["at"] and self.fired is None:
            if frame.f_lineno not in _excluded(frame.f_code.co_filename):
                self.fired = (os.path.relpath(frame.f_code.co_filename, _PKG), frame.f_lineno)
                raise _EXC[inj["exc"]]("simulated")
        if self.cap is not None and n > self.cap:
            raise SimAbort("step cap")
        if self.on_event is not None:
            self.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.on_event()
        return self.loc


class SimTimeout(Exception):
    """An alarm-style exception delivered asynchronously by a signal handler."""


_EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimTimeout": SimTimeout,
        "OSError": OSError, "SystemExit": SystemExit, "RecursionError": RecursionError}


def arm():
    """Python 3.12 looks at this flag (of the interpreter) when sys.settrace is called."""
    sys._getframe().f_trace_opcodes = True


def traced(fn, **kw):
    """Run fn() in this thread under a Tracer; returns the tracer (result via closure)."""
    t = Tracer(**kw)
    if t.opc:
        arm()
    sys.settrace(t.glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return t


def profile(fn, mode="line", deep=False, limit=1_500_000):
    """Run fn() and return the list of event locations (the first `limit` ones: the call ends there)."""
    p = []
    t = Tracer(mode=mode, profile=p, deep=deep, cap=limit)
    if t.opc:
        arm()
    sys.settrace(t.glob)
    try:
        fn()
    except SimAbort:
        pass
    finally:
        sys.settrace(None)
    return p


# ------------------------------------------------------------- simulated threads

class Sim:
    """Run callables in threads, one at a time, switching as the schedule says.

    schedule: {"mode": "line"|"opcode", "deep": bool, "sw": [[n, tid], ...]}: the thread that
    runs is suspended after n events and thread tid (or the next runnable one)
    resumes; after the list is used up each thread runs to its end.
    """

    def __init__(self, fns, schedule, inject=None, cap=3_000_000):
        self.fns = fns
        self.N = len(fns)
        self.sw = [tuple(x) for x in schedule.get("sw", [])]
        self.mode = schedule.get("mode", "line")
        self.inject = inject or {}
        self.deep = schedule.get("deep", False)
        self.cap = cap
        self.gate = [_real_lock() for _ in fns]
        for g in self.gate:
            g.acquire()
        self.alldone = _real_lock()
        self.alldone.acquire()
        self.done = [False]*self.N
        self.waiting = {}          # tid -> lock
        self.timedout = set()
        self.res = [None]*self.N
        self.err = [None]*self.N
        self.tr = [None]*self.N
        self.k = 0
        self.left = self.sw[0][0] if self.sw else -1
        self.steps = 0
        self.trace = []            # (step, from, to, why)
        self.sites = []            # where preempted threads left off
        self.aborted = None

    def start(self):
        if self.mode == "opcode":
            arm()
        for i in range(self.N):
            _thread.start_new_thread(self._main, (i,))
        first = 0
        if self.sw and self.sw[0][0] == 0:
            first = self.sw[0][1] % self.N
            self.k = 1
            self.left = self.sw[1][0] if len(self.sw) > 1 else -1
        self.cur = first
        self.gate[first].release()

    def run(self, timeout=100):
        self.start()
        if not self.alldone.acquire(True, timeout):
            return False
        return True

    def _main(self, tid):
        self.gate[tid].acquire()
        _CUR[_thread.get_ident()] = (self, tid)
        t = Tracer(mode=self.mode, inject=self.inject.get(tid), deep=self.deep,
                   on_event=lambda: self.point(tid))
        self.tr[tid] = t
        t.where = None
        try:
            if self.aborted:
                raise SimAbort(self.aborted)
            sys.settrace(t.glob)
            try:
                self.res[tid] = self.fns[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.err[tid] = e
        finally:
            _CUR.pop(_thread.get_ident(), None)
            self.done[tid] = True
            nxt = self._next(tid)
            if nxt is None:
                if all(self.done):
                    self.alldone.release()
                else:               # the rest waits for a lock nobody holds any more
                    self.aborted = "deadlock"
                    self.waiting.clear()
                    self._hand(tid, self._next(tid), "abort")
            else:
                self._hand(tid, nxt, "end")

    def _runnable(self, t):
        return not self.done[t] and t not in self.waiting

    def _next(self, tid, want=None):
        if want is not None and want != tid and self._runnable(want % self.N):
            return want % self.N
        for d in range(1, self.N + 1):
            t = (tid + d) % self.N
            if t != tid and self._runnable(t):
                return t
        return None

    def _hand(self, tid, nxt, why):
        self.trace.append((self.steps, tid, nxt, why))
        self.cur = nxt
        self.gate[nxt].release()

    def point(self, tid):
        self.steps += 1
        if self.aborted:
            raise SimAbort(self.aborted)
        if self.steps > self.cap:
            self.aborted = "step cap"
            raise SimAbort(self.aborted)
        if self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        want = self.sw[self.k][1]
        self.k += 1
        self.left = self.sw[self.k][0] if self.k < len(self.sw) else -1
        nxt = self._next(tid, want % self.N)
        if nxt is None or nxt == tid:
            return
        self.sites.append((self.tr[tid].where, self.tr[nxt].where if self.tr[nxt] else None))
        self._hand(tid, nxt, "preempt")
        self.gate[tid].acquire()
        if self.aborted:
            raise SimAbort(self.aborted)

    def block(self, tid, lock, timeout):
        """Called by a thread that cannot get `lock`. False: timed out."""
        self.waiting[tid] = lock
        nxt = self._next(tid)
        if nxt is None:
            self.waiting.pop(tid)
            if timeout is not None and timeout >= 0:
                return False
            self.aborted = "deadlock"
            self.waiting.clear()
            raise SimAbort("deadlock")
        self._hand(tid, nxt, "block")
        self.gate[tid].acquire()
        self.waiting.pop(tid, None)
        if self.aborted:
            raise SimAbort(self.aborted)
        return True

    def unblock(self, lock):
        for t in [t for t, lk in self.waiting.items() if lk is lock]:
            self.waiting.pop(t)
