"""Process set-up: every source of nondeterminism outside the scenarios is pinned here.

The seams owned by the simulator are installed *before* empymod is imported, so
that `from x import y` in empymod binds the simulated version.
"""
import io
import os
import sys
import builtins  # noqa: F401

REPO = os.environ.get("EMPYMOD_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = None   # absolute directory of the package, with trailing separator


class Clock:
    """Simulated clock. Inactive (real time) unless `plan` is set."""

    def __init__(self):
        self.plan = None     # list of increments, cycled
        self.now = 0.0
        self.k = 0
        self.reads = 0
        self.total = 0.0     # simulated seconds covered (absolute jumps)
        self.log = None

    def set(self, plan, start=0.0):
        self.plan, self.now, self.k, self.reads = plan, float(start), 0, 0

    def off(self):
        self.plan = None

    def read(self):
        self.reads += 1
        v = self.now
        d = self.plan[self.k % len(self.plan)]
        self.k += 1
        self.now += d
        self.total += abs(d)
        if self.log is not None:
            self.log.append(v)
        return v


CLOCK = Clock()


class Quad:
    """Seam for scipy.integrate.quad: can report non-convergence of the k-th call."""

    def __init__(self):
        self.plan = None     # dict call-index -> kind
        self.n = 0
        self.fired = []
        self.natural = []    # indices of calls which really did not converge
        self.log = None

    def set(self, plan):
        self.plan = plan
        self.n = 0
        self.fired = []
        self.natural = []

    def off(self):
        self.plan = None


QUAD = Quad()


class LinAlg:
    """Seam for np.linalg.qr/solve/lstsq/...: the k-th call can raise LinAlgError."""

    def __init__(self):
        self.plan = None     # set of call indices per function
        self.n = 0
        self.fired = []
        self.hook = None     # callable(name, args) -> bool, takes precedence

    def off(self):
        self.plan = None
        self.hook = None


LINALG = LinAlg()


def _patch_clock():
    import time
    import timeit
    real = {}

    def wrap(mod, name, scale=1, as_int=False):
        f = getattr(mod, name)
        real[name] = f

        def clock():
            if CLOCK.plan is None:
                return f()
            v = CLOCK.read()*scale
            return int(v) if as_int else v
        clock.__name__ = name
        setattr(mod, name, clock)
        return clock

    c = wrap(time, "perf_counter")
    timeit.default_timer = c
    for n in ("time", "monotonic", "process_time"):
        wrap(time, n)
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
        wrap(time, n, 1e9, True)

    rstrftime = time.strftime

    def strftime(fmt, t=None):
        if t is not None:
            return rstrftime(fmt, t)
        if CLOCK.plan is None:
            return rstrftime(fmt)
        return rstrftime(fmt, time.gmtime(min(max(CLOCK.read(), 0), 4e9)))
    time.strftime = strftime
    return real


def _patch_quad():
    import warnings
    import scipy.integrate as si
    real = si.quad

    def quad(*args, **kwargs):
        q = QUAD
        if q.plan is None:
            return real(*args, **kwargs)
        i = q.n
        q.n += 1
        full = kwargs.get("full_output", args[4] if len(args) > 4 else 0)
        if q.log is not None:
            q.log.append(i)
        out = real(*args, **kwargs)
        if full and len(out) > 3:
            q.natural.append(i)
        if i in q.plan:
            q.fired.append(i)
            msg = "The maximum number of subdivisions has been achieved (simulated)."
            if full:
                if len(out) == 3:
                    out = out + (msg, )
            else:
                warnings.warn(msg, si.IntegrationWarning, stacklevel=2)
        return out
    quad.__doc__ = real.__doc__
    si.quad = quad
    try:
        import scipy.integrate._quadpack_py as qp
        qp.quad = quad
    except Exception:
        pass


def _patch_linalg():
    import numpy as np
    import scipy.linalg as sl
    for mod, names in ((np.linalg, ("qr", "solve", "lstsq", "inv", "pinv")),
                       (sl, ("qr", "solve", "lstsq", "inv", "pinv", "solve_triangular"))):
        for n in names:
            def make(f, n):
                def w(*a, **k):
                    L = LINALG
                    if L.hook is not None and L.hook(n, a):
                        L.fired.append(L.n)
                        raise np.linalg.LinAlgError("Singular matrix (simulated)")
                    return f(*a, **k)
                w.__name__ = n
                w.__doc__ = f.__doc__
                return w
            setattr(mod, n, make(getattr(mod, n), n))


def setup(jit=False):
    """Import empymod from the repository's working tree with the seams installed."""
    global PKG
    os.environ.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "2.6.0")
    if not jit:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.dont_write_bytecode = True
    _patch_clock()
    import numpy as np          # noqa: F401
    import scipy                # noqa: F401
    import scipy.special        # noqa: F401
    import scipy.integrate      # noqa: F401
    import scipy.interpolate    # noqa: F401
    import scipy.optimize       # noqa: F401
    import scipy.fftpack        # noqa: F401
    import scipy.linalg         # noqa: F401
    import numba                # noqa: F401
    import libdlf               # noqa: F401
    try:                        # loaded lazily by the filter design, slow
        import matplotlib.pyplot  # noqa: F401
    except ImportError:
        pass
    import warnings
    _patch_quad()
    _patch_linalg()
    from . import sched
    sched.patch_locks()
    sys.path.insert(0, REPO)
    import empymod
    import empymod.__main__     # noqa: F401
    PKG = os.path.dirname(os.path.abspath(empymod.__file__)) + os.sep
    if not PKG.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"empymod comes from {PKG}, not from {REPO}")
    sched.set_package(PKG)
    warnings.simplefilter("ignore")
    return empymod


_ = io


def pristine():
    """The process from which all others are forked must not have used empymod (self-check of the harness)."""
    from empymod import filters, utils
    used = [k for f in filters.FILTERS.values() for k, v in f.items() if v is not None]
    if used:
        raise RuntimeError(f"filters loaded in the worker: {used}")
    m = utils.get_minimum()
    if m != {"min_freq": 1e-20, "min_time": 1e-20, "min_off": 1e-3, "min_res": 1e-20, "min_angle": 1e-10}:
        raise RuntimeError(f"minima changed in the worker: {m}")
