"""Execute op specs against the real empymod and describe the outcome comparably."""
import io
import re
import sys
import threading

import numpy as np

from . import codec


class Ctx:
    """Per-scenario context: user-function fault plan, counters, shared references."""

    def __init__(self, cb=None, refs=None):
        self.cb = cb or {}
        self.calls = {}
        self.total = 0
        self.fired = []
        self.raised = []
        self.inner = []
        self.refs = refs or {}


class Out:
    """Thread-aware stdout."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.real = sys.stdout
        self.loc = threading.local()

    def push(self):
        st = getattr(self.loc, "st", None)
        if st is None:
            st = self.loc.st = []
        b = io.StringIO()
        st.append(b)
        return b

    def pop(self):
        return self.loc.st.pop().getvalue()

    def _t(self):
        st = getattr(self.loc, "st", None)
        return st[-1] if st else self.real

    def write(self, s):
        return self._t().write(s)

    def flush(self):
        self._t().flush()

    def isatty(self):
        return False

    def writable(self):
        return True


OUT = None


def install_stdout():
    global OUT
    if OUT is None:
        OUT = Out()
        sys.stdout = OUT
    return OUT


def funcs():
    import empymod
    from empymod import model, io as eio, filters, utils
    from empymod.scripts import fdesign, tmtemod
    return {
        "dipole": empymod.dipole, "bipole": empymod.bipole, "loop": empymod.loop,
        "analytical": model.analytical, "gpr": model.gpr, "dipole_k": model.dipole_k,
        "ip_and_q": empymod.ip_and_q, "tmtemod": tmtemod.dipole, "design": fdesign.design,
        "save_input": eio.save_input, "load_input": eio.load_input, "save_data": eio.save_data,
        "load_data": eio.load_data, "set_minimum": utils.set_minimum,
        "get_minimum": utils.get_minimum,
        "save_filter": fdesign.save_filter, "load_filter": fdesign.load_filter,
        "filter": lambda kind, name: getattr(getattr(filters, kind)(), name),
        "tofile": lambda filt, path: filt.tofile(path),
        "fromfile": _fromfile,
        "design_save": _design_save, "save_data_of": _save_data_of,
        "emarray": _emarray, "pair": _pair, "pairobj": _pairobj, "print_result": fdesign.print_result,
        "transform": _transform, "fem": _fem, "tem": _tem, "cli": _cli,
    }


def _fromfile(name, path, savename=None, filter_coeff=None):
    from empymod.filters import DigitalFilter
    f = DigitalFilter(name, savename, filter_coeff)
    f.fromfile(path)
    return f


def _design_save(path, name, full=True, **kw):
    from empymod.scripts import fdesign
    filt, out = fdesign.design(name=name, **kw)
    fdesign.save_filter(name, filt, out if full else None, path)
    return filt, out


def _save_data_of(fname, op, info=None, **kw):
    import empymod
    f = funcs()[op["f"]]
    okw = dict(op["kw"], squeeze=False)
    data = f(**okw)
    return empymod.io.save_data(fname, data, info, **kw)


def _pair(spec, side, x):
    from empymod.scripts import fdesign
    g = getattr(fdesign, spec["name"])(*spec.get("args", []), **spec.get("kw", {}))
    v = getattr(g, side)(x)
    return v if isinstance(v, tuple) else (v,)


def _pairobj(spec):
    from empymod.scripts import fdesign
    return getattr(fdesign, spec["name"])(*spec.get("args", []), **spec.get("kw", {}))


def _emarray(data, m, kw):
    from empymod import utils
    return getattr(utils.EMArray(data), m)(**kw)


def _fem(**kw):
    from empymod import model
    return model.fem(**kw)


def _tem(**kw):
    from empymod import model
    return model.tem(**kw)


def _cli(argv, text):
    """The command line, called as a function."""
    import empymod.__main__ as m
    with open(codec.dec("$W/cli.json"), "w", encoding="utf-8") as f:
        f.write(text)
    e = m.main(argv)
    return None if e is None else repr(e)


def _transform(name, args, kwargs=None):
    from empymod import transform
    return getattr(transform, name)(*args, **(kwargs or {}))


FUNCS = None


def canon(v, depth=0):
    """Comparable, picklable description of a result."""
    if isinstance(v, np.ndarray):
        return ("arr", type(v).__name__, v.dtype.kind, v.shape, np.array(v, copy=True).view(np.ndarray))
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, np.integer)):
        return ("n", int(v))
    if isinstance(v, (float, complex, np.floating, np.complexfloating)):
        return ("x", complex(v))
    if v is None or isinstance(v, (str, bytes)):
        return ("s", v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [canon(i, depth+1) for i in v])
    if isinstance(v, dict):
        return ("dict", [(str(k), canon(v[k], depth+1)) for k in sorted(v, key=str)])
    if type(v).__name__ == "DigitalFilter":
        d = {k: x for k, x in vars(v).items()}
        return ("filt", [(k, canon(d[k], depth+1)) for k in sorted(d)])
    if type(v).__name__ == "Ghosh":
        return ("pair", [(k, canon(x, depth+1)) for k, x in sorted(vars(v).items())])
    if callable(v):
        return ("fn", getattr(v, "__name__", type(v).__name__))
    return ("obj", type(v).__name__)


RT = re.compile(r"runtime = [^\n]*?(?= ::)")
RT2 = re.compile(r"est: [^\n\r]*")


def normtext(s):
    if codec.WD != ".":
        s = s.replace(codec.WD, "<W>")
    s = RT.sub("runtime = <t>", s)
    s = RT2.sub("est", s)
    return re.sub(r"0x[0-9a-f]+", "0x", s)


def describe(fn, text=True):
    """Run fn() and return (outcome, result)."""
    o = install_stdout()
    o.push()
    try:
        try:
            v = fn()
            out = {"st": "ok", "v": canon(v)}
        except BaseException as e:
            if type(e).__name__ == "SimAbort":
                raise
            v = e
            out = {"st": "exc", "t": type(e).__name__, "m": normtext(str(e))[:2000]}
    finally:
        t = o.pop()
    if text:
        out["o"] = normtext(t)
    return out, v


def build(op, ctx=None):
    return codec.dec(op["kw"], ctx)


def call(op, kw):
    global FUNCS
    if FUNCS is None:
        FUNCS = funcs()
    f = FUNCS[op["f"]]
    return f(**kw)


def run(op, ctx=None, nested=False, keep=False):
    """Build fresh arguments, call, describe."""
    kw = build(op, ctx)
    out, v = describe(lambda: call(op, kw))
    if keep:
        return out, v, kw
    return out


# ---------------------------------------------------------------- comparing

def close(a, b, rtol=1e-11, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in "OUSb" or b.dtype.kind in "OUSb":
        return bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        if a.dtype.kind == "c" or b.dtype.kind == "c":
            a = a.astype(complex)
            b = b.astype(complex)
            fa, fb = np.isfinite(a), np.isfinite(b)
            if not np.array_equal(fa, fb):
                return False
            if not fa.all():
                a = np.where(fa, a, 0)
                b = np.where(fb, b, 0)
        else:
            fa, fb = np.isfinite(a), np.isfinite(b)
            if not np.array_equal(fa, fb):
                return False
            if not np.array_equal(a[~fa].astype(float), b[~fb].astype(float), equal_nan=True):
                return False
            a = np.where(fa, a, 0)
            b = np.where(fb, b, 0)
        d = np.abs(a-b)
        m = np.maximum(np.abs(a), np.abs(b))
        return bool(np.all(d <= rtol*m + atol))


def same(a, b, rtol=1e-11, text=True, path="result"):
    """None if two outcomes are the same, else a short text saying what differs."""
    if a["st"] != b["st"]:
        return f"{_short(a)} instead of {_short(b)}"
    if a["st"] == "exc":
        if a["t"] != b["t"] or a["m"] != b["m"]:
            return f"{_short(a)} instead of {_short(b)}"
    else:
        d = samev(a["v"], b["v"], rtol, path)
        if d:
            return d
    if text and a.get("o") != b.get("o"):
        return f"printed text differs: {_tdiff(a.get('o'), b.get('o'))}"
    return None


def _tdiff(a, b):
    la, lb = (a or "").splitlines(), (b or "").splitlines()
    for x, y in zip(la + [None]*len(lb), lb + [None]*len(la)):
        if x != y:
            return f"{x!r} instead of {y!r}"
    return ""


def _short(o):
    if o["st"] == "exc":
        return f"{o['t']}({o['m'][:160]!r})"
    v = o["v"]
    return "a result" + (f" of shape {v[3]}" if v[0] == "arr" else "")


def samev(a, b, rtol=1e-11, path="result"):
    if a[0] != b[0]:
        if {a[0], b[0]} <= {"n", "x", "b"} and complex(a[1]) == complex(b[1]):
            return None
        return f"{path}: {a[0]} instead of {b[0]}"
    k = a[0]
    if k == "arr":
        if a[1] != b[1] or a[2] != b[2] or a[3] != b[3]:
            return f"{path}: {a[1]}[{a[2]}]{a[3]} instead of {b[1]}[{b[2]}]{b[3]}"
        if not close(a[4], b[4], rtol):
            with np.errstate(all="ignore"):
                x, y = np.ravel(a[4]), np.ravel(b[4])
                i = [j for j in range(x.size) if not close(x[j:j+1], y[j:j+1], rtol)]
                j = i[0] if i else 0
            return f"{path}: {len(i)} of {x.size} values differ, e.g. [{j}] {x[j]!r} instead of {y[j]!r}"
        return None
    if k in ("x",):
        return None if close([a[1]], [b[1]], rtol) else f"{path}: {a[1]} instead of {b[1]}"
    if k in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return f"{path}: length {len(a[1])} instead of {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = samev(x, y, rtol, f"{path}[{i}]")
            if d:
                return d
        return None
    if k in ("dict", "filt"):
        if [x[0] for x in a[1]] != [x[0] for x in b[1]]:
            return f"{path}: keys {[x[0] for x in a[1]]} instead of {[x[0] for x in b[1]]}"
        for (n, x), (_, y) in zip(a[1], b[1]):
            d = samev(x, y, rtol, f"{path}.{n}")
            if d:
                return d
        return None
    return None if a[1] == b[1] else f"{path}: {a[1]!r} instead of {b[1]!r}"
