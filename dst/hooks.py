"""User functions handed to empymod (model hooks, band-pass, transform pairs)."""
import numpy as np


class Boom(Exception):
    """Raised by misbehaving user functions."""


class BoomBase(BaseException):
    """Not an Exception subclass (like KeyboardInterrupt)."""


def _event(spec, ctx):
    """Called at each invocation of a user function: raise, re-enter or pass."""
    if ctx is None:
        return
    n = ctx.calls.get(spec["$h"], 0)
    ctx.calls[spec["$h"]] = n + 1
    ctx.total += 1
    plan = ctx.cb.get(f"{spec['$h']}:{n}") or ctx.cb.get(f"*:{ctx.total-1}")
    if plan is None:
        return
    ctx.fired.append((spec["$h"], n, plan["do"]))
    if plan["do"] == "raise":
        exc = {"Boom": Boom, "BoomBase": BoomBase, "ValueError": ValueError,
               "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
               "LinAlgError": np.linalg.LinAlgError, "AttributeError": AttributeError,
               "FloatingPointError": FloatingPointError, "StopIteration": StopIteration,
               "KeyError": KeyError, "TypeError": TypeError, "OSError": OSError,
               "ZeroDivisionError": ZeroDivisionError, "IndexError": IndexError,
               "SystemExit": SystemExit, "RuntimeError": RuntimeError,
               "FileNotFoundError": FileNotFoundError, "ImportError": ImportError,
               "ArithmeticError": ArithmeticError, "AssertionError": AssertionError,
               "NotImplementedError": NotImplementedError, "GeneratorExit": GeneratorExit}[plan["exc"]]
        e = exc(f"user function {spec['$h']} call {n}")
        ctx.raised.append(e)
        raise e
    if plan["do"] == "reenter":
        from . import ops
        ctx.inner.append((plan["op"], ops.run(plan["op"], nested=True)))


def memo(f):
    """The user's function keeps what it returned, and returns the same arrays again."""
    store = {}

    def g(*a):
        k = repr([[(n, i[n].tobytes()) for n in sorted(i) if isinstance(i[n], np.ndarray)] if isinstance(i, dict)
                  else np.asarray(i).tobytes() for i in a])
        if k not in store:
            v = f(*a)
            if isinstance(v, tuple) and len(v) == 2 and v[0].shape == v[1].shape and np.array_equal(*v):
                v = (v[0], v[0])
            store[k] = v
        return store[k]
    return g


def make(x, ctx):
    f = _make({k: v for k, v in x.items() if k != "cache"}, ctx)
    if x.get("cache"):
        if x["$h"] == "pair":
            from empymod.scripts import fdesign
            return fdesign.Ghosh(f.name, memo(f.lhs), memo(f.rhs))
        return memo(f)
    return f


def _make(x, ctx):
    kind = x["$h"]
    if kind == "cole_cole":        # func_eta
        def cole_cole(inp, p_dict):
            _event(x, ctx)
            f = np.asarray(p_dict["freq"])[:, None]
            iotc = (2j*np.pi*f*np.asarray(inp["tau"]))**np.asarray(inp["c"])
            fact = 1 + np.asarray(inp["m"])*iotc/(1 + iotc)
            etaH = p_dict["etaH"].real*fact + 1j*p_dict["etaH"].imag
            etaV = p_dict["etaV"].real*fact + 1j*p_dict["etaV"].imag
            return etaH, etaV
        return cole_cole
    if kind == "zeta":
        def func_zeta(inp, p_dict):
            _event(x, ctx)
            f = 1 + np.asarray(inp["chi"])*1j*p_dict["freq"][:, None]*1e-3
            return p_dict["zetaH"]*f, p_dict["zetaV"]*f
        return func_zeta
    if kind == "bandpass":
        def bandpass(inp, p_dict):
            _event(x, ctx)
            h = 1/(1 + 1j*p_dict["freq"]/inp["fcut"])
            p_dict["EM"] *= h[:, None]
        return bandpass
    if kind == "pair":             # fdesign transform pair
        from empymod.scripts import fdesign
        g = getattr(fdesign, x["name"])(*x.get("args", []), **x.get("kw", {}))
        if ctx is None:
            return g
        lhs, rhs = g.lhs, g.rhs

        def mylhs(k):
            _event({"$h": "lhs"}, ctx)
            return lhs(k)

        def myrhs(r):
            _event({"$h": "rhs"}, ctx)
            return rhs(r)
        return fdesign.Ghosh(g.name, mylhs, myrhs)
    raise ValueError(kind)
