"""JSON <-> Python arguments. Scenarios are plain JSON; this builds real arguments from it."""
import copy
import numpy as np


WD = "."      # working directory of the scenario; "$W/x" is a path in it


def update(old, new):
    """The caller changes its own object in place to the new content, where that is possible."""
    if type(old) is not type(new):
        return new
    if isinstance(old, np.ndarray):
        if old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
            old[...] = new
            return old
        return new
    if isinstance(old, list):
        if len(old) == len(new):
            old[:] = [update(a, b) for a, b in zip(old, new)]
        else:
            old[:] = new
        return old
    if isinstance(old, dict):
        for k in [k for k in old if k not in new]:
            del old[k]
        for k in new:
            old[k] = update(old[k], new[k]) if k in old else new[k]
        return old
    return new


def dec(x, ctx=None):
    if isinstance(x, str):
        return WD + x[2:] if x.startswith("$W") else x
    if isinstance(x, list):
        return [dec(i, ctx) for i in x]
    if isinstance(x, dict):
        if "$a" in x:
            dt = x.get("d", "f8")
            v = np.array(x["$a"], dtype="f8" if dt.startswith("c") else dt)
            if dt.startswith("c"):
                v = (v[..., 0] + 1j*v[..., 1]).astype(dt)
            o = x.get("o", "C")
            if o == "F":
                v = np.asfortranarray(v)
            elif o == "S":      # strided view of a bigger array
                b = np.zeros(v.shape[:-1] + (2*v.shape[-1],), v.dtype)
                b[..., ::2] = v
                v = b[..., ::2]
            elif o == "R":      # read-only
                v = v.copy()
                v.flags.writeable = False
            return v
        if "$b" in x:       # exact bits
            v = np.frombuffer(bytes.fromhex(x["$b"]), dtype=x["d"]).reshape(x["s"]).copy()
            o = x.get("o", "C")
            if o == "F":
                v = np.asfortranarray(v)
            elif o == "S":
                b = np.zeros(v.shape[:-1] + (2*v.shape[-1],), v.dtype)
                b[..., ::2] = v
                v = b[..., ::2]
            elif o == "R":
                v.flags.writeable = False
            elif o == "E":
                from empymod.utils import EMArray
                v = EMArray(v)
            return v
        if "$t" in x:
            return tuple(dec(i, ctx) for i in x["$t"])
        if "$c" in x:
            return complex(*x["$c"])
        if "$s" in x:
            return np.dtype(x["d"]).type(x["$s"])
        if "$f" in x:
            from empymod import filters
            kind, name = x["$f"].split(".")
            f = getattr(getattr(filters, kind)(), name)
            if x.get("copy") or x.get("name"):
                f = copy.deepcopy(f)
            if x.get("scale"):
                f.base = f.base*x["scale"]
            if x.get("name"):       # the user's own filter under this name
                f.name = x["name"]
            return f
        if "$h" in x:
            from . import hooks
            return hooks.make(x, ctx)
        if "$np" in x:
            return getattr(np, x["$np"])
        if "$ref" in x:
            return ctx.refs[x["$ref"]]
        return {k: dec(v, ctx) for k, v in x.items()}
    return x


def arr(v, d=None, o=None):
    v = np.asarray(v)
    if np.iscomplexobj(v):
        a = np.stack([v.real, v.imag], -1).tolist()
        d = d or "c16"
    else:
        a = v.tolist()
        d = d or ("f8" if v.dtype.kind == "f" else "i8")
    out = {"$a": a, "d": d}
    if o:
        out["o"] = o
    return out
