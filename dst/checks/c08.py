"""C08: a saved input drives exactly the same computation."""
import copy
import os
import struct

import numpy as np

from .. import codec, files, gen, ops, world
from .c07 import NAMES as N7

NAMES = [n for n in N7 if n.endswith("json")] + ["in.put.json", "sub/i.json", "äö.json"]


def decorate(r, x, key=None, depth=0, fourier=False):
    """Other containers for the same values: arrays, NumPy scalars, tuples, filter objects."""
    if key in ("src", "rec", "freqtime", "res", "depth", "aniso", "epermH", "epermV", "mpermH", "mpermV",
               "add_dec", "nodes", "amplitudes", "a", "b", "rtol", "strength", "scale", "q") and depth < 3:
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        if isinstance(x, float) and r.random() < 0.35:
            return r.choice([{"$s": x, "d": "f8"}, {"$s": x, "d": "f8"}, {"$s": x, "d": "f4"},
                             {"$a": x, "d": r.choice(["f8", "f4"])} if key not in ("a", "b", "rtol", "q") else x])
        if isinstance(x, list) and x and all(isinstance(i, (int, float)) for i in x) and r.random() < 0.4:
            if all(isinstance(i, int) for i in x):
                return {"$a": x, "d": "i8"}
            return {"$a": [float(i) for i in x], "d": r.choice(["f8", "f8", "f4"]) if key in ("rec", "res") else "f8",
                    "o": r.choice(["C", "C", "S", "R"])}
        if isinstance(x, list) and r.random() < 0.8:
            y = [decorate(r, i, key, depth + 1) for i in x]
            return {"$t": y} if r.random() < 0.15 and depth == 0 and key != "freqtime" else y
        return x
    if key in ("ab", "verb", "srcpts", "recpts", "pts_per_dec", "nquad", "maxint", "limit", "signal", "nfreq",
               "ntot", "diff_quad", "cf") and type(x) is int and r.random() < 0.3:
        return {"$s": x, "d": r.choice(["i8", "i8", "i4", "i2"])}
    if key in ("xdirect", "squeeze") and isinstance(x, bool) and r.random() < 0.3:
        return {"$s": x, "d": "?"}
    if key == "dlf" and isinstance(x, str) and r.random() < 0.4:
        return {"$f": ("Fourier." if fourier else "Hankel.") + x}
    if isinstance(x, dict) and not any(k.startswith("$") for k in x):
        return {k: decorate(r, v, k, depth, key == "ftarg") for k, v in x.items()}
    return x


def named(x):
    """Filter objects replaced by their names."""
    if isinstance(x, dict):
        return x["$f"].split(".")[1] if "$f" in x else {k: named(v) for k, v in x.items()}
    return [named(i) for i in x] if isinstance(x, list) else x


def norm(x):
    """What JSON can express of an argument."""
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return ["l"] + [norm(i) for i in x]
    if isinstance(x, dict):
        return ["d"] + [[str(k), norm(x[k])] for k in sorted(x)]
    if type(x).__name__ == "DigitalFilter":
        return ["s", x.name]
    if isinstance(x, (bool, np.bool_)):
        return ["b", bool(x)]
    if isinstance(x, (int, np.integer)) and abs(int(x)) > 2**53:
        return ["i", str(int(x))]
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ["n", "nan" if x != x else struct.pack("<d", float(x)).hex() if x else "0"]
    if x is None or isinstance(x, str):
        return ["s", x]
    return ["?", type(x).__name__]


def first(a, b, path="input"):
    if a == b:
        return None
    if type(a) is list and type(b) is list and a[:1] == b[:1] == ["d"]:
        ka, kb = [x[0] for x in a[1:]], [x[0] for x in b[1:]]
        if ka != kb:
            return f"{path} has the keys {ka} instead of {kb}"
        for (k, x), (_, y) in zip(a[1:], b[1:]):
            if x != y:
                return first(x, y, f"{path}.{k}")
    if type(a) is list and type(b) is list and a[:1] == b[:1] == ["l"] and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                return first(x, y, f"{path}[{i}]")
    return f"{path} is {str(a)[:200]} instead of {str(b)[:200]}"


class Check(files.FileCheck):
    prop = "C08"
    level = "fault_enumeration"
    budget = {"quick": (30000, 70), "thorough": (200000, 1200)}
    rule = ("one evaluation = one simulated process of a seeded save/load history of modelling inputs (writes that "
            "fail or kill at a chosen byte or source line, failing opens, interrupts, other locales; the loaded input "
            "is also run and compared with the original), or the load of one cut file; distinct by inputs, history "
            "and cut")
    cut_cap = 900

    def item(self, r):
        k = r.random()
        if k < 0.4:
            op = gen.call_dipole(r, time_p=0.3, nmax=3, hooks=False)
        elif k < 0.75:
            op = gen.call_bipole(r, time_p=0.2, nmax=2, hooks=False)
        elif k < 0.92:
            op = gen.call_analytical(r, hooks=False)
        else:
            op = gen.call_gpr(r)
        return op

    def finish(self, r, op):
        op["kw"] = {k: decorate(r, v, k) for k, v in op["kw"].items()}
        if "verb" in op["kw"]:
            op["kw"]["verb"] = r.choice([0, 1, 2])
        if r.random() < 0.3:
            ks = list(op["kw"])
            r.shuffle(ks)
            op["kw"] = {k: op["kw"][k] for k in ks}
        return op

    def gen(self, r, i):
        items = [self.item(r) for _ in range(r.choice([1, 2, 2]))]
        if len(items) > 1 and r.random() < 0.6:
            items[1] = gen.tweak(r, items[0])
        items = [self.finish(r, it) for it in items]
        if r.random() < 0.05:
            items.append({"f": "dipole", "kw": {}})
        paths = r.sample(NAMES, r.choice([2, 2, 3]))
        procs = []
        for _ in range(r.choice([1, 2, 3])):
            pr = []
            for _ in range(r.choice([1, 2, 3])):
                p = r.randrange(len(paths))
                k = r.random()
                if k < 0.55:
                    s = {"s": "save", "p": p, "it": r.randrange(len(items)), "fault": None}
                    if r.random() < 0.45:
                        s["fault"] = self.fault(r, items[s["it"]], paths[p])
                    elif r.random() < 0.1:
                        s["fault"] = {"k": "locale"}
                    pr.append(s)
                    pr.append({"s": "load", "p": p})
                elif k < 0.65:
                    pr.append({"s": "load", "p": p, "fault": {"k": "locale"} if r.random() < 0.15 else None})
                elif k < 0.9:
                    pr.append({"s": "resave", "p": p, "to": r.randrange(len(paths))})
                    pr.append({"s": "load", "p": pr[-1]["to"]})
                else:
                    pr.append({"s": "lose", "p": p, "f": 0, "frac": r.choice([0, r.random(), r.randint(1, 30)])})
                    pr.append({"s": "load", "p": p})
            procs.append(pr)
        p, it = r.randrange(len(paths)), r.randrange(len(items))
        procs.append([{"s": "save", "p": p, "it": it, "fault": None}, {"s": "run", "p": p, "it": it}])
        procs.append([{"s": "load", "p": p} for p in range(len(paths))])
        cuts = [{"p": r.randrange(len(paths)), "f": 0, "tail": 120,
                 "at": sorted(round(r.random(), 4) for _ in range(self.cut_n))}]
        return {"items": items, "paths": paths, "dirs": ["sub"], "procs": procs, "cuts": cuts}

    def save(self, item, path):
        from empymod import io
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        io.save_input(path, codec.dec(item["kw"]))

    def load(self, hint, path):
        from empymod import io
        return io.load_input(path)

    def refuses(self, item):
        """An own filter with the name of a built-in one: only names are stored."""
        def own(x):
            if isinstance(x, dict):
                if "$f" in x:
                    return "name" in x and (x.get("scale", 1) != 1 or x["name"] != x["$f"].split(".")[1])
                return any(own(v) for v in x.values())
            return isinstance(x, list) and any(own(v) for v in x)
        return own(item["kw"])

    def accepted(self, item):
        return ops.describe(lambda: self.save(item, "accepted/x.json"))[0]["st"] == "ok"

    def match(self, item, v):
        if not isinstance(v, dict):
            return f"a {type(v).__name__}"
        return first(norm(v), norm(codec.dec(item["kw"])))

    def extra(self, sc, k, s, item, path, send):
        from empymod import io
        if s["s"] == "resave":
            box = {}

            def go():
                v = io.load_input(path)
                box["loaded"] = True
                io.save_input(sc["paths"][s["to"]], v)
            o = ops.describe(go)[0]
            if o["st"] == "exc" and "loaded" not in box:
                return      # nothing (complete) to load: target unchanged
            send((k, "resave", (o["st"], o.get("t"), o.get("m"))))
        elif s["s"] == "run":
            if self.refuses(item) and not self.accepted(item):
                return
            box = {}

            def ld():
                box["v"] = io.load_input(path)
            o = ops.describe(ld)[0]
            if o["st"] == "exc":
                send((k, "extra", ([("load", f"{o['t']}: {o['m']}")], [])))
                return
            # by name, a filter is used as it lies in memory; an object is copied: rounding may differ
            a = ops.run(dict(item, kw=named(item["kw"])))
            b = ops.describe(lambda: ops.call(item, box["v"]))[0]
            d = ops.same(b, a)
            if "'$f'" in str(item["kw"]) and not d:
                a2 = ops.run(item)
                if a2["st"] != a["st"]:
                    d = ops.same(b, a2)
                elif a["st"] == "ok" and a["v"][0] == "arr":
                    x, y = np.asarray(b["v"][4]), np.asarray(a2["v"][4])
                    if x.shape != y.shape or np.nanmax(abs(x-y), initial=0) > 0.01*np.nanmax(abs(y), initial=0):
                        d = f"{x} instead of {y}"
            send((k, "extra", ([("run", f"{item['f']} with the loaded input: {d}")] if d else [],
                               ["runs compared", f"probe:{item['f']} {a['st']}"])))

    def shrink_items(self, sc):
        for i, it in enumerate(sc["items"]):
            for o in world.simpler_op(it):
                new = copy.deepcopy(sc)
                new["items"][i] = o
                yield new
