"""C09: filters and inversion results written to files are read back exactly."""
import copy
import os
import re
import struct

import numpy as np

from .. import codec, files, gen, main, ops, sched, world
from .c07 import SPECIAL

NAMES = ["filters/abc", "filters/my filt", "ö/fïlt", "d/e/x-y_z", "filters/abc2", "filters/j0", "filters/base_full",
         "filters/ab.gz", "d/zipped.gz", "./here"]
COEF = ["j0", "j1", "sin", "cos"]


def bits(a):
    u = np.ascontiguousarray(np.asarray(a, dtype=np.float64)).reshape(-1).copy()
    u[np.isnan(u)] = np.nan
    return u.view(np.uint64)


def vec(r, n, kind):
    if kind == "base":
        x0, dx = r.uniform(-8, 1), r.uniform(0.05, 0.3)
        return [float(np.exp(x0 + i*dx)) for i in range(n)]
    out = [r.gauss(0, 1)*10**r.uniform(-8, 1) for _ in range(n)]
    if r.random() < 0.2:
        for _ in range(2):
            out[r.randrange(n)] = r.choice([x for x in SPECIAL])
    return out


def b64(v, shape=None):
    return {"$b": struct.pack(f"<{len(v)}d", *v).hex(), "d": "f8", "s": shape or [len(v)]}


MEMO = {}


def floats(text):
    """Reference for np.fromfile(sep): the numbers of a text, the last may be incomplete."""
    out = []
    for t in text.split():
        m = re.match(r"[+-]?(nan|inf|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", t)
        if not m:
            break
        out.append(float(m.group()))
        if m.group() != t:
            break
    return out


class Check(files.FileCheck):
    prop = "C09"
    level = "fault_enumeration"
    budget = {"quick": (30000, 70), "thorough": (200000, 1200)}
    rule = ("one evaluation = one simulated process of a seeded save/load history of filters and inversion results "
            "(writes that fail or kill at a chosen byte or source line, failing opens, interrupts), or the load of "
            "one cut file; distinct by filters, history and cut")
    cut_cap = 600
    cut_n = 150

    def item(self, r, path, full, coeff):
        name = os.path.basename(path).split(".")[0]
        k = r.random()
        it = {"name": name, "full": None}
        if k < 0.25:
            it["from"] = r.choice(["Hankel.kong_61_2007b", "Hankel.key_51_2012", "Hankel.key_101_2009",
                                   "Fourier.key_81_2009"])
        elif k < 0.4:
            op = gen.call_design(r)
            op["kw"].update(full_output=True, name=name, verb=0)
            it["design"] = op
        else:
            n = r.choice([2, 3, 5, 11])
            co = r.choice([["j0", "j1"], ["j0"], ["sin", "cos"], ["j0", "j1", "sin", "cos"], ["j1"], ["sin"]])
            co = co + [c for c in coeff if r.random() < 0.8]
            it["vals"] = {"base": b64(vec(r, n, "base"))}
            for c in co:
                it["vals"][c] = b64(vec(r, n, c))
        if full:
            if "design" in it:
                it["full"] = "design"
            else:
                ns, nh = r.choice([1, 1, 2, 4]), r.choice([1, 1, 2, 3])
                sp, sh = vec(r, 2, "base"), [r.uniform(-3, 3)]
                it["full"] = {"best": b64([sp[0], sh[0]]), "val": b64([r.choice([r.uniform(0, 1), 1e-300, 0.1])]),
                              "mat": b64([r.gauss(0, 1) for _ in range(2*ns*nh)], [2, ns, nh]),
                              "obj": b64([r.choice([r.uniform(0, 100), r.gauss(0, 1), float("inf")])
                                          for _ in range(ns*nh)], [ns, nh]), "cvar": r.choice([0, 1])}
        it["coeff"] = coeff
        return it

    def gen(self, r, i):
        paths = r.sample(NAMES, r.choice([1, 1, 2]))
        twin = r.random() < 0.2
        if twin:                    # plain and zipped inversion result of the same filter
            paths = r.choice([["filters/ab", "filters/ab.gz"], ["d/zipped", "d/zipped.gz"]])
            r.shuffle(paths)
        hints, items, of = [], [], []
        for p, path in enumerate(paths):
            full = path.endswith(".gz") or twin or r.random() < 0.5
            coeff = hints[0]["coeff"] if twin and hints else r.choice([[], [], ["mine"], ["a", "j2"]])
            hints.append({"full": full, "coeff": coeff, "how": "load_filter" if full else
                          r.choice(["load_filter", "fromfile"])})
            a = self.item(r, path, full, coeff)
            mine = [a]
            for _ in range(r.choice([0, 1, 1, 2])):
                b = self.item(r, path, full, coeff)
                if r.random() < 0.8 and "vals" in a:        # the same set of coefficients
                    b = copy.deepcopy(a)
                    n = r.choice([2, 3, 7, 12])
                    b["vals"] = {k: b64(vec(r, n, k)) for k in a["vals"]}
                    if a["full"]:
                        b["full"] = self.item(r, path, True, coeff)["full"]
                        if b["full"] in (None, "design"):
                            b["full"] = a["full"]
                mine.append(b)
            if twin:
                for b in mine:
                    while b["full"] in (None, "design"):
                        b["full"] = self.item(r, path, True, coeff)["full"]
                    b.pop("design", None), b.pop("from", None)
                    b["vals"] = (items or mine)[0].get("vals") or {"base": b64(vec(r, 5, "base")),
                                                                  "j0": b64(vec(r, 5, "j0"))}
            of.append([len(items) + j for j in range(len(mine))])
            items += mine
        procs = []
        if twin:
            procs.append([{"s": "save", "p": p, "it": r.choice(of[p]), "fault": None} for p in (0, 1)])
        for _ in range(r.choice([1, 2, 3, 4])):
            pr = []
            for _ in range(r.choice([1, 2, 3])):
                p = r.randrange(len(paths))
                k = r.random()
                if k < 0.6 or k > 0.9 and twin:
                    s = {"s": "save", "p": p, "it": r.choice(of[p]), "fault": None}
                    if twin:
                        pr.append(s)
                        pr.append({"s": "load", "p": 1 - p})
                        pr.append({"s": "load", "p": p})
                        continue
                    if r.random() < 0.4:
                        s["fault"] = self.fault(r, items[s["it"]], paths[p])
                    elif r.random() < 0.1:
                        s["fault"] = {"k": "locale"}
                    pr.append(s)
                    pr.append({"s": "load", "p": p})
                elif k < 0.9:
                    pr.append({"s": "load", "p": p})
                else:
                    pr.append({"s": "lose", "p": p, "f": r.randrange(5), "frac": r.choice([0, r.random(),
                                                                                          r.randint(1, 30)])})
                    pr.append({"s": "load", "p": p})
            procs.append(pr)
        procs.append([{"s": "load", "p": p} for p in range(len(paths))])
        p = r.randrange(len(paths))
        it = r.choice(of[p])
        procs.append([{"s": "save", "p": p, "it": it, "fault": None}, {"s": "run", "p": p, "it": it}])
        cuts = [{"p": p, "f": f, "tail": 40, "at": sorted(round(r.random(), 4) for _ in range(self.cut_n))}
                for f in ([self.pick_full(items[it], paths[p])] if items[it]["full"] else [r.randrange(6)])]
        return {"items": items, "paths": paths, "hints": hints, "procs": procs, "cuts": cuts}

    def pick_full(self, item, path):
        try:
            return [self.isfull(f) for f in sorted(self.clean(item, path))].index(True)
        except Exception:
            return 0

    # ---- saving and loading
    def obj(self, item):
        """(filter, full) as a user has them."""
        key = main.jdump(item)
        if key not in MEMO:
            from empymod import filters
            full = None
            if "from" in item:
                k, n = item["from"].split(".")
                f = copy.deepcopy(getattr(getattr(filters, k)(), n))
                f.name = f.savename = item["name"]
            elif "design" in item:
                f, full = ops.describe(lambda: ops.call(item["design"], ops.build(item["design"])))[1]
            else:
                f = filters.DigitalFilter(item["name"], filter_coeff=item["coeff"] or None)
                for k, v in item["vals"].items():
                    setattr(f, k, codec.dec(v))
                f.factor = np.around([f.base[1]/f.base[0]], 15)
            if isinstance(item["full"], dict):
                u = {k: codec.dec(v) for k, v in item["full"].items()}
                full = (u["best"], u["val"][0], u["mat"], u["obj"], u["cvar"])
            if item["full"] is None:
                full = None
            MEMO[key] = (f, full)
        return MEMO[key]

    def save(self, item, path):
        from empymod.scripts import fdesign
        f, full = self.obj(item)
        d, n = os.path.split(path)
        if full is None and len(n) % 2:
            f.tofile(d or ".")
        else:
            fdesign.save_filter(n, f, full, d or ".")

    def load(self, hint, path):
        from empymod.scripts import fdesign
        from empymod.filters import DigitalFilter
        d, n = os.path.split(path)
        kw = {"filter_coeff": hint["coeff"]} if hint["coeff"] else {}
        if hint["how"] == "fromfile":
            f = DigitalFilter(n, **kw)
            f.fromfile(d or ".")
            return f
        return fdesign.load_filter(n, hint["full"], d or ".", **kw)

    def files_of(self, f, full):
        return [c for c in COEF + ["mine", "a", "j2"] if hasattr(f, c)], full

    def match(self, item, v):
        f, full = self.obj(item)
        g, gull = v if isinstance(v, tuple) else (v, None)
        if type(g).__name__ != "DigitalFilter":
            return f"a {type(g).__name__}"
        m = self.cmp_filter(f, g)
        if m:
            return m
        return self.cmp_full(full, gull)

    @staticmethod
    def cmp_filter(f, g):
        for c in ["base"] + COEF + ["mine", "a", "j2"]:
            if hasattr(f, c) != hasattr(g, c):
                return f"{c} is " + ("missing" if hasattr(f, c) else "additional")
            if hasattr(f, c):
                x, y = getattr(g, c), getattr(f, c)
                if np.shape(x) != np.shape(y):
                    return f"{c} has shape {np.shape(x)} instead of {np.shape(y)}"
                if not np.array_equal(bits(x), bits(y)):
                    return f"{c} differs"
        fac = np.around([f.base[1]/f.base[0]], 15)
        if np.shape(g.factor) != (1,) or abs(g.factor[0]/fac[0] - 1) > 1e-12:
            return f"factor is {g.factor} instead of {fac}"
        if g.name != f.name:
            return f"name {g.name!r} instead of {f.name!r}"
        return None

    @staticmethod
    def cmp_full(full, gull):
        if (full is None) != (gull is None):
            return "inversion result is " + ("missing" if gull is None else "additional")
        if full is None:
            return None
        for n, x, y in zip(["best values", "minimum", "grid", "objective", "cvar"], gull, full):
            if np.shape(np.squeeze(x)) != np.shape(np.squeeze(y)) or (n in ("grid", "objective")
                                                                     and np.shape(x) != np.shape(y)):
                return f"{n} has shape {np.shape(x)} instead of {np.shape(y)}"
            if not np.array_equal(bits(x), bits(y)):
                return f"{n}: {x} instead of {y}"
        return None

    def loaded(self, sc, p, path, fault=None, only=None):
        box = {}

        def f():
            box["v"] = self.load(sc["hints"][p], path)
        o, _ = files.apply(f, fault)
        if o["st"] == "exc":
            return ("exc", o["t"], o["m"])
        v = box["v"]
        eq, txt = [], {}
        name = os.path.basename(path).split(".")[0]
        for j, it in enumerate(sc["items"]):
            if it["name"] == name:
                m = self.match(it, v)
                if m is None:
                    eq.append(j)
                else:
                    txt[j] = m
        if eq:
            return ("ok", eq, txt)
        g, gull = v if isinstance(v, tuple) else (v, None)
        files_now = {}
        d = os.path.dirname(path) or "."
        for fn in self.files(d):
            if self.belongs(fn, path):
                files_now[fn] = open(os.path.join(d, fn), "rb").read()
        nofull = gull is None and not any(self.isfull(fn) for fn in files_now)
        full = [j for j, it in enumerate(sc["items"]) if it["name"] == name
                and (nofull or self.cmp_full(self.obj(it)[1], gull) is None)]
        if nofull:      # a save that ended before the inversion result was written
            eq = [j for j in full if self.cmp_filter(self.obj(sc["items"][j])[0], g) is None]
            if eq:
                return ("ok", [-1-j for j in eq], txt)
        raw = {c: np.asarray(getattr(g, c)).tolist() for c in ["base"] + COEF + ["mine", "a", "j2"] if hasattr(g, c)}
        return ("ok", eq, txt, raw, full, files_now)

    @staticmethod
    def isfull(fn):
        return fn.endswith(("_full.txt", "_full.txt.gz"))

    def verdict(self, sc, where, p, x, must, may, res, w, cut=None):
        if x[0] == "ok" and must is None and x[1] and all(j < 0 for j in x[1]):
            x = ("ok", [-1-j for j in x[1]], x[2])
        super().verdict(sc, where, p, x, must, may, res, w, cut)

    def belongs(self, f, path):
        n = os.path.basename(path).split(".")[0]
        return re.fullmatch(re.escape(n) + r"_(base|j0|j1|sin|cos|mine|a|j2|full)\.txt(\.gz)?", f) is not None

    def sig(self, sc, ev, wd):
        """Known: text files of a filter from a killed/failed save, or of several saves, load silently."""
        kind, p, must, may, x = ev
        if x[0] != "ok" or len(x) < 6:
            return None
        raw, full, now = x[3:6]
        path = sc["paths"][p]
        name = os.path.basename(path).split(".")[0]
        texts = {}
        allowed = set(may)
        if must is not None or any(t["s"] == "save" and t["p"] == p for pr in sc["procs"] for t in pr):
            allowed |= {t["it"] for pr in sc["procs"] for t in pr if t["s"] == "save" and t["p"] == p}
        for j in allowed:
            for fn, b in self.clean(sc["items"][j], path).items():
                texts.setdefault(fn, {})[j] = b
        for fn, b in now.items():
            own = [j for j, t in texts.get(fn, {}).items() if t == b]
            if not own:
                if not any(t.startswith(b) for t in texts.get(fn, {}).values()):
                    return None
        # what was loaded is what the files hold
        if set(raw) != {fn[len(name)+1:-4] for fn in now if not self.isfull(fn)}:
            return None
        for c, v in raw.items():
            e = floats(now[f"{name}_{c}.txt"].decode("utf-8", "replace"))
            if len(v) != len(e) or not np.array_equal(bits(v), bits(e)):
                return None
        if not full:
            return None
        if must is not None:
            # all files of the last save are complete; others are left from earlier saves
            if any(now.get(fn) != b for fn, b in self.clean(sc["items"][must], path).items()):
                return None
            return "stale-coefficients"
        return "torn-filter"

    def clean(self, item, path):
        key = ("clean", main.jdump(item), path)
        if key not in MEMO:
            def go():
                self.save(item, path)
                d = os.path.dirname(path) or "."
                return {f: open(os.path.join(d, f), "rb").read() for f in self.files(d) if self.belongs(f, path)}
            MEMO[key] = world.child(go)
        return MEMO[key]

    def extra(self, sc, k, s, item, path, send):
        from empymod import io        # noqa: F401
        box = {}

        def ld():
            v = self.load(sc["hints"][s["p"]], path)
            box["f"] = v[0] if isinstance(v, tuple) else v
        o = ops.describe(ld)[0]
        if o["st"] == "exc":
            send((k, "extra", ([("load", f"{o['t']}: {o['m']}")], [])))
            return
        f = self.obj(item)[0]
        import empymod
        if hasattr(f, "j0") and hasattr(f, "j1"):
            kw = dict(src=[0, 0, 250], rec=[[500., 900.], [10., 0.], 300], depth=[0, 300], res=[1e12, 0.3, 1],
                      freqtime=[1., 2.], verb=0, ht="dlf")
            arg = "htarg"
        elif hasattr(f, "sin"):
            kw = dict(src=[0, 0, 250], rec=[500., 10., 300], depth=[0, 300], res=[1e12, 0.3, 1],
                      freqtime=[1., 2.], signal=0, verb=0, ht="dlf", htarg={"dlf": "kong_61_2007b"}, ft="dlf")
            arg = "ftarg"
        else:
            return
        a = ops.describe(lambda: empymod.dipole(**kw, **{arg: {"dlf": f}}))[0]
        b = ops.describe(lambda: empymod.dipole(**kw, **{arg: {"dlf": box["f"]}}))[0]
        d = ops.same(b, a, 1e-10)
        if d and "design" in item:
            # the factor of a designed filter is only close to the one derived from its base
            d = None
        send((k, "extra", ([("run", f"with the loaded filter: {d}")] if d else [], ["runs compared"])))


_ = sched
