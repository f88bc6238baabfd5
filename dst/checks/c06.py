"""C06: a filter is exact and complete however it is first loaded."""
import copy
import os

import numpy as np

from .. import faults, gen, main, ops, sched, state, world
from .c02 import points

KINDS = {"hankel": "Hankel", "fourier": "Fourier"}
DEP = {"kong_61_2007": ("hankel", "kong_61_2007b"), "kong_241_2007": ("hankel", "kong_241_2007"),
       "key_101_2009": ("hankel", "key_101_2009"), "key_201_2009": ("hankel", "key_201_2009"),
       "key_401_2009": ("hankel", "key_401_2009"), "anderson_801_1982": ("hankel", "anderson_801_1982"),
       "key_51_2012": ("hankel", "key_51_2012"), "key_101_2012": ("hankel", "key_101_2012"),
       "key_201_2012": ("hankel", "key_201_2012"), "wer_201_2018": ("hankel", "wer_201_2018"),
       "key_81_CosSin_2009": ("fourier", "key_81_2009"), "key_241_CosSin_2009": ("fourier", "key_241_2009"),
       "key_601_CosSin_2009": ("fourier", "key_601_2009"), "key_101_CosSin_2012": ("fourier", "key_101_2012"),
       "key_201_CosSin_2012": ("fourier", "key_201_2012")}


def read_all():
    """The filters of libdlf, read directly (reference; empymod is not involved)."""
    import libdlf
    out = {}
    for ft in KINDS:
        mod = getattr(libdlf, ft)
        for n in mod.__all__:
            f = getattr(mod, n)
            d = f()
            out[ft, n] = {v: np.array(d[i], copy=True) for i, v in enumerate(["base"] + list(f.values))}
    return out


def factors():
    """The factors of the filters when each is loaded in turn by one thread."""
    from empymod import filters
    out = {}
    for ft, k in KINDS.items():
        h = getattr(filters, k)()
        for n in h.available:
            out[ft, n] = np.array(getattr(h, n).factor, copy=True)
    return out


def wrong(f, ref, name):
    """What is wrong with a filter object, compared to libdlf's data."""
    v = vars(f) if hasattr(f, "__dict__") else None
    if type(f).__name__ != "DigitalFilter":
        return f"{name} is a {type(f).__name__}"
    for k, a in ref.items():
        if k == "factor":
            continue
        if k not in v:
            return f"{name} has no {k}"
        if not np.array_equal(np.asarray(v[k]), a):
            return f"{name}.{k} differs from libdlf"
    for k in ("j0", "j1", "j2", "sin", "cos"):
        if k in v and k not in ref:
            return f"{name} has an additional {k}"
    if "factor" not in v:
        return f"{name} has no factor"
    fac = np.around([ref["base"][1]/ref["base"][0]], 15)
    if np.shape(v["factor"]) != (1,) or abs(v["factor"][0]/fac[0] - 1) > 1e-13 or \
            not np.array_equal(v["factor"], ref.get("factor", v["factor"])):
        return f"{name}.factor is {v['factor']}, not {fac}"
    if v.get("name") != name or v.get("savename") != name:
        return f"{name} has the name {v.get('name')}, {v.get('savename')}"
    return None


class Check(main.BaseCheck):
    prop = "C06"
    budget = {"quick": (40000, 70), "thorough": (300000, 1200)}
    rule = ("one run = seeded accesses to the filter registry by one to three threads (preempted at source lines or "
            "bytecodes of empymod and libdlf) with failing reads and interrupts of loads; every filter object is "
            "compared with libdlf's data the moment it is returned, and all of them at the end; distinct by accesses, "
            "faults and executed switches")
    measure = "distinct (code line left, code line entered) pairs of executed preemptions and interrupted lines"
    stub = ["thread scheduler", "asynchronous exceptions (tracer)", "failing reads (audit hook)", "clock (pinned)"]

    def prepare(self):
        import libdlf
        self.ref = world.child(read_all)
        for k, v in world.child(factors).items():
            self.ref[k]["factor"] = v
        self.names = {ft: list(getattr(libdlf, ft).__all__) for ft in KINDS}

    def step(self, r, pool):
        k = r.random()
        ft, n = r.choice(pool)
        if k < 0.6:
            return {"a": "get", "ft": ft, "n": n, "inst": r.choice(["new", "new", "old", "shared"])}
        if k < 0.68:
            return {"a": "dep", "n": r.choice(sorted(DEP))}
        if k < 0.8:
            if ft == "hankel":
                op = gen.call_dipole(r, time_p=0, nmax=1, standard=True, methods=["dlf"], hooks=False)
                if not n.startswith(("wer_2001", "anderson")):
                    op["kw"]["htarg"] = {"dlf": n, "pts_per_dec": r.choice([0, -1, -1, 10])}
                    op["kw"].update(ht="dlf")
                    op["kw"].pop("loop", None)
            else:
                op = gen.call_dipole(r, time_p=1, nmax=1, standard=True, methods=["dlf"], hooks=False)
                op["kw"].update(ft="dlf", ftarg={"dlf": n if r.random() < 0.3 and "81" in n or "101" in n else "key_81_2009",
                                                "pts_per_dec": r.choice([3, 3, -1])})
            op["kw"]["verb"] = 0
            return {"a": "call", "op": op}
        if k < 0.88:
            return {"a": "copy", "ft": ft, "n": n, "how": r.randrange(4)}
        if k < 0.94:
            return {"a": "save", "ft": ft, "n": n}
        return {"a": "avail", "ft": ft}

    def gen(self, r, i):
        allf = [(ft, n) for ft in sorted(self.names) for n in self.names[ft]]
        small = [x for x in allf if "2001" not in x[1]]
        pool = r.sample(small, r.choice([1, 1, 2, 3])) if r.random() < 0.9 else [r.choice(allf)]
        nt = r.choice([1, 2, 2, 3])
        th = [[self.step(r, pool) for _ in range(r.choice([1, 2, 3]))] for _ in range(nt)]
        sc = {"th": th, "mode": "opcode" if r.random() < 0.4 else "line", "inject": {}, "read": None}
        if r.random() < 0.3:
            sc["read"] = {"match": "libdlf/lib", "nth": r.choice([0, 0, 1, 2]),
                          "exc": r.choice(["OSError", "EMFILE", "FileNotFoundError", "MemoryError",
                                           "KeyboardInterrupt"])}
        prof = [self.profile(t, sc["mode"]) for t in th]
        if r.random() < 0.4:
            t = r.randrange(nt)
            p = points(r, prof[t], 1)
            if p:
                sc["inject"][str(t)] = {"at": p[0], "exc": r.choice(faults.INJ)}
        sws = []
        for _ in range(1 if nt < 2 else 8 if sum(map(len, prof)) < 30000 else 3):
            cur = r.randrange(nt)
            sw = [[0, cur]]
            pos = [0]*nt
            for _ in range(r.choice([1, 2, 3, 4, 6]) if nt > 1 else 0):
                p = points(r, prof[cur][pos[cur]:], 1)
                if not p:
                    break
                pos[cur] += p[0] + 1
                nxt = r.choice([t for t in range(nt) if t != cur])
                sw.append([p[0] + 1, nxt])
                cur = nxt
            sws.append(sw)
        sc["sw"] = sws
        return sc

    def profile(self, steps, mode):
        def go():
            p = self.with_libdlf(lambda: sched.profile(lambda: [self.do(s, {}) for s in steps], mode))
            ids = {}
            hot, warm = sched.shared_lines()
            return [4*ids.setdefault(x, len(ids)) + (2 if x in hot else 1 if x in warm else 0) for x in p]
        return world.child(go)

    @staticmethod
    def with_libdlf(fn):
        import libdlf
        sched._MORE = os.path.dirname(os.path.abspath(libdlf.__file__)) + os.sep
        try:
            return fn()
        finally:
            sched._MORE = None

    def do(self, s, old):
        """One access; returns (outcome, complaint)."""
        from empymod import filters
        bad = None
        if s["a"] in ("get", "copy", "save"):
            inst = {}

            def get():
                if s.get("inst", "new") == "new":
                    f = getattr(getattr(filters, KINDS[s["ft"]])(), s["n"])
                else:
                    f = getattr(old[s["inst"], s["ft"]] if (s["inst"], s["ft"]) in old
                                else getattr(filters, KINDS[s["ft"]])(), s["n"])
                inst["f"] = f
                inst["bad"] = wrong(f, self.ref[s["ft"], s["n"]], s["n"])
                if s["a"] == "copy":
                    c = copy.deepcopy(f)
                    if s["how"] == 0:
                        for k, v in vars(c).items():
                            if isinstance(v, np.ndarray):
                                v[...] = 0
                    elif s["how"] == 1:
                        c.base = c.base[:3]
                        c.name = c.savename = "changed"
                    elif s["how"] == 2:
                        c.filter_coeff.append("x")
                        c.factor = None
                    else:
                        c = copy.copy(f)
                        c.base = None
                        c.name = "y"
                elif s["a"] == "save":
                    f.tofile("flt")
            o, _ = ops.describe(get)
            return o, inst.get("bad")
        if s["a"] == "dep":
            box = {}

            def get():
                box["f"] = getattr(filters, s["n"])()
                return None
            o, _ = ops.describe(get)
            if "f" in box:
                ft, n = DEP[s["n"]]
                bad = wrong(box["f"], self.ref[ft, n], n)
            return o, bad
        if s["a"] == "call":
            return ops.run(s["op"]), None

        def avail():
            h = getattr(filters, KINDS[s["ft"]])()
            a = list(h.available)
            h.available[:] = []
            if a != self.names[s["ft"]]:
                raise AssertionError(f"available: {a}")
        o, _ = ops.describe(avail)
        return o, o["m"] if o["st"] == "exc" and o["t"] == "AssertionError" else None

    def sim(self, sc, sw, wd):
        def go():
            from empymod import filters
            mk = {("shared", ft): getattr(filters, KINDS[ft])() for ft in KINDS}
            got = [[None]*len(t) for t in sc["th"]]

            def body(t):
                def f():
                    old = dict(mk)
                    for ft in KINDS:
                        old["old", ft] = getattr(filters, KINDS[ft])()
                    for j, s in enumerate(sc["th"][t]):
                        got[t][j] = self.do(s, old)
                return f
            if sc["read"]:
                faults.Reads.arm(sc["read"]["match"], sc["read"]["nth"], sc["read"]["exc"])
            s = sched.Sim([body(t) for t in range(len(sc["th"]))], {"sw": sw, "mode": sc["mode"]},
                          inject={int(t): v for t, v in sc["inject"].items()}, cap=5_000_000)
            ok = self.with_libdlf(lambda: s.run(90))
            faults.Reads.off()
            fin = []
            if ok and not s.aborted:
                for ft in sorted(KINDS):
                    for n in self.names[ft]:
                        o, b = self.do({"a": "get", "ft": ft, "n": n}, {})
                        b = b or (f"{n}: {o['t']} {o['m']}" if o["st"] == "exc" else None)
                        if b:
                            fin.append(b)
                for k, h in mk.items():
                    for n in self.names[k[1]]:
                        b = wrong(getattr(h, n), self.ref[k[1], n], n)
                        if b:
                            fin.append("earlier instance: " + b)
            fired = [t.fired for t in s.tr if t is not None]
            return got, ok, s.aborted, [repr(e) for e in s.err if e is not None], s.trace, s.sites, fired, \
                (faults.Reads.fired if sc["read"] else 0), fin
        return world.child(go, os.path.join(wd, "w"), 150)

    def run(self, sc):
        res = main.Result()
        res.key, res.n = [], 0
        logs = []
        memo = {}
        with world.Dir() as wd:
            for sw in sc["sw"]:
                got, ok, ab, err, trace, sites, fired, rfired, fin = self.sim(sc, sw, wd)
                res.n += 1
                res.key.append(main.hkey([sc["th"], sc["read"], sc["inject"], [t[:3] for t in trace]]))
                for s in sites:
                    res.keys.add(str(s))
                nf = rfired
                res.c("fault:preemption", len(sites))
                res.c("fault:failing read", rfired)
                for x in fired:
                    if x:
                        res.keys.add(str(x))
                        res.c("fault:interrupt")
                        nf += 1
                where = f"(faults fired: reads {rfired}, lines {[x for x in fired if x]}; switches {sw})"
                if ab or not ok:
                    res.v("deadlock", f"threads do not end ({ab}) {where}")
                    break
                # exceptions raised outside of the accesses: an interrupt may also hit the harness
                nexc = len([e for e in err])
                for t, lst in enumerate(got):
                    for j, g in enumerate(lst):
                        if g is None:
                            continue
                        o, bad = g
                        s = sc["th"][t][j]
                        if bad:
                            res.v("incomplete", f"thread {t}, access {j} {s}: {bad} {where}")
                        if o["st"] == "exc":
                            nexc += 1
                            if not nf and s["a"] != "call":
                                res.v("error", f"thread {t}, access {j} {s}: {o['t']} {o['m']} {where}")
                        if s["a"] == "call" and not nf:
                            k = main.jdump(s["op"])
                            if k not in memo:
                                memo[k] = world.alone(s["op"], os.path.join(wd, "w2"))
                            d = ops.same(o, memo[k])
                            if d:
                                res.v("call", f"thread {t}, call {j}: {d} {where}")
                        res.c("accesses")
                if nf and not nexc:
                    res.v("swallowed", f"no access raised {where}")
                for b in fin[:1]:
                    res.v("remembered", f"afterwards: {b} {where}")
                logs.append(f"{trace} {fired} {rfired} {[[g and g[0]['st'] for g in x] for x in got]}")
                if res.viol:
                    break
        res.log = f"{main.hkey(sc)} {logs}"
        return res

    def shrink(self, sc):
        if len(sc["sw"]) > 1:
            for sw in sc["sw"]:
                yield dict(copy.deepcopy(sc), sw=[sw])
            return
        sw = sc["sw"][0]
        for i in range(1, len(sw)):
            yield dict(copy.deepcopy(sc), sw=[sw[:i] + sw[i+1:]])
        if sc["inject"]:
            yield dict(copy.deepcopy(sc), inject={})
        if sc["read"]:
            yield dict(copy.deepcopy(sc), read=None)
        for t, lst in enumerate(sc["th"]):
            for j in range(len(lst)):
                if len(lst) > 1:
                    new = copy.deepcopy(sc)
                    del new["th"][t][j]
                    yield new
        if len(sc["th"]) > 1 and not sc["inject"]:
            for t in range(len(sc["th"])):
                new = copy.deepcopy(sc)
                del new["th"][t]
                yield new


_ = state
