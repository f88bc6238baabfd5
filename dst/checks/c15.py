"""C15: minimum values act from when they are set until they are changed."""
import copy
import math
import os
import threading

import numpy as np

from .. import faults, gen, main, ops, world
from . import c03

DEFAULT = {"min_freq": 1e-20, "min_time": 1e-20, "min_off": 1e-3, "min_res": 1e-20, "min_angle": 1e-10}
VALS = {"min_freq": [1e-20, 1e-12, 1e-3, 0.5, 1.0, 30.0], "min_time": [1e-20, 1e-9, 1e-3, 0.5, 2.0],
        "min_off": [1e-3, 1e-6, 1.0, 10.0, 500.0, 0.0], "min_res": [1e-20, 1e-6, 0.1, 1.0, 10.0, 100.0],
        "min_angle": [1e-10, 0.0, 1e-3, 0.1, 0.8]}


def set_min(r):
    ks = r.sample(sorted(VALS), r.choice([1, 1, 1, 2, 3, 5]))
    kw = {k: r.choice(VALS[k]) for k in ks}
    if r.random() < 0.2:
        kw[r.choice(sorted(VALS))] = None
    for k in kw:
        if kw[k] is not None and r.random() < 0.15:
            kw[k] = {"$s": kw[k], "d": "f8"}
    return {"f": "set_minimum", "kw": kw}


def plain(v):
    return v["$s"] if isinstance(v, dict) else v


def effect(r, k, m):
    """Two calls that have to agree if minimum k is m: parameter below m, and parameter at m (default minima)."""
    op = gen.call_dipole(r, time_p=0, nmax=1, hooks=False, standard=True, methods=["dlf"])
    kw = op["kw"]
    kw["verb"] = 0
    kw["freqtime"] = 1.0
    kw["src"] = [0.0, 0.0, kw["src"][2] if not isinstance(kw["src"][2], list) else kw["src"][2][0]]
    kw["rec"] = [[700.0], [100.0], kw["rec"][2]]
    low = m*r.choice([0.999, 0.5, 1e-3])
    if k == "min_freq":
        if not 1e-6 < m < 1e3:
            return None
        a, b = copy.deepcopy(op), op
        a["kw"]["freqtime"], b["kw"]["freqtime"] = low, m
    elif k == "min_time":
        if not 1e-6 < m < 1e3:
            return None
        kw.update(signal=0, ft="dlf", ftarg={"dlf": "key_81_2009", "pts_per_dec": 3}, xdirect=False)
        a, b = copy.deepcopy(op), op
        a["kw"]["freqtime"], b["kw"]["freqtime"] = low, m
    elif k == "min_res":
        if m < 1e-6:
            return None
        n = gen.nlay_of(kw)
        kw.pop("aniso", None)       # the vertical resistivity has the same minimum
        a, b = copy.deepcopy(op), op
        i = r.randrange(n)
        res = [max(x, m) for x in gen.plain(kw["res"])]
        a["kw"]["res"], b["kw"]["res"] = res[:i] + [low] + res[i+1:], res[:i] + [m] + res[i+1:]
    elif k == "min_off":
        if m < 1e-3:
            return None
        kw["ab"] = 33
        kw["xdirect"] = False
        x = math.floor(low*1e6)/1e6
        # coordinates smaller than the offset are not changed themselves
        a, b = copy.deepcopy(op), op
        a["kw"]["rec"][:2] = [x], [0.0]
        b["kw"]["rec"][:2] = [m], [0.0]
    else:
        if m < 1e-6 or m > 0.5:
            return None
        # a rotation whose sine is below the minimum is none
        op = {"f": "bipole", "kw": kw}
        ab = kw.pop("ab", None)
        del ab
        kw["src"] = kw["src"] + [0.0, 0.0]
        kw["rec"] = [700.0, 100.0, kw["rec"][2], 0.0, 0.0]
        # at 90 degrees the cosine is small
        d = math.degrees(math.asin(low))
        a, b = copy.deepcopy(op), op
        a["kw"]["src"][4] = d
        b["kw"]["src"][4] = 0.0
        return {"a": a, "b": b, "rtol": 3*low**2 + 1e-9}
    return {"a": a, "b": b, "rtol": 1e-8}


class Check(main.BaseCheck):
    prop = "C15"
    budget = {"quick": (50000, 60), "thorough": (500000, 1200)}
    rule = ("one run = a seeded history of set_minimum, get_minimum (whose result is overwritten) and regular, failing "
            "and aborted calls from one or several threads of one process, against a reference model of the minima and "
            "pristine processes; distinct by history")
    measure = "distinct (minima in force, step kind) pairs"
    stub = ["asynchronous exceptions (tracer)", "user functions", "clock (pinned)"]

    def step(self, r, calls, cur):
        k = r.random()
        th = r.random() < 0.25
        if k < 0.33:
            return dict(set_min(r), a="set", th=th)
        if k < 0.5:
            return {"a": "get", "spoil": r.random() < 0.6, "th": th}
        if k < 0.55:
            return {"a": "badset", "kw": {r.choice(["min_frequency", "freq", "min_offset"]): 1.0}, "th": th}
        if k < 0.68:
            key = r.choice(sorted(VALS))
            m = cur[key]
            e = effect(r, key, m)
            if e:
                return {"a": "effect", "key": key, "m": m, "e": e, "th": th}
        if k < 0.8:
            op = world.light(lambda: c03.raw_victim(r), 12000)
            f = c03.some_faults(r, [], op, 2)
            f = [x for x in f if x["kind"] in ("line", "cb", "bad", "read", "linalg")]
            return {"a": "abort", "op": op, "fault": r.choice(f), "th": th}
        if calls and r.random() < 0.5:
            op = copy.deepcopy(r.choice(calls))
        else:
            op = gen.bad_call(r) if r.random() < 0.15 else self.near(r)
            calls.append(op)
        return {"a": "call", "op": op, "th": th}

    @staticmethod
    def near(r):
        """A call with values around the minima."""
        op = gen.any_model_call(r, time_p=0.15)
        kw = op["kw"]
        if r.random() < 0.5 and op["f"] in ("dipole", "analytical"):
            kw["rec"][0] = r.choice([0.0, 0.5, 5.0]) if not isinstance(kw["rec"][0], list) else [
                r.choice([0.0, 0.5, 5.0, 100.0]) for _ in kw["rec"][0]]
        return op

    def gen(self, r, i):
        cur = dict(DEFAULT)
        calls, st = [], []
        for _ in range(r.choice([4, 7, 10])):
            s = self.step(r, calls, cur)
            if s["a"] == "set":
                cur.update({k: plain(v) for k, v in s["kw"].items() if plain(v) is not None})
            st.append(s)
        return {"steps": st}

    def run(self, sc):
        res = main.Result()
        with world.Dir() as wd:
            def one(s):
                if s["a"] == "set":
                    return ops.run({"f": "set_minimum", "kw": s["kw"]})
                if s["a"] == "badset":
                    return ops.run({"f": "set_minimum", "kw": s["kw"]})
                if s["a"] == "get":
                    import empymod
                    d = empymod.get_minimum()
                    o = {k: (type(v).__name__, float(v)) for k, v in d.items()}
                    if s["spoil"]:
                        for k in list(d):
                            d[k] = 123.0
                        d.clear()
                    return o
                if s["a"] == "effect":
                    return ops.run(s["e"]["a"])
                if s["a"] == "abort":
                    ctx = ops.Ctx()
                    op = copy.deepcopy(s["op"])
                    if s["fault"]["kind"] == "bad":
                        op["kw"]["not_an_argument"] = 1
                    kw = ops.build(op, ctx)
                    o, fired, _, _ = faults.faulted(lambda: ops.call(op, kw), s["fault"], ctx)
                    return bool(fired)
                return ops.run(s["op"])

            def go():
                out = []
                for s in sc["steps"]:
                    if s["th"] and s["a"] != "abort":
                        box = []
                        t = threading.Thread(target=lambda: box.append(one(s)))
                        t.start()
                        t.join()
                        out.append(box[0])
                    else:
                        out.append(one(s))
                return out
            got = world.child(go, os.path.join(wd, "w"), 200)
            cur = dict(DEFAULT)
            typed = dict(DEFAULT)
            pre = []
            for i, (s, g) in enumerate(zip(sc["steps"], got)):
                res.c(f"step {s['a']}")
                res.keys.add(main.hkey([sorted(cur.items()), s["a"], s.get("key")]))
                if s["th"]:
                    res.c("probe:step in another thread")
                what = f"step {i}, minima {cur}"
                if s["a"] == "set":
                    new = {k: plain(v) for k, v in s["kw"].items() if plain(v) is not None}
                    cur.update(new)
                    typed.update({k: s["kw"][k] for k in new})
                    pre.append({"f": "set_minimum", "kw": s["kw"]})
                    if g["st"] != "ok":
                        res.v("set", f"{what}: set_minimum({s['kw']}) raises {g['t']}: {g['m']}")
                elif s["a"] == "badset":
                    res.c("fault:invalid set_minimum")
                    if g["st"] != "exc":
                        res.v("set", f"{what}: set_minimum({s['kw']}) is accepted")
                elif s["a"] == "get":
                    if {k: v[1] for k, v in g.items()} != cur:
                        res.v("get", f"{what}: get_minimum() is {g}")
                elif s["a"] == "abort":
                    if g:
                        res.c(f"fault:aborted call ({s['fault']['kind']})")
                elif s["a"] == "effect" and cur[s["key"]] == s["m"]:
                    # the same minima, but parameter at the minimum: no minimum acts on it
                    e = world.alone(s["e"]["b"], os.path.join(wd, "w2"),
                                    pre + [{"f": "set_minimum", "kw": {s["key"]: DEFAULT[s["key"]]}}])
                    d = ops.same(g, e, rtol=s["e"]["rtol"], text=False)
                    if d and self.comparable(g, e, s):
                        res.v("effect", f"{what}: {s['key']} is not in force ({s['e']['a']['kw']}): {d}")
                elif s["a"] == "call":
                    # the minima in force, set at once in the default process
                    e = world.alone(s["op"], os.path.join(wd, "w2"), [{"f": "set_minimum", "kw": typed}])
                    d = ops.same(g, e)
                    if d:
                        res.v("call", f"{what}: {s['op']['f']}: {d}")
                if res.viol:
                    break
        res.key = main.hkey(sc)
        res.log = f"{res.key} {[str(g)[:60] if isinstance(g, (bool, dict)) and 'v' not in str(g)[:9] else 0 for g in got]}"
        return res

    @staticmethod
    def comparable(g, e, s):
        """Rotation effects are relative to the biggest value."""
        if s["key"] != "min_angle" or g["st"] != "ok" or e["st"] != "ok":
            return True
        a, b = np.asarray(g["v"][4]), np.asarray(e["v"][4])
        return not np.all(np.abs(a-b) <= s["e"]["rtol"]*np.abs(b) + 1e-30)

    def shrink(self, sc):
        st = sc["steps"]
        for c in world.shorten(st):
            if c:
                yield {"steps": c}
        for i, s in enumerate(st):
            if s["th"]:
                new = copy.deepcopy(st)
                new[i]["th"] = False
                yield {"steps": new}
            if s["a"] == "call":
                for c in world.simpler_op(s["op"]):
                    new = copy.deepcopy(st)
                    new[i]["op"] = c
                    yield {"steps": new}
