"""C04: routines never modify what the caller passed in."""
import copy
import os

from .. import codec, faults, gen, low, main, ops, sched, state, world
from . import c01, c03


def savers(r):
    """Calls of the saving routines with objects of the caller."""
    k = r.randrange(5)
    if k == 0:
        shape = [r.randint(1, 3) for _ in range(3)]
        n = shape[0]*shape[1]*shape[2]

        def nums():
            return [r.choice([0.0, gen.lrnd(r, 1e-20, 1e5), -1.5]) for _ in range(n)]
        cplx = r.random() < 0.6
        x = nums()
        d = {"$a": None, "d": "c16" if cplx else "f8"}
        flat = [[a, b] for a, b in zip(x, nums())] if cplx else x
        it = iter(flat)
        d["$a"] = [[[next(it) for _ in range(shape[2])] for _ in range(shape[1])] for _ in range(shape[0])]
        d["o"] = r.choice(["C", "F", "S"]) if not cplx else r.choice(["C", "F"])
        return {"f": "save_data", "kw": {"fname": "$W/d." + r.choice(["txt", "json"]), "data": d,
                                         "info": "x"}}
    if k == 1:
        op = gen.call_bipole(r, hooks=False)
        return {"f": "save_input", "kw": {"fname": "$W/i.json", "data": op["kw"]}}
    if k == 2:
        return {"f": "tofile", "kw": {"filt": {"$f": "Hankel.kong_61_2007b", "copy": r.random() < 0.5},
                                      "path": "$W/f"}}
    if k == 3:
        return {"f": "save_filter", "kw": {"name": "abc", "filt": {"$f": "Fourier.key_81_2009", "copy": True},
                                           "path": "$W/f", "full": {"$t": [
                                               {"$a": [0.1, 1.0], "d": "f8"}, 0.5,
                                               {"$a": [[[0.1, 0.1], [0.2, 0.2]], [[1.0, 2.0], [1.0, 2.0]]], "d": "f8"},
                                               {"$a": [[0.5, 0.6], [0.7, 0.8]], "d": "f8"}, 1]}}}
    return {"f": "set_minimum", "kw": {"min_freq": 1e-20}}


def loaders(r):
    """Loads with a list of the caller; the file was written before."""
    pre = [{"f": "save_filter", "kw": {"name": "abc", "filt": {"$f": "Fourier.key_81_2009", "copy": True},
                                       "path": "$W/f"}}]
    c = r.choice([["abc"], ["abc", "xyz"], []])
    if r.random() < 0.5:
        return pre, {"f": "load_filter", "kw": {"name": "abc", "path": "$W/f", "filter_coeff": c}}
    return pre, {"f": "fromfile", "kw": {"name": "abc", "path": "$W/f", "filter_coeff": c}}


class Check(main.BaseCheck):
    prop = "C04"
    budget = {"quick": (30000, 70), "thorough": (300000, 1500)}
    rule = ("one run = one call (or one of the lower-level routines called with recorded real arguments), regular or "
            "aborted by a fault, with a complete snapshot of the arguments before and after, then calls reusing the "
            "same objects, compared with pristine processes; distinct by call and fault")
    measure = "distinct (routine, argument names and kinds) whose immutability was checked"
    stub = ["asynchronous exceptions (tracer)", "failing reads (audit hook)", "clock (pinned)"]

    def gen(self, r, i):
        if r.random() < 0.05:
            pre, op = loaders(r)
        elif r.random() < 0.12:
            pre, op = [], savers(r)
        elif r.random() < 0.15:
            pre, op = [], gen.bad_call(r)
        else:
            pre, op = c03.victim(r)
            if op["f"] in world.LOADS:
                pre, op = [], world.light(lambda: c03.raw_victim(r))
        # different kinds of containers
        for k, v in list(op["kw"].items()):
            if isinstance(v, list) and r.random() < 0.3 and all(isinstance(j, (int, float)) for j in v) and v \
                    and k not in ("spacing", "shift", "r_def"):
                op["kw"][k] = {"$a": v, "d": "f8", "o": r.choice(["C", "C", "R"])}
            elif isinstance(v, list) and k in ("src", "rec"):
                op["kw"][k] = [{"$a": j, "d": "f8", "o": r.choice(["C", "S"])} if isinstance(j, list)
                               and r.random() < 0.5 else j for j in v]
        fl = [None] + c03.some_faults(r, pre, op, 3)[:3]
        again = [gen.tweak(r, op) for _ in range(2)] if op["f"] not in world.SAVES and op["f"] not in (
            "tofile", "save_filter", "load_filter", "fromfile") else []
        return {"pre": pre, "op": op, "faults": fl, "again": again, "low": r.random() < 0.6}

    def run(self, sc):
        res = main.Result()
        res.key, res.n = [], 0
        op = sc["op"]
        logs = []
        with world.Dir() as wd:
            def go(f):
                def g():
                    for p in sc["pre"]:
                        ops.run(p)
                    ctx = ops.Ctx()
                    o2 = op
                    if f and f["kind"] == "bad":
                        o2 = copy.deepcopy(op)
                        o2["kw"]["not_an_argument"] = 1
                    kw = ops.build(o2, ctx)
                    a0 = {k: state.deep(v) for k, v in kw.items()}
                    o, fired, exc, v = faults.faulted(lambda: ops.call(o2, kw), f, ctx)
                    bad = self.compare(a0, kw)
                    # the same objects again: same call, then other calls
                    got = []
                    kw.pop("not_an_argument", None)
                    ctx.cb = {}
                    got.append(ops.describe(lambda: ops.call(op, kw))[0])
                    bad += self.compare(a0, kw)
                    for t in sc["again"]:
                        new = {}
                        for k, x in t["kw"].items():
                            same = k in kw and main.jdump(x) == main.jdump(op["kw"].get(k))
                            new[k] = kw[k] if same else codec.dec(x, ctx)
                        b0 = {k: state.deep(x) for k, x in new.items()}
                        got.append(ops.describe(lambda: ops.call(t, new))[0])
                        bad += self.compare(b0, new)
                    del v
                    return o, fired, bad, got
                return g
            exp = None
            for f in sc["faults"]:
                o, fired, bad, got = world.child(go(f), os.path.join(wd, "w"), 200)
                res.n += 1
                if fired:
                    res.c("fault:" + f["kind"])
                if o["st"] == "exc" and not f:
                    res.c("fault:rejected call")
                res.key.append(main.hkey([op, sc["pre"], f if fired else None]))
                for b in bad:
                    res.v("argument", f"{op['f']} ({'aborted by ' + str(f) + ' at ' + str(fired) if fired else 'regular'}"
                          f", {o['st']}): {b}")
                if exp is None:
                    exp = [world.alone(t, os.path.join(wd, "w"), sc["pre"]) for t in [op] + sc["again"]]
                for j, (g, e) in enumerate(zip(got, exp)):
                    d = ops.same(g, e)
                    res.c("calls with reused objects")
                    if d and not res.viol:
                        res.v("reuse", f"call {j} with the same objects (after {f}): {d}")
                logs.append(f"{fired} {o['st']} {len(bad)} {[g['st'] for g in got]}")
                if res.viol:
                    break
            if sc["low"] and not res.viol:
                for name, fired, bad, same in world.child(lambda: self.lower(sc, op), os.path.join(wd, "w"), 200):
                    res.n += 1
                    res.c("calls of " + name)
                    res.keys.add(name)
                    if fired:
                        res.c("fault:line, lower-level routine")
                    for b in bad:
                        res.v("low-argument", f"{name}: {b}")
                    if same:
                        res.v("low-reuse", f"{name} called twice with the same objects: {same}")
                    res.key.append(main.hkey([name, op, fired]))
        for k in op["kw"]:
            res.keys.add(f"{op['f']}.{k}.{type(op['kw'][k]).__name__}")
        res.log = f"{main.hkey(sc)} {logs}"
        return res

    @staticmethod
    def compare(a0, kw):
        out = []
        for k in a0:
            w = state.where(a0[k], state.deep(kw[k]), k) if k in kw else None
            if w:
                out.append(w)
        return out

    def lower(self, sc, op):
        """The lower-level routines with real arguments, called directly: twice, and once aborted."""
        out = []
        for p in sc["pre"]:
            ops.run(p)
        for name, f, a, k in low.record(lambda: ops.run(op, ops.Ctx())):
            for i, at in enumerate((None, None, len(out)*7 % 40)):
                s0 = (state.deep(a), state.deep(k))
                box = {}

                def call():
                    box["r"] = ops.describe(lambda: f(*a, **k))[0]
                fired = None
                if at is None:
                    call()
                else:
                    fired = sched.traced(call, inject={"at": at, "exc": "KeyboardInterrupt"}).fired
                s1 = (state.deep(a), state.deep(k))
                bad = []
                for x, y, n in zip(s0, s1, ("arg", "kwarg")):
                    if x != y:
                        bad.append(self.strip(x, y, n))
                same = None
                if i == 0:
                    first = box["r"]
                elif i == 1:
                    same = ops.same(box["r"], first)
                out.append((name, fired, bad, same))
        return out

    @staticmethod
    def strip(x, y, n):
        # the outer list is built by the harness: compare its items
        if n == "arg":
            for i, (p, q) in enumerate(zip(x[2], y[2])):
                if p != q:
                    return state.where(p, q, f"argument {i}")
        return state.where(x, y, n)

    def shrink(self, sc):
        if sc["low"]:
            yield dict(copy.deepcopy(sc), low=False)
            yield dict(copy.deepcopy(sc), faults=[], again=[])
        if len(sc["faults"]) > 1:
            for f in sc["faults"]:
                yield dict(copy.deepcopy(sc), faults=[f])
        for i in range(len(sc["again"])):
            yield dict(copy.deepcopy(sc), again=sc["again"][:i] + sc["again"][i+1:])
        for c in world.simpler_op(sc["op"]):
            yield dict(copy.deepcopy(sc), op=c, again=[])


_ = c01
