"""C03: a failed or interrupted call leaves no trace in the process."""
import copy
import gc
import os

from .. import faults, gen, main, ops, state, world
from . import c01


def raw_victim(r):
    k = r.random()
    if r.random() < 0.4:
        return gen.family(r)
    if k < 0.35:
        return gen.call_dipole(r, time_p=0.2, nmax=2)
    if k < 0.55:
        op = gen.call_bipole(r, time_p=0.1, nmax=2)
        if r.random() < 0.6:
            op["kw"].pop("srcpts", None)
            op["kw"].pop("recpts", None)
        return op
    if k < 0.62:
        return gen.call_analytical(r)
    if k < 0.68:
        return gen.call_dipole_k(r)
    if k < 0.72:
        return gen.call_tmtemod(r)
    if k < 0.76:
        return gen.call_gpr(r)
    if k < 0.8:
        return gen.call_ip_and_q(r)
    return gen.call_design(r)


def victim(r, cap=None):
    """(pre, op): a call, with the calls that set the scene."""
    pre = []
    if r.random() < 0.45:
        pre.append(c01.set_min(r))
    if r.random() < 0.12:
        s, ld = c01.file_ops(r, None)
        return pre + s, ld[0]
    if r.random() < 0.15:
        return pre, gen.bad_call(r)
    return pre, world.light(lambda: raw_victim(r), cap or r.choice([6000, 12000, 40000]))


def some_faults(r, pre, op, n):
    out = []
    for at in faults.line_points(r, op, n, prep=lambda: [ops.run(p) for p in pre]):
        out.append({"kind": "line", "at": at, "exc": r.choice(faults.INJ)})
    if faults.hooked(op):
        for _ in range(2):
            out.append({"kind": "cb", "nth": r.choice([0, 0, 1, 2, r.randrange(12)]), "exc": r.choice(faults.CBEXC)})
    if op["f"] in world.LOADS:
        for _ in range(2):
            out.append({"kind": "read", "match": "/w/", "nth": r.randrange(3), "exc": r.choice(["OSError", "EMFILE"])})
    else:
        out.append({"kind": "read", "match": "libdlf/lib", "nth": r.choice([0, 0, 1, 2, 3]),
                    "exc": r.choice(["OSError", "EMFILE", "FileNotFoundError", "MemoryError", "KeyboardInterrupt"])})
    if op["f"] == "design":
        out.append({"kind": "linalg", "nth": r.randrange(6)})
    out.append({"kind": "bad"})
    r.shuffle(out)
    return out


class Check(main.BaseCheck):
    prop = "C03"
    budget = {"quick": (30000, 70), "thorough": (300000, 1500)}
    rule = ("one run = one call aborted by one seeded fault (exception at a source line, in a user function, in a "
            "read, in a library routine, or invalid input), then repeated with the same objects and followed by "
            "related calls, each compared with a pristine process; distinct by call and place of the fault; runs "
            "in which the fault did not fire are not counted")
    measure = "distinct (file, line) at which an exception was raised"
    stub = ["asynchronous exceptions (raised by the tracer)", "failing reads (audit hook)", "clock (pinned)"]

    def gen(self, r, i):
        pre, op = victim(r)
        fl = some_faults(r, pre, op, 5)[:7]
        follow = []
        for _ in range(2):
            follow.append(gen.tweak(r, op) if op["f"] not in world.LOADS else copy.deepcopy(op))
        if r.random() < 0.5:
            follow.append(world.light(lambda: raw_victim(r), 10000))
        a = op["kw"].get("htarg")
        if isinstance(a, dict) and isinstance(a.get("dlf"), str) and a["dlf"] in gen.HFILT:
            follow.insert(0, {"f": "filter", "kw": {"kind": "Hankel", "name": a["dlf"]}})
        return {"pre": pre, "op": op, "faults": fl, "chain": r.random() < 0.25, "follow": follow,
                "fresh": r.random() < 0.5}

    def one(self, sc, fl, wd):
        """Child: the call with the faults of fl one after the other, then what follows."""
        def go():
            for p in sc["pre"]:
                ops.run(p)
            ctx = ops.Ctx()
            rep = []
            kw0 = None
            for f in fl:
                op = sc["op"]
                if f["kind"] == "bad" and op["f"] not in world.LOADS:
                    op = copy.deepcopy(op)
                    op["kw"]["not_an_argument"] = 1
                kw = ops.build(op, ctx)
                if kw0 is None and f["kind"] != "bad":
                    kw0 = kw
                a0 = {k: state.deep(v) for k, v in kw.items()}
                m0 = ops.run({"f": "get_minimum", "kw": {}})
                s0 = state.snapshot()
                o, fired, exc, v = faults.faulted(lambda: ops.call(op, kw), f, ctx)
                if v is not None:
                    v = None
                gc.collect()
                bad = []
                s1 = state.snapshot()
                if s1 != s0:
                    bad.append(("settings", state.diff(s0, s1)))
                a1 = {k: state.deep(x) for k, x in kw.items()}
                for k in a0:
                    w = state.where(a0[k], a1[k], k)
                    if w:
                        bad.append(("argument", w))
                d = ops.same(ops.run({"f": "get_minimum", "kw": {}}), m0)
                if d:
                    bad.append(("minima", d))
                if fired and exc is not None and (o["st"] != "exc" or o["t"] != exc):
                    known = (sc["op"]["f"], exc, o.get("t")) == ("design", "StopIteration", "ValueError") and \
                        "reshape" in o["m"]
                    bad.append(("swallowed", f"{exc} did not reach the caller: "
                                + (o["t"] if o["st"] == "exc" else "regular return"),
                                "design-stopiteration" if known else None))
                rep.append((fired, bad, o["st"]))
            res = []
            if kw0 is not None:
                c2 = ctx if not sc["fresh"] else ops.Ctx()
                kw = ops.build(sc["op"], c2) if sc["fresh"] else kw0
                res.append(ops.describe(lambda: ops.call(sc["op"], kw))[0])
            else:
                res.append(ops.run(sc["op"], ops.Ctx()))
            for o in sc["follow"]:
                res.append(ops.run(o, ops.Ctx()))
            return rep, res
        return world.child(go, os.path.join(wd, "w"), 200)

    def run(self, sc):
        res = main.Result()
        res.key, res.n = [], 0
        memo = {}
        logs = []
        groups = [sc["faults"][:4]] if sc["chain"] else [[f] for f in sc["faults"]]
        with world.Dir() as wd:
            def ref(o):
                k = main.jdump(o)
                if k not in memo:
                    memo[k] = world.alone(o, os.path.join(wd, "w2"), sc["pre"])
                return memo[k]
            for fl in groups:
                rep, got = self.one(sc, fl, wd)
                res.n += 1
                for f, (fired, bad, st) in zip(fl, rep):
                    if fired:
                        res.c(f"fault:{f['kind']}" + (f" {f['exc']}" if f["kind"] == "line" else ""))
                        if f["kind"] == "line":
                            res.keys.add(str(fired))
                    for kind, msg, *sig in bad:
                        res.v(kind, f"after {sc['op']['f']} aborted by {f} at {fired}: {msg}", *sig)
                hard = [v for v in res.viol if not v["sig"]]
                if any(x[0] for x in rep):
                    res.key.append(main.hkey([sc["op"], sc["pre"], fl]))
                if not hard:
                    for j, (o, g) in enumerate(zip([sc["op"]] + sc["follow"], got)):
                        d = ops.same(g, ref(o))
                        res.c("calls compared")
                        if d:
                            what = "the repeated call" if j == 0 else f"later call {j} ({o['f']})"
                            res.v("trace", f"{what} after {sc['op']['f']} aborted by {fl} at {[x[0] for x in rep]}: {d}")
                            break
                logs.append(str([(x[0], x[2]) for x in rep]) + str([g["st"] for g in got]))
                if [v for v in res.viol if not v["sig"]]:
                    break
        res.log = f"{main.hkey(sc)} {logs}"
        return res

    def shrink(self, sc):
        if len(sc["faults"]) > 1:
            for f in sc["faults"]:
                yield dict(copy.deepcopy(sc), faults=[f], chain=False)
            for i in range(len(sc["faults"])):
                yield dict(copy.deepcopy(sc), faults=sc["faults"][:i] + sc["faults"][i+1:])
        for i in range(len(sc["follow"])):
            yield dict(copy.deepcopy(sc), follow=sc["follow"][:i] + sc["follow"][i+1:])
        for i in range(len(sc["pre"])):
            if sc["op"]["f"] not in world.LOADS:
                yield dict(copy.deepcopy(sc), pre=sc["pre"][:i] + sc["pre"][i+1:])
        if not sc["fresh"]:
            yield dict(copy.deepcopy(sc), fresh=True)
