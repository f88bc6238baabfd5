"""C13: user functions are called safely: errors pass through, re-entry is harmless."""
import copy
import os

from .. import boot, faults, gen, main, ops, world
from .c15 import DEFAULT

_ = boot


def hooked_call(r, f=None):
    """A call with at least one user function."""
    k = r.random()
    if f == "design" or (f is None and k < 0.25):
        op = gen.call_design(r)
        op["kw"]["n"] = r.choice([5, 7, 9])
        return op
    for _ in range(10):
        if k < 0.55:
            op = gen.call_dipole(r, time_p=0.2, nmax=2, hooks=False)
        elif k < 0.85:
            op = gen.call_bipole(r, time_p=0.2, nmax=2, hooks=False)
        else:
            op = gen.call_analytical(r, hooks=False)
        f = gen.plain(op["kw"].get("freqtime"))
        if (f if isinstance(f, float) else f[0]) > 0:
            break
    else:
        op["kw"]["freqtime"] = 1.0
    kw = op["kw"]
    q = r.random()
    if op["f"] == "analytical":
        if not isinstance(gen.plain(kw["res"]), list):
            kw["res"] = [kw["res"]]
        gen.hooks_res(r, kw)
    else:
        if q < 0.75:
            gen.hooks_res(r, kw)
        if q > 0.5:
            kw["bandpass"] = {"func": {"$h": "bandpass"}, "fcut": gen.lrnd(r, 0.1, 10)}
    return op


def inner_call(r, outer):
    k = r.random()
    if k < 0.3:
        return copy.deepcopy(outer)
    if k < 0.5:
        return gen.tweak(r, outer)
    if k < 0.6:
        return gen.bad_call(r)
    if k < 0.7:
        return hooked_call(r)
    if k < 0.75:
        return {"f": "filter", "kw": {"kind": "Hankel", "name": r.choice(gen.HFILT)}}
    if k < 0.8:
        op = gen.call_dipole(r, time_p=0.1, hooks=False, standard=True, methods=["dlf"])
        op["kw"]["verb"] = 0
        return {"f": "save_data_of", "kw": {"fname": "$W/in." + r.choice(["txt", "json"]), "op": op}}
    return gen.any_model_call(r, time_p=0.1)


class Check(main.BaseCheck):
    prop = "C13"
    budget = {"quick": (40000, 60), "thorough": (400000, 1200)}
    rule = ("one run = one call with user functions, of which one raises a seeded exception at a seeded call, or calls "
            "empymod itself (once or at every call); the exception object reaching the caller, the inner and outer "
            "results and the calls that follow are compared with undisturbed ones; distinct by call, function, index")
    measure = "distinct (routine, user function, call index, exception or inner routine)"
    stub = ["user functions (raise and re-enter as the scenario says)", "clock (pinned)"]

    def gen(self, r, i):
        op = hooked_call(r)
        n = world.child(lambda: self.count(op))
        plans = []
        for _ in range(r.choice([2, 4])):
            if not n:
                break
            at = r.choice([0, n-1, r.randrange(n), r.randrange(n)])
            if r.random() < 0.6:
                plans.append({f"*:{at}": {"do": "raise", "exc": r.choice(faults.CBEXC)}})
            else:
                p = {}
                for k in range(r.choice([1, 1, 2])):
                    p[f"*:{r.choice([at, r.randrange(n)])}"] = {"do": "reenter", "op": inner_call(r, op)}
                if r.random() < 0.2 and n > 1:      # re-entered first, fails later
                    p[f"*:{n-1}"] = {"do": "raise", "exc": r.choice(faults.CBEXC)}
                plans.append(p)
        follow = [gen.tweak(r, op)] if r.random() < 0.7 else []
        if r.random() < 0.5:
            follow.append(gen.any_model_call(r, time_p=0.1))
        return {"op": op, "plans": plans, "follow": follow, "same": r.random() < 0.5}

    @staticmethod
    def count(op):
        ctx = ops.Ctx()
        ops.run(op, ctx)
        return ctx.total

    def one(self, sc, plan, wd):
        def go():
            ctx = ops.Ctx(copy.deepcopy(plan))
            kw = ops.build(sc["op"], ctx)
            o, v = ops.describe(lambda: ops.call(sc["op"], kw))
            ident = None
            if ctx.raised:
                ident = v is ctx.raised[-1]
            raised = [type(e).__name__ for e in ctx.raised]
            args = [[str(x) for x in e.args] for e in ctx.raised]
            inner = list(ctx.inner)
            fired = list(ctx.fired)
            ctx.cb = {}
            v = None
            out = []
            kw2 = kw if sc["same"] else ops.build(sc["op"], ctx)
            out.append(ops.describe(lambda: ops.call(sc["op"], kw2))[0])
            for f in sc["follow"]:
                out.append(ops.run(f, ops.Ctx()))
            m = ops.run({"f": "get_minimum", "kw": {}})
            return o, ident, raised, args, inner, fired, out, m
        return world.child(go, os.path.join(wd, "w"), 200)

    def run(self, sc):
        res = main.Result()
        res.key, res.n = [], 0
        memo = {}
        logs = []
        with world.Dir() as wd:
            def ref(o):
                k = main.jdump(o)
                if k not in memo:
                    memo[k] = world.alone(o, os.path.join(wd, "w2"))
                return memo[k]
            full = ref(sc["op"])
            for plan in sc["plans"]:
                o, ident, raised, args, inner, fired, out, m = self.one(sc, plan, wd)
                res.n += 1
                if fired:
                    res.key.append(main.hkey([sc["op"], plan]))
                for h, n, do in fired:
                    res.c(f"fault:user function {'raises' if do == 'raise' else 'calls empymod'}")
                    res.keys.add(f"{sc['op']['f']} {h} {n} {raised} {[p['f'] for p, _ in inner]}")
                what = f"{sc['op']['f']} with user functions {fired}"
                if raised:
                    if o["st"] != "exc":
                        res.v("swallowed", f"{what}: {raised[-1]} did not reach the caller, the call returned")
                    elif not ident:
                        sig = None
                        if (sc["op"]["f"], raised[-1], o["t"]) == ("design", "StopIteration", "ValueError") and \
                                "reshape" in o["m"]:
                            sig = "design-stopiteration"
                        res.v("swallowed", f"{what}: {o['t']}({o['m'][:200]!r}) instead of the raised "
                              f"{raised[-1]}{args[-1]}", sig)
                else:
                    # inner calls print, too: compare values only
                    d = ops.same(o, full, text=not inner)
                    if d:
                        res.v("outer", f"{what}, which call {[p['f'] for p, _ in inner]}: {d}")
                for p, got in inner:
                    d = ops.same(got, ref(p))
                    res.c("re-entrant calls compared")
                    if d:
                        res.v("inner", f"{what}: inner call of {p['f']}: {d}")
                for j, (f, got) in enumerate(zip([sc["op"]] + sc["follow"], out)):
                    d = ops.same(got, ref(f))
                    res.c("later calls compared")
                    if d:
                        res.v("later", f"{what}; later call {j} ({f['f']}): {d}")
                        break
                mm = {k: v for k, v in m["v"][1]} if m["st"] == "ok" else {}
                if any(mm.get(k, (0, None))[1] != v for k, v in DEFAULT.items()):
                    res.v("minima", f"{what}: minima are {mm}")
                logs.append(f"{o['st']} {fired}")
                if res.viol:
                    break
        res.log = f"{main.hkey(sc)} {logs}"
        return res

    def shrink(self, sc):
        if len(sc["plans"]) > 1:
            for p in sc["plans"]:
                yield dict(copy.deepcopy(sc), plans=[p])
        for i in range(len(sc["follow"])):
            yield dict(copy.deepcopy(sc), follow=sc["follow"][:i] + sc["follow"][i+1:])
        for i, p in enumerate(sc["plans"]):
            for k in p:
                if len(p) > 1:
                    new = copy.deepcopy(sc)
                    new["plans"][i].pop(k)
                    yield new
        for c in world.simpler_op(sc["op"]):
            yield dict(copy.deepcopy(sc), op=c)
