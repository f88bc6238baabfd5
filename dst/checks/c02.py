"""C02: callers in several threads each get the result of a lone call."""
import array
import copy
import os

from .. import boot, codec, gen, main, ops, sched, world

HF = ["kong_61_2007b", "key_51_2012", "key_101_2012", "key_101_2009", "gupt_61_1997", "gupt_47_1997"]


def small_call(r, cap=25000):
    return world.light(lambda: raw_call(r), cap)


def raw_call(r):
    k = r.random()
    if k < 0.45:
        return gen.call_dipole(r, time_p=0.05, nmax=2)
    if k < 0.7:
        op = gen.call_bipole(r, time_p=0.02, nmax=1)
        if r.random() < 0.7:
            op["kw"].pop("srcpts", None)
            op["kw"].pop("recpts", None)
        return op
    if k < 0.78:
        return gen.call_analytical(r)
    if k < 0.84:
        return gen.call_dipole_k(r)
    if k < 0.87:
        return gen.call_tmtemod(r)
    if k < 0.89:
        return gen.call_gpr(r)
    if k < 0.91:
        return gen.call_ip_and_q(r)
    if k < 0.96:
        return gen.call_design(r)
    return gen.bad_call(r)


def profile_thread(lst, mode, deep, refs=None, **kw):
    """Event locations of the thread's calls when it runs alone (pristine process)."""
    def go():
        keep = refs_of(refs)
        p = sched.profile(lambda: [one(o, keep) for o in lst], mode, deep, **kw)
        hot, warm = sched.shared_lines()
        ids = {}
        # low two bits: 2: touches shared state, 1: in a function that does
        return array.array("I", (4*ids.setdefault(x, len(ids)) + (2 if x in hot else 1 if x in warm else 0)
                                 for x in p)).tobytes()
    b = array.array("I")
    b.frombytes(world.child(go))
    return b


def refs_of(shared):
    """The shared argument objects: built once, used by all threads."""
    return {k: codec.dec(v, ops.Ctx()) for k, v in (shared or {}).items()}


def one(op, refs):
    ctx = ops.Ctx(refs=refs)
    return ops.describe(lambda: ops.call(op, codec.dec(op["kw"], ctx)))[0]


def lone(op, shared, wd, pre=()):
    def go():
        for p in pre:
            ops.run(p)
        return one(op, refs_of(shared))
    return world.child(go, wd)


def points(r, prof, k):
    """k increasing event numbers, chosen by code line first."""
    by = {}
    for i, loc in enumerate(prof):
        by.setdefault(loc, []).append(i)
    every = sorted(by)
    hot = [i for i in every if i & 2]
    warm = [i for i in every if i & 3]
    out = set()
    for _ in range(k):
        x = r.random()
        locs = hot if x < 0.25 and hot else warm if x < 0.55 and warm else every
        if not locs:
            break
        occ = by[r.choice(locs)]
        x = r.random()
        out.add(occ[0] if x < 0.4 else occ[-1] if x < 0.6 else r.choice(occ))
    return sorted(out)


class Check(main.BaseCheck):
    prop = "C02"
    budget = {"quick": (30000, 70), "thorough": (300000, 1500)}
    rule = ("one run = real threads under the seeded scheduler, one at a time, preempted at chosen source lines or "
            "bytecodes; every call compared with the same call alone; distinct by calls and executed switch trace; "
            "trivial runs (no preemption took place) are not counted")
    measure = "distinct (code line left, code line entered) pairs of executed preemptions"
    stub = ["thread scheduler (real threads, one runs at a time)", "threading.Lock/RLock (waiting seen by the scheduler)",
            "clock (pinned)"]

    def gen(self, r, i):
        nt = r.choice([2, 2, 2, 2, 2, 3, 3, 4])
        shared = {}
        fam = r.choice(gen.FAMILIES) if r.random() < 0.7 else None
        if fam:
            base = world.light(lambda: gen.family(r, fam), 60000)
        else:
            base = small_call(r)
        same = 0.35 if r.random() < 0.5 else 0.05
        rel = 0.65 if r.random() < 0.5 else 0.95
        focus = [r.choice(gen.focus_keys(base))] if r.random() < 0.6 and base["f"] != "filter" else None
        lists = []
        for t in range(nt):
            lst = []
            for _ in range(r.choice([1, 1, 1, 1, 2])):
                k = r.random()
                if k < same or not lists and not lst:
                    op = copy.deepcopy(base)
                elif k < rel:
                    op = gen.focused(r, base, focus[0]) if focus else gen.tweak(r, base)
                else:
                    op = small_call(r)
                lst.append(op)
            lists.append(lst)
        # several threads use the same filter, not loaded before
        if r.random() < 0.5:
            hf = r.choice(HF)
            for lst in lists:
                for op in lst:
                    a = op["kw"].get("htarg")
                    if isinstance(a, dict) and isinstance(a.get("dlf"), str) and a["dlf"] in gen.HFILT:
                        a["dlf"] = hf
        if r.random() < 0.25:
            for lst in lists:
                lst.insert(0, {"f": "filter", "kw": {"kind": r.choice(["Hankel", "Hankel", "Fourier"]),
                                                     "name": None}})
                k = lst[0]["kw"]
                k["name"] = r.choice(HF[:2]) if k["kind"] == "Hankel" else r.choice(gen.FFILT)
        # shared, read-only argument objects
        if r.random() < 0.6:
            for lst in lists:
                for op in lst:
                    for k, v in list(op["kw"].items()):
                        if isinstance(v, (list, dict)) and "$h" not in str(v) and r.random() < 0.8:
                            key = main.hkey(v)[:6]
                            shared[key] = v
                            op["kw"][k] = {"$ref": key}
        pre = []
        if r.random() < 0.3:
            pre = [{"f": "filter", "kw": {"kind": "Hankel", "name": HF[0]}}]
        mode = "opcode" if r.random() < 0.35 else "line"
        deep = mode == "line" and r.random() < 0.25
        # preemptions
        cap = 150_000 if self.tier == "quick" else 600_000
        size = []
        for lst in lists:
            size.append(len(profile_thread(lst, "line", True, shared, limit=cap)))
            if size[-1] > cap:                    # too slow
                lst[:] = [copy.deepcopy(base)]
        if (mode == "opcode" or deep) and sum(size) > cap/(8 if mode == "opcode" else 1):
            mode, deep = "line", False
        prof = [profile_thread(lst, mode, deep, shared) for lst in lists]
        sws = []
        for _ in range(8):
            sw = []
            cur = r.randrange(nt)
            sw.append([0, cur])
            pos = [0]*nt
            for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
                rest = prof[cur][pos[cur]:]
                if r.random() < 0.25:
                    p = [r.randrange(len(rest))] if rest else []
                else:
                    p = points(r, rest, 1)
                if not p:
                    break
                n = p[0] + 1
                pos[cur] += n
                nxt = r.choice([t for t in range(nt) if t != cur])
                sw.append([n, nxt])
                cur = nxt
            sws.append(sw)
        after = small_call(r) if r.random() < 0.4 else copy.deepcopy(base)
        if shared and after == base:
            after = gen.tweak(r, base)
        return {"th": lists, "shared": shared, "pre": pre, "sw": sws, "mode": mode, "deep": deep,
                "after": after, "cap": 20*sum(map(len, prof)) + 200_000}

    def sim(self, sc, sw, wd):
        def go():
            for p in sc["pre"]:
                ops.run(p)
            refs = refs_of(sc["shared"])
            got = [[None]*len(t) for t in sc["th"]]

            def body(t):
                def f():
                    for j, o in enumerate(sc["th"][t]):
                        got[t][j] = one(o, refs)
                return f
            s = sched.Sim([body(t) for t in range(len(sc["th"]))],
                          {"sw": sw, "mode": sc["mode"], "deep": sc["deep"]}, cap=sc["cap"])
            ok = s.run(100)
            aft = None
            if ok and not s.aborted:
                aft = one(sc["after"], {})
            return (got, ok, s.aborted, [repr(e) for e in s.err if e is not None], s.trace, s.sites, s.steps, aft)
        return world.child(go, os.path.join(wd, "w"), 200)

    def run(self, sc):
        res = main.Result()
        res.key, res.n = [], 0
        memo = {}
        logs = []
        with world.Dir() as wd:
            def ref(o, shared):
                k = main.jdump(o)
                if k not in memo:
                    memo[k] = lone(o, shared, os.path.join(wd, "w2"))
                return memo[k]
            for sw in sc["sw"]:
                got, ok, ab, err, trace, sites, steps, aft = self.sim(sc, sw, wd)
                nsw = sum(1 for t in trace if t[3] == "preempt")
                res.n += 1
                res.c("fault:preemption", nsw)
                res.c("fault:wait for a lock", sum(1 for t in trace if t[3] == "block"))
                res.c("scheduler steps", steps)
                res.c("runs in mode " + sc["mode"] + (" with kernels" if sc["deep"] else ""))
                for s in sites:
                    res.keys.add(main.hkey(str(s)))
                if ab or not ok:
                    res.v("deadlock", f"threads do not end ({ab or 'no progress'}); schedule {sw}")
                elif any("SimAbort" not in e for e in err):
                    res.v("thread", f"exception outside of a call: {err}")
                else:
                    for t, lst in enumerate(sc["th"]):
                        for j, o in enumerate(lst):
                            d = ops.same(got[t][j], ref(o, sc["shared"]))
                            res.c("calls")
                            if d:
                                res.v("concurrent", f"thread {t}, call {j} ({o['f']}): {d}")
                    if not res.viol:
                        d = ops.same(aft, ref(sc["after"], {}))
                        if d:
                            res.v("after", f"call ({sc['after']['f']}) after the threads ended: {d}")
                if nsw > 0:
                    res.key.append(main.hkey([sc["th"], sc["pre"], [t[:3] for t in trace]]))
                logs.append(f"{trace} {[[g and g['st'] for g in x] for x in got]} {steps}")
                if res.viol:
                    break
        res.log = f"{main.hkey(sc['th'])} {logs}"
        return res

    def shrink(self, sc):
        if len(sc["sw"]) > 1:
            for sw in sc["sw"]:
                yield dict(copy.deepcopy(sc), sw=[sw])
            return
        sw = sc["sw"][0]
        for i in range(1, len(sw)):
            if i + 1 < len(sw):
                yield dict(copy.deepcopy(sc), sw=[sw[:i+1]])
        for i in range(1, len(sw)):
            yield dict(copy.deepcopy(sc), sw=[sw[:i] + sw[i+1:]])
        if sc["pre"]:
            yield dict(copy.deepcopy(sc), pre=[])
        for t, lst in enumerate(sc["th"]):
            for j in range(len(lst)):
                if len(lst) > 1:
                    new = copy.deepcopy(sc)
                    del new["th"][t][j]
                    yield new
        for t in range(len(sc["th"])):
            if len(sc["th"]) > 2:
                new = copy.deepcopy(sc)
                del new["th"][t]
                yield new


_ = boot
