"""C12: neither the clock nor the verbosity influence a result."""
import copy
import os
import re
from datetime import timedelta

from .. import boot, gen, main, ops, world
from . import c01

PLANS = {
    "frozen": ([0.0], 1.7e9), "zero": ([0.0], 0.0), "slow": ([1e-7], 12.5), "steady": ([0.013], 5.0),
    "seconds": ([1.0, 3.7, 11.3], 100.0), "backward": ([-0.7], 1e6), "negative": ([0.3], -5.0),
    "ntp": ([0.1, 0.2, -3600.0, 0.05], 1.7e9), "jump": ([0.001, 86400.0, 0.002], 1e3),
    "sleep": ([1e7, 0.5], 0.0), "wild": ([5e8, -5e8, 1e3, -2e3, 0.0], 10.0),
    "epoch": ([0.0, 0.0, 0.4], 0.0), "dst": ([3600.0, -3600.0], 1.7e9),
}
START = re.compile(r"^:: empymod START ", re.M)
END = re.compile(r"^:: empymod END; runtime = (.*?) ::", re.M)
NOEND = {"save_data_of", "save_input", "load_input", "load_data", "load_filter", "filter"}


class Check(main.BaseCheck):
    prop = "C12"
    budget = {"quick": (40000, 60), "thorough": (400000, 1200)}
    rule = ("one run = a seeded sequence of calls in one process, with a simulated clock (standing still, at zero, "
            "backward, jumping) and verbosities; each is compared with the call at verbosity zero under a pinned clock, "
            "its text is checked, and the elapsed time against the simulated readings; distinct by calls, clock, verb")
    measure = "distinct (routine, options, clock plan, verbosity) combinations"
    stub = ["clock: time.*, timeit.default_timer, strftime read the simulated time"]

    def one(self, r):
        k = r.random()
        if k < 0.1:
            d = gen.call_design(r)
            if r.random() < 0.3:
                d["kw"].update(n=5, spacing=[0.1, 0.3, 11], shift=[-2.0, 0.5, 10], full_output=True)
                d["kw"]["r"] = {"$a": [1.0, 2.0, 4.0, 9.0, 20.0, 45.0], "d": "f8"}
            return [d]
        if k < 0.2:
            s, ld = c01.file_ops(r, None)
            return s + ld
        op = gen.any_model_call(r, time_p=0.15)
        if r.random() < 0.1:
            op = gen.bad_call(r)
        # provoke warnings
        if op["f"] in ("dipole", "bipole") and r.random() < 0.15:
            op["kw"]["nonsense"] = 1
        return [op]

    def gen(self, r, i):
        seq = []
        base = self.one(r)
        for _ in range(r.choice([2, 3, 5])):
            for o in (base if r.random() < 0.7 else self.one(r)):
                o = copy.deepcopy(o)
                kw = o["kw"]["op"]["kw"] if o["f"] == "save_data_of" else o["kw"]
                if o["f"] not in NOEND or o["f"] == "save_data_of":
                    kw["verb"] = r.choice([0, 1, 2, 3, 4])
                elif o["f"] == "design_save":
                    kw["verb"] = r.choice([0, 1, 2])
                seq.append(o)
        p = r.choice(sorted(PLANS))
        plan, t0 = PLANS[p]
        if r.random() < 0.3:
            p, plan, t0 = "random", [round(r.uniform(-1, 1)*10**r.randint(-6, 8), 7) for _ in range(5)], r.choice(
                [0.0, 1.7e9, r.uniform(0, 1e5)])
        return {"ops": seq, "clock": p, "plan": plan, "t0": t0}

    def run(self, sc):
        res = main.Result()
        seq = sc["ops"]
        with world.Dir() as wd:
            def go():
                out = []
                boot.CLOCK.total = 0
                boot.CLOCK.set(sc["plan"], sc["t0"])
                for op in seq:
                    log = []
                    boot.CLOCK.log = log
                    d, raw = describe_raw(op)
                    boot.CLOCK.log = None
                    out.append((d, log, raw))
                return out, boot.CLOCK.total
            got, tot = world.child(go, os.path.join(wd, "w"), 200)
            res.c("simulated seconds", int(min(tot, 1e15)))
            for i, op in enumerate(seq):
                d, reads, raw = got[i]
                res.c("calls")
                res.c("fault:clock " + sc["clock"], len(reads))
                ro = copy.deepcopy(op)
                kw = ro["kw"]["op"]["kw"] if op["f"] == "save_data_of" else ro["kw"]
                verb = kw.get("verb")
                exp_t = world.oracle(seq[:i] + [op], i, os.path.join(wd, "w2"))
                if verb is not None:
                    kw["verb"] = 0
                exp = world.oracle(seq[:i] + [ro], i, os.path.join(wd, "w2")) if verb else exp_t
                if d["st"] == "exc" and exp["st"] == "ok":
                    res.v("fails", f"{op['f']} with clock {sc['clock']} {sc['plan']} from {sc['t0']}, verb={verb}: "
                          f"{d['t']}: {d['m']}")
                    break
                w = ops.same(d, exp, rtol=0, text=False)
                if w:
                    res.v("result", f"call {i}, {op['f']} with clock {sc['clock']} {sc['plan']} from {sc['t0']}, "
                          f"verb={verb}: {w}")
                    break
                w = ops.same(d, exp_t, rtol=0)
                if w:
                    res.v("text", f"call {i}, {op['f']} with clock {sc['clock']} {sc['plan']} from {sc['t0']}, "
                          f"verb={verb}: {w}")
                    break
                if d["st"] == "ok" and verb is not None:
                    w = self.text(op, verb, raw, reads)
                    if w:
                        res.v("text", f"call {i}, {op['f']} with clock {sc['clock']} {sc['plan']} from {sc['t0']}, "
                              f"verb={verb}: {w}")
                        break
                res.keys.add(main.hkey([op["f"], sorted(op["kw"]), str(kw.get("ht")), str(kw.get("ft")),
                                        sc["clock"], verb]))
        res.key = main.hkey(sc)
        res.log = f"{res.key} {[main.hkey(str(g[2])) for g in got]}"
        return res

    @staticmethod
    def text(op, verb, raw, reads):
        if verb <= 0:
            return f"prints {raw[:200]!r}" if raw else None
        ns, ends = len(START.findall(raw)), END.findall(raw)
        if op["f"] == "ip_and_q":       # several modellings
            n = len(ends) if verb >= 2 else ns
            if ns != (n if verb >= 3 else 0) or len(ends) != (n if verb >= 2 else 0) or (verb >= 2 and not n):
                return f"{ns} START and {len(ends)} END lines"
            return None
        if ns != (verb >= 3):
            return f"{ns} START lines"
        if len(ends) != (verb >= 2):
            return f"{len(ends)} END lines"
        if verb == 1:
            for ln in raw.splitlines():
                if ln.strip() and not ln.startswith(("* WARNING", " ")):
                    return f"not a warning: {ln!r}"
            if raw.strip() and not raw.startswith("* WARNING"):
                return f"not a warning: {raw[:100]!r}"
        if ends:
            if raw.index(":: empymod END") < raw.find(":: empymod START"):
                return "END before START"
            ok = {str(timedelta(seconds=b-a)) for a in reads[:2] for b in reads[-2:]}
            if len(reads) < 2 or ends[0] not in ok:
                return f"elapsed time {ends[0]}, clock readings {reads[:3]}..{reads[-2:]}"
        return None

    def shrink(self, sc):
        for i in range(len(sc["ops"])):
            if len(sc["ops"]) > 1:
                yield dict(copy.deepcopy(sc), ops=sc["ops"][:i] + sc["ops"][i+1:])
        if sc["clock"] != "frozen":
            yield dict(copy.deepcopy(sc), clock="frozen", plan=[0.0], t0=1.7e9)
        for i, o in enumerate(sc["ops"]):
            for c in world.simpler_op(o):
                if c["kw"].get("verb") == o["kw"].get("verb"):
                    yield dict(copy.deepcopy(sc), ops=sc["ops"][:i] + [c] + sc["ops"][i+1:])


def describe_raw(op):
    """Outcome with normalised text, and the text as printed."""
    raw = []
    norm = ops.normtext

    def keep(s):
        raw.append(s)
        return norm(s)
    ops.normtext = keep
    try:
        d = ops.describe(lambda: ops.call(op, ops.build(op, ops.Ctx())))[0]
    finally:
        ops.normtext = norm
    return d, raw[-1]
