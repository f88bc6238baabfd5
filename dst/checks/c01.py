"""C01: what a call does does not depend on the calls made before it in the process."""
import copy
import os

from .. import gen, main, ops, world


def set_min(r):
    ks = r.sample(world.MINKEYS, r.choice([1, 1, 2, 3, 5]))
    val = {"min_freq": [1e-20, 1e-3, 0.5, 1e-6], "min_time": [1e-20, 1e-3, 0.5],
           "min_off": [1e-3, 1.0, 50.0, 50.0, 300.0], "min_res": [1e-20, 0.1, 10.0, 1.0], "min_angle": [1e-10, 1e-3, 5.0]}
    return {"f": "set_minimum", "kw": {k: r.choice(val[k]) for k in ks}}


def file_ops(r, base):
    """A save, perhaps with something in between, and the load."""
    k = r.random()
    if k < 0.4:
        op = gen.call_dipole(r, time_p=0.1, hooks=False, standard=True, methods=["dlf"])
        op["kw"]["verb"] = 0
        ext = r.choice(["txt", "json"])
        p = f"$W/d{r.randrange(2)}.{ext}"
        kw = {"fname": p, "op": op}
        if r.random() < 0.5:
            kw["info"] = r.choice(["", "some info", "with: colon", "data"])
        return [{"f": "save_data_of", "kw": kw}], [{"f": "load_data", "kw": {"fname": p}}]
    if k < 0.75:
        op = gen.call_bipole(r, time_p=0.1, hooks=False)
        p = f"$W/i{r.randrange(2)}.json"
        kw = {k: v for k, v in op["kw"].items()}
        return ([{"f": "save_input", "kw": {"fname": p, "data": kw}}],
                [{"f": "load_input", "kw": {"fname": p}}])
    d = gen.call_design(r)
    d["kw"]["full_output"] = True
    n = r.choice(["one", "two"])
    d["kw"]["name"] = n
    full = r.random() < 0.7
    return ([{"f": "design_save", "kw": dict(d["kw"], path="$W/filt-" + n, full=full)}],
            [{"f": "load_filter", "kw": {"name": n, "path": "$W/filt-" + n, "full": full and r.random() < 0.8}}])


def history(r, n, design_p=0.06):
    """A sequence of calls with strong relations between them."""
    base = gen.any_model_call(r, time_p=0.15)
    pool = [base]
    out = []
    loads = []
    if r.random() < 0.4:
        out.append(base)
    while len(out) < n:
        k = r.random()
        if k < 0.38:
            b = r.choice(pool)
            op = gen.tweak(r, b)
            if r.random() < 0.5:
                js = [i for i, o in enumerate(out) if o["f"] == op["f"]]
                if js:
                    op["share"] = r.choice(js)
            pool.append(op)
            out.append(op)
        elif k < 0.5:
            out.append(copy.deepcopy(r.choice(pool)))
            out[-1].pop("share", None)
        elif k < 0.68:
            op = gen.any_model_call(r, time_p=0.15)
            pool.append(op)
            out.append(op)
        elif k < 0.78:
            out.append(gen.bad_call(r))
        elif k < 0.86:
            out.append(set_min(r))
        elif k < 0.92 and loads:
            out.append(loads.pop(r.randrange(len(loads))))
        else:
            s, ld = file_ops(r, base)
            out += s
            loads += ld
            if r.random() < 0.5:
                out.append(copy.deepcopy(ld[0]))
    out += loads[:2]
    if r.random() < 0.7:
        out.append(copy.deepcopy(base))
    return out


def long_history(r):
    """Many cheap calls (bounded caches, counters); only some of them are checked."""
    def cheap():
        for _ in range(20):
            op = r.choice([gen.call_dipole, gen.call_dipole, gen.call_bipole, gen.call_dipole_k])(r)
            if "freqtime" not in op["kw"] or gen.cost(op) < 1500:
                return op
        return gen.call_dipole_k(r)
    pool = [cheap() for _ in range(r.choice([1, 2, 4]))]
    out = copy.deepcopy(pool)
    n = r.choice([40, 80, 150])
    while len(out) < n:
        k = r.random()
        if k < 0.75:
            op = gen.tweak(r, r.choice(pool))
            if "freqtime" in op["kw"] and gen.cost(op) > 3000:
                continue
            if k < 0.2 and len(pool) < 12:
                pool.append(op)
        elif k < 0.95:
            op = copy.deepcopy(r.choice(pool))
        else:
            op = cheap()
        out.append(op)
    out += copy.deepcopy(pool[:4])
    chk = sorted(set(r.sample(range(n), 6)) | set(range(n, len(out))))
    return {"ops": out, "check": chk}


def focused(r):
    """Calls of one kind which differ in one argument only."""
    base = gen.family(r)
    key = r.choice(gen.focus_keys(base))
    pool, out = [base], [copy.deepcopy(base)]
    for _ in range(r.choice([2, 3, 4])):
        op = gen.focused(r, r.choice(pool), key)
        pool.append(op)
        out.append(copy.deepcopy(op))
        if r.random() < 0.3:
            out[-1]["share"] = r.randrange(len(out) - 1)
    r.shuffle(out) if not any("share" in o for o in out) else None
    if r.random() < 0.4:
        out.append(copy.deepcopy(r.choice(pool)))
    return {"ops": out}


class Check(main.BaseCheck):
    prop = "C01"
    budget = {"quick": (20000, 70), "thorough": (200000, 1500)}
    rule = ("one run = one seeded history of calls in one process, each call compared with the same call "
            "(same minima in force, same files) in a pristine process; distinct by the calls' arguments; "
            "trivial runs (fewer than two successful calls) are not counted")
    measure = "distinct (routine, options) signatures of successful calls that followed a different call"
    stub = ["clock (pinned)", "process boundaries (fork)"]

    def gen(self, r, i):
        if r.random() < 0.05:
            return long_history(r)
        if r.random() < 0.45:
            return focused(r)
        return {"ops": history(r, r.choice([4, 6, 8]))}

    def run(self, sc):
        res = main.Result()
        seq = sc["ops"]
        with world.Dir() as wd:
            hd, od = os.path.join(wd, "w"), os.path.join(wd, "w2")

            def hist():
                out, keep = [], {}
                for i, op in enumerate(seq):
                    ctx = ops.Ctx()
                    kw = world.objs(op, ctx, keep, i)
                    out.append(ops.describe(lambda: ops.call(op, kw))[0])
                return out
            got = world.child(hist, hd, 200)
            nok = 0
            sigs = []
            chk = sc.get("check")
            if chk is not None:
                res.c("probe:long history")
            for i, op in enumerate(seq):
                res.c("calls")
                if got[i]["st"] == "ok":
                    nok += 1
                else:
                    res.c("fault:failing call")
                if chk is not None and i not in chk:
                    continue
                exp = world.oracle(seq, i, od)
                d = ops.same(got[i], exp)
                sigs.append(got[i]["st"])
                if i:
                    res.keys.add(main.hkey([op["f"], sorted(op["kw"]), str(op["kw"].get("ht")),
                                            str(op["kw"].get("ft")), seq[i-1]["f"], got[i]["st"]]))
                if d:
                    res.v("history", f"call {i} ({op['f']}) after {i} other calls: {d}")
                    break
            if any("share" in o for o in seq):
                res.c("fault:argument object changed in place")
            if any(o["f"] == "set_minimum" for o in seq):
                res.c("probe:set_minimum in history")
            if any(o["f"] in world.LOADS for o in seq):
                res.c("probe:load in history")
        res.nontriv = nok >= 2
        res.key = main.hkey(seq)
        res.log = f"{res.key} {sigs}"
        return res

    def shrink(self, sc):
        seq = sc["ops"]
        if "check" in sc:
            for i in reversed(sc["check"]):
                if len(seq) > i + 1 or len(sc["check"]) > 1:
                    yield {"ops": seq[:i+1], "check": [i]}
            i = sc["check"][-1]
            for k in (2, 4, 8, 16):
                for j in range(0, i, max(1, i//k)):
                    new = seq[:j] + seq[j+max(1, i//k):i] + [seq[i]]
                    if len(new) > 1:
                        yield {"ops": new, "check": [len(new) - 1]}
            if len(seq) < 30:
                yield {"ops": seq}
            return
        for i in range(len(seq)):
            new = [copy.deepcopy(o) for j, o in enumerate(seq) if j != i]
            for o in new:
                if "share" in o:
                    if o["share"] == i:
                        o.pop("share")
                    elif o["share"] > i:
                        o["share"] -= 1
            yield {"ops": new}   # (all calls are checked)
        for i, o in enumerate(seq):
            if "share" in o:
                new = copy.deepcopy(seq)
                new[i].pop("share")
                yield {"ops": new}
            for c in world.simpler_op(o):
                yield {"ops": seq[:i] + [c] + seq[i+1:]}
