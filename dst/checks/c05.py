"""C05: a returned result belongs to the caller alone."""
import copy
import os
import sys
import types

import numpy as np

from .. import gen, main, ops, state, world
from . import c01, c03


def arrays(x, path="", out=None, depth=0):
    """All arrays inside an object a caller can reach."""
    if out is None:
        out = []
    if depth > 6:
        return out
    if isinstance(x, np.ndarray):
        if x.size and x.dtype.kind in "fciub":
            out.append((path, x))
    elif isinstance(x, dict):
        for k, v in x.items():
            arrays(v, f"{path}[{k!r}]", out, depth+1)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            arrays(v, f"{path}[{i}]", out, depth+1)
    elif type(x).__name__ in ("DigitalFilter", "Ghosh"):
        for k, v in vars(x).items():
            arrays(v, f"{path}.{k}", out, depth+1)
    return out


def containers(x, out=None, depth=0):
    """Mutable containers of a result (lists, dicts, filters)."""
    if out is None:
        out = []
    if depth > 6:
        return out
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            containers(v, out, depth+1)
    elif isinstance(x, list):
        out.append(x)
        for v in x:
            containers(v, out, depth+1)
    elif isinstance(x, tuple):
        for v in x:
            containers(v, out, depth+1)
    elif type(x).__name__ in ("DigitalFilter", "Ghosh"):
        out.append(x)
    return out


def package_arrays():
    """Arrays reachable from the state of the package and of libdlf."""
    seen = set()
    out = []
    todo = []
    for n, m in list(sys.modules.items()):
        if m is not None and (n.split(".")[0] in ("empymod", "libdlf")):
            todo.append((n, vars(m), 0))
    while todo:
        n, x, d = todo.pop()
        if id(x) in seen or d > 6:
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if x.size:
                out.append((n, x))
        elif isinstance(x, dict):
            todo += [(f"{n}.{k}", v, d+1) for k, v in list(x.items()) if not str(k).startswith("__")]
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += [(f"{n}[]", v, d+1) for v in list(x)[:200]]
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").split(".")[0] in ("empymod", "libdlf"):
                todo += [(n + " default", v, d+1) for v in (x.__defaults__ or ())]
                todo += [(n + " default", v, d+1) for v in (x.__kwdefaults__ or {}).values()]
                for c in x.__closure__ or ():
                    try:
                        todo.append((n + " closure", c.cell_contents, d+1))
                    except ValueError:
                        pass
                todo += [(f"{n}.{k}", v, d+1) for k, v in vars(x).items()]
        elif isinstance(x, type):
            if x.__module__.split(".")[0] in ("empymod", "libdlf"):
                todo += [(f"{n}.{k}", v, d+1) for k, v in list(vars(x).items())]
        elif hasattr(x, "__dict__") and type(x).__module__.split(".")[0] in ("empymod", "libdlf"):
            todo.append((n, vars(x), d+1))
    return out


def scribble(v, how):
    """The caller overwrites everything of its result."""
    n = 0
    for _, a in arrays(v):
        if a.flags.writeable:
            if a.dtype.kind == "b":
                a[...] = ~a
            elif how == 0:
                a[...] = 0
            elif how == 1 and a.dtype.kind in "fc":
                a[...] = np.nan
            else:
                a[...] = 77
            n += 1
    for c in containers(v):
        if isinstance(c, dict):
            c.clear()
            c["scribble"] = 1
        elif isinstance(c, list):
            c[:] = ["scribble"]
        else:
            for k in list(vars(c)):
                if how:
                    setattr(c, k, None)
                else:
                    delattr(c, k)
        n += 1
    return n


class Check(main.BaseCheck):
    prop = "C05"
    budget = {"quick": (30000, 70), "thorough": (300000, 1500)}
    rule = ("one run = one seeded sequence of calls whose results are kept, checked for memory shared with arguments, "
            "package state and other results, then overwritten by the caller at seeded moments while further calls "
            "are compared with pristine processes; distinct by calls and moments; runs without overwritten result "
            "are not counted")
    measure = "distinct (routine, kind of result) that were overwritten"
    stub = ["clock (pinned)", "process boundaries (fork)"]

    def gen(self, r, i):
        seq = []
        base = world.light(lambda: c03.raw_victim(r))
        if r.random() < 0.25:
            # calls of degenerate form, in which an argument could be handed through
            base = r.choice([gen.call_dipole, gen.call_bipole])(r, time_p=0.1, nmax=1)
            base["kw"]["verb"] = 0
            base = world.light(lambda: base)
        seq.append(base)
        for _ in range(r.choice([1, 2, 3])):
            k = r.random()
            if k < 0.35:
                seq.append(copy.deepcopy(base))
            elif k < 0.6:
                seq.append(gen.tweak(r, base))
            elif k < 0.75:
                s, ld = c01.file_ops(r, None)
                seq += s + ld
                if r.random() < 0.6:
                    seq += copy.deepcopy(ld)
            elif k < 0.82:
                seq.append({"f": "get_minimum", "kw": {}})
            elif k < 0.88:
                a = gen.call_pair(r)
                for f in ("pairobj", "pair", "pairobj"):
                    seq.append({"f": f, "kw": copy.deepcopy(a["kw"] if f == "pair" else {"spec": a["kw"]["spec"]})})
            else:
                seq.append(world.light(lambda: c03.raw_victim(r), 10000))
        for j, o in enumerate(seq):
            o["scr"] = r.choice([j, j, j+1, None])       # overwritten after call number ...
            o["how"] = r.randrange(3)
            if j and o["f"] == base["f"] and r.random() < 0.5:
                o["share"] = 0
        return {"ops": seq, "cbref": r.random() < 0.3}

    def run(self, sc):
        res = main.Result()
        seq = sc["ops"]
        with world.Dir() as wd:
            def go():
                bad, got, nscr = [], [], 0
                vals, kws, keep = [], [], {}
                gone = set()
                for j, op in enumerate(seq):
                    kw = {k: v for k, v in world.objs(op, ops.Ctx(), {}, j).items()}
                    if "share" in op:       # same objects where the content is the same
                        for k in kw:
                            if k in kws[op["share"]] and main.jdump(op["kw"][k]) == main.jdump(
                                    seq[op["share"]]["kw"].get(k)):
                                kw[k] = kws[op["share"]][k]
                    o, v = ops.describe(lambda: ops.call(op, kw))
                    got.append(o)
                    if o["st"] != "ok":
                        v = None
                    # who shares memory with the new result
                    mine = arrays(v, "result")
                    own = op["f"] not in ("filter",)
                    if own:
                        for p, a in mine:
                            for q, b in arrays(kw, "argument"):
                                if np.shares_memory(a, b):
                                    bad.append(f"{op['f']}: {p} shares memory with {q}")
                            for q, b in package_arrays():
                                if np.shares_memory(a, b):
                                    bad.append(f"{op['f']}: {p} shares memory with {q}")
                            for i, w in enumerate(vals):
                                for q, b in arrays(w, f"result of call {i}"):
                                    if np.shares_memory(a, b):
                                        bad.append(f"{op['f']}: {p} shares memory with {q}")
                        cs = {id(c) for c in containers(v)}
                        for i, w in enumerate(vals):
                            if any(id(c) in cs for c in containers(w)):
                                bad.append(f"{op['f']}: result has an object of the result of call {i}")
                        if any(id(c) in cs for x in kw.values() for c in containers(x)):
                            bad.append(f"{op['f']}: result has an object of the arguments")
                    vals.append(v)
                    kws.append(kw)
                    for i in range(j+1):
                        if seq[i]["scr"] == j and i not in gone:
                            gone.add(i)
                            other = {n: state.deep(w) for n, w in enumerate(vals) if n != i}
                            argd = [{k: state.deep(x) for k, x in q.items()} for q in kws]
                            nscr += scribble(vals[i], seq[i]["how"])
                            for n in other:
                                w = state.where(other[n], state.deep(vals[n]), f"result of call {n}")
                                if w:
                                    bad.append(f"overwriting the result of call {i} ({seq[i]['f']}) changed: {w}")
                            for n, (x, y) in enumerate(zip(argd, kws)):
                                for k in x:
                                    w = state.where(x[k], state.deep(y[k]), f"argument {k} of call {n}")
                                    if w:
                                        bad.append(f"overwriting the result of call {i} ({seq[i]['f']}) changed: {w}")
                return bad, got, nscr
            bad, got, nscr = world.child(go, os.path.join(wd, "w"), 200)
            for b in bad:
                res.v("shared", b)
            res.c("fault:results overwritten", nscr)
            res.nontriv = nscr > 0
            for j, op in enumerate(seq):
                if res.viol:
                    break
                d = ops.same(got[j], world.oracle(seq, j, os.path.join(wd, "w2")))
                res.c("calls")
                if d:
                    res.v("later", f"call {j} ({op['f']}) after results were overwritten: {d}")
                res.keys.add(f"{op['f']} {got[j]['st']} {got[j]['v'][:4] if got[j]['st'] == 'ok' and got[j]['v'][0] == 'arr' else ''}")
        res.key = main.hkey(seq)
        res.log = f"{res.key} {bad} {[g['st'] for g in got]} {nscr}"
        return res

    def shrink(self, sc):
        seq = sc["ops"]
        for i in range(len(seq)):
            new = [copy.deepcopy(o) for j, o in enumerate(seq) if j != i]
            for o in new:
                o.pop("share", None)
                if o["scr"] is not None and o["scr"] > i:
                    o["scr"] -= 1
            yield dict(sc, ops=new)
        for i, o in enumerate(seq):
            for c in world.simpler_op(o):
                yield dict(sc, ops=seq[:i] + [c] + seq[i+1:])
