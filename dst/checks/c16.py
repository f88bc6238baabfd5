"""C16: a filter design returns the best grid point, also when inversions fail."""
import copy
import os

import numpy as np

from .. import boot, gen, main, ops, world


def pair_objs(x):
    from .. import hooks
    x = x if isinstance(x, list) else [x]
    return [hooks.make(p, None) for p in x]


def axis(v):
    return np.linspace(v[0], v[1], v[2]) if isinstance(v, list) else np.array([float(v)])


def system(kw, spacing, shift, fI, reim):
    """Base, and the linear systems of one grid point."""
    n = kw["n"]
    a, b, over = kw["r_def"]
    base = np.exp(spacing*(np.arange(n) - n//2) + shift)
    r = np.logspace(np.log10(1/np.max(base)) - a, np.log10(1/np.min(base)) + b, int(over*n))
    out = []
    for f in fI:
        out.append((f.name, reim(f.lhs(base/r[:, None])), reim(f.rhs(r)*r)))
    return base, out


class Check(main.BaseCheck):
    prop = "C16"
    budget = {"quick": (80000, 60), "thorough": (800000, 1200)}
    rule = ("one run = one design over a seeded grid in which the inversions of seeded (grid point, transform) pairs "
            "fail with LinAlgError in a seeded LAPACK call; the objective of every point, the best point and its "
            "filter are compared with an executable reference; distinct by design and failures")
    measure = "distinct (grid, transforms, failed points, best point)"
    stub = ["np.linalg.qr/solve/lstsq/inv (may raise LinAlgError)", "clock (pinned)"]

    def gen(self, r, i):
        op = gen.call_design(r)
        kw = op["kw"]
        kw["full_output"] = r.random() < 0.85
        kw["save"] = False
        if r.random() < 0.3:
            kw["spacing"] = [gen.rnd(r, 0.08, 0.15), gen.rnd(r, 0.2, 0.4), r.choice([2, 3, 4])]
            kw["shift"] = [gen.rnd(r, -2, -1), gen.rnd(r, -0.5, 1), r.choice([2, 3, 5])]
        elif r.random() < 0.15:         # many points, or points close to each other
            kw["spacing"] = self.fine(r, gen.rnd(r, 0.1, 0.35))
            kw["shift"] = self.fine(r, gen.rnd(r, -2, 1))
        if kw.get("finish"):
            kw["n"], kw["full_output"] = min(kw["n"], 9), True
        fam = [p["name"].split("_")[0] for p in (kw["fI"] if isinstance(kw["fI"], list) else [kw["fI"]])]
        # check functions may be several of one kind
        if r.random() < 0.5:
            kw["fC"] = [{"$h": "pair", "name": r.choice(gen.PAIRS[r.choice(fam)])} for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.08 and set(fam) <= {"j0", "j1"}:
            m = {"zsrc": 50.0, "zrec": 100.0, "res": [1.0, 5.0], "freqtime": 0.5, "depth": [0.0]}
            e = {"zsrc": m["zsrc"], "zrec": m["zrec"], "res": m["res"], "freqtime": m["freqtime"], "depth": m["depth"]}
            kw["fC"] = [{"$h": "pair", "name": "empy_hankel", "args": [fam[0]], "kw": dict(e)}]
            if len(fam) == 2:
                kw["fC"] = [{"$h": "pair", "name": "empy_hankel", "args": ["j2"], "kw": dict(e)}]
            kw["n"] = 9
            kw["r"] = {"$a": [round(10**(2 + i/4), 6) for i in range(8)], "d": "f8"}
        if r.random() < 0.5:
            kw["error"] = r.choice([0.001, 0.01, 0.1, 0.3])
        if r.random() < 0.2:
            kw["r_def"] = r.choice([[1, 1, 1], [2, 2, 2], [1, 2, 4]])
        ns, nh, nf = axis(kw["spacing"]).size, axis(kw["shift"]).size, len(fam)
        pts = [[a, b, c] for a in range(ns) for b in range(nh) for c in range(nf)]
        k = r.random()
        if k < 0.25:
            fail = []
        elif k < 0.5:
            fail = [r.choice(pts)]
        elif k < 0.65:
            fail = r.sample(pts, min(len(pts), r.choice([2, 3, 4])))
        elif k < 0.75:          # one whole row or column
            a = r.randrange(ns)
            fail = [p for p in pts if p[0] == a]
        elif k < 0.9:           # all but one point
            a, b = r.randrange(ns), r.randrange(nh)
            fail = [p for p in pts if p[:2] != [a, b]]
        else:
            fail = "best"       # the point which is best without failures
        return {"op": op, "fail": fail, "tr": r.randrange(nf), "how": r.choice(["first", "first", "solve"]),
                "again": r.random() < 0.4, "threads": r.random() < 0.1}

    @staticmethod
    def fine(r, a):
        k = r.random()
        if k < 0.2:
            return a
        if k < 0.3:
            return [a, a + 0.1, 1]
        if k < 0.5:
            return [a, round(a + r.choice([0.05, 0.2]), 4), r.choice([6, 8, 11])]
        return [a, a + 10**r.uniform(-7, -2), r.choice([2, 3, 4])]

    # ---- reference
    def reference(self, kw, grid, failed):
        """Range of the objective of each grid point, its filter, and if rounding errors decide it."""
        from copy import deepcopy
        reim = getattr(np, (kw.get("reim") or {"$np": "real"})["$np"])
        fI = pair_objs(kw["fI"])
        fC = pair_objs(kw["fC"]) if kw.get("fC") else pair_objs(kw["fI"])
        r = np.array(gen.plain(kw["r"]), float)
        rhs = [deepcopy(f).rhs(r) for f in fC]
        err, cvar = kw.get("error", 0.01), kw.get("cvar", "amp")
        J, filt = {}, {}
        for key, (sp, sh) in grid.items():
            vals, cos, bad = [], [], False
            for eps in (0.0, 1e-14, -1e-14, 3e-14):
                with np.errstate(all="ignore"):
                    base, sy = system(kw, sp*(1 + eps), sh*(1 - eps) + eps, fI, reim)
                    co = {}
                    for t, (name, A, b) in enumerate(sy):
                        try:
                            if key + (t,) in failed:
                                raise np.linalg.LinAlgError
                            q, u = np.linalg.qr(A)
                            co[name] = np.linalg.solve(u, b.dot(q))
                        except np.linalg.LinAlgError:
                            co[name] = np.zeros(base.size)
                            bad = True
                    for e in (err, err*(1 - 1e-7), err*(1 + 1e-7)):
                        vals.append(self.objective(fC, rhs, co, base, r, e, cvar))
                    cos.append((base, co))
            # zeros without a failure: also a useless filter
            zero = any(not np.any(c) for c in cos[0][1].values())
            lo, hi = min(vals), max(vals)
            if np.isinf(lo) and np.isinf(hi):
                sure = True
            else:
                sure = bool(np.isfinite(hi) and hi - lo <= 1e-6*abs(hi))
            stable = {n: all(np.max(np.abs(c[1][n] - cos[0][1][n])) <= 1e-6*np.max(np.abs(cos[0][1][n])) for c in cos)
                      for n in cos[0][1]}
            filt[key] = (cos[0][0], cos[0][1], bad or zero, stable)
            J[key] = (lo, hi, sure)
        return J, filt

    @staticmethod
    def objective(fC, rhs, co, base, r, err, cvar):
        """Biggest of the minimum amplitudes (or 1/r) that the transforms reach; inf if useless."""
        k = base/r[:, None]
        val, ind = None, None
        for f, ex in zip(fC, rhs):
            lhs = f.lhs(k)
            if f.name == "j2":
                got = np.dot(lhs[0], co["j0"])/r + np.dot(lhs[1], co["j1"])/r**2
            else:
                got = np.dot(lhs, co[f.name])/r
            if np.all(got == 0) or np.all(np.isnan(got)):
                v, i = np.inf, 0
            else:
                w = np.where(np.abs((got - ex)/ex) > err)[0]
                if w.size == 0:
                    i = got.size - 1
                elif w.size > 4:
                    i = max(0, w[4] - 5)
                else:
                    i = max(0, w[0] - 1)
                v = np.abs(got[i]) if cvar == "amp" else 1/r[i]
            if val is None or v > val:
                val, ind = v, i
        return np.inf if ind == 0 else float(val)

    def run(self, sc):
        res = main.Result()
        kw = sc["op"]["kw"]
        sp, sh = axis(kw["spacing"]), axis(kw["shift"])
        want = {(a, b): (sp[a], sh[b]) for a in range(sp.size) for b in range(sh.size)}
        fail = sc["fail"]

        def probe():
            """The grid, to the last bit, as the real design uses it."""
            op = copy.deepcopy(sc["op"])
            op["kw"]["full_output"] = True
            return ops.describe(lambda: ops.call(op, ops.build(op, ops.Ctx())))[0]

        def go(failed, exact):
            """The real design; the inversions of `failed` raise. Returns the outcome and what fired."""
            reim = getattr(np, (kw.get("reim") or {"$np": "real"})["$np"])
            fI = pair_objs(kw["fI"])
            mats = []
            for p in sorted(failed):
                with np.errstate(all="ignore"):
                    _, sy = system(kw, *exact[p[:2]], fI, reim)
                mats.append((p, sy[p[2]][1]))
            fired = []
            last = [None]

            def hook(name, args):
                A = np.asarray(args[0])
                if name == "solve" and sc["how"] == "solve" and last[0] is not None:
                    p, last[0] = last[0], None
                    fired.append(p)
                    return True
                for p, M in mats:
                    if A.shape == M.shape and np.allclose(A, M, rtol=1e-9, atol=0, equal_nan=True):
                        if sc["how"] == "solve" and name == "qr":
                            last[0] = p
                            return False
                        fired.append(p)
                        return True
                if name == "qr":
                    last[0] = None
                return False
            outs = []
            boot.LINALG.hook = hook
            try:
                args = ops.build(sc["op"], ops.Ctx())
                for _ in range(2 if sc["again"] else 1):
                    outs.append(ops.describe(lambda: ops.call(sc["op"], args))[0])
            finally:
                boot.LINALG.off()
            return outs, sorted(set(fired))
        with world.Dir() as wd:
            w = os.path.join(wd, "w")
            res.key = main.hkey([sc["op"], sc["fail"], sc["how"]])
            o = world.child(probe, w)
            grid = want
            if o["st"] == "ok":
                g = np.asarray(o["v"][1][1][1][2][4], float)
                if g.size != 2*len(want):
                    res.v("grid", f"a grid of {sp.size} times {sh.size} points was asked for; shape: {g.shape}")
                    return res
                g = g.reshape(2, sp.size, sh.size)
                grid = {(a, b): (g[0, a, b], g[1, a, b]) for a, b in want}
                for k in want:
                    if not np.allclose(grid[k], want[k], rtol=1e-9, atol=1e-12):
                        res.v("grid", f"grid point {k} is {grid[k]}, not {want[k]}")
                        return res
            if fail == "best":
                J0, _ = world.child(lambda: self.reference(kw, grid, set()), w)
                k = min(J0, key=lambda x: J0[x][1])
                fail = [list(k) + [sc["tr"]]]
            failed = {tuple(p) for p in fail}
            outs, fired = world.child(lambda: go(failed, grid), w)
            J, filt = world.child(lambda: self.reference(kw, grid, failed), w)
            if fired:
                res.c("fault:inversion fails", len(fired))
            o = outs[0]
            what = f"design over {len(grid)} points, inversions failing at {sorted(failed)[:6]} ({len(failed)})"
            self.judge(res, what, kw, sp, sh, grid, J, filt, o, failed)
            for x in outs[1:]:
                d = ops.same(x, o, rtol=0)
                res.c("repeated designs")
                if d:
                    res.v("repeat", f"{what}: the repeated design differs: {d}")
            res.keys.add(main.hkey([kw["spacing"], kw["shift"], str(kw["fI"]), sorted(failed)]))
            res.log = f"{res.key} {o['st']} {fired}"
        return res

    def judge(self, res, what, kw, sp, sh, grid, J, filt, o, fl):
        good = [k for k in J if not filt[k][2]]
        if not any(J[k][2] and np.isfinite(J[k][1]) for k in good):
            res.c("no surely usable grid point")
            return
        if o["st"] != "ok":
            res.v("fails", f"{what}: {o['t']}: {o['m']}")
            return
        if kw["full_output"]:
            dlf, full = o["v"][1]
            x0, fval, g, out, cv = full[1]
            g = np.asarray(g[4]).reshape(2, sp.size, sh.size)
            out = np.asarray(out[4]).reshape(sp.size, sh.size)
            for (a, b), (lo, hi, sure) in J.items():
                v = out[a, b]
                if not np.allclose(g[:, a, b], [sp[a], sh[b]], rtol=1e-9, atol=1e-12):
                    res.v("grid", f"{what}: grid point {a},{b} is {g[:, a, b]}, not {[sp[a], sh[b]]}")
                    return
                if filt[a, b][2]:
                    res.c("failed points judged")
                    if np.isfinite(v):
                        res.v("failed", f"{what}: point {(a, b)}, whose inversion failed, has the objective {v}")
                        return
                elif not sure:
                    res.c("objective decided by rounding errors")
                elif not (v == lo or abs(v - lo) <= 1e-5*abs(lo)):
                    res.v("objective", f"{what}: objective of point {(a, b)} is {v}, not {lo}")
                    return
                else:
                    res.c("objectives judged")
            if cv[1] != (1 if kw.get("cvar") == "r" else 0):
                res.v("full", f"{what}: cvar flag is {cv}")
            m = np.min(out)
            fv = fval[1].real if fval[0] == "x" else float(np.asarray(fval[4]))
            if kw.get("finish"):        # the best point is improved from there on
                res.c("designs with a finishing search")
                if not fv <= m:
                    res.v("best", f"{what}: with the finishing search the objective is {fv}, the smallest of the grid is {m}")
                    return
                if fl:
                    return
                x0 = np.asarray(x0[4])
                J, filt = self.reference(kw, {(0, 0): tuple(x0)}, set())
                lo, hi, sure = J[0, 0]
                if sure and not (fv == lo or abs(fv - lo) <= 1e-5*abs(lo)):
                    res.v("objective", f"{what}: objective of the point {x0} is {fv}, not {lo}")
                    return
                out, m, grid = np.array([[fv]]), fv, {(0, 0): tuple(x0)}
                sp, sh = x0[:1], x0[1:]
            if not fv == m:
                res.v("best", f"{what}: returns the objective {fv}, the smallest of the grid is {m}")
                return
            cand = [k for k in J if out[k] == m]
            x0 = x0 if isinstance(x0, np.ndarray) else np.asarray(x0[4])
            if not any(np.allclose(x0, [sp[k[0]], sh[k[1]]], rtol=1e-9, atol=1e-12) for k in cand):
                res.v("best", f"{what}: returns the point {x0}, best are {[grid[k] for k in cand]}")
                return
        else:
            dlf = o["v"]
            m = min(J[k][1] for k in good if J[k][2])
            # every point which may be the best one
            cand = [k for k in good if J[k][0] <= m*(1 + 1e-5)]
        d = dict(dlf[1])
        msg = None
        for k in cand:
            base, co, _, stable = filt[k]
            bad = None
            if np.shape(d["base"][4]) != base.shape or not np.allclose(d["base"][4], base, rtol=1e-9, atol=0):
                bad = "the base"
            for n, c in co.items():
                if n not in d or np.shape(d[n][4]) != c.shape:
                    bad = bad or n
                elif stable[n] and not np.allclose(d[n][4], c, rtol=0, atol=1e-4*np.max(np.abs(c))):
                    bad = bad or n
            if d["filter_coeff"][1] != [("s", n) for n in co]:
                bad = bad or "filter_coeff"
            if bad is None:
                res.c("filters judged")
                return
            msg = msg or f"{bad} of the filter is not that of the best point {k} {grid[k]}"
        res.v("filter", f"{what}: {msg}")

    def shrink(self, sc):
        if isinstance(sc["fail"], list):
            for i in range(len(sc["fail"])):
                yield dict(copy.deepcopy(sc), fail=sc["fail"][:i] + sc["fail"][i+1:])
        for k, v in (("verb", 0), ("cvar", "amp"), ("n", 5)):
            if sc["op"]["kw"].get(k) != v:
                new = copy.deepcopy(sc)
                new["op"]["kw"][k] = v
                yield new
        for k in ("fC", "name"):
            if k in sc["op"]["kw"]:
                new = copy.deepcopy(sc)
                del new["op"]["kw"][k]
                yield new
        if sc["again"]:
            yield dict(copy.deepcopy(sc), again=False)
