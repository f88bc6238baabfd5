"""C14: quadrature that did not converge is always reported."""
import copy
import os
import re

import numpy as np

from .. import boot, gen, main, ops, world

WARN = re.compile(r"WARNING :: (Hankel|Fourier)-quadrature did not converge")


def clean(kw):
    for k in ("signal", "ft", "ftarg", "bandpass"):
        kw.pop(k, None)


class Check(main.BaseCheck):
    prop = "C14"
    budget = {"quick": (60000, 60), "thorough": (500000, 1200)}
    rule = ("one run = either a survey whose k-th adaptive integrals (QUADPACK) are made to report non-convergence, "
            "one call per fault, or a QWE survey with a tight limit compared with its single points, or "
            "transform.qwe on generated series against a scalar reference of the extrapolation; distinct by call and "
            "fault positions")
    measure = "distinct (transform, routine, number of integrals, faulted positions)"
    stub = ["scipy.integrate.quad may report non-convergence (its value is real)", "clock (pinned)"]

    # ---- scenarios
    def gen(self, r, i):
        k = r.random()
        if k < 0.5:
            return self.gen_quad(r)
        if k < 0.75:
            return self.gen_or(r)
        return self.gen_series(r)

    def gen_quad(self, r):
        k = r.random()
        make = r.choice([gen.call_dipole, gen.call_dipole, gen.call_bipole])
        if k < 0.45:
            op = make(r, time_p=0, nmax=3, methods=["quad"], hooks=r.random() < 0.2)
            tr = "Hankel"
        elif k < 0.65:
            op = make(r, time_p=0, nmax=3, methods=["qwe"], hooks=False)
            op["kw"]["htarg"].update(pts_per_dec=r.choice([10, 20]), diff_quad=r.choice([1e-3, 0.9, 5.0]),
                                     limit=r.choice([20, 50]), nquad=7, maxint=r.choice([10, 20]))
            tr = "Hankel"
        else:
            op = make(r, time_p=0, nmax=2, methods=["dlf"], hooks=False, standard=True)
            kw = op["kw"]
            kw["signal"] = r.choice([0, 1, -1])
            kw["freqtime"] = sorted(gen.lrnd(r, 0.05, 20) for _ in range(r.choice([1, 2, 4])))
            kw["ft"] = "qwe"
            kw["ftarg"] = {"rtol": 1e-4, "nquad": 5, "maxint": r.choice([8, 16]), "pts_per_dec": 5,
                           "diff_quad": r.choice([1e-3, 0.9, 2.0]), "limit": r.choice([10, 50])}
            if r.random() < 0.4:
                kw["ftarg"].update(a=1e-3, b=10.0)
            if op["f"] == "bipole":
                for k in ("src", "rec"):
                    if r.random() < 0.6:
                        kw[k] = [i[0] if isinstance(i, list) else i for i in kw[k]]
            tr = "Fourier"
        f = gen.plain(op["kw"].get("freqtime"))
        if (f if isinstance(f, float) else f[0]) < 0:
            op["kw"]["freqtime"] = 1.0
        op["kw"].pop("srcpts" if r.random() < 0.5 else "recpts", None)
        n = world.child(lambda: self.count(op), timeout=60)
        plans = []
        if n:
            for _ in range(3):
                a = r.random()
                if a < 0.5:
                    p = [r.choice([0, n-1, r.randrange(n)])]
                elif a < 0.8:
                    p = sorted({r.randrange(n) for _ in range(r.choice([2, 3, 5]))})
                else:
                    p = [2*r.randrange((n+1)//2)]
                plans.append(p)
        return {"kind": "quad", "op": op, "tr": tr, "plans": plans, "verb": r.choice([1, 1, 2, 3, 4]), "n": n}

    @staticmethod
    def count(op):
        boot.QUAD.set({})
        ops.run(op)
        return boot.QUAD.n

    def gen_or(self, r):
        """QWE without spline: the survey warns if and only if one of its points does."""
        op = r.choice([gen.call_dipole, gen.call_bipole])(r, time_p=0, nmax=3, methods=["qwe"], hooks=False)
        kw = op["kw"]
        for k in ("srcpts", "recpts"):
            kw.pop(k, None)
        ppd = 0
        if r.random() < 0.3:        # Fourier
            tr = "Fourier"
            kw["ht"], kw["htarg"] = "dlf", {"dlf": "kong_61_2007b"}
            kw.pop("loop", None)
            kw["signal"] = r.choice([0, 1, -1])
            kw["freqtime"] = sorted(gen.lrnd(r, 0.05, 20) for _ in range(r.choice([1, 1, 2])))
            kw["ft"] = "qwe"
            kw["ftarg"] = {"rtol": r.choice([1e-2, 1e-4, 1e-8]), "atol": r.choice([1e-20, 1e-14]), "nquad": 5,
                           "maxint": r.choice([4, 6, 8, 12]), "pts_per_dec": 5, "diff_quad": 1e30}
        else:
            tr = "Hankel"
            kw["htarg"] = {"rtol": r.choice([1e-3, 1e-6, 1e-9, 1e-12]), "nquad": r.choice([5, 9]),
                           "maxint": r.choice([4, 5, 6, 8, 12, 30]), "pts_per_dec": ppd}
            if r.random() < 0.3:
                kw["htarg"]["atol"] = r.choice([1e-30, 1e-16, 1e-12])
            f = gen.plain(kw["freqtime"])
            if (f if isinstance(f, float) else f[0]) < 0:
                kw["freqtime"] = [0.1, 3.0]
        kw["verb"] = r.choice([1, 2, 3])
        return {"kind": "or", "op": op, "tr": tr}

    def gen_series(self, r):
        """Interval values of several points: geometric, oscillating, slow, converging at a chosen interval."""
        n, m = r.choice([1, 2, 3, 5]), r.choice([3, 4, 6, 8, 12, 20])
        rows = []
        for _ in range(n):
            k = r.random()
            c = [gen.rnd(r, -2, 2), gen.rnd(r, -2, 2)]
            q = gen.rnd(r, -0.9, 0.9, 2)
            if k < 0.3:
                row = [[c[0]*q**j, c[1]*q**j] for j in range(m)]
            elif k < 0.6:
                row = [[gen.rnd(r, -1, 1), gen.rnd(r, -1, 1)] for j in range(m)]
            elif k < 0.8:
                s = gen.rnd(r, 0.3, 1.5, 2)
                row = [[(-1)**j/(j + 1)**s*c[0], c[1]/(j + 1)**(2*s)] for j in range(m)]
            else:       # noise until interval t, nothing after it
                t = r.randrange(m)
                row = [[gen.rnd(r, -1, 1), gen.rnd(r, -1, 1)] if j < t else [0.0, 0.0] for j in range(m)]
            rows.append(row)
        return {"kind": "series", "rows": rows, "rtol": r.choice([1e-2, 1e-4, 1e-8, 1e-12]),
                "atol": r.choice([1e-30, 1e-10]), "call": r.random() < 0.5, "real": r.random() < 0.3,
                "w": [gen.rnd(r, 0.5, 2) for _ in range(n)]}

    # ---- runs
    def run(self, sc):
        res = main.Result()
        getattr(self, "run_" + sc["kind"])(sc, res)
        return res

    def run_quad(self, sc, res):
        res.key, res.n = [], 0
        logs = []

        def one(plan, verb):
            def go():
                op = copy.deepcopy(sc["op"])
                op["kw"]["verb"] = verb
                boot.QUAD.set({k: "limit" for k in plan})
                o = ops.run(op, ops.Ctx())
                return o, list(boot.QUAD.fired), list(boot.QUAD.natural), boot.QUAD.n
            return world.child(go, timeout=100)
        base, _, nat, n = one([], sc["verb"])
        if base["st"] != "ok":
            res.c("refused")
            res.nontriv = False
            res.n = 1
            res.key = main.hkey(sc)
            res.log = main.hkey(sc)
            return
        calls = [([], base, [], nat)]
        for p in sc["plans"]:
            o, fired, nt, _ = one(p, sc["verb"])
            calls.append((p, o, fired, nt))
        calls.append((sc["plans"][0] if sc["plans"] else [], *one(sc["plans"][0] if sc["plans"] else [], 0)[:3]))
        for j, (p, o, fired, nt) in enumerate(calls):
            res.n += 1
            quiet = j == len(calls) - 1
            what = (f"{sc['op']['f']} ({sc['tr']}), {n} integrals, of which {p} made to report non-convergence "
                    f"(and {nt[:5]} really did), verb={0 if quiet else sc['verb']}")
            if fired:
                res.c("fault:integral reports non-convergence", len(fired))
                res.key.append(main.hkey([sc["op"], p]))
                res.keys.add(f"{sc['tr']} {sc['op']['f']} {n} {p}")
            d = ops.same(o, base, rtol=0, text=False)
            if d:
                res.v("value", f"{what}: {d}")
                break
            w = set(WARN.findall(o["o"]))
            bad = sorted(set(fired) | set(nt))
            logs.append(f"{bad} {sorted(w)}")
            if quiet:
                if w:
                    res.v("verb", f"{what}: warns")
                continue
            if bad and sc["tr"] not in w:
                sig = "imaginary-only" if sc["tr"] == "Hankel" and all(k % 2 for k in bad) else None
                res.v("unreported", f"{what}: no warning for {sc['tr']}", sig)
            other = "Fourier" if sc["tr"] == "Hankel" else "Hankel"
            if other in w:
                res.v("wrong", f"{what}: warns for {other}")
            qwe = "qwe" in (sc["op"]["kw"].get("ht"), sc["op"]["kw"].get("ft"))
            if not bad and w and (not qwe or j > 0):
                res.v("wrong", f"{what}: warns for {w}")
            if qwe and j == 0 and sc["tr"] in w and not bad:
                break       # the extrapolation itself did not converge
            if res.viol and not all(v["sig"] for v in res.viol):
                break
        res.log = f"{main.hkey(sc)} {logs}"

    @staticmethod
    def points(op):
        """The single points of a survey."""
        kw = op["kw"]

        def n(p):
            return max([len(gen.plain(v)) for v in p if isinstance(gen.plain(v), list)], default=1)

        def cut(p, i):
            return [gen.plain(v)[i] if isinstance(gen.plain(v), list) and len(gen.plain(v)) > 1 else
                    gen.plain(v)[0] if isinstance(gen.plain(v), list) else v for v in p]
        f = gen.plain(kw["freqtime"])
        f = f if isinstance(f, list) else [f]
        for i in range(n(kw["src"])):
            for j in range(n(kw["rec"])):
                for x in f:
                    yield {"f": op["f"], "kw": dict(kw, src=cut(kw["src"], i), rec=cut(kw["rec"], j), freqtime=x)}

    def run_or(self, sc, res):
        def go(op):
            o = ops.run(op, ops.Ctx())
            return o["st"], set(WARN.findall(o.get("o", ""))), o.get("m")
        st, w, m = world.child(lambda: go(sc["op"]), timeout=100)
        pts = list(self.points(sc["op"]))
        res.key = main.hkey(sc)
        if st != "ok" or len(pts) > 27:
            res.c("refused")
            res.nontriv = False
            res.log = res.key
            return
        # the calculation frequencies depend on the times: only single times are comparable for them
        single = world.child(lambda: [go(p) for p in pts], timeout=100)
        ws = set().union(*[x[1] for x in single])
        res.c("points", len(pts))
        if ws:
            res.c("fault:limit reached without converging", sum(bool(x[1]) for x in single))
            res.keys.add(f"{sc['tr']} {sc['op']['f']} {len(pts)} {[bool(x[1]) for x in single]}")
        if all(x[0] == "ok" for x in single):
            for tr in ("Hankel", "Fourier"):
                nf = gen.plain(sc["op"]["kw"]["freqtime"])
                if tr == "Fourier" and isinstance(nf, list) and len(nf) > 1:
                    continue
                if (tr in w) != (tr in ws):
                    res.v("aggregate", f"{sc['op']['f']}: the survey {'warns' if tr in w else 'does not warn'} for "
                          f"{tr}, of its {len(pts)} points {sum(tr in x[1] for x in single)} do")
        res.log = f"{res.key} {sorted(w)} {[sorted(x[1]) for x in single]}"

    def run_series(self, sc, res):
        v = np.array(sc["rows"])
        v = v[..., 0] + 1j*v[..., 1]
        if sc["real"]:
            v = v.real.copy()
        n, m = v.shape
        w = np.array(sc["w"])
        inter = np.cumsum(np.r_[0, 2*np.ones(m)])[None, :]*w[:, None]

        def go():
            from empymod import transform
            if sc["call"]:
                # `lambd` tells which point is asked for
                lam = np.arange(n, dtype=float)[:, None]*np.ones((1, m))

                def f(i, lambd, off, ang_fact):
                    return v[lambd[:, 0].astype(int), i].copy()
                return transform.qwe(sc["rtol"], sc["atol"], m, f, inter, lam, np.ones(n), np.ones(n))
            return transform.qwe(sc["rtol"], sc["atol"], m, v.copy(), inter)
        o = world.child(lambda: ops.describe(go)[0])
        ref = [self.scalar(v[k]*w[k], sc["rtol"], sc["atol"]) for k in range(n)]
        res.key = main.hkey(sc)
        res.log = f"{res.key} {[x[1] for x in ref]}"
        if any(x[1] is None for x in ref):      # too close to the tolerance to be decided
            res.c("undecided")
            res.nontriv = False
            return
        if o["st"] != "ok":
            res.v("series", f"transform.qwe raises {o['t']}: {o['m']}")
            return
        conv = bool(o["v"][1][2][1])
        at = [x[1] for x in ref]      # interval at which it converged, or m
        if max(at) == m:
            res.c("fault:limit reached without converging", sum(x == m for x in at))
            res.keys.add(f"series {n} {m} {at}")
        if max(at) == m and conv:
            res.v("unreported", f"transform.qwe: points converge at intervals {at} of {m} ({m}: never), but no warning")
        if max(at) < m - 1 and not conv:
            res.v("wrong", f"transform.qwe: all points converge, at intervals {at} of {m}, but warns")

    @staticmethod
    def scalar(t, rtol, atol):
        """Extrapolated sum of one point (Wynn's epsilon algorithm), and the interval at which it converged."""
        m = len(t)
        s = np.cumsum(t[1:])
        last, val = None, None
        old = []
        for i in range(1, m):
            # epsilon table row for the first i partial sums (partial sum 0 is 0)
            e = [s[i-1]]
            for k in range(1, i+1):
                prev = old[k-1] if k-1 < len(old) else 0.0
                d = e[k-1] - prev
                x = np.finfo(float).max if abs(d) < np.finfo(float).tiny else (old[k-2] if k > 1 else 0.0) + 1/d
                e.append(x)
            if i == 1:
                e = [s[0], 1/s[0] if s[0] != 0 else np.finfo(float).max]
            old = e
            val = (e[i] if i % 2 == 0 else e[i-1]) + t[0]
            if i > 1:
                with np.errstate(all="ignore"):
                    err = abs((val - last)/val)
                    tol = rtol + atol/abs(val)
                if not np.isfinite(err) or not np.isfinite(tol):
                    return val, None
                if abs(err - tol) <= 1e-4*max(err, tol) + 1e-15:
                    return val, None
                if err < tol:
                    return val, i
            last = val
        return val, m

    def shrink(self, sc):
        if sc["kind"] == "quad":
            for p in sc["plans"]:
                if len(sc["plans"]) > 1:
                    yield dict(copy.deepcopy(sc), plans=[p])
                for k in p:
                    if len(p) > 1:
                        yield dict(copy.deepcopy(sc), plans=[[k]])
        if sc["kind"] == "series":
            for k in range(len(sc["rows"])):
                if len(sc["rows"]) > 1:
                    yield dict(copy.deepcopy(sc), rows=sc["rows"][:k] + sc["rows"][k+1:],
                               w=sc["w"][:k] + sc["w"][k+1:])
        else:
            for c in world.simpler_op(sc["op"]):
                if c["kw"].get("verb", 0):
                    yield dict(copy.deepcopy(sc), op=c)


_ = os
