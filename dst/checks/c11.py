"""C11: a survey can be split into jobs and reassembled."""
import copy
import heapq
import math
import os
import pickle

import numpy as np

from .. import files, gen, main, ops, proc, sched, world

RTOL, ATOL = 1e-5, 1e-14


def pick(v, idx):
    """Elements idx of a coordinate (a scalar is common to all)."""
    if isinstance(v, dict) and "$a" in v:
        return dict(v, **{"$a": [v["$a"][i] for i in idx]})
    return [v[i] for i in idx] if isinstance(v, list) else v


class Check(main.BaseCheck):
    prop = "C11"
    budget = {"quick": (2500, 70), "thorough": (100000, 1500)}
    rule = ("one run = a seeded survey split into jobs (objects, pickles or files) by a coordinator and computed by "
            "simulated worker processes under a discrete-event network that delays, drops, duplicates and reorders "
            "messages, while workers stall, are killed at a source line or byte and restart; the assembled response "
            "is compared with the single call; distinct by survey, jobs and event history")
    measure = "distinct event histories (kind and job of every event)"
    stub = ["coordinator, network and worker scheduling (discrete-event simulation in simulated time)",
            "kills (tracer at a source line, RLIMIT_FSIZE at a byte)", "clock (pinned)"]
    assumptions = main.BaseCheck.assumptions + [
        f"Values of the same point from different batches agree within {RTOL} relative, plus {ATOL} of the largest "
        "magnitude of the survey (rounding of differently shaped sums)."]

    # ---- survey
    def survey(self, r):
        big = r.random() < 0.12
        for _ in range(10):
            f, kw, hook = self.raw_survey(r, big)
            if f == "analytical" or gen.cost({"f": f, "kw": kw}) < (400000 if big else 150000):
                break
        return f, kw, hook

    def raw_survey(self, r, big=False):
        f = r.choice(["dipole", "dipole", "bipole", "bipole", "loop", "analytical"] if not big else
                     ["dipole", "dipole", "dipole", "bipole", "loop", "analytical"])
        kw = gen.model(r) if f != "analytical" else {"res": gen.lrnd(r, 0.1, 100)}
        ns, nr, nf = r.choice([1, 2, 3]), r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
        if big:                     # many positions or many frequencies
            ns, nr, nf = r.choice([(1, 2, 1), (1, 2, 2), (2, 1, 1), (1, 1, 2)])
            m = int(10**r.uniform(0.9, 1.9))
            ns, nr, nf = r.choice([(ns, m, nf), (ns, m, nf), (ns, nr, m), (m, nr, nf), (int(m**0.5) + 1, int(m**0.5) + 2, nf)])
        zkw = kw if "depth" in kw else {"depth": []}
        if f in ("dipole", "analytical"):
            kw["src"] = self.xyz(r, zkw, ns, 0.0, 200)
            kw["rec"] = self.xyz(r, zkw, nr, r.choice([300., 800., 2000.]), 900)
            kw["ab"] = r.choice([11, 12, 13, 21, 22, 23, 31, 32, 33] if f == "analytical" else gen.AB)
            if r.random() < 0.2 and isinstance(kw["rec"][0], list):
                self.regular(r, kw)
        else:
            kw["src"] = gen.bip_pos(r, zkw, ns)
            kw["rec"] = gen.bip_pos(r, zkw, nr, True)
            if r.random() < 0.35:       # one depth, different orientations
                p = [kw["rec"][0], kw["rec"][2 if len(kw["rec"]) == 6 else 1]]
                p = [v if isinstance(v, list) else [v] for v in p]
                kw["rec"] = p + [gen.zpos(r, zkw), [r.choice([0, 0, 90, 180, -90, gen.rnd(r, -180, 180, 0)]) for _ in p[0]],
                                 [r.choice([0, 0, 0, 90, gen.rnd(r, -90, 90, 0)]) for _ in p[0]]]
                if r.random() < 0.6:
                    kw["rec"][4] = r.choice([0, 0, 90])
                if r.random() < 0.3:
                    kw["rec"][3] = [r.choice([0, 90]) for _ in p[0]]
            if r.random() < 0.15 and len(kw["rec"]) == 5 and isinstance(kw["rec"][0], list):
                self.regular(r, kw)
            if f == "bipole":
                kw["msrc"] = r.choice([False, False, True])
            kw["mrec"] = r.choice([False, False, True])
            for q in ("srcpts", "recpts"):
                if q == "recpts" or f == "bipole":
                    kw[q] = r.choice([1, 1, 2])
            kw["strength"] = r.choice([0, 0, 1, 7.5])
        sig = None
        if f == "analytical":
            kw["solution"] = r.choice(["fs", "dfs", "dhs"])
            kw["src"][2] = abs(kw["src"][2] if not isinstance(kw["src"][2], list) else 10.) + 1
            kw["rec"][2] = abs(kw["rec"][2] if not isinstance(kw["rec"][2], list) else 10.) + 4
            if kw["solution"] != "fs" and r.random() < 0.4:
                sig = r.choice([0, 1, -1])
        else:
            k = r.random()
            if k < 0.75 or big:
                kw["ht"] = "dlf"
                kw["htarg"] = {"dlf": r.choice(gen.HFILT[:6]), "pts_per_dec": 0}
            elif k < 0.88:
                kw["ht"] = "qwe"
                kw["htarg"] = {"rtol": 1e-8, "nquad": r.choice([11, 21]), "maxint": r.choice([20, 40]),
                               "pts_per_dec": 0}
                if r.random() < 0.5:
                    kw["htarg"]["atol"] = r.choice([1e-30, 1e-22, 1e-20, 1e-18, 1e-17, 1e-16, 1e-15, 1e-14])
                nf = min(nf, 2)
            else:
                kw["ht"] = "quad"
                kw["htarg"] = {"a": 1e-5, "b": 0.05, "rtol": 1e-3, "limit": 20, "pts_per_dec": 10}
                ns, nf = min(ns, 2), min(nf, 2)
            if kw["ht"] == "dlf" and r.random() < 0.2:
                sig = r.choice([0, 0, 1, -1])
                kw["ft"] = "dlf"
                kw["ftarg"] = {"dlf": "key_81_2009", "pts_per_dec": 0}
                nf = min(nf, 2 if not big else 12)
            if r.random() < 0.25:
                kw["xdirect"] = r.choice([True, None])
        if sig is not None:
            kw["signal"] = sig
            ft = [gen.lrnd(r, 0.05, 10) for _ in range(nf)]
        else:
            ft = [gen.lrnd(r, 0.05, 50) for _ in range(nf)]
        kw["freqtime"] = sorted(ft) if r.random() < 0.7 else ft
        kw["src"] = self.cutto(kw["src"], ns)
        hook = False
        if f in ("dipole", "bipole") and r.random() < 0.1 and sig is None and kw["ht"] == "dlf":
            gen.hooks_res(r, kw)
            hook = True
        return f, kw, hook

    @staticmethod
    def regular(r, kw):
        """Receivers which are mirrored at the source, on a circle around it, or in line."""
        s = [v[0] if isinstance(v, list) else v for v in kw["src"]]
        x, y = (s[0], s[1]) if len(s) < 6 else (s[0], s[2])
        if len(s) < 6:
            kw["src"] = s
        n = len(kw["rec"][0])
        a, b, k = gen.rnd(r, 100, 900, 0), gen.rnd(r, 50, 400, 0), r.randrange(5)
        if k < 2:
            d = [(a*(1 if k else r.choice([1, -1])), b*r.choice([1, -1])) for _ in range(n)]
        elif k == 2:
            d = [r.choice([(3*b, 4*b), (4*b, 3*b), (5*b, 0.0), (0.0, 5*b), (-4*b, 3*b)]) for _ in range(n)]
        elif k == 3:                    # close to each other
            e = r.choice([5.0, 0.5, 0.04, 0.002])
            d = [(a + r.choice([0.0, round(r.uniform(-e, e), 4)]), b + round(r.uniform(-e, e), 4)) for _ in range(n)]
        else:
            d = [(a*(i + 1), r.choice([0.0, b*(i + 1)])) for i in range(n)]
        kw["rec"][0] = [x + i[0] for i in d]
        kw["rec"][1] = [y + i[1] for i in d]

    @staticmethod
    def cutto(p, n):
        return [v[:n] if isinstance(v, list) and len(v) > n else v for v in p]

    @staticmethod
    def xyz(r, kw, n, x0, w):
        xs = [round(x0 + gen.rnd(r, -50, w, 1), 3) for _ in range(n)]
        ys = [gen.rnd(r, -300, 300, 1) for _ in range(n)]
        z = gen.zpos(r, kw)
        return [xs, ys, z] if n > 1 or r.random() < 0.5 else [xs[0], ys[0], z]

    @staticmethod
    def count(p):
        return max([len(v) for v in p if isinstance(v, list)], default=1)

    # ---- jobs
    def jobs(self, r, f, kw, hook):
        ns, nr, nf = self.count(kw["src"]), self.count(kw["rec"]), len(kw["freqtime"])

        def chunks(n, k):
            idx = list(range(n))
            if r.random() < 0.5:
                r.shuffle(idx)
            if r.random() < 0.25:
                return [idx]
            out = []
            while idx:
                m = r.randint(1, min(k, len(idx)))
                out.append(idx[:m])
                idx = idx[m:]
            return out
        out = []
        for si in chunks(ns, 2):
            for ri in chunks(nr, 3):
                for fi in chunks(nf, 2):
                    out.append([si, ri, fi])
        if len(out) > 12:           # larger blocks
            k = r.choice([2, 3])

            def halves(n):
                idx = list(range(n))
                r.shuffle(idx)
                return [x for x in (idx[i::k] for i in range(k)) if x] if n > 3 else [idx]
            out = [[si, ri, fi] for si in halves(ns) for ri in halves(nr) for fi in halves(nf)]
            r.shuffle(out)
            if len(out) > 12:
                out = [[list(range(ns)), ri, list(range(nf))] for ri in halves(nr)]
        if r.random() < 0.3:        # overlapping jobs
            out.append([[r.randrange(ns)], [r.randrange(nr)], [r.randrange(nf)]])
        r.shuffle(out)
        jobs = []
        for si, ri, fi in out:
            how = r.choice(["object", "pickle", "file", "file"] if not hook else ["object"])
            j = {"i": [si, ri, fi], "how": how, "ext": r.choice(["txt", "json"]), "verb": r.choice([0, 0, 2, 3]),
                 "scalar": r.random() < 0.5, "squeeze": r.random() < 0.4 and how != "file"}
            if f != "analytical" and r.random() < 0.5:
                j["loop"] = r.choice([None, "freq", "off"])
            jobs.append(j)
        return jobs

    def job_kw(self, kw, j):
        si, ri, fi = j["i"]
        kw = copy.deepcopy(kw)
        for k, idx in (("src", si), ("rec", ri)):
            p = [pick(v, idx) for v in kw[k]]
            if len(idx) == 1 and j["scalar"]:
                p = [v[0] if isinstance(v, list) else v for v in p]
            kw[k] = p
        ft = [kw["freqtime"][i] for i in fi]
        kw["freqtime"] = ft[0] if len(ft) == 1 and j["scalar"] else ft
        if "loop" in j:
            kw["loop"] = j["loop"]
        kw["verb"] = j["verb"]
        kw["squeeze"] = j["squeeze"]
        return kw

    def gen(self, r, i):
        f, kw, hook = self.survey(r)
        sc = {"f": f, "kw": kw, "jobs": self.jobs(r, f, kw, hook)}
        n = len(sc["jobs"])
        calm = r.random() < 0.3
        W = r.choice([1, 2, 2, 3])
        sc["net"] = {"W": W, "seed": r.getrandbits(40), "drop": 0 if calm else r.choice([0, 0.1, 0.3]),
                     "dup": r.choice([0, 0.1, 0.3]), "delay": r.choice([0.1, 1, 5]), "timeout": r.choice([4, 10, 30]),
                     "crash": 0 if calm else r.choice([0, 0.1, 0.25]), "slow": r.choice([0, 0.2]), "stop": 200.0}
        sc["hist"] = self.simulate(sc["net"], n)
        return sc

    # ---- the distributed system
    @staticmethod
    def simulate(cfg, n):
        """Discrete-event run: lives = worker processes with the jobs each executes; used = accepted results.

        A life is a list of [job, kill or None]; an accepted result is [job, life, position].
        """
        import random
        rng = random.Random(cfg["seed"])
        q, seq, t = [], [0], 0.0
        ev = []
        st = {"drop": 0, "dup": 0, "reorder": 0, "crash": 0, "slow": 0, "timeout": 0, "restart": 0}

        def at(dt, *x):
            seq[0] += 1
            heapq.heappush(q, (t + dt, seq[0]) + x)

        def faulty():
            return t < cfg["stop"]

        def send(*x):
            if faulty() and rng.random() < cfg["drop"]:
                st["drop"] += 1
                return
            at(rng.uniform(0.01, cfg["delay"]), *x)
            if faulty() and rng.random() < cfg["dup"]:
                st["dup"] += 1
                at(rng.uniform(0.01, 2*cfg["delay"]), *x)
        lives, alive, inbox, busy = [], {}, {}, {}
        for w in range(cfg["W"]):
            lives.append([])
            alive[w], inbox[w], busy[w] = len(lives)-1, [], False
        done = {}
        pending = {j: 0 for j in range(n)}     # job -> number of attempts
        for j in range(n):
            at(0.0, "assign", j)

        def start(w):
            if alive[w] is None or busy[w] or not inbox[w]:
                return
            j = inbox[w].pop(0)
            life = alive[w]
            d = rng.uniform(0.2, 2)
            if faulty() and rng.random() < cfg["slow"]:
                st["slow"] += 1
                d *= 20
            kill = None
            if faulty() and rng.random() < cfg["crash"]:
                kill = [rng.random(), rng.random()]
                d *= rng.random()
            lives[life].append([j, kill])
            busy[w] = True
            at(d, "crash" if kill else "finish", w, life, j, len(lives[life])-1)
        steps = 0
        while q and len(done) < n:
            steps += 1
            if steps > 20000:
                break
            x = heapq.heappop(q)
            t = x[0]
            k = x[2]
            ev.append(f"{k}{x[3:]}")
            if k == "assign":
                j = x[3]
                if j in done:
                    continue
                pending[j] += 1
                if pending[j] > 1:
                    st["timeout"] += 1
                send("recv", rng.randrange(cfg["W"]), j)
                at(cfg["timeout"]*(1 + rng.random()), "assign", j)
            elif k == "recv":
                if alive[x[3]] is not None:
                    inbox[x[3]].append(x[4])
                    start(x[3])
            elif k == "finish":
                w, life, j, pos = x[3:]
                if alive[w] == life:
                    busy[w] = False
                    send("result", j, life, pos)
                    start(w)
            elif k == "crash":
                w, life = x[3], x[4]
                st["crash"] += 1
                alive[w], inbox[w], busy[w] = None, [], False
                at(rng.uniform(1, 8), "restart", w)
            elif k == "restart":
                st["restart"] += 1
                lives.append([])
                alive[x[3]] = len(lives) - 1
            elif k == "result":
                if x[3] not in done:
                    done[x[3]] = [x[3], x[4], x[5]]
        return {"lives": lives, "used": [done[j] for j in sorted(done)], "stat": st, "time": round(t, 3),
                "events": main.hkey(" ".join(ev)), "n": len(ev)}

    def life(self, sc, k, w):
        """Run one worker process: returns its results by position."""
        def go(send):
            world.enter(w)
            for pos, (j, kill) in enumerate(sc["hist"]["lives"][k]):
                job = sc["jobs"][j]

                def work():
                    send((pos, self.work(sc, j, job, f"{k}_{pos}")))
                if kill is None:
                    work()
                elif kill[0] < 0.4 and job["how"] == "file":
                    files.limit(int(kill[1]*1500), True)
                    work()
                    os._exit(9)
                else:
                    n = int(math.exp(kill[1]*10))
                    sched.traced(work, inject={"at": n, "exc": "KILL"})
                    os._exit(9)
        evs, st = proc.fork_stream(go, 150)
        return dict(evs)

    def work(self, sc, j, job, tag):
        """One job in a worker."""
        op = {"f": sc["f"], "kw": self.job_kw(sc["kw"], job)}
        if job["how"] == "file":
            from empymod import io
            import empymod

            def f():
                inp = io.load_input(f"job{j}.json")
                inp["squeeze"] = False
                out = getattr(empymod.model, sc["f"])(**inp)
                io.save_data(f"res{j}_{tag}.{job['ext']}", out, info=f"job {j}")
            o = ops.describe(f)[0]
            o.pop("v", None)
            return o
        if job["how"] == "pickle":
            kw = pickle.loads(pickle.dumps(ops.build(op)))
            return ops.describe(lambda: ops.call(op, kw))[0]
        return ops.run(op, ops.Ctx())

    def run(self, sc):
        res = main.Result()
        h = sc["hist"]
        res.key = main.hkey([sc["f"], sc["kw"], sc["jobs"], h["events"]])
        res.keys.add(h["events"])
        for k, n in h["stat"].items():
            if n:
                res.c(f"fault:{k}", n)
        res.c("simulated seconds", int(h["time"]))
        res.c("events", h["n"])
        res.c("jobs executed", sum(len(x) for x in h["lives"]))
        with world.Dir() as wd:
            w = os.path.join(wd, "w")
            full = copy.deepcopy(sc["kw"])
            full.update(squeeze=False, verb=0)
            op = {"f": sc["f"], "kw": full}
            ref = world.alone(op, w)
            from ..checks.c10 import plain

            def jobfiles():
                import json
                for j, job in enumerate(sc["jobs"]):
                    if job["how"] == "file":
                        from empymod import io
                        if j % 2:
                            io.save_input(f"job{j}.json", ops.build({"kw": self.job_kw(sc["kw"], job)}))
                        else:
                            with open(f"job{j}.json", "w") as f:
                                json.dump(plain(self.job_kw(sc["kw"], job)), f)
            world.child(jobfiles, w)
            if ref["st"] != "ok":
                res.nontriv = False
                res.c("survey refused")
                res.log = f"{main.hkey(sc)} {ref['t']}"
                return res
            E = np.asarray(ref["v"][4])
            A = np.full(E.shape, np.nan, E.dtype)
            lives = [self.life(sc, k, w) for k in range(len(h["lives"]))]
            res.c("worker processes", len(lives))
            n = len(h["used"])
            if n < len(sc["jobs"]):
                raise proc.ChildError("the coordinator did not finish")
            top = np.nanmax(np.abs(E), initial=0)
            for sig in (1, -1) if sc["f"] == "analytical" and sc["kw"].get("signal") in (1, -1) else ():
                # these are the differences of each other and the direct-current response
                o = world.alone({"f": sc["f"], "kw": dict(full, signal=sig)}, w)
                if o["st"] == "ok":
                    top = max(top, np.nanmax(np.abs(np.asarray(o["v"][4])), initial=0))
            tol = ATOL*top*(1e4 if sc["f"] == "analytical" and sc["kw"].get("signal") in (1, -1) else 1)
            T = np.full(E.shape, tol)
            state = {"noise": False}

            def differs(v, ix):
                d = self.differs(v, E[ix], T[ix])
                if d and not state["noise"]:    # how much of it are rounding errors?
                    state["noise"] = True
                    T[...] += 50*self.noise(sc["f"], full, E, w)
                    d = self.differs(v, E[ix], T[ix])
                    if not d:
                        res.c("surveys with points decided by rounding errors")
                return d
            # files: the coordinator takes what loads, at any time
            for j, life, pos in h["used"]:
                job = sc["jobs"][j]
                out = lives[life].get(pos)
                if out is None:
                    raise proc.ChildError(f"job {j} has no result in life {life}: {lives[life].keys()}")
                if out["st"] != "ok":
                    res.v("job", f"job {j} {job}: {out['t']}: {out['m']} (life {life}, position {pos})")
                    break
                v = self.fetch(j, job, f"{life}_{pos}", w) if job["how"] == "file" else np.asarray(out["v"][4])
                if v is None:
                    res.v("file", f"the result file of job {j} does not load although the job was completed")
                    break
                si, ri, fi = job["i"]
                try:
                    v = v.reshape(len(fi), len(ri), len(si))
                except ValueError:
                    res.v("shape", f"job {j} {job}: shape {v.shape} instead of {(len(fi), len(ri), len(si))}")
                    break
                A[np.ix_(fi, ri, si)] = v
                d = differs(v, np.ix_(fi, ri, si))
                if d:
                    res.v("response", f"{sc['f']}, job {j} {job} (life {life}, position {pos}): {d}")
                    break
            if not res.viol:
                d = differs(A, ...)
                if d:
                    res.v("response", f"assembled survey: {d}")
                # every result file that loads is right, too (late, duplicated or cut ones)
                for k, x in enumerate(h["lives"]):
                    for pos, (j, kill) in enumerate(x):
                        job = sc["jobs"][j]
                        if job["how"] != "file":
                            continue
                        v = self.fetch(j, job, f"{k}_{pos}", w)
                        si, ri, fi = job["i"]
                        if v is None:
                            res.c("unusable result files of killed workers", int(kill is not None))
                        elif (v.shape != (len(fi), len(ri), len(si))
                              or differs(v, np.ix_(fi, ri, si))):
                            res.v("response", f"result file of job {j} {job} loads as something else")
                for life, out in enumerate(lives):
                    for pos, o in out.items():
                        j = h["lives"][life][pos][0]
                        job = sc["jobs"][j]
                        if o["st"] == "ok" and job["how"] != "file":
                            si, ri, fi = job["i"]
                            v = np.asarray(o["v"][4])
                            if v.size != len(fi)*len(ri)*len(si) or differs(
                                    v.reshape(len(fi), len(ri), len(si)), np.ix_(fi, ri, si)):
                                res.v("response", f"{sc['f']}, repeated job {j} {job} (life {life}, position {pos})")
        res.log = f"{main.hkey(sc)} {h['events']} {[sorted(x) for x in lives]}"
        return res

    def fetch(self, j, job, tag, w):
        def go():
            from empymod import io
            try:
                return np.array(io.load_data(f"res{j}_{tag}.{job['ext']}"))
            except Exception:
                return None
        return world.child(go, w)

    @staticmethod
    def noise(f, kw, E, w):
        """Change of the response by changes of the model in the last digits."""
        def vary(x, e):
            if isinstance(x, list):
                return [vary(i, e) for i in x]
            if isinstance(x, float):
                return x*(1 + e)
            if isinstance(x, dict):
                return {k: vary(v, e) if k in ("res", "$a") else v for k, v in x.items()}
            return x
        out = np.zeros(E.shape)
        for e in (3e-16, -3e-16, 1e-15, -2e-15, 5e-15, -1e-14):
            k = dict(kw, res=vary(kw["res"], e), freqtime=vary(kw["freqtime"], -e))
            o = world.alone({"f": f, "kw": k}, w)
            if o["st"] == "ok":
                with np.errstate(all="ignore"):
                    d = np.abs(np.asarray(o["v"][4]) - E)
                out = np.maximum(out, np.where(np.isfinite(d), d, 0))
        return out

    @staticmethod
    def differs(v, e, tol):
        if v.dtype.kind != e.dtype.kind:
            return f"{v.dtype} instead of {e.dtype}"
        with np.errstate(all="ignore"):
            fa, fb = np.isfinite(v), np.isfinite(e)
            bad = (fa != fb) | (fa & fb & (np.abs(v-e) > tol + RTOL*np.abs(e)))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad))
            return (f"{bad.sum()} of {bad.size} values differ from the single call, e.g. {list(i)}: {v[i]!r} instead "
                    f"of {e[i]!r}")
        return None

    def shrink(self, sc):
        # no network faults
        calm = dict(sc["net"], drop=0, dup=0, crash=0, slow=0, W=1)
        if sc["net"] != calm:
            new = copy.deepcopy(sc)
            new["net"] = calm
            new["hist"] = self.simulate(calm, len(sc["jobs"]))
            yield new
        for k in ("xdirect", "aniso", "epermH", "epermV", "mpermH", "mpermV", "strength", "srcpts", "recpts"):
            if k in sc["kw"]:
                new = copy.deepcopy(sc)
                del new["kw"][k]
                yield new
        for j, job in enumerate(sc["jobs"]):
            for k, v in (("how", "object"), ("verb", 0), ("squeeze", False)):
                if job[k] != v:
                    new = copy.deepcopy(sc)
                    new["jobs"][j][k] = v
                    yield new
