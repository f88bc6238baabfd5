"""C17: the interpreter stays as it was, on success, on error and on abort."""
import ast
import copy
import gc
import locale
import os
import random
import signal
import sys
import warnings

import numpy as np

from .. import faults, gen, helper, main, ops, sched, state, world
from . import c01, c02
from .c10 import plain

SETTINGS = {
    "np raise": lambda: np.seterr(all="raise"),
    "np warn": lambda: np.seterr(all="warn"),
    "np mixed": lambda: np.seterr(divide="ignore", over="raise", under="warn", invalid="print"),
    "np call": lambda: (np.seterrcall(callback), np.seterr(divide="call", invalid="call")),
    "np print": lambda: np.set_printoptions(precision=3, threshold=5, suppress=True, linewidth=40),
    "np bufsize": lambda: np.setbufsize(16384),
    "warn error": lambda: warnings.simplefilter("error"),
    "warn always": lambda: warnings.simplefilter("always"),
    "warn filters": lambda: warnings.filterwarnings("ignore", "mine", DeprecationWarning, "empymod"),
    "cwd": lambda: (os.makedirs("sub/dir", exist_ok=True), os.chdir("sub/dir")),
    "env": lambda: os.environ.update({"OMP_NUM_THREADS": "3", "PYTHONWARNINGS": "ignore", "MINE": "1"}),
    "random": lambda: (random.seed(99), np.random.seed(123), np.random.randn()),
    "recursion": lambda: sys.setrecursionlimit(4321),
    "gc off": lambda: gc.disable(),
    "gc threshold": lambda: gc.set_threshold(300, 5, 5),
    "switch": lambda: sys.setswitchinterval(0.123),
    "sigint": lambda: signal.signal(signal.SIGINT, handler),
    "sigalrm": lambda: (signal.signal(signal.SIGALRM, handler), signal.setitimer(signal.ITIMER_REAL, 1e5)),
    "mask": lambda: signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR1]),
    "locale": lambda: locale.setlocale(locale.LC_ALL, "C"),
    "umask": lambda: os.umask(0o027),
    "argv": lambda: sys.argv.extend(["x", "y"]),
    "hooks": lambda: setattr(sys, "excepthook", handler),
}


def callback(*a):
    pass


def handler(*a):
    pass


AST = {}


def unguarded(fname, line):
    """Lines at which no Python program could restore anything: with and try headers, finally bodies."""
    if fname not in AST:
        bad = set()
        for n in ast.walk(ast.parse(sched.src(fname))):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad.update(range(n.lineno, n.body[0].lineno))
                bad.add(n.lineno)
            elif isinstance(n, ast.Try):
                bad.add(n.lineno)
                for x in n.finalbody:
                    bad.update(range(x.lineno, x.end_lineno + 1))
        AST[fname] = bad
    return line in AST[fname]


def cli_op(r):
    f = r.choice(["dipole", "bipole", "analytical"])
    op = {"dipole": gen.call_dipole, "bipole": gen.call_bipole, "analytical": gen.call_analytical}[f](r, hooks=False)
    kw = plain(op["kw"])
    kw["verb"] = r.choice([0, 1, 2, 3])
    text = main.jdump(kw)
    if r.random() < 0.2:
        text = text[:r.randrange(len(text))]
    return {"f": "cli", "kw": {"argv": [op["f"], r.choice(["$W/cli.json"]*9 + ["$W/none.json"])]
                               + r.choice([[], ["$W/out.txt"], ["$W/out.json"], ["$W/none/out.txt"], ["$W/out.x"]]),
                               "text": text}}


class Check(main.BaseCheck):
    prop = "C17"
    budget = {"quick": (40000, 60), "thorough": (400000, 1200)}
    rule = ("one run = one process with seeded settings in which calls succeed, are rejected, or are aborted by a seeded "
            "fault (exception at a source line, in a user function, in a read, in a library routine); all process-wide "
            "settings are compared before and after each; a part of the calls is repeated in another interpreter with "
            "another hash seed, directory, environment and random state; distinct by calls, settings and faults")
    measure = "distinct (routine, setting, kind of fault, line) combinations"
    stub = ["thread scheduler (real threads, one runs at a time)", "asynchronous exceptions (tracer)", "failing reads (audit hook)", "clock (pinned)",
            "np.linalg.qr/solve/... (may raise LinAlgError)"]

    def op(self, r):
        k = r.random()
        if k < 0.12:
            s, ld = c01.file_ops(r, None)
            return s + ld
        if k < 0.22:
            return [cli_op(r)]
        if k < 0.3:
            return [gen.bad_call(r)]
        if k < 0.36:
            return [c01.set_min(r)]
        return [gen.any_model_call(r, time_p=0.2)]

    def gen(self, r, i):
        names = sorted(SETTINGS)
        st = r.sample(names, r.choice([0, 1, 2, 3, 5, 9]))
        st = [s for s in st if s in names]
        seq = []
        for op in sum((self.op(r) for _ in range(r.choice([1, 1, 2]))), []):
            fl = [{"kind": "none"}]
            for _ in range(r.choice([0, 1, 2, 4])):
                k = r.random()
                if k < 0.55:
                    fl.append({"kind": "line", "at": r.random(), "exc": r.choice(faults.INJ)})
                elif k < 0.7:
                    fl.append({"kind": "cb", "nth": r.choice([0, 0, 1, 3, r.randrange(20)]),
                               "exc": r.choice(faults.CBEXC)} if faults.hooked(op) else
                              {"kind": "line", "at": r.random(), "exc": r.choice(faults.INJ)})
                elif k < 0.9:
                    fl.append({"kind": "read", "match": "libdlf/lib" if r.random() < 0.7 else "/w/",
                               "nth": r.randrange(3), "exc": r.choice(["OSError", "EMFILE", "FileNotFoundError",
                                                                       "MemoryError", "KeyboardInterrupt"])})
                else:
                    fl.append({"kind": "linalg", "nth": r.randrange(5)})
            r.shuffle(fl)
            seq.append([op, fl])
        sc = {"set": st, "seq": seq, "other": None}
        if r.random() < 0.15:
            return self.gen_threads(r, st)
        if r.random() < 0.35:
            sc["other"] = {"seed": r.choice([1, 2, 3]), "rs": r.randrange(1000), "litter": r.random() < 0.5}
        return sc

    def gen_threads(self, r, st):
        """Two threads, each with a call, preempted at seeded lines."""
        fam = r.choice(gen.FAMILIES)
        th = [[world.light(lambda: gen.family(r, fam) if r.random() < 0.7 else c02.small_call(r), 40000)]
              for _ in range(2)]
        if r.random() < 0.5:
            th[1] = copy.deepcopy(th[0])
        prof = [c02.profile_thread(t, "line", False) for t in th]
        sws = []
        for _ in range(6):
            cur = r.randrange(2)
            sw, pos = [[0, cur]], [0, 0]
            for _ in range(r.choice([1, 2, 2, 3, 5])):
                p = c02.points(r, prof[cur][pos[cur]:], 1)
                if not p:
                    break
                pos[cur] += p[0] + 1
                cur = 1 - cur
                sw.append([p[0] + 1, cur])
            sws.append(sw)
        return {"set": st, "th": th, "sw": sws, "cap": 20*sum(map(len, prof)) + 200_000}

    def run_threads(self, sc):
        res = main.Result()
        log = []
        with world.Dir() as wd:
            for sw in sc["sw"]:
                def go():
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                    for s in sc["set"]:
                        SETTINGS[s]()
                    a = state.snapshot()
                    bodies = [lambda t=t: [c02.one(o, {}) for o in t] for t in sc["th"]]
                    s = sched.Sim(bodies, {"sw": sw, "mode": "line", "deep": False}, cap=sc["cap"])
                    ok = s.run(100)
                    gc.collect()
                    b = state.snapshot()
                    return ok and not s.aborted, state.diff(a, b), [t[:4] for t in s.trace]
                ok, d, trace = world.child(go, os.path.join(wd, "w"), 200)
                n = sum(1 for t in trace if t[3] == "preempt")
                res.c("runs with two threads")
                res.c("fault:preemption", n)
                res.keys.add(main.hkey([[o["f"] for o in t] for t in sc["th"]] + [sc["set"][:1], trace]))
                log.append(f"{trace} {ok}")
                if ok and d:
                    res.v("state", f"{[t[0]['f'] for t in sc['th']]} in two threads, settings {sc['set']}, "
                          f"schedule {sw}, leave: {d}")
                    break
        res.key = main.hkey(sc)
        res.log = f"{res.key} {log}"
        return res

    def points(self, seq, wd):
        """The places of the line faults (a fraction of the code lines that the call meets)."""
        out = {}
        need = [(j, k) for j, (op, fl) in enumerate(seq) for k, f in enumerate(fl) if f["kind"] == "line"]
        if not need:
            return out

        def go():
            ps = []
            for op, _ in seq:
                p = sched.profile(lambda: ops.run(op, ops.Ctx()))
                by = {}
                for i, loc in enumerate(p):
                    by.setdefault(loc, []).append(i)
                ps.append([(loc, v[0], v[-1], v[len(v)//2]) for loc, v in sorted(by.items())])
            return ps
        ps = world.child(go, wd)
        for j, k in need:
            locs = [x for x in ps[j] if not unguarded(*x[0][:2])]
            if locs:
                a = seq[j][1][k]["at"]*len(locs)
                loc = locs[int(a)]
                out[j, k] = loc[1 + int((a % 1)*3)]
        return out

    def run(self, sc):
        if "th" in sc:
            return self.run_threads(sc)
        res = main.Result()
        seq = sc["seq"]
        with world.Dir() as wd:
            w = os.path.join(wd, "w")
            pts = self.points(seq, os.path.join(wd, "w0"))

            def go():
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)      # warnings
                for s in sc["set"]:
                    SETTINGS[s]()
                out = []
                for j, (op, fl) in enumerate(seq):
                    for k, f in enumerate(fl):
                        f = dict(f)
                        if f["kind"] == "line":
                            if (j, k) not in pts:
                                continue
                            f["at"] = pts[j, k]
                        ctx = ops.Ctx()
                        try:
                            kw = ops.build(op, ctx)
                        except Exception as e:      # e.g. np.seterr(all='raise') and an odd input
                            out.append((j, k, {"st": "exc", "t": type(e).__name__, "m": "build"}, False, ""))
                            continue
                        a = state.snapshot()
                        o, fired, _, v = faults.faulted(lambda: ops.call(op, kw), f, ctx)
                        v = None
                        b = state.snapshot()
                        if a != b:
                            gc.collect()            # files kept open by garbage
                            b = state.snapshot()
                        out.append((j, k, o, fired, state.diff(a, b)))
                        if a != b:
                            return out
                        del kw, ctx, v
                return out
            got = world.child(go, w, 200)
            for j, k, o, fired, d in got:
                op, fl = seq[j]
                f = fl[k]
                res.c("calls")
                res.c("calls that " + ("succeed" if o["st"] == "ok" else "fail"))
                if fired and f["kind"] != "none":
                    res.c("fault:" + f["kind"])
                res.keys.add(main.hkey([op["f"], str(op["kw"].get("ht")), sc["set"][:1], f["kind"], pts.get((j, k)),
                                        fired]))
                if d:
                    what = "success" if o["st"] == "ok" else f"{o['t']} {o['m'][:100]!r}"
                    res.v("state", f"{op['f']} with fault {f}, settings {sc['set']}, leaves after {what}: {d}")
                    break
            for s in sc["set"]:
                res.c("setting " + s)
            if sc["other"] and not res.viol:
                opl = [op for op, _ in seq if op["f"] not in world.LOADS and op["f"] not in world.SAVES]
                if opl:
                    here = world.child(lambda: [ops.run(op, ops.Ctx()) for op in opl], os.path.join(wd, "w1"))
                    q = dict(sc["other"], ops=opl)
                    there = helper.Helper.get(q["seed"]).run(q)
                    for op, a, b in zip(opl, here, there):
                        res.c("calls in another interpreter")
                        d = ops.same(b, a, rtol=0)
                        if d:
                            res.v("depends", f"{op['f']} in an interpreter with another hash seed, directory, "
                                  f"environment and random state {sc['other']}: {d}")
                            break
        res.key = main.hkey(sc)
        res.log = f"{res.key} {[(j, k, o['st'], bool(fd)) for j, k, o, fd, _ in got]}"
        return res

    def shrink(self, sc):
        if "th" in sc:
            if len(sc["sw"]) > 1:
                for sw in sc["sw"]:
                    yield dict(copy.deepcopy(sc), sw=[sw])
                return
            sw = sc["sw"][0]
            for i in range(1, len(sw) - 1):
                yield dict(copy.deepcopy(sc), sw=[sw[:i+1]])
            for i in range(len(sc["set"])):
                yield dict(copy.deepcopy(sc), set=sc["set"][:i] + sc["set"][i+1:])
            return
        if sc["other"]:
            yield dict(copy.deepcopy(sc), other=None)
        for i in range(len(sc["seq"])):
            if len(sc["seq"]) > 1:
                yield dict(copy.deepcopy(sc), seq=sc["seq"][:i] + sc["seq"][i+1:])
        for i in range(len(sc["set"])):
            yield dict(copy.deepcopy(sc), set=sc["set"][:i] + sc["set"][i+1:])
        for j, (op, fl) in enumerate(sc["seq"]):
            for k in range(len(fl)):
                if len(fl) > 1:
                    new = copy.deepcopy(sc)
                    del new["seq"][j][1][k]
                    yield new
            for o in world.simpler_op(op):
                new = copy.deepcopy(sc)
                new["seq"][j][0] = o
                yield new
