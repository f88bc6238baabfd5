"""Driver: seeded search, minimisation, replay, evidence.

    python -m dst.main C01 [--tier quick|thorough] [--seed N] [--n N] [--replay FILE] [--workers W]
                           [--log FILE]

Exit 0: the property held on everything explored. Exit 1: VIOLATION. Exit 2: harness error.
"""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import traceback
from time import monotonic     # real clock, bound before the clock seam is installed

from . import boot, proc


SELFCHECK = os.environ.get("DST_SELFCHECK")


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def hkey(x):
    return hashlib.sha1((x if isinstance(x, str) else jdump(x)).encode()).hexdigest()[:16]


class Result:
    """Outcome of one simulated run."""

    def __init__(self):
        self.viol = []        # [{kind, msg, sig?}]
        self.cnt = {}         # counters: ops, faults fired by kind, probes, ...
        self.n = 1            # number of simulated executions in this run
        self.key = None       # identity of the run for distinctness (or a list of them)
        self.nontriv = True
        self.keys = set()     # further measured identities (interleavings, states)
        self.log = None       # deterministic event log (for the determinism test)

    def v(self, kind, msg, sig=None):
        self.viol.append({"kind": kind, "msg": str(msg)[:1500], "sig": sig})

    def c(self, name, n=1):
        self.cnt[name] = self.cnt.get(name, 0) + n


def load_known():
    """[(property, sig, text)] of the recorded, unrepaired findings."""
    out = []
    p = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("known:"):
            f = dict(x.split("=", 1) for x in line.split() if "=" in x and x.split("=", 1)[0] in ("property", "sig"))
            out.append((f["property"], f["sig"], line.split(" -- ", 1)[1].strip()))
    return out


def run_one(check, sc):
    """One simulated run; returns a Result, never raises for property reasons."""
    return check.run(sc)


def worker(check, seed, w, W, n, wfd, t_end):
    def send(x):
        b = pickle.dumps(x, 4)
        b = struct.pack("<Q", len(b)) + b
        i = 0
        while i < len(b):
            i += os.write(wfd, b[i:i+65536])
    i = w
    while i < n and monotonic() < t_end:
        try:
            send((i, "run", None))
            sc = check.scenario(seed, i)
            try:
                t0 = monotonic()
                r = run_one(check, sc)
                r.t = monotonic() - t0
                if SELFCHECK:
                    boot.pristine()
                send((i, "ok", r))
            except proc.Hang as e:
                send((i, "hang", str(e)))
        except BaseException as e:
            send((i, "err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"))
        i += W
    send((-1, "end", None))


def explore(check, seed, n, W, wall, log=None, stop_on_viol=True):
    t0 = monotonic()
    t_end = t0 + wall
    fds, pids, bufs, now = [], {}, {}, {}
    sys.stdout.flush()
    for w in range(W):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                os.setpgid(0, 0)
                worker(check, seed, w, W, n, wfd, t_end)
            except BaseException:
                pass
            os._exit(0)
        os.close(wfd)
        fds.append(rfd)
        pids[rfd] = pid
        bufs[rfd] = bytearray()
    agg = dict(runs=0, done=0, cnt={}, keys=set(), extra=set(), viol=[], known={}, err=[], hang=[], logs={}, slow=(0, -1))
    known = {(p, s): t for p, s, t in load_known()}
    hard = t_end + 120
    stopping = False
    while fds:
        if monotonic() > hard:
            agg["err"].append((-1, f"workers did not end in time (runs {[now.get(i) for i in fds]})"))
            break
        rd, _, _ = select.select(fds, [], [], 2)
        for fd in rd:
            c = os.read(fd, 1 << 20)
            if not c:
                fds.remove(fd)
                os.close(fd)
                continue
            b = bufs[fd]
            b += c
            while len(b) >= 8:
                ln = struct.unpack("<Q", bytes(b[:8]))[0]
                if len(b) < 8 + ln:
                    break
                i, st, r = pickle.loads(bytes(b[8:8+ln]))
                del b[:8+ln]
                if st == "run":
                    now[fd] = i
                elif st == "end":
                    pids[fd] = -abs(pids[fd])
                elif st == "err":
                    agg["err"].append((i, r))
                elif st == "hang":
                    agg["hang"].append((i, r))
                else:
                    agg["runs"] += r.n
                    agg["done"] += 1
                    agg["slow"] = max(agg["slow"], (round(r.t, 2), i))
                    for k, x in r.cnt.items():
                        agg["cnt"][k] = agg["cnt"].get(k, 0) + x
                    if r.nontriv:
                        agg["keys"].update(r.key if isinstance(r.key, list) else [r.key])
                    agg["extra"] |= r.keys
                    if log is not None:
                        agg["logs"][i] = r.log
                    for v in r.viol:
                        if v.get("sig") and (check.prop, v["sig"]) in known:
                            agg["known"][v["sig"]] = known[(check.prop, v["sig"])]
                        else:
                            agg["viol"].append((i, v))
                            if stop_on_viol:
                                stopping = True
        if stopping or len(agg["err"]) > 20:
            break
    for fd, pid in pids.items():
        pid = abs(pid)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    for fd in fds:
        os.close(fd)
    agg["wall"] = monotonic() - t0
    return agg


def fails(check, sc, kind, known):
    """First violation of this kind in a run of sc that is not a known finding."""
    try:
        r = run_one(check, sc)
    except proc.Hang as e:
        return {"kind": "hang", "msg": str(e), "sig": None} if kind == "hang" else None
    except Exception:
        return None
    for v in r.viol:
        if v["kind"] == kind and not (v.get("sig") and (check.prop, v["sig"]) in known):
            return v
    return None


def minimise(check, sc, v, known, budget):
    t_end = monotonic() + budget
    n = 0
    improved = True
    while improved and monotonic() < t_end:
        improved = False
        for cand in check.shrink(sc):
            if monotonic() > t_end:
                break
            n += 1
            nv = fails(check, cand, v["kind"], known)
            if nv:
                sc, v, improved = cand, nv, True
                break
    return sc, v, n


def get_check(prop):
    m = importlib.import_module("dst.checks." + prop.lower())
    return m.Check()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int)
    ap.add_argument("--log")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args()
    t0 = monotonic()
    check = get_check(a.prop)
    check.tier = a.tier
    boot.setup(jit=False)
    check.prepare()
    gc.collect()
    gc.freeze()         # collections in the forked processes do not touch (copy) what they share
    known = {(p, s): t for p, s, t in load_known()}

    if a.index is not None:
        print(json.dumps(check.scenario(a.seed, a.index), indent=1))
        r = run_one(check, check.scenario(a.seed, a.index))
        print(r.viol, r.cnt)
        return 0

    if a.replay:
        rep = json.load(open(a.replay))
        try:
            r = run_one(check, rep["scenario"])
            viol = r.viol
        except proc.Hang as e:
            viol = [{"kind": "hang", "msg": str(e), "sig": None}]
        for v in viol:
            if v["kind"] == rep["kind"]:
                print(f"reproduced: {v['kind']}: {v['msg']}")
                if v.get("sig") and (a.prop, v["sig"]) in known:
                    print(f"KNOWN-FINDING: property={a.prop} {known[(a.prop, v['sig'])]}")
                    return 0
                print(f"VIOLATION property={a.prop} replay={a.replay}")
                return 1
        print("not reproduced" + (f"; other violations: {viol}" if viol else ""))
        return 0

    W = a.workers or min(8, os.cpu_count() or 1)
    n, wall = check.budget[a.tier]
    n, wall = a.n or n, a.wall or wall
    print(f"{a.prop}: seed={a.seed} tier={a.tier} runs<={n} workers={W} repo={boot.REPO}", flush=True)
    agg = explore(check, a.seed, n, W, wall, a.log, not a.all)

    # Runs that did not end: try again alone, with more time.
    for i, msg in agg["hang"][:2]:
        proc.SCALE = 3.0
        try:
            run_one(check, check.scenario(a.seed, i))
        except proc.Hang as e:
            agg["viol"].append((i, {"kind": "hang", "msg": f"call does not end: {e}", "sig": None}))
        finally:
            proc.SCALE = 1.0

    if a.log:
        with open(a.log, "w") as f:
            for i in sorted(agg["logs"]):
                f.write(f"{i} {agg['logs'][i]}\n")

    code = 0
    nmin = 0
    if agg["viol"]:
        if a.all:
            for i, v in sorted(agg["viol"], key=lambda x: x[0])[:60]:
                print(i, v["kind"], v["msg"][:400], v.get("sig"))
        rdir = os.environ.get("DST_REPLAYS", os.path.join(boot.VERIF, "replays"))
        os.makedirs(rdir, exist_ok=True)
        out = []
        for i, v in sorted(agg["viol"], key=lambda x: x[0])[:3]:
            sc = check.scenario(a.seed, i)
            v0 = fails(check, sc, v["kind"], known)
            if v0:
                msc, mv, nmin = minimise(check, sc, v0, known, check.minimise_s)
            else:
                msc, mv = sc, v
            path = os.path.join(rdir, f"{a.prop}-{a.seed}-{i}.json")
            for s, vv in ((msc, mv), (sc, v)):
                with open(path, "w") as f:
                    json.dump(dict(property=a.prop, seed=a.seed, index=i, kind=vv["kind"], msg=vv["msg"],
                                   scenario=s), f, indent=1)
                p = subprocess.run([sys.executable, "-m", "dst.main", a.prop, "--replay", path, "--tier", a.tier],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   cwd=boot.VERIF, env=os.environ)
                if p.returncode == 1 and "VIOLATION" in p.stdout:
                    code = 1
                    break
            if code:
                print(f"violation in run {i} (seed {a.seed}): {vv['kind']}: {vv['msg']}")
                print(f"minimised in {nmin} steps; replay: python -m dst.main {a.prop} --replay {path}")
                print(f"VIOLATION property={a.prop} replay={path}", flush=True)
                break
            out.append(f"ERROR: violation of run {i} does not replay: {v}\n{p.stdout[-2000:]}")
        if not code:
            print("\n".join(out), flush=True)
            code = 2
    if agg["err"] and code == 0:
        for i, e in agg["err"][:3]:
            print(f"HARNESS ERROR in run {i}: {e}")
        # a few inconclusive runs (counted in the evidence) do not spoil the others
        if len(agg["err"]) > max(1, agg["done"]//100) or any(i < 0 for i, _ in agg["err"]):
            code = 2
    if agg["runs"] == 0 and code == 0:
        print("HARNESS ERROR: nothing was run")
        code = 2
    for s, t in sorted(agg["known"].items()):
        print(f"KNOWN-FINDING: property={a.prop} {t}")

    wall_s = monotonic() - t0
    samples = []
    for i in range(min(n, 3)):
        s = jdump(check.scenario(a.seed, i))
        samples.append(json.loads(s) if len(s) < 4000 else s[:4000])
    faults = {k[6:]: x for k, x in sorted(agg["cnt"].items()) if k.startswith("fault:")}
    probes = {k[6:]: x for k, x in sorted(agg["cnt"].items()) if k.startswith("probe:")}
    other = {k: x for k, x in sorted(agg["cnt"].items()) if ":" not in k}
    cov = dict(evaluations=agg["runs"], distinct_nontrivial=len(agg["keys"]), rule=check.rule,
               samples=samples, seeds_per_hour=round(agg["runs"]/max(agg["wall"], 1e-9)*3600),
               counters=other, faults_fired=faults, probes=probes,
               distinct_measure=check.measure, distinct_measured=len(agg["extra"]),
               real_components=check.real, simulated_components=check.stub,
               known_findings_seen=sorted(agg["known"]), harness_errors=len(agg["err"]))
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
              level=check.level, coverage=cov, assumptions=check.assumptions, wall_s=round(wall_s, 2),
              violations=len(agg["viol"]) if code == 1 else 0)
    evdir = os.environ.get("DST_EVIDENCE", os.path.join(boot.VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print(f"{a.prop}: held on {agg['runs']} simulated runs ({len(agg['keys'])} distinct) in {wall_s:.1f} s "
              f"(slowest run {agg['slow'][1]}: {agg['slow'][0]} s); "
              f"faults fired: {faults}")
    return code


class BaseCheck:
    """Common parts of all checks."""

    prop = None
    level = "exploration"
    budget = {"quick": (400, 50), "thorough": (20000, 1500)}
    rule = ""
    measure = ""
    real = ["all of empymod (Python source of the working tree; kernels without numba compilation)",
            "NumPy, SciPy, libdlf"]
    stub = []
    assumptions = ["The numba-compiled kernels behave like their Python source (NUMBA_DISABLE_JIT=1).",
                   "Sampling: a clean batch is evidence, not proof."]
    minimise_s = 45
    tier = "quick"

    def prepare(self):
        """Before the workers are forked."""

    def rng(self, seed, i):
        return random.Random(f"{seed}:{self.prop}:{i}")

    def scenario(self, seed, i):
        return json.loads(json.dumps(self.gen(self.rng(seed, i), i)))

    def gen(self, r, i):
        raise NotImplementedError

    def run(self, sc):
        raise NotImplementedError

    def shrink(self, sc):
        return []


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
