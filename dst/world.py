"""Simulated processes: pristine ones, ones with a history; their scratch directories and clocks."""
import copy
import os
import random
import shutil
import sys
import tempfile

import numpy as np

from . import boot, codec, ops, proc


def scratch():
    return os.environ.get("DST_WORK") or tempfile.gettempdir()


class Dir:
    """Scratch directory of one scenario."""

    def __init__(self):
        self.path = None

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="s", dir=scratch())
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def enter(wd=None, seed=7, clock=True):
    """Called first in each forked child: pin what is not part of the scenario."""
    if wd is not None:
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        codec.WD = wd
    random.seed(seed)
    np.random.seed(seed)
    if clock:
        boot.CLOCK.set([0.0], 1.7e9)
    ops.install_stdout()
    sys.argv = ["prog"]


def child(fn, wd=None, timeout=100, raw=False, clock=True):
    if wd is None:
        with Dir() as tmp:
            return child(fn, tmp, timeout, raw, clock)

    def go():
        enter(wd, clock=clock)
        return fn()
    return proc.fork_run(go, timeout, raw)


def alone(op, wd=None, pre=(), cb=None):
    """Outcome of one call in a pristine process; `pre` are quick state-setting calls before it."""
    def go():
        for p in pre:
            ops.run(p)
        return ops.run(op, ops.Ctx(cb) if cb is not None else ops.Ctx())
    return child(go, wd)


MINKEYS = ["min_freq", "min_time", "min_off", "min_res", "min_angle"]

SAVES = {"save_data_of": "fname", "save_input": "fname", "design_save": "path", "save_data": "fname"}
LOADS = {"load_data": "fname", "load_input": "fname", "load_filter": "path"}


def state_pre(ops_, j):
    """The set_minimum calls which are in force for call j."""
    return [o for o in ops_[:j] if o["f"] == "set_minimum"]


def file_pre(ops_, j):
    """The earlier saves to the path that call j reads."""
    o = ops_[j]
    if o["f"] not in LOADS:
        return []
    p = o["kw"][LOADS[o["f"]]]
    return [s for s in ops_[:j] if s["f"] in SAVES and s["kw"].get(SAVES[s["f"]]) == p]


def oracle(ops_, j, wd):
    """What call j of the sequence has to give: state and files as they are then, no other history."""
    st = state_pre(ops_, j)
    k = 0
    for s in file_pre(ops_, j):
        i = next(i for i, o in enumerate(ops_) if o is s)
        alone(s, wd, state_pre(ops_, i))
        k += 1
    return alone(ops_[j], wd, st)


def objs(op, ctx, keep, i):
    """Arguments for op; "share": the objects of an earlier call, changed in place by their owner."""
    kw = codec.dec(op["kw"], ctx)
    s = op.get("share")
    if s is not None and s in keep:
        old = keep[s]
        new = {}
        for k, v in kw.items():
            new[k] = codec.update(old[k], v) if k in old else v
        kw = new
    keep[i] = kw
    return kw


def shorten(lst):
    """Candidate sublists, big cuts first."""
    n = len(lst)
    if n > 2:
        yield lst[n//2:]
        yield lst[:n//2]
    for i in range(n):
        yield lst[:i] + lst[i+1:]


SIMPLER = {"verb": 0, "squeeze": None, "xdirect": None, "strength": None, "aniso": None, "epermH": None,
           "epermV": None, "mpermH": None, "mpermV": None, "loop": None, "srcpts": None, "recpts": None,
           "msrc": None, "mrec": None, "bandpass": None}


def simpler_op(op):
    """Candidate simplifications of one call."""
    for k, v in SIMPLER.items():
        if k in op["kw"]:
            o = copy.deepcopy(op)
            if v is None:
                del o["kw"][k]
            else:
                if o["kw"][k] == v:
                    continue
                o["kw"][k] = v
            yield o


def light(make, cap=25000, tries=6):
    """A generated call that needs at most `cap` source lines (kernels included)."""
    from . import sched
    for t in range(tries):
        op = make() if t < tries-1 else {"f": "dipole", "kw": {
            "src": [0, 0, 100], "rec": [500, 100, 200], "depth": [0, 300], "res": [1e20, .3, 1], "freqtime": 1,
            "verb": 0}}

        def go():
            try:
                sched.traced(lambda: ops.run(op, ops.Ctx()), deep=True, cap=cap)
            except sched.SimAbort:
                return False
            return True
        if child(go):
            break
    return op
