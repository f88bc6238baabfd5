"""Faults put into one call: exceptions at a source line, in user functions, in reads, in libraries."""
import sys

import numpy as np

from . import boot, ops, sched, world

INJ = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SimTimeout", "SystemExit", "RecursionError"]
CBEXC = ["Boom", "BoomBase", "ValueError", "KeyboardInterrupt", "MemoryError", "LinAlgError", "AttributeError",
         "FloatingPointError", "StopIteration", "KeyError", "TypeError", "OSError", "ZeroDivisionError",
         "IndexError", "SystemExit", "RuntimeError", "FileNotFoundError", "ImportError", "ArithmeticError",
         "AssertionError", "NotImplementedError", "GeneratorExit"]


class Reads:
    """Audit hook: makes chosen open() calls fail."""

    installed = False
    match = None          # substring of the path
    nth = None            # which matching open fails
    count = 0
    fired = 0
    exc = None

    @classmethod
    def arm(cls, match, nth, exc="OSError"):
        cls.match, cls.nth, cls.count, cls.fired, cls.exc = match, nth, 0, 0, exc
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True

    @classmethod
    def off(cls):
        cls.match = None

    @classmethod
    def hook(cls, event, args):
        if cls.match is None or event != "open" or not isinstance(args[0], str):
            return
        if cls.match in args[0]:
            n = cls.count
            cls.count += 1
            if n == cls.nth:
                cls.fired += 1
                e = {"OSError": OSError(5, "Input/output error (simulated)", args[0]),
                     "EMFILE": OSError(24, "Too many open files (simulated)", args[0]),
                     "FileNotFoundError": FileNotFoundError(2, "No such file (simulated)", args[0]),
                     "MemoryError": MemoryError("simulated"),
                     "KeyboardInterrupt": KeyboardInterrupt("simulated")}[cls.exc]
                raise e


def faulted(fn, fault, ctx):
    """Run fn() once with the fault; returns (outcome, fired, expected exception type or None)."""
    k = fault["kind"] if fault else "none"
    fired = []

    def run():
        return ops.describe(fn)

    out = {}
    if k in ("none", "bad"):
        o, v = run()
        return o, (k == "bad" and o["st"] == "exc"), None, v
    if k == "line":
        def g():
            out["r"] = run()
        t = sched.traced(g, inject={"at": fault["at"], "exc": fault["exc"]})
        o, v = out["r"]
        return o, t.fired, fault["exc"], v
    if k == "read":
        Reads.arm(fault["match"], fault["nth"], fault["exc"])
        try:
            o, v = run()
        finally:
            Reads.off()
        return o, bool(Reads.fired), {"EMFILE": "OSError"}.get(fault["exc"], fault["exc"]), v
    if k == "cb":
        ctx.cb = {f"*:{fault['nth']}": {"do": "raise", "exc": fault["exc"]}}
        ctx.total = 0
        n0 = len(ctx.fired)
        try:
            o, v = run()
        finally:
            ctx.cb = {}
        return o, len(ctx.fired) > n0, fault["exc"], v
    if k == "linalg":
        seen = [0]

        def hook(name, args):
            seen[0] += 1
            return seen[0] - 1 == fault["nth"]
        boot.LINALG.fired = []
        boot.LINALG.hook = hook
        try:
            o, v = run()
        finally:
            boot.LINALG.off()
        return o, bool(boot.LINALG.fired), None, v
    raise ValueError(k)


def line_points(r, op, n, deep=False, prep=None):
    """n events of the call at which an exception is to be raised (by code line, then occurrence)."""
    def go():
        if prep:
            prep()
        p = sched.profile(lambda: ops.run(op, ops.Ctx()), deep=deep)
        hot, warm = sched.shared_lines()
        by = {}
        for i, loc in enumerate(p):
            by.setdefault(loc, []).append(i)
        return [(len(p), sorted((k, v[0], v[-1], len(v), v[len(v)//2]) for k, v in by.items()),
                 sorted(hot & set(by)), sorted(warm & set(by)))]
    (tot, every, hot, warm), = world.child(go)
    hot, warm = set(hot), set(warm)
    sel = [[x for x in every if x[0] in hot], [x for x in every if x[0] in warm]]
    out = []
    for _ in range(n):
        if not every:
            break
        k = r.random()
        locs = sel[0] if k < 0.15 and sel[0] else sel[1] if k < 0.45 and sel[1] else every
        loc, a, b, m, c = r.choice(locs)
        out.append(r.choice([a, a, b, c]) if r.random() < 0.85 else r.randrange(tot))
    return out


def hooked(op):
    """Number of user functions in the arguments."""
    return str(op["kw"]).count("'$h'")


_ = np
