"""Snapshot of process-wide settings of Python and NumPy."""
import builtins
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import math
import os
import pickle
import random
import resource
import signal
import socket
import sys
import threading
import time
import warnings

import numpy as np

MODULES = [builtins, np, np.random, math, os, random, time, warnings, sys, signal, threading]


def _h(x):
    return hashlib.sha1(pickle.dumps(x)).hexdigest()


def snapshot():
    s = {}
    s["numpy error handling"] = tuple(sorted(np.geterr().items()))
    s["numpy error callback"] = repr(np.geterrcall())
    s["numpy buffer size"] = np.getbufsize()
    s["numpy print options"] = repr(sorted(np.get_printoptions().items(), key=str))
    s["numpy random state"] = _h([str(i) if i.__class__ is str else np.asarray(i).tolist()
                                  for i in np.random.get_state()])
    s["python random state"] = _h(random.getstate())
    s["warning filters"] = repr(warnings.filters)
    s["warnings.showwarning"] = id(warnings.showwarning)
    s["working directory"] = os.getcwd()
    s["environment"] = tuple(sorted(os.environ.items()))
    s["stdin/stdout/stderr"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = tuple(repr(signal.getsignal(i)) for i in sorted(signal.valid_signals()))
    s["signal mask"] = repr(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])))
    s["timers"] = (signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getitimer(signal.ITIMER_PROF)[0] > 0)
    s["recursion limit"] = sys.getrecursionlimit()
    s["threads"] = (threading.active_count(), tuple(t.name for t in threading.enumerate()))
    s["open files"] = tuple(sorted(fds()))
    s["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook))
    s["switch interval"] = sys.getswitchinterval()
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold())
    s["umask"] = umask()
    s["decimal context"] = repr(decimal.getcontext())
    s["socket timeout"] = socket.getdefaulttimeout()
    s["logging"] = (logging.root.level, tuple(map(repr, logging.root.handlers)), logging.root.manager.disable)
    s["module search path"] = tuple(sys.path)
    s["program arguments"] = tuple(sys.argv)
    s["resource limits"] = (resource.getrlimit(resource.RLIMIT_NOFILE), resource.getrlimit(resource.RLIMIT_FSIZE))
    s["int digits"] = sys.get_int_max_str_digits()
    s["children"] = kids()
    s["fault handler"] = faulthandler.is_enabled()
    s["thread stack size"] = threading.stack_size()
    s["replaced functions"] = {f"{m.__name__}.{k}": id(v) for m in MODULES for k, v in list(vars(m).items())
                               if k not in ("_", "__warningregistry__") and callable(v)}
    return s


def fds():
    """(number, target) of the open files."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink(f"/proc/self/fd/{f}")))
        except OSError:
            pass
    # the listing itself
    return [x for x in out if not x[1].startswith("/proc/")]


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def kids():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f:
            return f.read()
    except OSError:
        return ""


def diff(a, b):
    """Text of the settings that differ (b after a)."""
    out = []
    for k in a:
        if k == "replaced functions":
            # modules may get further attributes (lazy imports)
            x = sorted(i for i in a[k] if b[k].get(i) != a[k][i])
            if x:
                out.append(f"{k}: {x[:5]}")
        elif a[k] != b[k]:
            out.append(f"{k}: {str(b[k])[:200]} instead of {str(a[k])[:200]}")
    return "; ".join(out)


def deep(x, path="", seen=None):
    """Structure and content of an argument, including object identity of containers."""
    if seen is None:
        seen = set()
    if isinstance(x, np.ndarray):
        return ("arr", id(x), x.shape, x.dtype.str, x.strides, x.flags.writeable, x.tobytes(),
                None if x.base is None else np.asarray(x.base).tobytes() if isinstance(x.base, np.ndarray) else 0)
    if isinstance(x, (list, tuple)):
        if id(x) in seen:
            return ("rec",)
        seen.add(id(x))
        return (type(x).__name__, id(x), tuple(deep(i, path, seen) for i in x))
    if isinstance(x, dict):
        if id(x) in seen:
            return ("rec",)
        seen.add(id(x))
        return ("dict", id(x), tuple((repr(k), deep(v, path, seen)) for k, v in x.items()))
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if callable(x) and not hasattr(x, "rhs"):
        return ("fn", id(x))
    if hasattr(x, "__dict__"):
        if id(x) in seen:
            return ("rec",)
        seen.add(id(x))
        return (type(x).__name__, id(x), tuple((k, deep(v, path, seen)) for k, v in vars(x).items()))
    return ("obj", type(x).__name__, id(x))


def where(a, b, path):
    """First place where two deep() descriptions differ."""
    if a == b:
        return None
    if a[0] != b[0]:
        return f"{path} is a {b[0]} (was {a[0]})"
    if a[0] == "arr":
        if a[1] != b[1]:
            return f"{path} is another array"
        if a[2:6] != b[2:6]:
            return f"{path}: layout {b[2:6]} (was {a[2:6]})"
        x, y = np.frombuffer(a[6], a[3]), np.frombuffer(b[6], b[3])
        i = [j for j in range(x.size) if x[j:j+1].tobytes() != y[j:j+1].tobytes()]
        if i:
            return f"{path}[{i[0]}] is {y[i[0]]} (was {x[i[0]]}); {len(i)} of {x.size} changed"
        return f"{path}: the array it is a view of changed"
    if a[0] in ("list", "tuple"):
        if a[1] != b[1]:
            return f"{path} is another object"
        if len(a[2]) != len(b[2]):
            return f"{path} has length {len(b[2])} (was {len(a[2])})"
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            if x != y:
                return where(x, y, f"{path}[{i}]")
    if a[0] in ("str", "int", "float", "complex", "bool", "NoneType"):
        return f"{path} is {b[1]} (was {a[1]})"
    if len(a) > 2 and isinstance(a[2], tuple):
        ka, kb = [x[0] for x in a[2]], [x[0] for x in b[2]]
        if ka != kb:
            return f"{path} has the entries {kb} (were {ka})"
        for x, y in zip(a[2], b[2]):
            if x != y:
                return where(x[1], y[1], f"{path}.{x[0]}")
        return f"{path} is another object"
    return f"{path} differs"
