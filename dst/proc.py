"""Forked children: pristine processes, crashes, restarts."""
import os
import pickle
import select
import signal
import struct
import sys
import traceback
from time import monotonic   # real clock: bound before the seam is installed


SCALE = 1.0   # time limits are multiplied by this


class ChildError(Exception):
    """The harness code in the child failed (not a property violation)."""


class Hang(Exception):
    """The child did not finish within its (generous) time limit."""


def fork_run(fn, timeout=120.0, raw=False):
    """Run fn() in a forked copy of this process and return its (pickled) result.

    With raw=True, returns (status, result-or-None): the child may have been killed.
    """
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                r = (True, fn())
            except BaseException as e:
                r = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            try:
                b = pickle.dumps(r, 4)
            except BaseException as e:
                b = pickle.dumps((False, f"unpicklable: {e}"), 4)
            b = struct.pack("<Q", len(b)) + b
            i = 0
            while i < len(b):
                i += os.write(wfd, b[i:i+65536])
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(wfd)
    buf = bytearray()
    timeout = timeout*SCALE
    t_end = monotonic() + timeout
    hung = False
    try:
        while True:
            left = t_end - monotonic()
            if left <= 0:
                hung = True
                break
            rd, _, _ = select.select([rfd], [], [], min(left, 5))
            if not rd:
                continue
            c = os.read(rfd, 1 << 20)
            if not c:
                break
            buf += c
    finally:
        os.close(rfd)
        if hung:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
    if hung:
        raise Hang(f"no result after {timeout} s")
    res = None
    if len(buf) >= 8:
        n = struct.unpack("<Q", bytes(buf[:8]))[0]
        if len(buf) == 8 + n:
            res = pickle.loads(bytes(buf[8:]))
    if raw:
        if res is not None and not res[0]:
            raise ChildError(res[1])
        return st, (res[1] if res else None)
    if res is None:
        raise ChildError(f"child ended with status {st} without a result")
    if not res[0]:
        raise ChildError(res[1])
    return res[1]


def fork_stream(fn, timeout=120.0):
    """Run fn(send) in a forked copy; returns (objects sent, exit status). The child may die any time."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)

            def send(x):
                b = pickle.dumps(x, 4)
                b = struct.pack("<Q", len(b)) + b
                i = 0
                while i < len(b):
                    i += os.write(wfd, b[i:i+65536])
            try:
                fn(send)
                send(("end", None))
            except BaseException as e:
                send(("harness", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(wfd)
    buf = bytearray()
    timeout = timeout*SCALE
    t_end = monotonic() + timeout
    hung = False
    while True:
        left = t_end - monotonic()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([rfd], [], [], min(left, 5))
        if rd:
            c = os.read(rfd, 1 << 20)
            if not c:
                break
            buf += c
    os.close(rfd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Hang(f"no result after {timeout} s")
    out = []
    i = 0
    while len(buf) - i >= 8:
        n = struct.unpack("<Q", bytes(buf[i:i+8]))[0]
        if len(buf) < i + 8 + n:
            break
        out.append(pickle.loads(bytes(buf[i+8:i+8+n])))
        i += 8 + n
    if out and out[-1][0] == "harness":
        raise ChildError(out[-1][1])
    if out and out[-1][0] == "end":
        return out[:-1], 0
    return out, st or -1
