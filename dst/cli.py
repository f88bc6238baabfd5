"""The command line in a simulated process (forked; real exit codes, streams and files) or a real one."""
import os
import select
import signal
import subprocess
import sys
import traceback
from time import monotonic

from . import boot, faults, files, proc, sched, world


def body(argv, fault):
    """What `python -m empymod ARGV` does, with the exit semantics of the interpreter; returns the code."""
    import runpy
    import warnings
    sys.argv = ["empymod"] + argv
    sys.stdout = sys.__stdout__ = open(1, "w", encoding="utf-8", closefd=False)
    sys.stderr = sys.__stderr__ = open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False,
                                       buffering=1)
    code = 0

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("empymod", run_name="__main__", alter_sys=True)

    def run():
        nonlocal code
        try:
            go()
        except SystemExit as e:
            c = e.code
            if c is None:
                code = 0
            elif isinstance(c, int):
                code = c & 0xff
            else:
                print(c, file=sys.stderr)
                code = 1
        except KeyboardInterrupt:
            traceback.print_exc()
            code = 130
        except BaseException:
            traceback.print_exc()
            code = 1

    k = fault["k"] if fault else None
    if k in ("full", "kill"):
        files.limit(fault["at"], k == "kill")
        run()
    elif k in ("killline", "line"):
        t = sched.traced(run, inject={"at": fault["at"], "exc": "KILL" if k == "killline" else fault["exc"]})
        code = code if not t.fired else code | 0x100
    elif k == "open":
        files.OpenW.arm("/w/", fault["nth"], fault["code"])
        run()
        code = code if not files.OpenW.fired else code | 0x100
    elif k == "read":
        faults.Reads.arm(fault["match"], fault["nth"], fault["exc"])
        run()
        code = code if not faults.Reads.fired else code | 0x100
    else:
        run()
    fired, code = bool(code & 0x100), code & 0xff
    try:
        sys.stdout.flush()
    except BaseException:
        try:
            sys.stderr.write("Exception ignored on flushing sys.stdout\n")
        except BaseException:
            pass
        code = code or 120
    return code, fired


def run(argv, wd, fault=None, out="pipe", real=False, timeout=100):
    """Returns (exit code or -signal, stdout bytes, stderr bytes, fault fired)."""
    if real:
        return run_real(argv, wd, fault, out, timeout)
    eo, ei = os.pipe()
    po, pi = os.pipe()
    st_r, st_w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(eo)
            os.close(po)
            os.close(st_r)
            world.enter(wd)
            if out == "pipe":
                os.dup2(pi, 1)
            elif out == "full":
                fd = os.open("/dev/full", os.O_WRONLY)
                os.dup2(fd, 1)
                os.close(fd)
            elif out == "broken":
                a, b = os.pipe()
                os.close(a)
                os.dup2(b, 1)
                os.close(b)
            elif out == "file":
                fd = os.open(os.path.join(wd, "..", "stdout"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1)
                os.close(fd)
            os.dup2(ei, 2)
            os.close(pi)
            os.close(ei)
            code, fired = body(argv, fault)
            os.write(st_w, b"1" if fired else b"0")
            os._exit(code)
        except BaseException:
            try:
                os.write(st_w, b"X" + traceback.format_exc().encode()[-3000:])
            except BaseException:
                pass
            os._exit(99)
    for fd in (pi, ei, st_w):
        os.close(fd)
    buf = {po: b"", eo: b"", st_r: b""}
    op = set(buf)
    t_end = monotonic() + timeout*proc.SCALE
    hung = False
    while op:
        left = t_end - monotonic()
        if left < 0:
            hung = True
            break
        for fd in select.select(list(op), [], [], min(left, 5))[0]:
            c = os.read(fd, 1 << 20)
            if c:
                buf[fd] += c
            else:
                op.discard(fd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    for fd in buf:
        os.close(fd)
    if hung:
        raise proc.Hang(f"empymod {argv} did not end")
    s = buf[st_r]
    if s[:1] == b"X":
        raise proc.ChildError(s[1:].decode())
    o = buf[po]
    if out == "file":
        p = os.path.join(wd, "..", "stdout")
        o = open(p, "rb").read()
        os.remove(p)
    return (os.waitstatus_to_exitcode(st), o, buf[eo], s == b"1")


def run_real(argv, wd, fault, out, timeout):
    env = dict(os.environ, PYTHONPATH=boot.REPO, NUMBA_DISABLE_JIT="1")

    def pre():
        if fault:
            files.limit(fault["at"], fault["k"] == "kill")
    fo = open("/dev/full", "wb") if out == "full" else subprocess.PIPE
    if out == "broken":
        a, b = os.pipe()
        os.close(a)
        fo = os.fdopen(b, "wb")
    try:
        p = subprocess.run([sys.executable, "-m", "empymod"] + argv, cwd=wd, env=env, stdout=fo,
                           stderr=subprocess.PIPE, timeout=timeout*proc.SCALE, preexec_fn=pre,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise proc.Hang(f"empymod {argv} did not end") from None
    finally:
        if fo is not subprocess.PIPE:
            fo.close()
    return p.returncode, p.stdout or b"", p.stderr, False
