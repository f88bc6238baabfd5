"""A second interpreter with another hash seed: runs calls in pristine forks of itself.

Frames on stdin/stdout: 8 bytes length, pickle. Started by `Helper`, one per worker and hash seed.
"""
import os
import pickle
import random
import struct
import subprocess
import sys


def rd(f):
    b = f.read(8)
    if len(b) < 8:
        return None
    n = struct.unpack("<Q", b)[0]
    return pickle.loads(f.read(n))


def wr(f, x):
    b = pickle.dumps(x, 4)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def litter(names=("key_201_2009", "wer_201_2018", "key_201_2012", "key_81_2009", "kong_61_2007b")):
    """Files in the working directory which nobody asked empymod to read."""
    for d in ("filters", "lib", "."):
        os.makedirs(d, exist_ok=True)
        for n in names:
            for c in ("base", "j0", "j1", "sin", "cos"):
                with open(f"{d}/{n}_{c}.txt", "w") as f:
                    f.write("1.0\n2.0\n3.0\n")
    for n in ("numpy.py", "libdlf.py", "empymod.cfg", ".empymodrc", "setup.cfg"):
        with open(n, "w") as f:
            f.write("raise ImportError('not this one')\n" if n.endswith("py") else "[empymod]\nmin_res = 1\n")


def go(req):
    import numpy as np
    from . import ops
    os.makedirs("else/where", exist_ok=True)
    os.chdir("else/where")
    if req["litter"]:
        litter()
    random.seed(req["rs"])
    np.random.seed(req["rs"])
    for _ in range(req["rs"] % 7):
        random.random()
        np.random.rand()
    os.environ.update({"HOME": "/nonexistent", "USER": "nobody", "COLUMNS": "20", "EMPYMOD_MIN_RES": "1"})
    return [ops.run(op, ops.Ctx()) for op in req["ops"]]


def serve():
    from . import boot, world
    fin, fout = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_RDWR), 0)
    os.dup2(2, 1)
    boot.setup(jit=False)
    while True:
        req = rd(fin)
        if req is None:
            return
        try:
            wr(fout, (True, world.child(lambda: go(req))))
        except BaseException as e:
            wr(fout, (False, f"{type(e).__name__}: {e}"))


class Helper:
    all = {}

    def __init__(self, seed):
        from . import boot
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.p = subprocess.Popen([sys.executable, "-m", "dst.helper"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, cwd=boot.VERIF, env=env)

    @classmethod
    def get(cls, seed):
        k = (os.getpid(), seed)
        if k not in cls.all:
            cls.all[k] = cls(seed)
        return cls.all[k]

    def run(self, req):
        wr(self.p.stdin, req)
        ans = rd(self.p.stdout)
        if ans is None or not ans[0]:
            raise RuntimeError(f"helper: {ans}")
        return ans[1]


if __name__ == "__main__":
    serve()
