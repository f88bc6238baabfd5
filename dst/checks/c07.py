"""C07: saved data is read back exactly, or loading raises."""
import copy
import os
import struct

import numpy as np

from .. import codec, files

SPECIAL = [0.0, -0.0, float("nan"), float("inf"), float("-inf"), 5e-324, -5e-324, 2.2250738585072014e-308,
           1.7976931348623157e308, -1.7976931348623157e308, 1.0, 0.1, 1/3, 1e22, 1e23, 123456789012345678.0]
INFO = ["", "", "test", "Ünïcode Ω→μ", "data: 3", "# hash", "shape: (1, 2, 3)", "dtype: float64", "a:b:c",
        "x"*200, "{\"data\": [1]}", "  spaces  ", "%s %d", "percent % sign", "(1, 1, 1)", "a, b, c", "back\\slash",
        "quote \" '", "\ttab", "data", "header data complex", "two\nlines", "\n", "a\r\nb", "x\n# shape: (1, 1, 1)", "line\n1.0, 2.0",
        "tab\x0bform\x0c", "\u2028sep"]
NAMES = ["d.txt", "d.json", "sub/a b.txt", "sub/é.json", "x.y.txt", "data.json", "data.txt", ".txt", "sub/.json"]


def number(r):
    k = r.random()
    if k < 0.3:
        return r.choice(SPECIAL)
    if k < 0.7:
        return r.gauss(0, 1)*10**r.uniform(-20, 3)
    return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]


def array(r):
    s = [r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3, 5]), r.choice([1, 1, 2, 3])]
    cp = r.random() < 0.5
    n = s[0]*s[1]*s[2]*(2 if cp else 1)
    plainv = r.random() < 0.3
    v = [r.gauss(0, 1e-12) if plainv else number(r) for _ in range(n)]
    return {"$b": struct.pack(f"<{n}d", *v).hex(), "d": "c16" if cp else "f8", "s": s,
            "o": r.choice(["C", "C", "E", "E", "F", "S", "R"])}


def bits(a):
    """Bit patterns, all NaNs alike."""
    a = np.ascontiguousarray(np.asarray(a))
    u = a.reshape(-1).view(np.float64).copy()
    u[np.isnan(u)] = np.nan
    return u.view(np.uint64)


class Check(files.FileCheck):
    prop = "C07"
    level = "fault_enumeration"
    budget = {"quick": (30000, 70), "thorough": (200000, 1200)}
    rule = ("one evaluation = one simulated process of a seeded save/load history (writes that fail or kill at a "
            "chosen byte or source line, failing opens, interrupts, other locales), or the load of one cut file "
            "(all prefixes of small files, samples of others); distinct by data, history and cut")

    def gen(self, r, i):
        items = []
        for _ in range(r.choice([1, 2, 2, 3])):
            it = {"data": array(r), "info": r.choice(INFO)}
            if r.random() < 0.15:
                it["indent"] = r.choice([None, 0, 1])
            items.append(it)
        if len(items) > 1 and r.random() < 0.5:     # same shape, other values
            it = copy.deepcopy(items[0])
            b = bytearray(bytes.fromhex(it["data"]["$b"]))
            for _ in range(r.choice([1, 3])):
                j = r.randrange(len(b)//8)*8
                b[j:j+8] = struct.pack("<d", number(r))
            it["data"]["$b"] = bytes(b).hex()
            items[1] = it
        paths = r.sample(NAMES, r.choice([1, 1, 2]))
        procs = []
        for _ in range(r.choice([1, 2, 3, 4])):
            pr = []
            for _ in range(r.choice([1, 2, 3])):
                p = r.randrange(len(paths))
                k = r.random()
                if k < 0.6:
                    s = {"s": "save", "p": p, "it": r.randrange(len(items)), "fault": None}
                    if r.random() < 0.45:
                        s["fault"] = self.fault(r, items[s["it"]], paths[p])
                    elif r.random() < 0.1:
                        s["fault"] = {"k": "locale"}
                    pr.append(s)
                    pr.append({"s": "load", "p": p})
                elif k < 0.9:
                    pr.append({"s": "load", "p": p, "fault": {"k": "locale"} if r.random() < 0.15 else None})
                else:
                    pr.append({"s": "lose", "p": p, "f": 0, "frac": r.choice([0, r.random(), r.randint(1, 30)])})
                    pr.append({"s": "load", "p": p})
            procs.append(pr)
        procs.append([{"s": "load", "p": p} for p in range(len(paths))])
        cuts = [{"p": r.randrange(len(paths)), "f": 0, "tail": 120,
                 "at": sorted(round(r.random(), 4) for _ in range(self.cut_n))}]
        return {"items": items, "paths": paths, "dirs": ["sub"], "procs": procs, "cuts": cuts}

    def save(self, item, path):
        from empymod import io
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        kw = {}
        if item["info"]:
            kw["info"] = item["info"]
        if path.endswith("json") and "indent" in item:
            kw["indent"] = item["indent"]
        io.save_data(path, codec.dec(item["data"]), **kw)

    def load(self, hint, path):
        from empymod import io
        return io.load_data(path)

    def match(self, item, v):
        from empymod.utils import EMArray
        e = codec.dec(dict(item["data"], o="C"))
        if type(v) is not EMArray:
            return f"a {type(v).__name__}"
        if v.dtype != e.dtype or v.shape != e.shape:
            return f"{v.dtype} of shape {v.shape} instead of {e.dtype} of shape {e.shape}"
        x, y = bits(v), bits(e)
        d = np.flatnonzero(x != y)
        if d.size:
            return (f"{d.size} of {x.size} numbers differ, e.g. {x.view(float)[d[0]]!r} instead of "
                    f"{y.view(float)[d[0]]!r}")
        return None

    def shrink_items(self, sc):
        for i, it in enumerate(sc["items"]):
            if it["info"]:
                new = copy.deepcopy(sc)
                new["items"][i]["info"] = ""
                yield new
