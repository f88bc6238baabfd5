"""C10: the command line succeeds only with a complete, correct result."""
import copy
import json
import os

import numpy as np

from .. import cli, codec, faults, gen, main, ops, sched, world
from .c07 import bits

OUTS = ["out.txt", "out.json", "res/out.txt", "res/ü.json", "o ut.json"]
BADOUT = ["out.dat", "nodir/out.txt", "adir.txt", "full.txt", "full.json", "out", "noext.npz", ""]


def plain(x):
    """JSON content for a modelling argument."""
    def names(v):       # filters by name; they must not be loaded here
        if isinstance(v, dict):
            return v["$f"].split(".")[1] if "$f" in v else {k: names(i) for k, i in v.items()}
        return [names(i) for i in v] if isinstance(v, list) else v
    x = codec.dec(names(x))

    def f(v):
        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, (list, tuple)):
            return [f(i) for i in v]
        if isinstance(v, dict):
            return {k: f(i) for k, i in v.items()}
        if isinstance(v, np.generic):
            return v.item()
        return v
    return f(x)


def tree(d):
    """Everything below a directory."""
    out = {}
    for b, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(b, n), d) + "/"] = ""
        for n in fs:
            p = os.path.join(b, n)
            st = os.lstat(p)
            q = os.path.relpath(p, d)
            out[q] = (os.readlink(p) if os.path.islink(p) else open(p, "rb").read(), st.st_mode)
    return out


class Check(main.BaseCheck):
    prop = "C10"
    level = "fault_enumeration"
    budget = {"quick": (60000, 70), "thorough": (300000, 1200)}
    rule = ("one run = one or two invocations of the command line (mostly simulated processes running the real "
            "__main__ with real streams, some real subprocesses) with seeded faults: damaged inputs, failing opens, "
            "write failures and kills at a chosen byte or source line, interrupts, full or broken stdout; exit status, "
            "message, output and the directory tree are compared with the Python routine; distinct by all of these")
    measure = "distinct (fault, exit status, state of the output file)"
    stub = ["interpreter start and end in the simulated processes (exit status semantics; a sample runs in real ones)",
            "disk that is full or kills at a chosen byte (RLIMIT_FSIZE)", "failing open() (audit hook)",
            "kills and asynchronous exceptions at a source line (tracer)", "clock (pinned)"]

    def item(self, r):
        k = r.random()
        if k < 0.35:
            op = gen.call_dipole(r, time_p=0.2, nmax=2, hooks=False)
        elif k < 0.75:
            op = gen.call_bipole(r, time_p=0.1, nmax=2, hooks=False)
        else:
            op = gen.call_analytical(r, hooks=False)
        if r.random() < 0.12:
            b = gen.bad_call(r)
            if b["f"] in ("dipole", "bipole", "loop", "analytical") and "$h" not in str(b["kw"]):
                op = b
        kw = plain(op["kw"])
        if r.random() < 0.5:
            kw.pop("verb", None)
        if r.random() < 0.1:        # more numbers than NumPy prints
            kw["freqtime"] = [0.1 + 0.01*i for i in range(30)] if "signal" not in kw else kw["freqtime"]
        return op["f"], kw

    def gen(self, r, i):
        f, kw = self.item(r)
        txt = json.dumps(kw, indent=r.choice([None, 1]), ensure_ascii=False)
        sc = {"f": f, "in": txt, "iname": r.choice(["in.json", "in.json", "res/in put.json", "ï.json"]), "inv": []}
        for _ in range(r.choice([1, 1, 2])):
            v = {"args": None, "out": None, "dmg": None, "fault": None, "so": "pipe", "old": None,
                 "real": r.random() < 0.03}
            k = r.random()
            if k < 0.7:
                v["out"] = r.choice(OUTS)
                if r.random() < 0.4:
                    v["old"] = r.choice(["data", "longer", "text", "empty"])
            elif k < 0.85:
                v["out"] = None
                v["so"] = r.choice(["pipe", "pipe", "full", "broken", "file"])
            else:
                v["out"] = r.choice(BADOUT)
            k = r.random()
            if k < 0.25:
                v["dmg"] = r.choice(["missing", "cut", "cut", "cut", "empty", "list", "string", "latin", "dir", "ext",
                                     "key", "nul", "twice", "squeeze"])
                v["frac"] = r.random()
            elif k < 0.75:
                v["fault"] = self.fault(r, sc, v)
            elif k < 0.8:
                v["args"] = r.choice([["nosuch", "$I", "$O"], ["$F", "$I", "$O", "more"], ["$F", "$I", "$O", "--bad"],
                                      ["bipole2", "$I"], ["gpr", "$I", "$O"], ["$F", "nofile.json", "$O"],
                                      ["$F", "$I", "$O", "$O"], ["--", "$F", "$I", "$O"], ["$F", "--", "$I", "$O"]])
            sc["inv"].append(v)
        return sc

    def fault(self, r, sc, v):
        size, lines = self.sizes(sc, v)
        if v["real"]:
            return {"k": r.choice(["full", "kill"]), "at": r.randint(0, size)} if v["out"] else None
        k = r.random()
        if k < 0.3:
            return {"k": r.choice(["full", "full", "kill"]), "at": r.choice([0, 1, max(0, size - r.randint(1, 30)),
                                                                            r.randint(0, size)])}
        if k < 0.5:
            return {"k": "killline", "at": self.at(r, lines)}
        if k < 0.75:
            return {"k": "line", "at": self.at(r, lines), "exc": r.choice(faults.INJ + ["OSError"])}
        if k < 0.85:
            return {"k": "open", "nth": r.choice([0, 0, 1]), "code": r.choice([28, 13, 24, 5, 30])}
        return {"k": "read", "match": r.choice(["/w/", "libdlf/lib"]), "nth": r.choice([0, 0, 1, 2]),
                "exc": r.choice(["OSError", "EMFILE", "FileNotFoundError", "MemoryError", "KeyboardInterrupt"])}

    @staticmethod
    def at(r, lines):
        """Mostly lines of __main__ and io (start and end of the run)."""
        n = len(lines)
        near = [i for i, f in enumerate(lines) if f.endswith(("__main__.py", "io.py"))]
        if near and r.random() < 0.7:
            return r.choice(near)
        return r.randrange(n) if n else 0

    def sizes(self, sc, v):
        def go():
            p = []
            with open("i.json", "w") as f:
                f.write(sc["in"])
            o = (v["out"] or "x").split("/")[-1] or "x"

            def run():
                from empymod import __main__
                try:
                    __main__.main([sc["f"], "i.json"] + ([o] if v["out"] else []))
                except BaseException:
                    pass
            from .. import ops as o2
            p = sched.profile(lambda: o2.describe(run))
            return (os.path.getsize(o) if os.path.isfile(o) else 300), [x[0] for x in p]
        try:
            return world.child(go)
        except Exception:
            return 300, ["__main__.py"]*30

    # ---- what it has to do
    def ref(self, f, txt):
        """("ok", array, text) of the Python routine, or ("exc", ...)."""
        def go():
            import empymod
            try:
                kw = json.loads(txt)
            except (ValueError, RecursionError) as e:
                return ("exc", type(e).__name__, "")
            box = {}

            def call():
                box["v"] = getattr(empymod.model, f)(**{**kw, "squeeze": False})
                print(box["v"])
            o, _ = ops.describe(call)
            if o["st"] == "exc":
                return ("exc", o["t"], o["m"])
            return ("ok", np.array(box["v"]), o["o"])
        return world.child(go)

    def prepare_dir(self, sc, v, w, first):
        for d in ("res", "adir.txt"):
            os.makedirs(os.path.join(w, d), exist_ok=True)
        for n in ("full.txt", "full.json"):
            if not os.path.islink(os.path.join(w, n)):
                os.symlink("/dev/full", os.path.join(w, n))
        if first:
            with open(os.path.join(w, "other.txt"), "w") as f:
                f.write("other\n")
        ip = os.path.join(w, sc["iname"])
        txt = sc["in"]
        iname = sc["iname"]
        d = v["dmg"]
        raw = None
        if d == "cut":
            raw = txt.encode()
            raw = raw[:int(len(raw)*v["frac"])]
        elif d == "empty":
            txt = ""
        elif d == "list":
            txt = "[" + txt + "]"
        elif d == "string":
            txt = "\"src\""
        elif d == "latin":
            raw = txt.encode()[:-1] + b", \"\xe4\": 1}"
        elif d == "key":
            txt = txt.replace("\"src\"", "\"scr\"")
        elif d == "nul":
            raw = txt.encode()
            n = int(len(raw)*v["frac"])
            raw = raw[:n] + b"\0"*(len(raw)-n)
        elif d == "twice":
            txt = txt + txt
        elif d == "squeeze":
            txt = json.dumps({**json.loads(txt), "squeeze": True})
        if d == "missing":
            if os.path.exists(ip):
                os.remove(ip)
        elif d == "dir":
            iname = "adir.txt"
        elif d == "ext":
            iname = iname[:-5] + ".txt"
            with open(os.path.join(w, iname), "w") as f:
                f.write(txt)
        else:
            with open(ip, "wb") as f:
                f.write(raw if raw is not None else txt.encode())
        if d in ("missing", "dir", "ext"):
            content = "!"
        elif raw is not None:
            try:
                content = raw.decode()
            except UnicodeDecodeError:
                content = "!"
        else:
            content = txt
        o = v["out"]
        if o and v["old"] and o in OUTS:
            t = {"text": "old\n", "empty": "", "data": None, "longer": "x y\n"*5000}[v["old"]]
            with open(os.path.join(w, o), "w") as f:
                if t is None:
                    t = ("# shape: (1, 1, 1)\n# dtype: float64\n# data\n+4.2e+01\n" if o.endswith("txt") else
                         '{"shape": "(1, 1, 1)", "dtype": "float64", "data": [[[42.0]]]}')
                f.write(t)
        return iname, content

    def load(self, path):
        def go():
            from empymod import io
            box = {}

            def f():
                box["v"] = io.load_data(path)
            o, _ = ops.describe(f)
            if o["st"] == "exc":
                return None
            return np.array(box["v"])
        return world.child(go)

    def run(self, sc):
        res = main.Result()
        res.key, res.n = [], 0
        memo = {}
        logs = []
        with world.Dir() as wd:
            w = os.path.join(wd, "w")
            os.makedirs(w)
            for j, v in enumerate(sc["inv"]):
                iname, content = self.prepare_dir(sc, v, w, not j)
                out = v["out"]
                args = v["args"] or (["$F", "$I"] + (["$O"] if out is not None else []))
                argv = [{"$F": sc["f"], "$I": iname, "$O": "out.txt" if out is None else out}.get(a, a) for a in args]
                norm = [a for a in argv if a != "--"]
                valid = (v["args"] is None or norm == [sc["f"], iname, "out.txt" if out is None else out])
                oname = (out if v["args"] is None or out is not None else "out.txt") if valid else None
                if oname == "":
                    oname = None
                before = tree(w)
                code, so, se, fired = cli.run(argv, w, v["fault"], v["so"], v["real"])
                after = tree(w)
                res.n += 1
                res.c("real processes" if v["real"] else "simulated processes")
                where = f"empymod {' '.join(argv)} (fault {v['fault']}, damage {v['dmg']}, stdout {v['so']})"
                key = content
                if valid and content != "!" and key not in memo:
                    memo[key] = self.ref(sc["f"], content)
                ref = memo[key] if valid and content != "!" else ("exc", "arguments", "")
                self.judge(sc, v, code, so, se, fired, before, after, ref, oname, where, res, w)
                logs.append(f"{code} {len(so)} {bool(se)} {fired}")
                res.key.append(main.hkey([sc["f"], sc["in"], v]))
                if res.viol:
                    break
        res.log = f"{main.hkey(sc)} {logs}"
        return res

    def judge(self, sc, v, code, so, se, fired, before, after, ref, oname, where, res, w):
        nofault = v["fault"] is None and v["so"] in ("pipe", "file")
        goodout = oname is None or oname == "" or oname in OUTS
        if v["fault"] and (fired or v["fault"]["k"] in ("full", "kill") and code or code in (-25, 9)):
            res.c(f"fault:{v['fault']['k']}")
        if v["dmg"]:
            res.c(f"fault:input {v['dmg']}")
        if v["so"] != "pipe":
            res.c(f"fault:stdout {v['so']}")
        if not goodout:
            res.c("fault:output cannot be opened or written")
        # nothing but the output file
        for q in sorted(set(before) | set(after)):
            if before.get(q) != after.get(q) and q != oname:
                what = "created" if q not in before else "removed" if q not in after else "changed"
                res.v("files", f"{where}: {q} was {what}")
                return
        # the file, if it loads
        state = "none"
        if oname and oname in OUTS and oname in after:
            state = "old" if before.get(oname) == after[oname] else "new"
            got = self.load(os.path.join(w, oname))
            good = got is not None and ref[0] == "ok" and got.shape == ref[1].shape and got.dtype == ref[1].dtype \
                and np.array_equal(bits(got), bits(ref[1]))
            if got is None:
                state += " unreadable"
            if code == 0 and not good:
                res.v("result", f"{where}: exit status 0, but the output file "
                      + ("does not load" if got is None else "holds another result"))
                return
            if code != 0 and got is not None and not good and state == "new":
                res.v("partial", f"{where}: exit status {code}, and an output file that loads as a different result")
                return
        elif code == 0 and oname:
            res.v("result", f"{where}: exit status 0, but there is no output file")
            return
        res.keys.add(f"{v['fault'] and v['fault']['k']} {v['dmg']} {v['so']} {code} {state}")
        if code == 0:
            res.c("exit 0")
            if ref[0] != "ok":
                res.v("status", f"{where}: exit status 0, though the routine raises {ref[1]}: {ref[2]}")
                return
            if v["so"] in ("full", "broken"):
                if not oname:
                    res.v("stdout", f"{where}: exit status 0, though the result could not be written")
                return
            txt = ops.normtext(so.decode("utf-8", "replace"))
            e = ref[2] if not oname else None
            if e is not None and txt != e:
                res.v("stdout", f"{where}: exit status 0, printed {ops._tdiff(txt, e)}")
                return
            if fired and v["fault"]["k"] in ("line", "open"):
                res.v("swallowed", f"{where}: exit status 0 although the fault was raised")
        else:
            res.c("exit non-zero")
            if code > 0 and not se.strip() and code != 9:
                res.v("message", f"{where}: exit status {code} without any message")
                return
            if nofault and goodout and ref[0] == "ok" and (ref[1].ndim == 3 or not oname):
                res.v("refused", f"{where}: exit status {code}: {se.decode('utf-8', 'replace')[-300:]}")

    def shrink(self, sc):
        if len(sc["inv"]) > 1:
            for v in sc["inv"]:
                yield dict(copy.deepcopy(sc), inv=[v])
        for i, v in enumerate(sc["inv"]):
            for k, x in (("old", None), ("so", "pipe"), ("dmg", None), ("fault", None), ("real", False)):
                if v[k] != x:
                    new = copy.deepcopy(sc)
                    new["inv"][i][k] = x
                    yield new
        kw = json.loads(sc["in"])
        for k in ("verb", "aniso", "xdirect", "mpermH", "mpermV", "epermH", "epermV", "strength", "loop"):
            if k in kw:
                yield dict(copy.deepcopy(sc), **{"in": json.dumps({a: b for a, b in kw.items() if a != k})})
