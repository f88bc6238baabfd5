"""Histories of saves and loads with write failures, kills and cut files, against a model of the files."""
import copy
import os
import resource
import shutil
import signal
import sys

from . import faults, main, ops, proc, sched, world


def limit(n, kill):
    """No file can grow beyond n bytes: the write that would do so is cut, then fails (or kills)."""
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))


def unlimit():
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


class OpenW:
    """Audit hook: the nth open() of a path for writing fails."""

    installed = False
    match = None
    fired = 0

    @classmethod
    def arm(cls, match, nth, code):
        cls.match, cls.nth, cls.code, cls.n, cls.fired = match, nth, code, 0, 0
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True

    @classmethod
    def hook(cls, event, args):
        if cls.match is None or event != "open" or not isinstance(args[0], str) or cls.match not in args[0]:
            return
        w = isinstance(args[1], str) and any(c in args[1] for c in "wax+") or \
            bool(args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) if isinstance(args[2], int) else False
        if w:
            n, cls.n = cls.n, cls.n + 1
            if n == cls.nth:
                cls.fired += 1
                raise OSError(cls.code, os.strerror(cls.code) + " (simulated)", args[0])


def apply(fn, fault):
    """Run fn() with a write fault; returns (outcome, fired)."""
    k = fault["k"] if fault else None
    if k is None:
        return ops.describe(fn)[0], False
    if k in ("full", "kill"):
        limit(fault["at"], k == "kill")
        try:
            return ops.describe(fn)[0], False
        finally:
            unlimit()
    if k == "killline":
        box = {}

        def g():
            box["o"] = ops.describe(fn)[0]
        sched.traced(g, inject={"at": fault["at"], "exc": "KILL"})
        return box["o"], False
    if k == "line":
        box = {}

        def g():
            box["o"] = ops.describe(fn)[0]
        t = sched.traced(g, inject={"at": fault["at"], "exc": fault["exc"]})
        return box["o"], bool(t.fired)
    if k == "open":
        OpenW.arm("/w/", fault["nth"], fault["code"])
        try:
            return ops.describe(fn)[0], bool(OpenW.fired)
        finally:
            OpenW.match = None
    if k == "locale":
        import locale
        locale.setlocale(locale.LC_ALL, "C")
        try:
            return ops.describe(fn)[0], True
        finally:
            locale.setlocale(locale.LC_ALL, "C.UTF-8")
    raise ValueError(k)


class FileCheck(main.BaseCheck):
    """One run: processes that save and load files, some with faults, checked against a model.

    Subclasses define items (what is saved) and how they are saved, loaded and compared.
    """

    stub = ["disk that is full or fails at a chosen byte (RLIMIT_FSIZE), kills at a chosen byte or source line, "
            "failing open() (audit hook), files cut to a prefix", "clock (pinned)"]
    measure = "distinct (file content length after the fault, outcome) and cut positions"
    cut_cap = 1500          # all prefixes up to this length, else a sample
    cut_n = 250

    # ---- to be provided
    def save(self, item, path):
        raise NotImplementedError

    def load(self, item, path):
        raise NotImplementedError

    def match(self, item, value):
        """None if the value is what item holds, else a text. Called in the child."""
        raise NotImplementedError

    def files(self, d):
        """Files below a directory."""
        out = []
        for b, _, fs in os.walk(d):
            out += [os.path.relpath(os.path.join(b, f), d) for f in fs]
        return sorted(out)

    def sig(self, sc, ev, wd):
        return None

    # ---- generation
    def sizes(self, item, path):
        """(bytes of the biggest file, traced lines of a save)."""
        def go():
            p = []
            try:
                p = sched.profile(lambda: ops.describe(lambda: self.save(item, path)))
            except BaseException:
                pass
            return max([os.path.getsize(f) for f in self.files(".")], default=300), len(p)
        try:
            return world.child(go)
        except Exception:
            return 300, 30

    def fault(self, r, item, path):
        size, lines = self.sizes(item, path)
        k = r.random()
        if k < 0.25:
            return {"k": "full", "at": self.pos(r, size)}
        if k < 0.5:
            return {"k": "kill", "at": self.pos(r, size)}
        if k < 0.75:
            return {"k": "killline", "at": r.randrange(max(lines, 1))}
        if k < 0.88:
            return {"k": "line", "at": r.randrange(max(lines, 1)), "exc": r.choice(faults.INJ)}
        return {"k": "open", "nth": r.choice([0, 0, 1, 2]), "code": r.choice([28, 13, 24, 5, 30])}

    @staticmethod
    def pos(r, size):
        x = r.random()
        if x < 0.15:
            return r.choice([0, 1, 2])
        if x < 0.5:
            return max(0, size - r.randint(1, 40))
        return r.randint(0, size)

    # ---- execution
    def steps(self, sc, steps, send):
        for k, s in steps:
            item = sc["items"][s["it"]] if "it" in s else None
            path = sc["paths"][s["p"]]
            if s["s"] == "save":
                send((k, "try", None))
                o, fired = apply(lambda: self.save(item, path), s.get("fault"))
                o.pop("v", None)
                send((k, "save", (o["st"], o.get("t"), o.get("m"), fired, o.get("o"))))
            elif s["s"] == "load":
                send((k, "load", self.loaded(sc, s["p"], path, s.get("fault"))))
            elif s["s"] == "lose":
                fs = self.files(os.path.dirname(path) or ".")
                fs = [f for f in fs if self.belongs(f, path)]
                if fs:
                    f = os.path.join(os.path.dirname(path), fs[s["f"] % len(fs)])
                    n = int(os.path.getsize(f)*s["frac"]) if s["frac"] < 1 else max(0, os.path.getsize(f)
                                                                                    - int(s["frac"]))
                    os.truncate(f, n)
                send((k, "lose", bool(fs)))
            else:
                self.extra(sc, k, s, item, path, send)

    def extra(self, sc, k, s, item, path, send):
        raise NotImplementedError

    def belongs(self, f, path):
        return os.path.basename(f) == os.path.basename(path)

    def loaded(self, sc, p, path, fault=None, only=None):
        """("exc", type, msg) or ("ok", [items it equals], text about the first mismatch)."""
        box = {}

        def f():
            box["v"] = self.load(sc["hints"][p] if "hints" in sc else None, path)
        o, _ = apply(f, fault)
        if o["st"] == "exc":
            return ("exc", o["t"], o["m"])
        eq, txt = [], None
        for j, it in enumerate(sc["items"]):
            m = self.match(it, box["v"])
            if m is None:
                eq.append(j)
            else:
                txt = txt or m
        return ("ok", eq, txt)

    def run(self, sc):
        res = main.Result()
        res.n = 0
        res.key = []
        logs = []
        cur = {}        # path -> (must, may)
        with world.Dir() as wd:
            w = os.path.join(wd, "w")
            os.makedirs(w)
            for d in sc.get("dirs", []):
                os.makedirs(os.path.join(w, d))
            k = 0
            for pr in sc["procs"]:
                steps = [(k + i, s) for i, s in enumerate(pr)]
                k += len(pr)

                def go(send):
                    world.enter(w)
                    self.steps(sc, steps, send)
                evs, st = proc.fork_stream(go, 100)
                self.check_events(sc, dict(steps), evs, st, cur, res, w)
                logs.append(str([e[:2] + (str(e[2])[:100],) for e in evs]) + str(st))
                res.n += 1
                if res.viol:
                    break
            res.key.append(main.hkey([sc["items"], sc["procs"]]))
            if not res.viol:
                for c in sc["cuts"]:
                    self.cut(sc, c, cur, res, wd, w)
                    if res.viol:
                        break
        res.log = f"{main.hkey(sc)} {logs} {sorted(res.keys)[:20]}"
        return res

    def refuses(self, item):
        """Whether a save may raise for this item."""
        return False

    def check_events(self, sc, steps, evs, st, cur, res, w):
        pend = None
        for k, what, x in evs:
            s = steps[k]
            p = s["p"]
            must, may = cur.get(p, (None, frozenset()))
            fl = s.get("fault")
            if what == "try":
                pend = k
            elif what == "save":
                pend = None
                ok = x[0] == "ok"
                if ok:
                    cur[p] = (s["it"], frozenset([s["it"]]))
                    res.c("saves")
                    if x[3] and fl["k"] in ("line", "open"):
                        res.v("swallowed", f"step {k} {s}: the fault did not reach the caller")
                elif not (fl and fl["k"] != "locale") and self.refuses(sc["items"][s["it"]]):
                    res.c("fault:refused save")     # the file has to be as before
                else:
                    cur[p] = (None, may | {s["it"]})
                    if fl and fl["k"] != "locale":
                        res.c(f"fault:save {fl['k']}")
                        res.keys.add(f"{fl['k']} {x[1]} {self.total(w)}")
                    else:
                        res.v("save", f"step {k} {s}: save fails with {x[1]}: {x[2]}")
            elif what == "lose":
                if x:
                    cur[p] = (None, may)
                    res.c("fault:file cut")
            elif what == "extra":
                for kind, msg in x[0]:
                    res.v(kind, f"step {k} {s}: {msg}")
                for c in x[1]:
                    res.c(c)
            elif what == "resave":
                if must is not None:
                    if x[0] != "ok":
                        res.v("save", f"step {k} {s}: {x[1]}: {x[2]}")
                    cur[s["to"]] = (must, frozenset([must])) if x[0] == "ok" else (None, frozenset())
                else:
                    cur[s["to"]] = (None, may | cur.get(s["to"], (None, frozenset()))[1])
            elif what == "load":
                res.c("loads")
                self.verdict(sc, f"step {k} {s}", p, x, must, may, res, w)
        if st != 0:
            if pend is None:
                raise proc.ChildError(f"child ended with {st} outside of a save: {evs}")
            s = steps[pend]
            must, may = cur.get(s["p"], (None, frozenset()))
            cur[s["p"]] = (None, may | {s["it"]})
            res.c(f"fault:{s['fault']['k']}" if s.get("fault") else "crash")
            if not s.get("fault") or s["fault"]["k"] not in ("kill", "killline"):
                res.v("crash", f"step {pend} {s}: the process died with status {st}")
            res.keys.add(f"{s['fault'] and s['fault']['k']} {self.total(w)}")

    def total(self, w):
        return str([os.path.getsize(os.path.join(w, f)) for f in self.files(w)])

    def verdict(self, sc, where, p, x, must, may, res, w, cut=None):
        if x[0] == "exc":
            if must is not None:
                res.v("load", f"{where}: {x[1]}: {x[2]}", self.sig(sc, ("exc", p, must, may, x), w))
            return
        eq = set(x[1])
        if must is not None:
            if must not in eq:
                res.v("value", f"{where}: not what was saved last: {x[2]}"
                      + (f" (it is item {sorted(eq)})" if eq else ""), self.sig(sc, ("value", p, must, may, x), w))
        elif not (eq & may):
            res.v("garbage", f"{where}: loads as something that is neither the old nor the new content "
                  f"(items {sorted(may)}): {x[2]}" + (f" (it is item {sorted(eq)})" if eq else ""),
                  self.sig(sc, ("cut" if cut else "torn", p, must, may, x), cut or w))

    def cut(self, sc, c, cur, res, wd, w):
        """Load copies of the files of path c["p"], one of them cut to a prefix."""
        p = c["p"]
        must, may = cur.get(p, (None, frozenset()))
        path = sc["paths"][p]
        d = os.path.dirname(path) or "."
        src = os.path.join(w, d)
        fs = [f for f in (self.files(src) if os.path.isdir(src) else []) if self.belongs(f, path)]
        if not fs or not may:
            return
        f = fs[c["f"] % len(fs)]
        b = open(os.path.join(src, f), "rb").read()
        n = len(b)
        if n <= self.cut_cap:
            at = list(range(n))
        else:
            at = sorted(set([int(x*n) for x in c["at"]] + list(range(max(0, n-c["tail"]), n)) + [0, 1, 2]))
        w3 = os.path.join(wd, "w3")

        def go():
            world.enter(w3)
            shutil.copytree(src, d, dirs_exist_ok=True)
            t = os.path.join(d, f)
            out = []
            for k in at:
                with open(t, "wb") as g:
                    g.write(b[:k])
                x = self.loaded(sc, p, path)
                if x[0] == "ok" and not set(x[1]) & may and min(x[1], default=0) >= 0:
                    out.append((k, x))
                    if not self.sig(sc, ("cut", p, None, may, x), w3):
                        break
                else:
                    out.append((k, x[:2]))
            return out
        for k, x in world.child(go, None, 250):
            res.n += 1
            res.c("cut files loaded")
            res.c("cut files refused" if x[0] == "exc" else "cut files loaded as saved content")
            res.keys.add(f"cut {k} of {n}")
            res.key.append(main.hkey([sc["items"], c, k]))
            if x[0] == "ok" and not set(x[1]) & may and min(x[1], default=0) >= 0:
                self.verdict(sc, f"{f} of {path} cut to {k} of {n} bytes", p, x, None, may, res, w, w3)
        shutil.rmtree(w3, ignore_errors=True)

    # ---- minimisation
    def shrink(self, sc):
        if len(sc["cuts"]) > 1:
            for c in sc["cuts"]:
                yield dict(copy.deepcopy(sc), cuts=[c])
        if sc["cuts"]:
            yield dict(copy.deepcopy(sc), cuts=[])
        for i in range(len(sc["procs"])):
            yield dict(copy.deepcopy(sc), procs=sc["procs"][:i] + sc["procs"][i+1:])
        for i, pr in enumerate(sc["procs"]):
            if len(pr) > 1:
                for j in range(len(pr)):
                    new = copy.deepcopy(sc)
                    del new["procs"][i][j]
                    yield new
            for j, s in enumerate(pr):
                if s.get("fault"):
                    new = copy.deepcopy(sc)
                    new["procs"][i][j]["fault"] = None
                    yield new
        yield from self.shrink_items(sc)

    def shrink_items(self, sc):
        return []
