"""Generators of calls (JSON op specs), driven only by a random.Random."""
import copy
import math

HFILT = ["kong_61_2007b", "key_51_2012", "kong_61_2007b", "key_101_2012", "key_101_2009",
         "kong_121_2007", "wer_201_2018", "key_201_2009"]
FFILT = ["key_81_2009", "key_101_2012"]
AB = [11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35, 36, 41, 42, 43, 44, 45,
      46, 51, 52, 53, 54, 55, 56, 61, 62, 63, 64, 65, 66]


def rnd(r, lo, hi, nd=3):
    return round(r.uniform(lo, hi), nd)


def lrnd(r, lo, hi, nd=4):
    v = math.exp(r.uniform(math.log(lo), math.log(hi)))
    return float(f"%.{nd}g" % v)


def model(r, nlay=None, rich=True):
    """depth, res, and optionally the other layer parameters."""
    nlay = nlay or r.choice([1, 2, 3, 3, 4, 5])
    depth, z = [], r.choice([0, 0, 0, -50.0, 100.0])
    for _ in range(nlay - 1):
        depth.append(round(z, 3))
        z += rnd(r, 20, 600, 1)
    res = [lrnd(r, 0.1, 500) for _ in range(nlay)]
    if nlay > 1 and r.random() < 0.5:
        res[0] = 2e14
    m = {"depth": depth, "res": res}
    if rich:
        if r.random() < 0.35:
            m["aniso"] = [rnd(r, 0.5, 3, 2) for _ in range(nlay)]
        if r.random() < 0.15:
            m["epermH"] = [rnd(r, 1, 80, 1) for _ in range(nlay)]
            if r.random() < 0.5:
                m["epermV"] = [rnd(r, 1, 80, 1) for _ in range(nlay)]
        if r.random() < 0.15:
            m["mpermH"] = [rnd(r, 1, 5, 2) for _ in range(nlay)]
            if r.random() < 0.5:
                m["mpermV"] = [rnd(r, 1, 5, 2) for _ in range(nlay)]
        if nlay > 1 and r.random() < 0.12:    # decreasing depths / flipped
            for k in list(m):
                m[k] = m[k][::-1]
    if r.random() < 0.2:
        m["depth"] = {"$a": m["depth"], "d": "f8"}
        m["res"] = {"$a": m["res"], "d": "f8"}
    return m


def plain(x):
    return x["$a"] if isinstance(x, dict) and "$a" in x else x


def nlay_of(kw):
    res = plain(kw["res"])
    if isinstance(res, dict):
        res = plain(res["res"])
    return len(res) if isinstance(res, list) else 1


def zpos(r, kw):
    d = sorted(plain(kw.get("depth", [])) or [0.0])
    lo, hi = d[0]-80, d[-1]+120
    z = rnd(r, lo, hi, 1)
    if any(abs(z-i) < 1 for i in d):
        z += 3.7
    return z


def dip_pos(r, kw, n=1, away=False):
    x0 = r.choice([300.0, 700.0, 1500.0]) if away else 0.0
    if away and n > 1 and r.random() < 0.2:
        n = r.randint(4, 6)
    xs = [round(x0 + rnd(r, -60, 900 if away else 200, 1), 3) for _ in range(n)]
    ys = [rnd(r, -400, 400, 1) for _ in range(n)]
    z = zpos(r, kw)
    if n == 1 and r.random() < 0.7:
        return [xs[0], ys[0], z]
    return [xs, ys, z]


def bip_pos(r, kw, n=1, away=False, kind=None):
    """5-element dipole or 6-element bipole; n positions."""
    x0 = r.choice([300.0, 700.0, 1500.0]) if away else 0.0
    kind = kind or r.choice(["dip", "dip", "bip"])
    ortho = r.random() < 0.4
    same_z = r.random() < 0.5
    xs = [round(x0 + rnd(r, -60, 900 if away else 200, 1), 3) for _ in range(n)]
    ys = [rnd(r, -400, 400, 1) for _ in range(n)]
    zs = [zpos(r, kw) for _ in range(n)]
    if same_z:
        zs = [zs[0]]*n
    if kind == "dip":
        if same_z:
            az, dp = (rnd(r, -180, 180, 0), r.choice([0, 0, 90, rnd(r, -90, 90, 0)]))
            if ortho:
                az, dp = r.choice([(0, 0), (90, 0), (0, 90), (33.0, 0)])
            out = [xs, ys, zs[0], az, dp]
        else:
            az = [rnd(r, -180, 180, 0) for _ in range(n)]
            dp = [r.choice([0, 90, rnd(r, -90, 90, 0)]) for _ in range(n)]
            out = [xs, ys, zs, az, dp]
    else:
        x1 = [round(x + rnd(r, 20, 120, 1), 3) for x in xs]
        y1 = [round(y + r.choice([0.0, rnd(r, -50, 50, 1)]), 3) for y in ys]
        if same_z and r.random() < 0.6:
            z1 = list(zs)
        else:
            z1 = [round(z + rnd(r, -6, 6, 1), 3) for z in zs]
        out = [xs, x1, ys, y1, zs, z1]
    if n == 1:
        out = [i[0] if isinstance(i, list) else i for i in out]
    return out


def freqs(r, nmax=3):
    n = r.randint(1, nmax) if r.random() < 0.85 or nmax < 2 else r.randint(4, 7)
    f = sorted(lrnd(r, 0.05, 50) for _ in range(n))
    if n == 1 and r.random() < 0.6:
        return f[0]
    if r.random() < 0.3:
        return {"$a": f, "d": "f8"}
    return f


def times(r, nmax=2):
    n = r.randint(1, nmax) if r.random() < 0.9 else r.randint(4, 6)
    t = sorted(lrnd(r, 0.05, 20) for _ in range(n))
    if n == 1 and r.random() < 0.6:
        return t[0]
    if r.random() < 0.3:
        return {"$a": t, "d": "f8"}
    return t


def hankel(r, kw, cheap=True, methods=None, standard=False):
    m = r.choice(methods or (["dlf"]*6 + ["qwe", "quad"]))
    if m == "dlf":
        a = {"dlf": r.choice(HFILT[:4] if cheap else HFILT)}
        if r.random() < 0.15:
            a["dlf"] = {"$f": "Hankel." + a["dlf"]}
        if not standard:
            k = r.random()
            if k < 0.2:
                a["pts_per_dec"] = -1
            elif k < 0.35:
                a["pts_per_dec"] = r.choice([10, 20, 30.5])
        if r.random() < 0.8:
            kw["ht"] = r.choice(["dlf", "dlf", "DLF"])
        kw["htarg"] = a
    elif m == "qwe":
        kw["ht"] = "qwe"
        a = {"rtol": r.choice([1e-6, 1e-8]), "nquad": r.choice([7, 11, 21]),
             "maxint": r.choice([10, 20, 40])}
        if not standard and r.random() < 0.4:
            a["pts_per_dec"] = r.choice([20, 40])
            if r.random() < 0.5:
                a["diff_quad"] = r.choice([0.5, 10.0])
                a["limit"] = r.choice([20, 100])
        kw["htarg"] = a
    else:
        kw["ht"] = "quad"
        kw["htarg"] = {"a": 1e-5, "b": r.choice([0.05, 0.1]), "rtol": r.choice([1e-3, 1e-5]),
                       "limit": r.choice([10, 50]), "pts_per_dec": r.choice([5, 10])}
        if r.random() < 0.2:
            kw["htarg"].pop("limit")
    k = r.random()
    if k < 0.12:
        kw["loop"] = "freq"
    elif k < 0.24 and not (m == "dlf" and kw["htarg"].get("pts_per_dec", 0) < 0):
        kw["loop"] = "off"


def fourier(r, kw, methods=None):
    m = r.choice(methods or ["dlf", "dlf", "dlf", "fftlog", "fftlog", "fft", "qwe"])
    kw["ft"] = m
    if m == "dlf":
        a = {"dlf": r.choice(FFILT)}
        k = r.random()
        if k < 0.6:
            a["pts_per_dec"] = r.choice([3, 5, 8])
        elif k < 0.7:
            a["pts_per_dec"] = 0
            if not isinstance(kw["freqtime"], float):
                kw["freqtime"] = plain(kw["freqtime"])[0]
        if r.random() < 0.3 and kw.get("signal") == 0:
            a["kind"] = r.choice(["sin", "cos"])
        if r.random() < 0.1:
            a["dlf"] = {"$f": "Fourier." + a["dlf"]}
    elif m == "fftlog":
        a = {"pts_per_dec": r.choice([4, 5, 10])}
        if r.random() < 0.6:
            a["add_dec"] = r.choice([[-2, 1], [-1, 1], {"$a": [-2.0, 2.0], "d": "f8"}])
        if r.random() < 0.3:
            a["q"] = r.choice([-0.3, 0.4, 0.8])
    elif m == "fft":
        a = {"dfreq": r.choice([0.01, 0.02]), "nfreq": r.choice([16, 32])}
        if r.random() < 0.4:
            a["pts_per_dec"] = r.choice([5, 8])
        if r.random() < 0.4:
            a["ntot"] = r.choice([32, 64])
    else:
        a = {"rtol": 1e-4, "nquad": r.choice([5, 7]), "maxint": r.choice([8, 16]),
             "pts_per_dec": r.choice([5, 8])}
        if r.random() < 0.5:
            a["diff_quad"] = r.choice([1, 10])
            a["limit"] = r.choice([10, 50])
        if r.random() < 0.3:
            a["a"], a["b"] = 1e-3, 10.0
    kw["ftarg"] = a


def hooks_res(r, kw):
    """Turn res into a model dict with a user hook."""
    res = plain(kw["res"])
    n = len(res)
    k = r.random()
    d = {"res": {"$a": res, "d": "f8"} if r.random() < 0.5 else res}
    if k < 0.7:
        d.update(tau=[lrnd(r, 1e-3, 10) for _ in range(n)], c=[rnd(r, 0.1, 0.9, 2) for _ in range(n)],
                 m=[rnd(r, 0, 0.8, 2) for _ in range(n)], func_eta={"$h": "cole_cole"})
        if r.random() < 0.25:
            d["func_eta"]["cache"] = True
        for q in ("tau", "c", "m"):
            if r.random() < 0.7:
                d[q] = {"$a": d[q], "d": "f8"}
    if k > 0.55:
        d.update(chi=[rnd(r, 0, 2, 2) for _ in range(n)], func_zeta={"$h": "zeta"})
        if r.random() < 0.25:
            d["func_zeta"]["cache"] = True
    kw["res"] = d


def common(r, kw, cheap, time_p, standard, methods=None, hooks=True, ftm=None):
    hankel(r, kw, cheap, methods, standard)
    if r.random() < time_p:
        k = r.random()
        if k < 0.15:
            kw["signal"] = {"nodes": [0.0, 0.2, 1.0, 1.3], "amplitudes": [0.0, 1.0, 1.0, 0.0],
                            "signal": r.choice([0, 1, -1])}
            if r.random() < 0.5:
                kw["signal"]["nquad"] = 2
            k = r.random()
            if k < 0.35:
                kw["signal"]["nodes"] = [-2.0, -1.0, -0.5, 0.3]
            elif k < 0.7:
                n = r.choice([2, 3, 4, 5])
                x = [rnd(r, -2, 1, 2)]
                while len(x) < n:
                    x.append(round(x[-1] + r.choice([0.1, 0.5, 1.0, 0.25]), 2))
                kw["signal"]["nodes"] = x
                kw["signal"]["amplitudes"] = [r.choice([0.0, 1.0, -1.0, 0.5]) for _ in x]
            x = kw["signal"]["nodes"]
            n = r.randint(1, 3)
            kw["freqtime"] = sorted(lrnd(r, 0.4, 5) for _ in range(n))
            if r.random() < 0.35:           # at a node
                kw["freqtime"][0] = r.choice([i for i in x if i > 0.05] or kw["freqtime"])
                kw["freqtime"].sort()
            for q in ("nodes", "amplitudes"):
                if r.random() < 0.5:
                    kw["signal"][q] = {"$a": kw["signal"][q], "d": "f8"}
        else:
            kw["signal"] = r.choice([0, 0, 1, -1])
            kw["freqtime"] = times(r)
        # time domain: keep it small
        fourier(r, kw, ftm)
        if kw.get("ht") in ("quad", "qwe"):
            kw["ht"] = "dlf"
            kw["htarg"] = {"dlf": HFILT[0]}
            if kw.get("loop"):
                kw.pop("loop")
        if "pts_per_dec" in kw["htarg"] and r.random() < 0.8:
            kw["htarg"].pop("pts_per_dec")
        if kw["ft"] == "dlf" and "pts_per_dec" not in kw["ftarg"] and r.random() < 0.5:
            kw["ftarg"]["pts_per_dec"] = 4
    else:
        kw["freqtime"] = freqs(r)
        if r.random() < 0.04:
            kw["freqtime"] = [-i for i in (plain(kw["freqtime"]) if not isinstance(kw["freqtime"], float)
                                           else [kw["freqtime"]])]   # Laplace
    f0 = plain(kw["freqtime"])
    laplace = (f0 if isinstance(f0, float) else f0[0]) < 0
    hooks = hooks and not laplace
    if hooks and r.random() < 0.12:
        hooks_res(r, kw)
    if hooks and r.random() < 0.06:
        kw["bandpass"] = {"func": {"$h": "bandpass"}, "fcut": lrnd(r, 0.1, 10)}
    if r.random() < 0.3:
        kw["xdirect"] = r.choice([True, None, False])
    if r.random() < 0.25:
        kw["squeeze"] = r.choice([True, False])
    kw["verb"] = r.choice([0, 0, 1, 1, 2, 3, 4])


def npos(p):
    return max([len(plain(v)) for v in p if isinstance(plain(v), list)], default=1)


def cost(op):
    """Rough number of kernel evaluations (layer x wavenumber x frequency)."""
    kw = op["kw"]
    f = plain(kw["freqtime"]) if "freqtime" in kw else 1.0
    nf = 1 if isinstance(f, (float, int, str)) else len(f)
    a = kw.get("ftarg") or {}
    ppd = a.get("pts_per_dec")
    if kw.get("signal") is not None:
        nt = nf*(8 if isinstance(kw["signal"], dict) else 1)
        nf = {"dlf": (100*nt if ppd == 0 else 50 + 8*nt if not ppd or ppd < 0 else 8*ppd), "fftlog": 7*(ppd or 10),
              "fft": (a.get("nfreq", 0) if not ppd else 4*ppd), "qwe": 7*(ppd or 20)}.get(kw.get("ft"), 100)
        nf = min(nf, 100*nt)
    h = kw.get("htarg") or {}
    n = 1 if op["f"] == "dipole" else 2
    for k in ("src", "rec"):
        if op["f"] != "dipole":
            n *= npos(kw[k])
    if op["f"] != "dipole":
        n *= kw.get("srcpts", 1)*kw.get("recpts", 1)
        noff = 1
    else:
        noff = npos(kw["src"])*npos(kw["rec"])
    if kw.get("ht") == "qwe":
        nl = h.get("nquad", 51)*h.get("maxint", 40)*noff if not h.get("pts_per_dec") else 300
    elif kw.get("ht") == "quad":
        nl = 200 + 300*noff*n*nf
    else:
        nl = 100*noff if not h.get("pts_per_dec") else 250
    return nf*nl*n*(1 + nlay_of(kw))


CAP = 60000


def cheap_enough(f):
    def g(r, *a, **k):
        for _ in range(8):
            op = f(r, *a, **k)
            if cost(op) < CAP:
                break
        return op
    return g


@cheap_enough
def call_dipole(r, cheap=True, time_p=0.25, nmax=3, standard=False, methods=None, hooks=True, ftm=None):
    kw = model(r)
    nl = nlay_of(kw)
    kw["src"] = dip_pos(r, kw, r.choice([1, 1, 2, nmax]))
    kw["rec"] = dip_pos(r, kw, r.choice([1, 1, 2, nmax]), True)
    if r.random() < 0.8:
        kw["ab"] = r.choice(AB if r.random() < 0.7 else [11, 12, 13, 31, 33, 22])
    common(r, kw, cheap, time_p, standard, methods, hooks, ftm)
    if nl == 1 and "xdirect" not in kw and r.random() < 0.5:
        kw["xdirect"] = True
    return {"f": "dipole", "kw": kw}


@cheap_enough
def call_bipole(r, cheap=True, time_p=0.2, nmax=3, standard=False, methods=None, hooks=True, f=None, ftm=None):
    kw = model(r)
    kw["src"] = bip_pos(r, kw, r.choice([1, 1, 2, nmax]))
    kw["rec"] = bip_pos(r, kw, r.choice([1, 1, 2, nmax]), True)
    f = f or ("loop" if r.random() < 0.15 else "bipole")
    if f == "bipole":
        kw["msrc"] = r.choice([False, False, True, "b"])
        kw["srcpts"] = r.choice([1, 1, 2, 3])
    kw["mrec"] = r.choice([False, False, True, "b", "j"]) if f == "bipole" else r.choice([True, "loop", False, "j"])
    if kw["mrec"] == "loop":
        kw["mrec"] = "b"
    kw["recpts"] = r.choice([1, 1, 2, 3])
    if r.random() < 0.4:
        kw["strength"] = r.choice([0, 1, 100.5])
    common(r, kw, cheap, time_p, standard, methods, hooks, ftm)
    cost = kw.get("srcpts", 1)*kw.get("recpts", 1)
    for k in ("src", "rec"):
        cost *= len(kw[k][0]) if isinstance(kw[k][0], list) else 1
    if cost > 8 and kw.get("signal") is None:
        kw.pop("srcpts" if "srcpts" in kw else "recpts")
        if cost > 20:
            kw.pop("recpts", None)
    if kw.get("signal") is not None or kw.get("ht") in ("quad", "qwe"):
        # bound the cost
        for k in ("srcpts", "recpts"):
            if k in kw:
                kw[k] = 1
        for k in ("src", "rec"):
            if r.random() < (0.7 if kw.get("signal") is None else 0.93):
                kw[k] = [i[0] if isinstance(i, list) else i for i in kw[k]]
    return {"f": f, "kw": kw}


def call_analytical(r, time_p=0.3, hooks=True):
    kw = {"res": lrnd(r, 0.1, 500), "solution": r.choice(["fs", "dfs", "dhs", "dhs", "dsplit", "dtetm"])}
    if r.random() < 0.3:
        kw["res"] = [kw["res"]]
    if r.random() < 0.4:
        kw["aniso"] = rnd(r, 0.5, 3, 2)
    k = {"depth": []}
    kw["src"] = dip_pos(r, k, r.choice([1, 1, 2]))
    kw["rec"] = dip_pos(r, k, r.choice([1, 2, 3]), True)
    kw["src"][2], kw["rec"][2] = abs(kw["src"][2]) + 1, abs(kw["rec"][2]) + 2
    if kw["solution"] == "fs":
        kw["ab"] = r.choice(AB)
    else:
        kw["ab"] = r.choice([11, 12, 13, 21, 22, 23, 31, 32, 33])
        if r.random() < time_p:
            kw["signal"] = r.choice([0, 1, -1])
    kw["freqtime"] = freqs(r) if kw.get("signal") is None else times(r)
    if isinstance(kw["freqtime"], float):
        kw["freqtime"] = [kw["freqtime"]]
    if hooks and r.random() < 0.1:
        kw["res"] = [plain(kw["res"]) if not isinstance(kw["res"], list) else kw["res"][0]]
        kw["res"] = kw["res"]
        hooks_res(r, kw)
    kw["verb"] = r.choice([0, 1, 2, 3, 4])
    if r.random() < 0.3:
        kw["squeeze"] = r.choice([True, False])
    return {"f": "analytical", "kw": kw}


def call_dipole_k(r):
    kw = model(r)
    kw["src"] = [0.0, 0.0, zpos(r, kw)]
    kw["rec"] = [rnd(r, 100, 900, 1), rnd(r, -100, 100, 1), zpos(r, kw)]
    kw["freq"] = freqs(r)
    n = r.randint(1, 5)
    kw["wavenumber"] = {"$a": sorted(lrnd(r, 1e-4, 1e-1) for _ in range(n)), "d": "f8"}
    kw["ab"] = r.choice(AB)
    kw["verb"] = r.choice([0, 1, 2, 3])
    return {"f": "dipole_k", "kw": kw}


def call_tmtemod(r):
    n = r.choice([1, 2, 3])
    kw = model(r, n, rich=False)
    z = zpos(r, kw)
    d = sorted(plain(kw["depth"]) or [0.0])
    kw["src"] = [0.0, 0.0, z]
    # same layer for source and receiver
    lo = max([i for i in d if i < z], default=z-50)
    hi = min([i for i in d if i > z], default=z+50)
    kw["rec"] = [[rnd(r, 300, 900, 1) for _ in range(2)], [0.0, rnd(r, 10, 100, 1)],
                 round(r.uniform(lo+.1*(hi-lo), hi-.1*(hi-lo)), 2)]
    kw["freqtime"] = freqs(r, 1)
    if n == 1:
        kw["depth"] = []
    if r.random() < 0.3:
        kw["aniso"] = [rnd(r, 0.5, 3, 2) for _ in range(nlay_of(kw))]
    kw["verb"] = r.choice([0, 1, 2, 3])
    return {"f": "tmtemod", "kw": kw}


def call_gpr(r):
    kw = {"depth": [0.0, rnd(r, 0.5, 2, 2)], "res": [2e14, lrnd(r, 50, 500), lrnd(r, 50, 500)],
          "epermH": [1.0, rnd(r, 2, 20, 1), rnd(r, 2, 20, 1)], "src": [0.0, 0.0, -0.01],
          "rec": [[rnd(r, 1, 3, 2) for _ in range(r.choice([1, 2]))]], "ab": r.choice([11, 22, 11])}
    n = len(kw["rec"][0])
    kw["rec"] = [kw["rec"][0], [0.0]*n, -0.02]
    kw["freqtime"] = {"$a": [1e-8*(i+1) for i in range(r.choice([1, 3]))], "d": "f8"}
    kw["cf"] = 250e6
    kw["gain"] = r.choice([None, 1.0, 2.0])
    kw["ht"] = "dlf"
    kw["htarg"] = {"dlf": HFILT[0]}
    kw["ft"] = "fft"
    kw["ftarg"] = {"dfreq": 5e6, "nfreq": r.choice([16, 32]), "ntot": 64}
    kw["verb"] = r.choice([0, 1, 3])
    return {"f": "gpr", "kw": kw}


def call_ip_and_q(r):
    op = call_dipole(r, time_p=0.0, nmax=2, methods=["dlf"], hooks=False)
    kw = op["kw"]
    kw["ab"] = r.choice([44, 45, 46, 54, 55, 56, 64, 65, 66])
    f = plain(kw["freqtime"])
    if (f if isinstance(f, float) else f[0]) < 0:
        kw["freqtime"] = 1.0
    kw.pop("xdirect", None)
    if r.random() < 0.5:
        kw["scale"] = r.choice([1.0, 1e6])
    op["f"] = "ip_and_q"
    return op


def call_pair(r):
    """One side of a theoretical transform pair."""
    if r.random() < 0.6:
        t = r.choice(["j0", "j1", "j2"])
        spec = {"name": "empy_hankel", "args": [t],
                "kw": {"zsrc": 50.0, "zrec": r.choice([100.0, 70.5]), "res": [1.0, lrnd(r, 1, 20)],
                       "freqtime": lrnd(r, 0.1, 2), "depth": [0.0]}}
        if r.random() < 0.3:
            spec["kw"]["aniso"] = [1.0, rnd(r, 1, 3)]
        if r.random() < 0.3:
            spec["kw"].update(res=lrnd(r, 1, 20), depth=[])
            spec["kw"].pop("aniso", None)
        if r.random() < 0.3:
            spec["kw"]["htarg"] = {"rtol": 1e-5, "nquad": 11, "maxint": 20}
    else:
        t = r.choice(["j0", "j1"])
        spec = {"name": r.choice([f"{t}_{i}" for i in range(1, 6)]),
                "kw": {"a": lrnd(r, 0.5, 5)} if r.random() < 0.5 else {}}
        if spec["name"][-1] in "45":
            spec["kw"] = {"f": lrnd(r, 0.5, 5), "rho": 0.5}
        if r.random() < 0.4:
            spec = {"name": r.choice(PAIRS["sin"] + PAIRS["cos"]), "kw": {"a": 1.5, "inverse": r.random() < 0.5}}
    side = r.choice(["lhs", "rhs", "rhs"])
    x = sorted(lrnd(r, 1e-3, 1) if side == "lhs" else lrnd(r, 5, 1000) for _ in range(r.choice([2, 3, 5])))
    return {"f": "pair", "kw": {"spec": spec, "side": side, "x": {"$a": x, "d": "f8"}}}


PAIRS = {"j0": ["j0_1", "j0_2", "j0_3"], "j1": ["j1_1", "j1_2", "j1_3"],
         "sin": ["sin_1", "sin_2", "sin_3"], "cos": ["cos_1", "cos_2", "cos_3"]}


def call_design(r, small=True):
    kind = r.choice(["j0", "j1", "j01", "sin", "cos", "sc", "j0"])
    fam = {"j01": ["j0", "j1"], "sc": ["sin", "cos"]}.get(kind, [kind])
    ns, nh = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)])
    kw = {"n": r.choice([5, 9, 11, 15]),
          "spacing": [0.1, 0.3, ns] if ns > 1 else rnd(r, 0.1, 0.3, 2),
          "shift": [-2.0, 0.5, nh] if nh > 1 else rnd(r, -2, 0.5, 2),
          "fI": [{"$h": "pair", "name": r.choice(PAIRS[k])} for k in fam],
          "r": {"$a": [round(10**(i/8), 6) for i in range(0, 20)], "d": "f8"},
          "r_def": r.choice([[1, 1, 2], [1, 1, 1], [0, 1, 3]]),
          "cvar": r.choice(["amp", "r"]), "error": r.choice([0.01, 0.05, 0.2]),
          "full_output": r.choice([True, True, False]), "finish": False,
          "save": False, "plot": 0, "verb": r.choice([0, 1, 2])}
    if len(kw["fI"]) == 1 and r.random() < 0.5:
        kw["fI"] = kw["fI"][0]
    if r.random() < 0.5:
        kw["fC"] = [{"$h": "pair", "name": r.choice(PAIRS[k])} for k in fam]
    if r.random() < 0.12 and fam[0] in ("j0", "j1"):     # theoretical pairs which are modelled
        kw["fC"] = [{"$h": "pair", "name": "empy_hankel", "args": ["j2" if len(fam) == 2 else fam[0]],
                     "kw": {"zsrc": 50.0, "zrec": 100.0, "res": [1.0, lrnd(r, 1, 20)], "freqtime": 0.5, "depth": [0.0]}}]
        kw["n"], d0 = r.choice([5, 9]), r.choice([1, 2])
        kw["r"] = {"$a": [round(10**(d0 + i/4), 6) for i in range(8)], "d": "f8"}
    if r.random() < 0.05 and kw["n"] < 12 and (ns, nh) != (1, 1):
        kw["finish"] = True
    if r.random() < 0.3:
        kw["name"] = "mydlf"
    if r.random() < 0.25:
        for g in (kw["fI"] if isinstance(kw["fI"], list) else [kw["fI"]]) + kw.get("fC", []):
            g["cache"] = True
    if r.random() < 0.2:
        kw["reim"] = {"$np": "real"}
        kw.pop("reim")
    return {"f": "design", "kw": kw}


def any_model_call(r, cheap=True, time_p=0.2, **k):
    x = r.random()
    if x < 0.36:
        return call_dipole(r, cheap, time_p, **k)
    if x < 0.66:
        return call_bipole(r, cheap, time_p, **k)
    if x < 0.78:
        return call_analytical(r)
    if x < 0.86:
        return call_dipole_k(r)
    if x < 0.91:
        return call_tmtemod(r)
    if x < 0.94:
        return call_gpr(r)
    if x < 0.965:
        return call_ip_and_q(r)
    return call_design(r)


def call_emarray(r):
    """Amplitude or phase of a result."""
    sh = r.choice([[], [1], [3], [2, 2], [4, 1, 2], [1, 1, 1]])
    n = math.prod(sh)
    v = [[gen0(r), gen0(r)] for _ in range(n)] if r.random() < 0.8 else [gen0(r) for _ in range(n)]
    cplx = isinstance(v[0], list)
    for d in reversed(sh[1:]):
        v = [v[i:i+d] for i in range(0, len(v), d)]
    m = r.choice(["amp", "pha", "pha", "pha"])
    return {"f": "emarray", "kw": {"data": {"$a": v if sh else v[0], "d": "c16" if cplx else "f8"}, "m": m,
                                   "kw": {k: r.random() < 0.5 for k in ("deg", "unwrap", "lag")} if m == "pha" else {}}}


def gen0(r):
    return r.choice([r.choice([-1, 1])*lrnd(r, 1e-15, 1e-8), r.choice([-1, 1])*lrnd(r, 1e-15, 1e-8), 0.0, -1.0])


FAMILIES = ["dlf", "dlf", "qwe", "qwe", "quad", "tdlf", "tfftlog", "tfftlog", "tqwe", "tfft", "twave", "bipole", "bipole",
            "loop", "analytical", "dipole_k", "tmtemod", "gpr", "ip_and_q", "emarray", "design", "pair", "pair"]


def family(r, fam=None):
    """A call of the given kind, all kinds with similar frequency."""
    fam = fam or r.choice(FAMILIES)
    if fam in ("dlf", "qwe", "quad"):
        return call_dipole(r, time_p=0.0, nmax=2, methods=[fam])
    if fam == "twave":
        for _ in range(30):
            op = call_dipole(r, time_p=1.0, nmax=2, ftm=["fftlog", "fftlog", "fft", "dlf"])
            if isinstance(op["kw"]["signal"], dict):
                break
        return op
    if fam in ("tdlf", "tfftlog", "tqwe", "tfft"):
        return (call_dipole if r.random() < 0.7 else call_bipole)(r, time_p=1.0, nmax=2, methods=["dlf"], ftm=[fam[1:]])
    if fam in ("bipole", "loop"):
        return call_bipole(r, time_p=0.05, nmax=2, f=fam)
    return {"analytical": call_analytical, "dipole_k": call_dipole_k, "tmtemod": call_tmtemod, "gpr": call_gpr,
            "ip_and_q": call_ip_and_q, "emarray": call_emarray, "design": call_design, "pair": call_pair}[fam](r)


def focused(r, op, key):
    """A related call that differs in the one argument."""
    o = copy.deepcopy(op)
    for _ in range(5):
        o = tweak(r, op, [key])
        if o != op:
            break
    return o


def focus_keys(op):
    ks = [k for k in op["kw"] if k not in ("fI", "fC", "r", "r_def", "cf", "verb", "ht", "ft", "name", "solution")]
    return ks + [k for k in ks if k in ("ftarg", "htarg", "signal", "res", "rec", "freqtime", "x", "spec")]


def bad_call(r):
    """A call which is rejected by (or fails after) the input checks."""
    op = r.choice([call_dipole, call_bipole, call_analytical, call_dipole_k])(r)
    kw = op["kw"]
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(12)
        if k == 0:
            kw["res"] = [1.0]*9
        elif k == 1:
            kw["src"] = [0, 0]
        elif k == 2:
            kw["rec"] = [[1.0, 2.0, 3.0], [1.0, 2.0], 3.0]
        elif k == 3:
            kw["aniso"] = [1.0]*7
        elif k == 4:
            kw["htarg"] = {"dlf": "no_such_filter"}
            kw["ht"] = "dlf"
        elif k == 5:
            kw["ht"] = "magic"
        elif k == 6:
            kw["ab"] = 77
        elif k == 7:
            kw["freqtime"] = "abc"
        elif k == 8:
            kw["signal"] = 5
        elif k == 9:
            kw["unknownkey"] = 1
        elif k == 10:
            kw["depth"] = [0, 10, 5]
        else:
            kw["htarg"] = {"dlf": "kong_61_2007b", "nonsense": 3}
    return op


def tweak(r, op, only=None):
    """A related call: one (or two) parameters slightly or strongly different."""
    op = copy.deepcopy(op)
    kw = op["kw"]
    if op["f"] == "emarray":
        if r.random() < 0.5:
            kw["m"] = "pha"
            kw["kw"] = {k: r.random() < 0.5 for k in ("deg", "unwrap", "lag")}
        else:
            kw["data"] = call_emarray(r)["kw"]["data"]
        return op
    for _ in range(r.choice([1, 1, 1, 2])):
        cands = [k for k in kw if k not in ("fI", "fC", "r", "r_def", "cf")]
        if only:
            cands = [k for k in cands if k in only] or cands
        k = r.choice(cands)
        v = kw[k]
        p = plain(v)
        if k == "verb":
            kw[k] = r.randrange(5)
        elif k == "squeeze":
            kw[k] = not v
        elif k == "xdirect":
            kw[k] = r.choice([x for x in (True, False, None) if x is not v])
        elif k == "htarg" and isinstance(v, dict) and "dlf" in v and r.random() < 0.7:
            old = v["dlf"]
            v["dlf"] = r.choice(HFILT[:4])
            if old in HFILT and r.random() < 0.5:    # own filter of the same name
                if r.random() < 0.5:
                    v["dlf"] = {"$f": "Hankel." + old, "name": old, "scale": r.choice([1.05, 1.5])}
                else:
                    v["dlf"] = {"$f": "Hankel." + r.choice(HFILT[:4]), "name": old}
        elif k in ("srcpts", "recpts"):
            kw[k] = r.choice([1, 2, 3])
        elif k == "ab":
            kw[k] = r.choice(AB) if op["f"] != "analytical" else v
        elif k in ("msrc",):
            kw[k] = r.choice([False, True, "b"])
        elif k in ("mrec",):
            kw[k] = r.choice([False, True, "b", "j"])
        elif k in ("htarg", "ftarg") and isinstance(v, dict):
            _tw_targ(r, v, kw.get("ft" if k == "ftarg" else "ht"), k == "ftarg")
        elif k == "signal" and isinstance(v, dict):
            _tw_wave(r, v)
        elif k == "signal" and v is not None:
            kw[k] = r.choice([x for x in (0, 1, -1) if x != v])
        elif k == "loop":
            if r.random() < 0.5:
                kw.pop(k)
        elif k == "bandpass" and isinstance(v, dict) and "fcut" in v:
            v["fcut"] = _tw(r, v["fcut"])
        elif k == "spec":
            q = r.choice(sorted(v["kw"]) or [None])
            w = v["kw"].get(q)
            if isinstance(w, float):
                v["kw"][q] = _tw(r, w)
            elif isinstance(w, list) and w and q != "depth":
                w[-1] = _tw(r, w[-1])
        elif k in ("ht", "ft", "solution", "bandpass", "name", "side"):
            continue
        elif isinstance(p, bool) or p is None or isinstance(p, str):
            continue
        elif isinstance(p, (int, float)) and k not in ("n",):
            kw[k] = _tw(r, p)
        elif isinstance(p, list) and p:
            i = r.randrange(len(p))
            if isinstance(p[i], list):
                if p[i]:
                    j = r.randrange(len(p[i]))
                    p[i][j] = _tw(r, p[i][j])
            elif isinstance(p[i], (int, float)) and not (k in ("spacing", "shift") and i == 2):
                p[i] = _tw(r, p[i])
        elif isinstance(p, dict) and "res" in p:
            q = r.choice([x for x in ("res", "tau", "m", "c", "chi") if x in p])
            w = plain(p[q])
            if isinstance(w, list):
                i = r.randrange(len(w))
                w[i] = _tw(r, w[i])
    return op


def _tw_targ(r, a, m, fourier):
    """Another value for one transform argument."""
    if m == "fftlog" and r.random() < 0.3:
        a.setdefault("q", 0.0)
        a.setdefault("add_dec", [-2, 1])
    elif m == "qwe" and r.random() < 0.3:
        a.setdefault("rtol", 1e-6)
        a.setdefault("atol", r.choice([1e-30, 1e-20]))
    ks = [k for k in a if k in ("pts_per_dec", "rtol", "nquad", "maxint", "diff_quad", "limit", "a", "b", "add_dec",
                                "q", "dfreq", "nfreq", "ntot", "dlf", "atol", "kind")]
    if not ks:
        return
    k = r.choice(ks)
    v = a[k]
    if k == "dlf":
        if fourier and isinstance(v, str) and v in FFILT:
            a[k] = r.choice(FFILT)
            if r.random() < 0.4:
                a[k] = {"$f": "Fourier." + r.choice(FFILT), "name": v}
    elif k == "pts_per_dec":
        if v and v > 0:
            a[k] = r.choice([v + 1, v + 2, max(3, v - 1)])
    elif k in ("nquad", "maxint", "limit", "nfreq"):
        a[k] = v + r.choice([1, 2, 4])
    elif k == "ntot":
        a[k] = 2*v
    elif k == "kind":
        a[k] = {"sin": "cos", "cos": "sin"}[v]
    elif k == "atol":
        a[k] = r.choice([1e-30, 1e-20, 1e-15, 1e-12])
    elif k == "add_dec":
        w = plain(v)
        j = r.randrange(len(w))
        w[j] += r.choice([0.5, 0.25, -0.25, 1e-3])
    elif k == "q":
        a[k] = r.choice([0.1, -0.2, 0.5, 0.0])
    else:
        a[k] = v*r.choice([0.5, 1.5, 1.0001, 0.9])


def _tw_wave(r, s):
    k = r.choice(["nodes", "amplitudes", "signal", "nquad"])
    if k == "signal":
        s[k] = r.choice([0, 1, -1])
    elif k == "nquad":
        s[k] = r.choice([2, 3, 4])
    else:
        v = plain(s[k])
        i = r.randrange(len(v))
        if k == "amplitudes":
            v[i] = _tw(r, v[i])
        else:
            lo = v[i-1] if i else v[i] - 0.5
            hi = v[i+1] if i + 1 < len(v) else v[i] + 0.05
            v[i] = round(lo + (hi - lo)*r.uniform(0.2, 0.8), 4)


def _tw(r, v):
    k = r.random()
    if v == 0:
        return r.choice([1e-6, 0.5, 1.0, 0.25])
    if k < 0.2:
        return v*(1 + 1e-9)
    if k < 0.35:
        return v*(1 + 1e-6)
    if k < 0.5:
        return v*(1 + 1e-3)
    return round(v*r.uniform(0.5, 1.8), 4) or v
