"""Definitions of the planted bugs (see plant.py)."""
BUGS = []
PRE = """
import numpy as np, os, sys, io, contextlib
import empymod
from empymod import model, utils, transform, filters, kernel
_exit = sys.exit
sys.exit = lambda v=0: _exit(v if isinstance(v, int) else int(bool(v)))
F61 = dict(ht='dlf', htarg={'dlf': 'kong_61_2007b'}, verb=0)
"""


def bug(id, edits, demo, needs, breaks, sh=False):
    BUGS.append(dict(id=id, edits=edits, demo=demo if sh else PRE + demo, needs=needs, breaks=breaks, sh=sh))


# ------------------------------------------------------------------ C01
bug("C01-fftlog-kr-cache", [
    ("transform.py", "def get_fftlog_input(rmin, rmax, n, q, mu):\n", "_fftlog_phase = {}\n\n\ndef get_fftlog_input(rmin, rmax, n, q, mu):\n"),
    ("transform.py", """    y = 1j*np.pi/(2.0*dlnr)
    zp = sp.special.loggamma((mu + 1.0 + q)/2.0 + y)
    zm = sp.special.loggamma((mu + 1.0 - q)/2.0 + y)
    arg = np.log(2.0)/dlnr + (zp.imag + zm.imag)/np.pi
    kr = np.exp((arg - np.round(arg))*dlnr)
""", """    key = (int(n), round(float(dlogr), 3), float(mu))
    if key not in _fftlog_phase:
        y = 1j*np.pi/(2.0*dlnr)
        zp = sp.special.loggamma((mu + 1.0 + q)/2.0 + y)
        zm = sp.special.loggamma((mu + 1.0 - q)/2.0 + y)
        arg = np.log(2.0)/dlnr + (zp.imag + zm.imag)/np.pi
        _fftlog_phase[key] = np.exp((arg - np.round(arg))*dlnr)
    kr = _fftlog_phase[key]
""")], """
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=[0.5, 1.2], signal=0,
          ft='fftlog', **F61)
def one(q):
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, np.asarray(model.dipole(**kw, ftarg={'q': q})).tobytes()); os._exit(0)
    os.wait()
    return np.frombuffer(os.read(r, 1000))
fresh = one(0.4)
model.dipole(**kw, ftarg={'q': 0.0})
sys.exit(not np.array_equal(model.dipole(**kw, ftarg={'q': 0.4}), fresh))
""", "two time-domain calls with FFTLog that differ in the bias q (same times, same points per decade)",
    "the second call uses the low-ringing kr of the first one")

bug("C01-waveform-cache", [
    ("utils.py", "def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):\n",
     "_slopes = {}\n\n\ndef check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):\n"),
    ("utils.py", """    dt = np.diff(nodes)
    dI = np.diff(amplitudes)
    dIdt = dI/dt
""", """    key = (tuple(np.ravel(amplitudes)), len(nodes), float(nodes[-1]))
    if key not in _slopes:
        _slopes[key] = np.diff(amplitudes)/np.diff(nodes)
    dIdt = _slopes[key]
""")], """
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=[1.5, 2.2], ft='fftlog', **F61)
def sig(x): return {'nodes': [-1., x, 1.], 'amplitudes': [0., 1., 1.]}
def one(x):
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, np.asarray(model.dipole(**kw, signal=sig(x))).tobytes()); os._exit(0)
    os.wait()
    return np.frombuffer(os.read(r, 1000))
fresh = one(0.7)
model.dipole(**kw, signal=sig(0.1))
sys.exit(not np.array_equal(model.dipole(**kw, signal=sig(0.7)), fresh))
""", "two calls with waveforms of equal amplitudes and last node but another ramp length",
    "the slopes of the first waveform are used for the second one")

bug("C01-spline-points", [
    ("transform.py", "def get_dlf_points(filt, inp, nr_per_dec):\n", "_dlf_out = {}\n\n\ndef get_dlf_points(filt, inp, nr_per_dec):\n"),
    ("transform.py", """        out = 10**np.arange(np.log10(outmin), np.log10(outmin) +
                            nout/pts_per_dec, 1/pts_per_dec)
""", """        key = (filt.name, filt.base.size, inp.min(), inp.max(), nout)
        if key not in _dlf_out:
            if len(_dlf_out) > 20:
                _dlf_out.clear()
            _dlf_out[key] = 10**np.arange(np.log10(outmin), np.log10(outmin) +
                                          nout/pts_per_dec, 1/pts_per_dec)
        out = _dlf_out[key]
""")], """
import copy
f1 = filters.Hankel().kong_61_2007b
f2 = copy.deepcopy(f1)
f2.base = f1.base*1.2
kw = dict(src=[0, 0, 10], rec=[[500, 900], [0, 0], 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=1, ht='dlf', verb=0)
r, w = os.pipe()
if os.fork() == 0:
    os.write(w, np.asarray(model.dipole(**kw, htarg={'dlf': f2, 'pts_per_dec': 20})).tobytes()); os._exit(0)
os.wait()
fresh = np.frombuffer(os.read(r, 1000), dtype=complex)
model.dipole(**kw, htarg={'dlf': f1, 'pts_per_dec': 20})
sys.exit(not np.array_equal(model.dipole(**kw, htarg={'dlf': f2, 'pts_per_dec': 20}), fresh))
""", "splined DLF with two filters of the same name and length, but different base (e.g. two designs with the default name)",
    "the second call evaluates the kernel at the points of the first filter")

bug("C01-verb-first-warning", [
    ("utils.py", "def conv_warning(conv, targ, name, verb):\n", "_minwarned = set()\n\n\ndef conv_warning(conv, targ, name, verb):\n"),
    ("utils.py", "        if verb > 0 and np.size(ipar) != 0:\n",
     "        if verb > 0 and np.size(ipar) != 0 and not (\n                name in _minwarned and np.size(ipar) > 1):\n            _minwarned.add(name)\n")], """
def txt():
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        model.dipole([0, 0, 10], [[0, 0], [0, 0], 20], [0], [1e10, 1], 1, **{**F61, 'verb': 1})
    return o.getvalue()
a = txt()
sys.exit(not (a and a == txt()))
""", "two calls in one process in which more than one value (e.g. two offsets) is below the minimum",
    "the warning that values were set to the minimum is only printed by the first call")

# ------------------------------------------------------------------ C02
bug("C02-tem-buffer", [
    ("model.py", "def tem(fEM, off, freq, time, signal, ft, ftarg, conv=True):\n",
     "_tem_buffer = {}\n\n\ndef tem(fEM, off, freq, time, signal, ft, ftarg, conv=True):\n"),
    ("model.py", "    tEM = np.zeros((time.size, off.size))\n",
     "    key = (time.size, off.size)\n    if key not in _tem_buffer:\n        _tem_buffer[key] = np.empty(key)\n"
     "    tEM = _tem_buffer[key]\n    tEM[:] = 0\n"),
    ("model.py", """    tEM *= 2/np.pi  # Scaling from Fourier transform
""", """    tEM = tEM*2/np.pi  # Scaling from Fourier transform
""")], """
import threading
kw = dict(src=[0, 0, 10], rec=[[500, 700], [0, 0], 20], depth=[0, 50], freqtime=[1., 2.], signal=0, ft='fftlog', **F61)
alone = [np.array(model.dipole(res=[1e10, x, 10], **kw)) for x in (1., 7.)]
orig, step, got = transform.fourier_fftlog, threading.Event(), {}
state = {'n': 0}
def slow(*a):
    out = orig(*a)
    if threading.current_thread().name == 'A':
        state['n'] += 1
        if state['n'] == 2:
            step.set(); t2.join()
    return out
transform.fourier_fftlog = slow
def run(n, x): got[n] = np.array(model.dipole(res=[1e10, x, 10], **kw))
t1 = threading.Thread(target=run, args=('A', 1.), name='A')
t2 = threading.Thread(target=lambda: (step.wait(), run('B', 7.)), name='B')
t1.start(); t2.start(); t1.join(); t2.join()
sys.exit(not (np.array_equal(got['A'], alone[0]) and np.array_equal(got['B'], alone[1])))
""", "two threads in a time-domain call with the same number of times and offsets, switching within tem()",
    "both threads write to one reused work array")

bug("C02-qwe-recursion-shared", [
    ("transform.py", "def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,\n        ang_fact=None):\n",
     "_qwe_off = []\n\n\ndef qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,\n        ang_fact=None):\n"),
    ("transform.py", """            EMi = inp(i, lambd[om, :], off[om], ang_fact[om])
""", """            _qwe_off[:] = [lambd[om, :], off[om], ang_fact[om]]
            EMi = inp(i, *_qwe_off)
""")], """
import threading
kw = dict(src=[0, 0, 10], depth=[0, 50], res=[1e10, 1, 10], freqtime=1., ht='qwe', htarg={'maxint': 10}, verb=0)
R = [[500, 0, 20], [900, 0, 20]]
alone = [complex(model.dipole(rec=r, **kw)) for r in R]
go, done, got = threading.Event(), threading.Event(), {}
src = open(transform.__file__).read().split('\\n')
line = next(i for i, l in enumerate(src, 1) if 'EMi = inp(i, ' in l)
hit = []
def tracer(f, ev, arg):
    if f.f_code.co_name != 'qwe': return tracer if ev == 'call' else None
    def loc(f, ev, arg):
        if ev == 'line' and f.f_lineno == line and f.f_locals.get('i') == 2 and not hit:
            hit.append(1); go.set(); done.wait(60)
        return loc
    return loc
def A():
    sys.settrace(tracer); got[0] = complex(model.dipole(rec=R[0], **kw)); sys.settrace(None)
def B():
    go.wait(60); got[1] = complex(model.dipole(rec=R[1], **kw)); done.set()
ts = [threading.Thread(target=A), threading.Thread(target=B)]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(not (got[0] == alone[0] and got[1] == alone[1]))
""", "two threads in QWE (without spline), switching exactly between the two statements", "a thread integrates the kernel of the other one's offsets")

bug("C02-minimum-swap", [
    ("utils.py", """    off = _check_min(off, _min_off, 'Offsets', 'm', verb)

    return off, angle
""", """    global _last_off
    _last_off = off
    _check_min(off, _min_off, 'Offsets', 'm', verb)

    return _last_off, angle
""")], """
import threading
kw = dict(src=[0, 0, 10], depth=[0, 50], res=[1e10, 1, 10], freqtime=1., **F61)
R = [[500, 0, 20], [900, 0, 20]]
alone = [complex(model.dipole(rec=r, **kw)) for r in R]
go, done, got, orig = threading.Event(), threading.Event(), {}, utils._check_min
def slow(par, minval, name, unit, verb):
    out = orig(par, minval, name, unit, verb)
    if name == 'Offsets' and threading.current_thread().name == 'A':
        go.set(); done.wait(60)
    return out
utils._check_min = slow
def A(): got[0] = complex(model.dipole(rec=R[0], **kw))
def B(): go.wait(60); got[1] = complex(model.dipole(rec=R[1], **kw)); done.set()
ts = [threading.Thread(target=A, name='A'), threading.Thread(target=B, name='B')]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(not (got[0] == alone[0] and got[1] == alone[1]))
""", "two threads in any call, switching within the minimum check of the offsets", "a thread goes on with the offsets of the other one")

# ------------------------------------------------------------------ C03
bug("C03-lock-not-released", [
    ("filters.py", "import os\nimport warnings\n", "import os\nimport threading\nimport warnings\n"),
    ("filters.py", "class _BaseFilter:\n", "_loading = threading.Lock()\n\n\nclass _BaseFilter:\n"),
    ("filters.py", """                data = getattr(getattr(libdlf, ftype), name)
                dlf = DigitalFilter(name)
""", """                _loading.acquire()
                data = getattr(getattr(libdlf, ftype), name)
                dlf = DigitalFilter(name)
"""),
    ("filters.py", """                FILTERS[ftype][name] = dlf
""", """                FILTERS[ftype][name] = dlf
                _loading.release()
""")], """
import libdlf, signal
orig = np.load
def bad(*a, **k): raise OSError(5, 'Input/output error')
np.load = bad
try: model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], 1, ht='dlf', htarg={'dlf': 'key_101_2012'}, verb=0)
except OSError: pass
np.load = orig
signal.alarm(60)
model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], 1, ht='dlf', htarg={'dlf': 'key_101_2012'}, verb=0)
""", "a failing read (or an interrupt) while a filter is loaded for the first time, and a later call that needs another filter load",
    "the lock stays taken: the later call blocks forever")

bug("C03-min-off-not-restored", [
    ("scripts/fdesign.py", """        out = dipole(rec=[r*x, r*y, zrec], ht='qwe', xdirect=True,
                     verb=verbrhs, htarg=htarg, freqtime=freqtime, **model)
        return out
""", """        mins = get_minimum()
        set_minimum(min_off=min(mins['min_off'], np.min(r)))
        out = dipole(rec=[r*x, r*y, zrec], ht='qwe', xdirect=True,
                     verb=verbrhs, htarg=htarg, freqtime=freqtime, **model)
        set_minimum(**mins)
        return out
"""), ("scripts/fdesign.py", "from empymod.utils import printstartfinish, timedelta, default_timer\n",
      "from empymod.utils import (printstartfinish, timedelta, default_timer,\n                           get_minimum, set_minimum)\n")], """
from empymod.scripts import fdesign
tp = fdesign.empy_hankel('j0', 10, 20, [1.], 1, depth=[], htarg={'nquad': 'x'})
m = utils.get_minimum()
try: tp.rhs(np.array([1e-5, 1.]))
except ValueError: pass
sys.exit(utils.get_minimum() != m)
""", "a filter design with empy_hankel pairs whose (modelled) right-hand side fails or is interrupted, for r below the minimum offset",
    "the minimum offset stays changed for the process")

bug("C03-sanitize-errstate", [
    ("transform.py", """            with np.errstate(all='ignore'):
                S[om, k-1] = np.where(np.abs(ddff) < np.finfo(np.double).tiny,
                                      np.finfo(np.double).max, aux1 + 1/ddff)
""", """            old = np.seterr(all='ignore')
            S[om, k-1] = np.where(np.abs(ddff) < np.finfo(np.double).tiny,
                                  np.finfo(np.double).max, aux1 + 1/ddff)
            np.seterr(**old)
""")], """
class Abort(Exception): pass
orig = np.where
def bad(*a):
    if len(a) == 3: raise Abort
    return orig(*a)
e = np.geterr()
np.where = bad
try: model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], 1, ht='qwe', verb=0)
except Abort: pass
np.where = orig
sys.exit(np.geterr() != e)
""", "an abort (interrupt, out of memory) within the extrapolation step of QWE", "NumPy's floating-point error handling stays off")

# ------------------------------------------------------------------ C04
bug("C04-check-var-view", [
    ("utils.py", "    var = np.array(var, dtype=dtype, copy=True, ndmin=ndmin)\n",
     "    var = np.array(var, dtype=dtype, ndmin=ndmin,\n                   copy=True if ndmin == 0 or np.ndim(var) < 2 and np.size(var) < 4 else None)\n")], """
f = np.array([0.1, 1e-30, 1, 10, 100.])
g = f.copy()
model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], f, **F61)
sys.exit(not np.array_equal(f, g))
""", "an argument given as float64 array of four or more values, of which one is below the minimum", "values below the minimum are replaced in the caller's array")

bug("C04-filter-coeff-list", [
    ("filters.py", """        self.filter_coeff = ['j0', 'j1', 'sin', 'cos']
        if filter_coeff is not None:  # Additional, user provided.
            self.filter_coeff.extend(filter_coeff)
""", """        self.filter_coeff = ['j0', 'j1', 'sin', 'cos']
        if filter_coeff is not None:  # Additional, user provided.
            filter_coeff[:0] = self.filter_coeff
            self.filter_coeff = filter_coeff
""")], """
from empymod.scripts import fdesign
f = filters.DigitalFilter('x'); f.base = np.array([1., 2, 3]); f.j0 = np.ones(3); f.factor = np.array([2.])
fdesign.save_filter('x', f, path=os.environ['D'])
c = ['abc']
fdesign.load_filter('x', path=os.environ['D'], filter_coeff=c)
sys.exit(c != ['abc'])
""", "a filter created or loaded with a list of additional coefficient names", "the caller's list is extended")

bug("C04-design-inplace-rhs", [
    ("scripts/fdesign.py", "        rhs = reim(f.rhs(r)*r)\n", "        rhs = f.rhs(r)\n        rhs *= r\n        rhs = reim(rhs)\n")], """
from empymod.scripts import fdesign
class Tp:
    name = 'j0'
    def __init__(self): self.store = {}
    def lhs(self, x): return x*np.exp(-x**2)
    def rhs(self, b):
        k = b.tobytes()
        if k not in self.store: self.store[k] = np.exp(-b**2/4)/2
        return self.store[k]
tp = Tp()
a = fdesign.design(9, 0.2, -1, tp, fC=fdesign.j0_1(), r=np.logspace(0, 2, 20), save=False, plot=0, verb=0)
s = {k: v.copy() for k, v in tp.store.items()}
b = fdesign.design(9, 0.2, -1, tp, fC=fdesign.j0_1(), r=np.logspace(0, 2, 20), save=False, plot=0, verb=0)
sys.exit(not (np.array_equal(a.j0, b.j0) and all(np.array_equal(v, s[k]) for k, v in tp.store.items())))
""", "a transform pair that keeps (caches) the arrays its functions return, used for more than one grid point or design",
    "the values kept by the user's transform pair are changed in place")


# ------------------------------------------------------------------ C05
bug("C05-shared-zeros", [
    ("model.py", "def fem(ab, off, angle, zsrc, zrec, lsrc, lrec, depth, freq, etaH, etaV, zetaH,\n",
     "_zero_fields = {}\n\n\ndef fem(ab, off, angle, zsrc, zrec, lsrc, lrec, depth, freq, etaH, etaV, zetaH,\n"),
    ("model.py", """    if ab in [36, ]:
        return fEM, kcount, conv
""", """    if ab in [36, ]:
        return _zero_fields.setdefault(fEM.shape, fEM), kcount, conv
""")], """
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=[1, 2], ab=36, **F61)
a = model.dipole(**kw)
a += 1
sys.exit(np.any(model.dipole(**kw) != 0))
""", "two calls of dipole for ab=36 or 63 (zero by definition) of the same shape, the first result overwritten", "all zero results share one array")

bug("C05-filter-base-cache", [
    ("scripts/fdesign.py", "@np.errstate(all='ignore')\ndef _calculate_filter(n, spacing, shift, fI, r_def, reim, name):\n",
     "_bases = {}\n\n\n@np.errstate(all='ignore')\ndef _calculate_filter(n, spacing, shift, fI, r_def, reim, name):\n"),
    ("scripts/fdesign.py", "    base = np.exp(spacing*(np.arange(n)-n//2) + shift)\n",
     "    key = (n, float(spacing), float(shift))\n    if key not in _bases:\n"
     "        _bases.clear()  # Keep only the last one.\n"
     "        _bases[key] = np.exp(spacing*(np.arange(n)-n//2) + shift)\n    base = _bases[key]\n")], """
from empymod.scripts import fdesign
kw = dict(n=9, spacing=0.2, shift=-1, fI=fdesign.j0_1(), r=np.logspace(0, 2, 20), save=False, plot=0, verb=0)
a = fdesign.design(**kw)
b0 = a.base.copy()
a.base *= 2
sys.exit(not np.array_equal(fdesign.design(**kw).base, b0))
""", "a designed filter whose base is changed (e.g. shifted) by its owner, and a second design whose first point is the best point of the first",
    "the second design uses and returns the changed base")

bug("C05-load-cache", [
    ("io.py", "def load_input(fname):\n", "_inputs = {}\n\n\ndef load_input(fname):\n"),
    ("io.py", """        with open(fname, "r", encoding="utf-8") as f:
            data = json.load(f)
""", """        with open(fname, "r", encoding="utf-8") as f:
            text = f.read()
        if text not in _inputs:
            _inputs.clear()
            _inputs[text] = json.loads(text)
        data = dict(_inputs[text])
""")], """
p = os.path.join(os.environ['D'], 'a.json')
empymod.io.save_input(p, {'src': [0, 0, 10], 'res': [1, 2]})
a = empymod.io.load_input(p)
a['src'][2] = 99
sys.exit(empymod.io.load_input(p)['src'] != [0, 0, 10])
""", "an input loaded twice, a nested list of the first result changed in between", "the second load returns the changed list")

# ------------------------------------------------------------------ C06
bug("C06-registered-early", [
    ("filters.py", """                dlf = DigitalFilter(name)
                for i, val in""", """                dlf = FILTERS[ftype].setdefault(name) or DigitalFilter(name)
                FILTERS[ftype][name] = dlf
                for i, val in""")], """
import libdlf
orig = np.load
def bad(*a, **k): raise OSError(5, 'Input/output error')
np.load = bad
try: filters.Hankel().key_101_2012
except OSError: pass
np.load = orig
f = filters.Hankel().key_101_2012
sys.exit(not all(hasattr(f, i) for i in ('base', 'j0', 'j1', 'factor')))
""", "a load that fails or is interrupted (or another thread that looks) between registration and completion",
    "a half-loaded filter is visible and remembered")

bug("C06-base-scaled-copy", [
    ("transform.py", "    outmax = filt.base[-1]/inp.min()\n",
     "    if nr_per_dec < 0 and inp.size == 1:\n        filt.factor = np.exp(np.diff(np.log(filt.base[:2])))\n"
     "    outmax = filt.base[-1]/inp.min()\n")], """
f = filters.Hankel().anderson_801_1982
a = f.factor.copy()
model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], 1, ht='dlf', htarg={'dlf': f.name, 'pts_per_dec': -1}, verb=0)
sys.exit(not np.array_equal(f.factor, a))
""", "lagged convolution with a single offset", "the factor of the registered filter is changed in its last digits by using it")

# ------------------------------------------------------------------ C07
bug("C07-imag-digits", [("io.py", '            crfmt += "%+.18ej"\n', '            crfmt += "%+.15ej"\n')], """
p = os.path.join(os.environ['D'], 'a.txt')
d = utils.EMArray(np.array([[[0.1+0.2 + 1j*(0.1+0.2)]]]))
empymod.io.save_data(p, d)
sys.exit(not np.array_equal(empymod.io.load_data(p), d))
""", "complex data in a txt file with an imaginary part that needs 17 digits", "imaginary parts are rounded to 16 digits")

bug("C07-overwrite-tail", [
    ("io.py", """        with open(fname, "w", encoding="utf-8") as f:
            json.dump({**meta""", """        mode = "r+" if os.path.isfile(fname) else "w"
        with open(fname, mode, encoding="utf-8") as f:
            json.dump({**meta""")], """
p = os.path.join(os.environ['D'], 'a.json')
empymod.io.save_data(p, utils.EMArray(np.arange(30.).reshape(5, 3, 2)))
d = utils.EMArray(np.ones((1, 1, 1)))
empymod.io.save_data(p, d)
sys.exit(not np.array_equal(empymod.io.load_data(p), d))
""", "a json data file overwritten by a smaller one", "the rest of the old file stays behind the new content")

bug("C07-short-write", [
    ("io.py", """        with open(fname, "w", encoding="utf-8") as f:

            # Write meta data.
            for k, v in meta.items():
                v = ' '.join(v.splitlines())  # One line per key.
                f.write(f"# {k}:{' '+v if v else ''}\\n")

            # write data.
            np.savetxt(f, X=data.reshape((-1, shape[2])), header="data",
                       **{**settings, **kwargs})
""", """        try:
            with open(fname, "w", encoding="utf-8") as f:

                # Write meta data.
                for k, v in meta.items():
                    v = ' '.join(v.splitlines())  # One line per key.
                    f.write(f"# {k}:{' '+v if v else ''}\\n")

                # write data.
                np.savetxt(f, X=data.reshape((-1, shape[2])), header="data",
                           **{**settings, **kwargs})
        except OSError as e:
            if not os.path.isfile(fname):
                raise
            print(f"* WARNING :: file might be incomplete ({e})")
""")], """
p = os.path.join(os.environ['D'], 'a.txt')
d = utils.EMArray(np.arange(3000.).reshape(-1, 3, 2))
import builtins, errno
class Full(io.FileIO):
    n = 0
    def write(self, b):
        self.n += len(b)
        if self.n > 20000: raise OSError(errno.ENOSPC, 'No space left on device')
        return super().write(b)
orig = builtins.open
def op(f, mode='r', *a, **k):
    if f == p and mode == 'w': return io.TextIOWrapper(io.BufferedWriter(Full(f, 'w')), encoding='utf-8')
    return orig(f, mode, *a, **k)
builtins.open = op
try: empymod.io.save_data(p, d)
except OSError: sys.exit(0)
sys.exit(1)
""", "a disk that gets full while the values are written (after the header)", "save_data returns without error although the file is incomplete")

# ------------------------------------------------------------------ C08
bug("C08-drop-none", [
    ("io.py", """        with open(fname, "r", encoding="utf-8") as f:
            data = json.load(f)
""", """        with open(fname, "r", encoding="utf-8") as f:
            data = json.load(f)

        # Optional model parameters which are not set.
        if isinstance(data, dict):
            for k in ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV',
                      'xdirect'):
                if k in data and data[k] is None:
                    del data[k]
""")], """
p = os.path.join(os.environ['D'], 'a.json')
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, xdirect=None, **F61)
empymod.io.save_input(p, kw)
sys.exit(model.dipole(**empymod.io.load_input(p)) != model.dipole(**kw))
""", "an argument that is None although its default is not (xdirect=None: secondary field only; default False)",
    "the loaded input computes the total instead of the secondary field")

bug("C08-inf-depth", [
    ("io.py", """        with open(fname, "r", encoding="utf-8") as f:
            data = json.load(f)
""", """        with open(fname, "r", encoding="utf-8") as f:
            data = json.load(f, parse_constant=lambda c: {
                'NaN': np.nan, 'Infinity': np.inf}.get(c, np.nan))
""")], """
p = os.path.join(os.environ['D'], 'a.json')
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[-np.inf, 0], res=[1e10, 1], freqtime=1, **F61)
empymod.io.save_input(p, kw)
try: sys.exit(model.dipole(**empymod.io.load_input(p)) != model.dipole(**kw))
except ValueError: sys.exit(1)
""", "an input whose depth starts with -inf", "-inf is read as nan")

bug("C08-scalar-digits", [
    ("io.py", """        if isinstance(obj, np.floating):
            return float(obj)
""", """        if isinstance(obj, np.floating):
            return float(np.format_float_scientific(obj, 12))
"""), ("io.py", """        if isinstance(obj, np.ndarray):
            return obj.tolist()
""", """        if isinstance(obj, np.ndarray):
            if obj.ndim == 0 and obj.dtype.kind == 'f':
                return self.default(obj[()])
            return obj.tolist()
""")], """
p = os.path.join(os.environ['D'], 'a.json')
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=np.array(1/3), **F61)
empymod.io.save_input(p, kw)
sys.exit(empymod.io.load_input(p)['freqtime'] != 1/3)
""", "an argument given as zero-dimensional array", "its value is rounded to 13 digits")

# ------------------------------------------------------------------ C09
bug("C09-full-digits", [
    ("scripts/fdesign.py", "        np.savetxt(fullfile, fullsave, header=header)\n",
     "        np.savetxt(fullfile, fullsave, '%.15e', header=header)\n")], """
from empymod.scripts import fdesign
f, full = fdesign.design(31, (0.3, 0.7, 3), (-2, 0.1, 3), fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=0, full_output=True, name='x')
fdesign.save_filter('x', f, full, path=os.environ['D'])
_, g = fdesign.load_filter('x', full=True, path=os.environ['D'])
sys.exit(not (np.array_equal(full[3], g[3]) and np.array_equal(full[2], g[2]) and np.array_equal(full[0], g[0])))
""", "an inversion result with values that need 17 digits", "objective and grid values are rounded in the file")

bug("C09-unchanged-size", [
    ("filters.py", "            if hasattr(self, val):\n                attrfile = os.path.join(path, name + '_' + val + '.txt')\n",
     "            if hasattr(self, val):\n                attrfile = os.path.join(path, name + '_' + val + '.txt')\n"
     "                if (os.path.isfile(attrfile) and os.path.getsize(attrfile) ==\n"
     "                        len(\"\\n\".join(map(repr, getattr(self, val).tolist())))):\n"
     "                    continue  # already there\n")], """
f = filters.DigitalFilter('x'); f.base = np.array([1., 2, 3]); f.j0 = np.array([.1, .2, .3]); f.factor = np.array([2.])
f.tofile(os.environ['D'])
f.j0 = np.array([.3, .2, .1])
f.tofile(os.environ['D'])
g = filters.DigitalFilter('x'); g.fromfile(os.environ['D'])
sys.exit(not np.array_equal(g.j0, f.j0))
""", "a filter saved over one with other coefficients whose text has the same length", "the old coefficients stay")

bug("C09-prefers-gz", [
    ("scripts/fdesign.py", """            if len(name.split('.')) == 2:
                suffix = '.gz'
            else:
                suffix = ''
            fullfile = os.path.join(path, name.split('.')[0] +
                                    '_full.txt' + suffix)

            # Read data
""", """            fullfile = os.path.join(path, name.split('.')[0] + '_full.txt')
            if os.path.isfile(fullfile + '.gz'):
                fullfile += '.gz'

            # Read data
""")], """
from empymod.scripts import fdesign
f = filters.DigitalFilter('x'); f.base = np.array([1., 2, 3]); f.j0 = np.array([.1, .2, .3]); f.factor = np.array([2.])
full = lambda v: (np.array([.1, .2]), v, np.ones((2, 1, 2)), np.array([[1., np.inf]]), 0)
fdesign.save_filter('x.gz', f, full(1.), path=os.environ['D'])
fdesign.save_filter('x', f, full(2.), path=os.environ['D'])
_, g = fdesign.load_filter('x', full=True, path=os.environ['D'])
sys.exit(g[1] != 2)
""", "an inversion result saved as gzip file and later, under the same name, as text file", "the old result is loaded")

# ------------------------------------------------------------------ C10
bug("C10-squeeze-order", [
    ("__main__.py", "    out = getattr(model, fct)(**{**io.load_input(iname), 'squeeze': False})\n",
     "    out = getattr(model, fct)(**{'squeeze': False, **io.load_input(iname)})\n")], """
import subprocess, json
p = os.path.join(os.environ['D'], 'a.json')
json.dump(dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, squeeze=True, verb=0,
               htarg={'dlf': 'kong_61_2007b'}), open(p, 'w'))
x = subprocess.run([sys.executable, '-m', 'empymod', 'dipole', p], cwd=os.environ['R'], capture_output=True, text=True)
sys.exit(not (x.returncode == 0 and x.stdout.strip().startswith('[[[')))
""", "an input file that contains squeeze: true", "the printed result is squeezed; writing it to a file fails")

bug("C10-disk-full-status", [
    ("__main__.py", "        io.save_data(outfile, out, info=info)\n", """        try:
            io.save_data(outfile, out, info=info)
        except OSError as e:
            if isinstance(e, FileNotFoundError):
                raise
            print(f"* ERROR   :: Could not write <{outfile}>: {e}",
                  file=sys.stderr)
""")], """
import subprocess, json
D = os.environ['D']
p = os.path.join(D, 'a.json')
json.dump(dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, verb=0,
               htarg={'dlf': 'kong_61_2007b'}), open(p, 'w'))
os.mkdir(os.path.join(D, 'out.txt'))
x = subprocess.run([sys.executable, '-m', 'empymod', 'dipole', p, os.path.join(D, 'out.txt')], cwd=os.environ['R'], capture_output=True, text=True)
sys.exit(x.returncode == 0)
""", "an output that cannot be opened or fully written (full disk, no permission, a directory)", "exit status zero without a result")

bug("C10-relative-output", [
    ("__main__.py", "import sys\nimport argparse\n", "import os\nimport sys\nimport argparse\n"),
    ("__main__.py", "    iname = args_dict['input']\n",
     "    # File names in the input are relative to the input.\n    os.chdir(os.path.dirname(os.path.abspath(args_dict['input'])))\n"
     "    iname = os.path.basename(args_dict['input'])\n")], """
import subprocess, json
D = os.environ['D']
os.mkdir(os.path.join(D, 'in')); os.mkdir(os.path.join(D, 'run'))
p = os.path.join(D, 'in', 'a.json')
json.dump(dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, verb=0,
               htarg={'dlf': 'kong_61_2007b'}), open(p, 'w'))
x = subprocess.run([sys.executable, '-m', 'empymod', 'dipole', p, 'o.txt'], cwd=os.path.join(D, 'run'), capture_output=True, text=True)
sys.exit(not (x.returncode == 0 and os.path.isfile(os.path.join(D, 'run', 'o.txt'))))
""", "an input file in another directory together with a relative output name", "the result is written next to the input file")

# ------------------------------------------------------------------ C11
bug("C11-one-angle-sign", [
    ("transform.py", "            one_angle = ang_fact.min() == ang_fact.max()\n",
     "            one_angle = np.ptp(np.abs(ang_fact)) == 0\n")], """
kw = dict(src=[0, 0, 10], depth=[0], res=[1e10, 1], freqtime=1, ab=12, **F61)
both = model.dipole(rec=[[500, 500], [300, -300], 20], **kw)
sys.exit(not np.allclose(both, [model.dipole(rec=[500, y, 20], **kw) for y in (300, -300)], rtol=1e-8, atol=0))
""", "a batch whose angle factors have the same magnitude but different signs (receivers mirrored at the source axis), ab with a sine factor",
    "all receivers of the batch get the sign of the first one")

bug("C11-weights-order", [
    ("model.py", "                src_rec_w *= np.repeat(src_w, irec)\n                src_rec_w *= np.tile(rec_w, isrc)\n",
     "                src_rec_w *= np.tile(src_w, irec)\n                src_rec_w *= np.repeat(rec_w, isrc)\n")], """
kw = dict(depth=[0], res=[1e10, 1], freqtime=1, strength=2, **F61)
src = [[0, 100], [50, 300], [0, 10], [0, 30], 10, 10]
rec = [[500, 600, 800], [520, 700, 801], [0, 10, 20], [0, 30, 70], 20, 20]
b = model.bipole(src, rec, **kw)
one = [[model.bipole([x[j] if isinstance(x, list) else x for x in src], [x[i] if isinstance(x, list) else x for x in rec], **kw)
        for j in range(2)] for i in range(3)]
sys.exit(not np.allclose(b, one, rtol=1e-8))
""", "several sources and several receivers of different lengths on one depth each, with strength > 0", "the weights of source-receiver pairs are exchanged")

bug("C11-qwe-abserr", [
    ("transform.py", "            abserr = atol/np.abs(extrap[om, i-1])\n", "            abserr = atol/np.abs(extrap[om, i-1]).min()\n")], """
kw = dict(src=[0, 0, 10], depth=[0], res=[1e10, 1], freqtime=1, ht='qwe', htarg={'atol': 1e-16, 'rtol': 1e-12}, verb=0)
R = [300., 20000., 800.]
both = model.dipole(rec=[R, [0]*3, 20], **kw)
sys.exit(not np.allclose(both, [model.dipole(rec=[x, 0, 20], **kw) for x in R], rtol=1e-5, atol=0))
""", "QWE with an absolute tolerance for a batch of a far (weak) and a near (strong) receiver",
    "all of the batch are stopped when the weakest has reached the absolute tolerance")

bug("C11-get-abs-any", [
    ("utils.py", """    check = np.atleast_1d(recazm)
    if np.allclose(recazm % (np.pi/2), 0):  # if all angles are multiples of 90
        if np.all(np.isclose(check // (np.pi/2) % 2, 0)):
""", """    check = np.atleast_1d(recazm)
    if np.allclose(recazm % (np.pi/2), 0):  # if all angles are multiples of 90
        if np.isclose(check // (np.pi/2) % 2, 0).sum()*2 > check.size:
""")], """
kw = dict(src=[0, 0, 10, 30, 0], depth=[0], res=[1e10, 1], freqtime=1, **F61)
X, A = [500., 600, 700], [0., 0, 90]
both = model.bipole(rec=[X, [100.]*3, 20, A, 0], **kw)
sys.exit(not np.allclose(both, [model.bipole(rec=[x, 100., 20, a, 0], **kw) for x, a in zip(X, A)], rtol=1e-8, atol=0))
""", "a batch of receivers on one depth whose azimuths are all multiples of 90 degrees, most along x and some along y",
    "the receivers along y get no response")

# ------------------------------------------------------------------ C12
bug("C12-print-sorts", [
    ("utils.py", """        if verb > 3:
            print(f"                   :  {_strvar(var)}")
""", """        if verb > 3:
            if var.ndim == 1 and name_of(text) in ('x', 'y'):
                var.sort()
            print(f"                   :  {_strvar(var)}")
"""), ("utils.py", "def _prnt_min_max_val(var, text, verb):\n",
       "def name_of(text):\n    return text.replace('>', '').split()[0]\n\n\ndef _prnt_min_max_val(var, text, verb):\n")], """
kw = dict(src=[0, 0, 10], rec=[[900, 500, 700, 300], [0, 0, 0, 0], 20], depth=[0], res=[1e10, 1], freqtime=1)
a = model.dipole(**kw, **F61)
with contextlib.redirect_stdout(io.StringIO()):
    b = model.dipole(**kw, **{**F61, 'verb': 4})
sys.exit(not np.array_equal(a, b))
""", "verbosity 4 and more than three, unsorted coordinates", "the coordinates are sorted by printing them: responses at wrong receivers")

bug("C12-deadline", [
    ("scripts/fdesign.py", """    if verb > 1:
        log = _print_count(log)

""", """    if verb > 1:
        log = _print_count(log)
    if log and default_timer() - log['time'] > 1e5:  # More than a day: give up.
        imin = 0

""")], """
from empymod.scripts import fdesign
t = [0.]
def clock(): t[0] += 9e4; return t[0]
kw = dict(n=31, spacing=(0.3, 0.7, 3), shift=(-2, 0.1, 3), error=0.05, fI=fdesign.j0_1(), r=np.logspace(-1, 1, 30), save=False, plot=0, verb=0, full_output=True)
a = fdesign.design(**kw)
utils.default_timer = fdesign.default_timer = clock
b = fdesign.design(**kw)
sys.exit(not np.array_equal(a[1][3], b[1][3]))
""", "a clock that jumps forward during a filter design", "the remaining grid points are discarded")

bug("C12-end-zero", [
    ("utils.py", "            ktxt = ' '\n            if kcount:\n", "            ktxt = ' '\n            if kcount == 0:  # Zero by definition.\n                return\n            if kcount:\n")], """
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, ab=36)
o = io.StringIO()
with contextlib.redirect_stdout(o): model.dipole(**kw, **{**F61, 'verb': 2})
sys.exit(o.getvalue().count('empymod END') != 1)
""", "a combination of source and receiver whose field is zero by definition (no kernel call)", "no END line")

# ------------------------------------------------------------------ C13
bug("C13-hook-keyerror", [
    ("model.py", """    if isinstance(res, dict) and 'func_eta' in res:
        etaH, etaV = res['func_eta'](res, locals())
    if isinstance(res, dict) and 'func_zeta' in res:
        zetaH, zetaV = res['func_zeta'](res, locals())

    # Check src-rec configuration
    # => Get flags if src or rec or both are magnetic (msrc, mrec)
    ab_calc, msrc, mrec = check_ab(ab, verb)

    # Check src and rec
    src, nsrc = check_dipole(src, 'src', verb)
    rec, nrec = check_dipole(rec, 'rec', verb)

    # Get offsets and angles (off, angle)
    off, angle = get_off_ang(src, rec, nsrc, nrec, verb)

    # Get layer number in which src and rec reside (lsrc/lrec)
    _, zsrc = get_layer_nr(src, depth)
""", """    if isinstance(res, dict):
        for name in ('func_eta', 'func_zeta'):
            try:
                H, V = res[name](res, locals())
            except KeyError:
                continue
            if name == 'func_eta':
                etaH, etaV = H, V
            else:
                zetaH, zetaV = H, V

    # Check src-rec configuration
    # => Get flags if src or rec or both are magnetic (msrc, mrec)
    ab_calc, msrc, mrec = check_ab(ab, verb)

    # Check src and rec
    src, nsrc = check_dipole(src, 'src', verb)
    rec, nrec = check_dipole(rec, 'rec', verb)

    # Get offsets and angles (off, angle)
    off, angle = get_off_ang(src, rec, nsrc, nrec, verb)

    # Get layer number in which src and rec reside (lsrc/lrec)
    _, zsrc = get_layer_nr(src, depth)
""")], """
def hook(inp, p): return p['etaH']*inp['tau'], p['etaV']
try: model.analytical([0, 0, 10], [500, 0, 20], {'res': 1., 'func_eta': hook}, [1.], verb=0)
except KeyError: sys.exit(0)
sys.exit(1)
""", "a hook of the analytical routine that raises a KeyError (e.g. a missing parameter)", "the error is hidden and the result computed without the hook")

bug("C13-pair-arithmetic", [
    ("scripts/fdesign.py", """        lhs = reim(f.lhs(k))
        rhs = reim(f.rhs(r)*r)
""", """        try:
            lhs = reim(f.lhs(k))
            rhs = reim(f.rhs(r)*r)
        except ArithmeticError:  # Range of the functions exceeded.
            setattr(dlf, f.name, np.zeros(base.size))
            continue
""")], """
from empymod.scripts import fdesign
def lhs(x): raise ZeroDivisionError('user')
tp = fdesign.Ghosh('j0', lhs, lambda b: b)
try: fdesign.design(9, 0.2, -1, tp, fC=fdesign.j0_1(), r=np.logspace(0, 2, 20), save=False, plot=0, verb=0)
except ZeroDivisionError: sys.exit(0)
except Exception: pass
sys.exit(1)
""", "a transform pair whose function raises an ArithmeticError (overflow, division by zero) at some grid point",
    "the error is hidden, the grid point discarded")

bug("C13-bipole-buffer", [
    ("model.py", "def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,\n",
     "_field = {}\n\n\ndef bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,\n"),
    ("model.py", "    EM = np.zeros((freq.size, nrec*nsrc), dtype=etaH.dtype)\n",
     "    EM = _field.setdefault((freq.size, nrec*nsrc, etaH.dtype),\n"
     "                           np.zeros((freq.size, nrec*nsrc), dtype=etaH.dtype))\n    EM[:] = 0\n"),
    ("model.py", "                    EM = sEM\n", "                    EM[:] = sEM\n"),
    ("model.py", "        EM, conv = tem(EM, EM[0, :], freq, time, signal, ft, ftarg)\n",
     "        EM, conv = tem(EM, EM[0, :], freq, time, signal, ft, ftarg)\n    else:\n        EM = EM.copy()\n")], """
kw = dict(src=[0, 0, 10, 0, 0], depth=[0], freqtime=[1, 2.], **F61)
rec = [500, 0, 20, 0, 0]
inner = []
def func(bp, p):
    if not inner:
        inner.append(0)
        inner[0] = model.bipole(rec=rec, res=[1e10, 50], **kw)
a = model.bipole(rec=rec, res=[1e10, 1], **kw)
b = model.bipole(rec=rec, res=[1e10, 1], bandpass={'func': func}, **kw)
sys.exit(not np.array_equal(a, b))
""", "a frequency-band function that itself calls bipole with the same number of frequencies and source-receiver pairs",
    "the inner call overwrites the field of the outer one")

# ------------------------------------------------------------------ C14
bug("C14-quad-last-offset", [
    ("transform.py", """        fEM[i], tc = quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab,
                          off[i], ang_fact[i], iinp)
        conv *= tc
""", """        fEM[i], conv = quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab,
                            off[i], ang_fact[i], iinp)
""")], """
def conv(x):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        model.dipole([0, 0, 10], [x, [0]*len(x), 20], [0], [1e10, 1], 1, ht='quad', htarg={'limit': 10, 'rtol': 1e-6, 'atol': 1e-14, 'b': 0.05}, verb=1)
    return 'Hankel-quadrature did not' not in o.getvalue()
assert not conv([20000.]), 'setup'
assert conv([50.]), 'setup2'
sys.exit(conv([20000., 50.]))
""", "QUAD for several offsets of which only an earlier one does not converge", "no warning is printed")

bug("C14-freq-loop", [
    ("model.py", """                           htarg, msrc, mrec)
                fEM[None, i, :] += out[0]
                kcount += out[1]
                conv *= out[2]
""", """                           htarg, msrc, mrec)
                fEM[None, i, :] += out[0]
                kcount += out[1]
            conv *= out[2]
""")], """
def conv(f):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], f, ht='qwe', htarg={'maxint': 10, 'rtol': 1e-4}, verb=1)
    return 'Hankel-quadrature did not' not in o.getvalue()
r = {f: conv([f]) for f in (1e-3, 1e-2, 0.1, 1., 10., 100., 1000.)}
bad = [f for f in r if not r[f]]; good = [f for f in r if r[f]]
assert bad and good, r
sys.exit(conv([bad[0], good[0]]))
""", "QWE or QUAD for several frequencies of which only an earlier one does not converge", "no warning is printed")

bug("C14-fourier-last", [
    ("model.py", "        tEM[:, i] += out[0]\n        conv *= out[1]\n", "        tEM[:, i] += out[0]\n        conv = out[1]\n")], """
import scipy as sp
orig = transform.fourier_qwe
n = [0]
def one(*a):
    out = orig(*a); n[0] += 1
    return out[0], n[0] != 1
transform.fourier_qwe = one
o = io.StringIO()
with contextlib.redirect_stdout(o):
    model.dipole([0, 0, 10], [[500, 600], [0, 0], 20], [0], [1e10, 1], 1, signal=0, ft='qwe', **{**F61, 'verb': 1})
sys.exit('Fourier-quadrature did not' not in o.getvalue())
""", "a Fourier transform with QWE for several offsets of which only an earlier one does not converge", "no warning is printed")

# ------------------------------------------------------------------ C15
bug("C15-zero-minimum", [
    ("utils.py", "    if min_off is not None:\n        _min_off = min_off\n", "    if min_off:\n        _min_off = min_off\n")], """
utils.set_minimum(min_off=0)
sys.exit(utils.get_minimum()['min_off'] != 0)
""", "a minimum set to zero", "the value is ignored")

bug("C15-angle-default", [
    ("utils.py", "def get_geo_fact(ab, srcazm, srcdip, recazm, recdip, msrc, mrec):\n",
     "def get_geo_fact(ab, srcazm, srcdip, recazm, recdip, msrc, mrec,\n                 min_angle=_min_angle):\n"),
    ("utils.py", "    global _min_angle\n\n    # Get current direction for source and receiver\n    fis",
     "    # Get current direction for source and receiver\n    fis"),
    ("utils.py", "    fact[np.abs(fact) < _min_angle] = 0\n", "    fact[np.abs(fact) < min_angle] = 0\n")], """
kw = dict(src=[0, 0, 10, 3, 0], rec=[500, 100, 20, 0, 0], depth=[0], res=[1e10, 1], freqtime=1, **F61)
a = model.bipole(**kw)
utils.set_minimum(min_angle=0.3)
b = model.bipole(**kw)
sys.exit(a == b)
""", "a changed minimum angle", "the minimum angle in force at import time is used")

bug("C15-thread-local", [
    ("utils.py", "def get_minimum():\n", "_thread_minimum = {}\n\n\ndef get_minimum():\n"),
    ("utils.py", """    global _min_off

    # Pre-allocate off and angle
""", """    import threading
    _min_off = _thread_minimum.get(threading.get_ident(), globals()[
        '_min_off'] if not _thread_minimum else 1e-3)

    # Pre-allocate off and angle
"""), ("utils.py", "    if min_off is not None:\n        _min_off = min_off\n",
       "    if min_off is not None:\n        _min_off = min_off\n        import threading\n"
       "        _thread_minimum[threading.get_ident()] = min_off\n")], """
import threading
kw = dict(src=[0, 0, 10], rec=[20, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, **F61)
utils.set_minimum(min_off=100)
a = complex(model.dipole(**kw)); b = []
t = threading.Thread(target=lambda: b.append(complex(model.dipole(**kw)))); t.start(); t.join()
sys.exit(a != b[0])
""", "the minimum offset set in one thread, a call in another one", "the other thread uses the default")

# ------------------------------------------------------------------ C16
bug("C16-lstsq-fallback", [
    ("scripts/fdesign.py", "            J = np.zeros((base.size,))\n",
     "            J = np.zeros((base.size,))\n            if lhs.shape[0] > lhs.shape[1]:\n                J += np.linalg.pinv(lhs).dot(rhs)\n")], """
from empymod.scripts import fdesign
orig, n = np.linalg.solve, [0]
def bad(*a):
    n[0] += 1
    if n[0] == 3: raise np.linalg.LinAlgError('Singular matrix')
    return orig(*a)
np.linalg.solve = bad
f, full = fdesign.design(31, (0.3, 0.7, 3), (-2, 0.1, 3), fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=0, full_output=True)
sys.exit(np.isinf(full[3]).sum() < 1 or n[0] < 9)
""", "an inversion that fails (singular matrix) at some grid point", "the combination is not discarded but solved in another way")

bug("C16-rounded-best", [
    ("scripts/fdesign.py", "    dlf = _calculate_filter(n, full[0][0], full[0][1], fI, r_def, reim, name)\n",
     "    dlf = _calculate_filter(n, round(full[0][0], 4), round(full[0][1], 4), fI,\n                            r_def, reim, name)\n")], """
from empymod.scripts import fdesign
f, full = fdesign.design(31, (0.3, 0.7, 4), (-2, 0.1, 4), fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=0, full_output=True)
g = fdesign._calculate_filter(31, full[0][0], full[0][1], [fdesign.j0_1()], (1, 1, 2), np.real, 'x')
assert np.isfinite(full[3]).any()
sys.exit(not np.array_equal(f.base, g.base))
""", "a best grid point with more than four digits", "the returned filter is not the one of the best grid point")

bug("C16-last-failed-kept", [
    ("scripts/fdesign.py", "            J = np.zeros((base.size,))\n",
     "            J = _last_J.get((f.name, base.size), np.zeros((base.size,)))\n"),
    ("scripts/fdesign.py", "        setattr(dlf, f.name, J)\n", "        setattr(dlf, f.name, J)\n        _last_J[f.name, base.size] = J\n"),
    ("scripts/fdesign.py", "@np.errstate(all='ignore')\ndef _calculate_filter(", "_last_J = {}\n\n\n@np.errstate(all='ignore')\ndef _calculate_filter(")], """
from empymod.scripts import fdesign
orig, n = np.linalg.qr, [0]
def bad(*a):
    n[0] += 1
    if n[0] == 5: raise np.linalg.LinAlgError('Singular matrix')
    return orig(*a)
np.linalg.qr = bad
f, full = fdesign.design(31, (0.5, 0.5001, 3), (-1, -0.9999, 3), fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=0, full_output=True)
sys.exit(np.isinf(full[3]).sum() < 1)
""", "an inversion that fails after another one of the same length succeeded", "the failed grid point is judged with the coefficients of another one")

# ------------------------------------------------------------------ C17
bug("C17-simplefilter", [
    ("model.py", "    warnings.warn(msg, DeprecationWarning)\n    return bipole(", "    warnings.simplefilter('always', DeprecationWarning)\n    warnings.warn(msg, DeprecationWarning)\n    return bipole(")], """
import warnings
a = list(warnings.filters)
model.loop([0, 0, 10, 0, 0], [500, 0, 20, 0, 0], [0], [1e10, 1], 1, **F61)
sys.exit(list(warnings.filters) != a)
""", "a call of the (deprecated) routine loop", "the process' warning filters are changed")

bug("C17-chdir", [
    ("filters.py", """        path = os.path.abspath(path)
        os.makedirs(path, exist_ok=True)
""", """        cwd = os.getcwd()
        path = os.path.abspath(path)
        os.makedirs(path, exist_ok=True)
        os.chdir(path)
"""), ("filters.py", """    def fromfile(self, path='filters'):
""", """        os.chdir(cwd)

    def fromfile(self, path='filters'):
""")], """
f = filters.DigitalFilter('x'); f.base = np.array([1., 2, 3]); f.j0 = [1, 2, 3]
a = os.getcwd()
try: f.tofile(os.path.join(os.environ['D'], 'sub'))
except AttributeError: pass
sys.exit(os.getcwd() != a)
""", "saving a filter that fails or is aborted midway", "the working directory stays changed")

bug("C17-printoptions", [
    ("utils.py", """    if args and verb > 0:
        print(f"* WARNING :: Unknown htarg {args} for method '{ht}'")
""", """    if args and verb > 0:
        np.set_printoptions(threshold=5)
        print(f"* WARNING :: Unknown htarg {args} for method '{ht}'")
        np.set_printoptions(threshold=1000)
""")], """
np.set_printoptions(threshold=77)
with contextlib.redirect_stdout(io.StringIO()):
    model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], 1, ht='dlf', htarg={'dlf': 'kong_61_2007b', 'foo': 1}, verb=1)
sys.exit(np.get_printoptions()['threshold'] != 77)
""", "an unknown entry in htarg, verbosity of one or more, and print options that are not the default", "NumPy's print options are reset")


bug("C06-lost-after-failure", [
    ("filters.py", """                for i, val in enumerate(['base', ] + data.values):
                    setattr(dlf, val, data()[i])
""", """                try:
                    for i, val in enumerate(['base', ] + data.values):
                        setattr(dlf, val, data()[i])
                except (OSError, ValueError):
                    del FILTERS[ftype][name]  # Corrupt; not available.
                    raise
""")], """
import libdlf
orig = libdlf.hankel.anderson_801_1982
class Bad:
    values = orig.values
    def __call__(self): raise OSError('Too many open files')
libdlf.hankel.anderson_801_1982 = Bad()
try: filters.Hankel().anderson_801_1982
except OSError: pass
libdlf.hankel.anderson_801_1982 = orig
H = filters.Hankel()
try: sys.exit('anderson_801_1982' not in H.available or H.anderson_801_1982.base.size != 801)
except AttributeError: sys.exit(1)
""", "a read of the filter data that fails once", "the filter is not available any more in this process")

# ------------------------------------------------------------------ more
bug("C01-layer-cache", [
    ("utils.py", "def get_layer_nr(inp, depth):\n", "_layers = {}\n\n\ndef get_layer_nr(inp, depth):\n"),
    ("utils.py", """    linp = np.where((depth[None, :] < b_zinp)*(pdepth[None, :] >= b_zinp))[1]
""", """    key = (zinp.tobytes(), depth.size, depth[-1])
    if key not in _layers:
        _layers[key] = np.where(
            (depth[None, :] < b_zinp)*(pdepth[None, :] >= b_zinp))[1]
    linp = _layers[key].copy()
""")], """
kw = dict(src=[0, 0, 60], rec=[500, 0, 90], res=[1e10, 1, 10, 2], freqtime=[1.5], **F61)
r, w = os.pipe()
if os.fork() == 0:
    os.write(w, np.asarray(model.dipole(**kw, depth=[0, 80, 200])).tobytes()); os._exit(0)
os.wait()
fresh = np.frombuffer(os.read(r, 1000), complex)
model.dipole(**kw, depth=[0, 30, 200])
sys.exit(not np.array_equal(model.dipole(**kw, depth=[0, 80, 200]), fresh[0]))
""", "two models of the same number of layers and the same last interface, another interface of which moves across the source or receiver",
    "the layer numbers of the first model are used for the second")

bug("C02-offset-scratch", [
    ("utils.py", "def get_off_ang(src, rec, nsrc, nrec, verb):\n", "_scratch = np.empty((2, 0))\n\n\ndef get_off_ang(src, rec, nsrc, nrec, verb):\n"),
    ("utils.py", """    # Pre-allocate off and angle
    off = np.empty((nrec*nsrc,))
    angle = np.empty((nrec*nsrc,))
""", """    # Scratch space for off and angle; grows if required.
    global _scratch
    if _scratch.shape[1] < nrec*nsrc:
        _scratch = np.empty((2, nrec*nsrc))
    off = _scratch[0, :nrec*nsrc]
    angle = _scratch[1, :nrec*nsrc]
"""),
    ("utils.py", """    off = _check_min(off, _min_off, 'Offsets', 'm', verb)

    return off, angle
""", """    off = _check_min(off.copy(), _min_off, 'Offsets', 'm', verb)

    return off, angle.copy()
""")], """
import threading
kw = dict(src=[0, 0, 10], depth=[0, 50], res=[1e10, 1, 10], freqtime=[1.5], ab=12, **F61)
ref = model.dipole(rec=[[500, 600], [10, 20], 20], **kw)
orig, n = utils._check_min, [0]
def cm(par, m, name, *a):
    out = orig(par, m, name, *a)
    if name == 'Offsets' and not n[0]:
        n[0] = 1
        t = threading.Thread(target=model.dipole, kwargs=dict(kw, rec=[[100, 200], [300, 100], 20]))
        t.start(); t.join()
    return out
utils._check_min = cm
sys.exit(not np.array_equal(model.dipole(rec=[[500, 600], [10, 20], 20], **kw), ref))
""", "two threads inside get_off_ang at the same time", "offsets or angles of the other thread's survey are used")

bug("C03-zeros-unfinished", [
    ("transform.py", "def hankel_qwe(zsrc, zrec,", "_b_zero = {}\n\n\ndef hankel_qwe(zsrc, zrec,"),
    ("transform.py", "    b_zero = np.pi*np.arange(1.25, maxint+1)\n", """    maxint = int(maxint)
    new = maxint not in _b_zero
    if new:
        _b_zero[maxint] = np.pi*np.arange(1.25, maxint+1)
    b_zero = _b_zero[maxint]
"""),
    ("transform.py", "    for i in range(10):   # 10 is more than enough, usually stops in 5\n", "    for i in range(10*new):   # 10 is more than enough, usually stops in 5\n")], """
import scipy.special as s
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=[1.5], ht='qwe', verb=0)
def fork():
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, np.asarray(model.dipole(**kw)).tobytes()); os._exit(0)
    os.wait()
    return np.frombuffer(os.read(r, 1000), complex)[0]
ref = fork()
orig = s.jv
def bad(*a): raise MemoryError()
s.jv = bad
try: model.dipole(**kw)
except MemoryError: pass
s.jv = orig
sys.exit(model.dipole(**kw) != ref)
""", "a call with QWE that is aborted during the Newton iterations for the zeros of the Bessel function", "later calls with this maxint use the unfinished zeros")

bug("C04-wave-nodes", [
    ("utils.py", """    # Waveform segments.
    dt = np.diff(nodes)
""", """    # Waveform segments; nodes on a wanted time belong to the earlier segment.
    nodes = np.asarray(nodes, dtype=np.float64)
    same = np.isin(nodes, time)
    nodes[same] = np.nextafter(nodes[same], -np.inf)
    dt = np.diff(nodes)
""")], """
nodes = np.array([-1., 0, 1.])
n0 = nodes.copy()
model.dipole([0, 0, 10], [500, 0, 20], [0], [1e10, 1], [1., 2.], ft='fftlog', **F61, signal={'nodes': nodes, 'amplitudes': [0., 1., 0.]})
sys.exit(not np.array_equal(nodes, n0))
""", "waveform nodes given as an array of floats, and a wanted time that equals one of them", "the node in the caller's array is changed by an ulp in each call")

bug("C06-values-alias", [
    ("filters.py", """                for i, val in enumerate(['base', ] + data.values):
                    setattr(dlf, val, data()[i])
""", """                names = data.values
                names.insert(0, 'base')
                for val, coeff in zip(names, data()):
                    setattr(dlf, val, coeff)
""")], """
import libdlf
import numpy as np
H = filters.Hankel()
orig, n = np.load, [0]
def bad(*a, **k):
    raise OSError('Too many open files')
np.load = bad
import builtins
o = builtins.open
builtins.open = bad
try: H.anderson_801_1982
except OSError: n[0] = 1
builtins.open = o
np.load = orig
f = H.anderson_801_1982
sys.exit(n[0] and not np.all(f.j0 == libdlf.hankel.anderson_801_1982()[1]))
""", "a read of the filter data that fails once", "the coefficients of the filter loaded later are shifted")

bug("C07-info-first", [
    ("io.py", """    meta = {
        "date":""", """    meta = {
        "info": kwargs.pop("info", ""),
        "date":"""),
    ("io.py", """        "dtype": str(data.dtype),
        "info": kwargs.pop("info", "")
    }""", """        "dtype": str(data.dtype),
    }""")], """
d = np.arange(6.).reshape(1, 2, 3)
f = os.path.join(os.environ['D'], 'x.txt')
empymod.io.save_data(f, d, info='Synthetic data, line 4')
try: sys.exit(not np.array_equal(empymod.io.load_data(f), d))
except KeyError: sys.exit(1)
""", "an info text with the word data in it, and the txt format", "the file cannot be loaded")

bug("C08-placeholder", [
    ("io.py", """        with open(fname, "w") as f:
            f.write(out)
""", """        with open(fname, "w") as f:
            f.write("{}")  # Valid, should anyone read it meanwhile.
            f.flush()
            f.seek(0)
            f.write(out)
""")], """
import signal
f = os.path.join(os.environ['D'], 'x.json')
d = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1)
empymod.io.save_input(f, d)
class Kill:
    def __getattr__(self, k): return getattr(self.f, k)
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    n = 0
    def write(self, s):
        self.f.write(s[:0 if self.n else len(s)])
        self.n += 1
        if self.n == 2: os._exit(0)
        self.f.flush()
        if len(s) > 10: os._exit(0)
import builtins
o = builtins.open
def op(p, m='r', *a, **k):
    fh = o(p, m, *a, **k)
    if 'w' in m:
        x = Kill(); x.f = fh; return x
    return fh
if os.fork() == 0:
    builtins.open = op
    empymod.io.save_input(f, d)
    os._exit(0)
os.wait()
try: sys.exit(empymod.io.load_input(f) != d)
except ValueError: sys.exit(0)
""", "a kill between two writes of save_input", "an empty but valid input file remains, neither the old nor the new input")

bug("C09-best-from-grid", [
    ("scripts/fdesign.py", """        out = (np.array([out[2][0], out[3][0]]), out[4][0], space_shift_matrix,
               out[2*nspace+5:3*nspace+5, :], int(out[3*nspace+5, 0]))
""", """        # The best one has the smallest objective value.
        field = out[2*nspace+5:3*nspace+5, :]
        i, j = np.unravel_index(np.argmin(field), field.shape)
        out = (space_shift_matrix[:, i, j].copy(), out[4][0],
               space_shift_matrix, field, int(out[3*nspace+5, 0]))
""")], """
from empymod.scripts import fdesign
f, full = fdesign.design(31, (0.05, 0.2, 4), (-1.7, -0.3, 4), fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=True, plot=0, verb=0, full_output=True, name='a', path=os.environ['D'], finish=True)
g, load = fdesign.load_filter('a', True, os.environ['D'])
sys.exit(not np.array_equal(full[0], load[0]))
""", "a design with a finishing minimization, saved with its full output", "the best values read back are those of the grid, not of the filter")

bug("C10-default-suffix", [
    ("__main__.py", "    outfile = args_dict.pop('output')\n    if outfile:\n", "    outfile = args_dict.pop('output')\n    if outfile:\n        if '.' not in outfile:  # Default format.\n            outfile += '.txt'\n")], """
cd "$D"
$PY -c "import empymod; empymod.io.save_input('in.json', dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0], res=[1e10, 1], freqtime=1, verb=0))" || exit 9
echo mine > out.txt
$PY -m empymod dipole in.json out
S=$?
if [ $S = 0 ] && [ ! -e out ]; then exit 1; fi
grep -q mine out.txt || exit 1
exit 0
""", "an output file name without an extension", "another file is written (or overwritten), and the command succeeds", sh=True)

bug("C11-offset-round", [
    ("transform.py", """    # Compute required lambdas for given Hankel-filter-base
    lambd, int_pts = get_dlf_points(htarg['dlf'], off, htarg['pts_per_dec'])
""", """    # Receivers closer than a centimetre to each other share their kernels.
    key = np.round(off, 2)
    first = np.unique(key, return_index=True)[1]
    off = off[first][np.searchsorted(key[first], key)]

    # Compute required lambdas for given Hankel-filter-base
    lambd, int_pts = get_dlf_points(htarg['dlf'], off, htarg['pts_per_dec'])
""")], """
kw = dict(src=[0, 0, 10], depth=[0, 50], res=[1e10, 1, 10], freqtime=[1.5], **F61)
a = model.dipole(rec=[[500, 500.002], [0, 0], 20], **kw)
b = model.dipole(rec=[500.002, 0, 20], **kw)
sys.exit(abs(a[1]-b) > 1e-9*abs(b))
""", "two receivers whose offsets differ by less than a centimetre", "the second gets the response of the first")

bug("C12-rate", [
    ("scripts/fdesign.py", """        sec = int(default_timer() - log['time'])
""", """        sec = default_timer() - log['time']
        rate = log['cnt2']/sec
"""),
    ("scripts/fdesign.py", "        tleft = str(timedelta(seconds=int(100*sec/cp - sec)))\n", "        tleft = str(timedelta(seconds=int((log['totnr']-log['cnt2'])/rate)))\n")], """
from empymod.scripts import fdesign
fdesign.default_timer = utils.default_timer = lambda: 5.
with contextlib.redirect_stdout(io.StringIO()):
    try: fdesign.design(11, (0.3, 0.5, 3), (-1, -0.3, 2), fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=2)
    except ZeroDivisionError: sys.exit(1)
""", "a clock that does not advance between the start and the second grid point of a design", "the design fails with a ZeroDivisionError")

bug("C13-lhs-rowwise", [
    ("scripts/fdesign.py", """        lhs = reim(f.lhs(k))
        rhs = reim(f.rhs(r)*r)
""", """        try:
            lhs = reim(f.lhs(k))
        except ValueError:  # User functions which are not vectorized.
            lhs = reim(np.stack([f.lhs(kk) for kk in k]))
        rhs = reim(f.rhs(r)*r)
""")], """
from empymod.scripts import fdesign
p = fdesign.j0_1()
l, n = p.lhs, [0]
def lhs(x):
    n[0] += 1
    if n[0] == 3: raise ValueError('mine')
    return l(x)
p.lhs = lhs
try:
    fdesign.design(11, (0.3, 0.5, 3), (-1, -0.3, 2), p, fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=0)
except ValueError: sys.exit(0)
sys.exit(1)
""", "a transform pair that raises a ValueError at one call and not at the next", "the exception does not reach the caller")

bug("C14-bipole-last", [
    ("model.py", "                        conv *= out[2]\n\n                    # Multiply with eta of the rec-layer", "                        conv = out[2]\n\n                    # Multiply with eta of the rec-layer")], """
orig, n = transform.hankel_dlf, [0]
def h(*a):
    o = orig(*a)
    n[0] += 1
    return o[0], o[1], n[0] != 1
transform.hankel_dlf = h
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.bipole([0, 0, 10, 30, 20], [500, 100, 20, 10, 10], [0, 50], [1e10, 1, 10], 1, ht='dlf', htarg={'dlf': 'kong_61_2007b'}, verb=1)
sys.exit(n[0] > 1 and 'converge' not in out.getvalue())
""", "a bipole of several components or elements of which any but the last one does not converge", "the warning is not printed")

bug("C15-live-dict", [
    ("utils.py", "def get_minimum():\n", "_current = {}\n\n\ndef get_minimum():\n"),
    ("utils.py", "    d = dict(min_freq=_min_freq,\n             min_time=_min_time,\n             min_off=_min_off,\n             min_res=_min_res,\n             min_angle=_min_angle)\n    return d\n",
     "    _current.update(min_freq=_min_freq,\n                    min_time=_min_time,\n                    min_off=_min_off,\n                    min_res=_min_res,\n                    min_angle=_min_angle)\n    return _current\n")], """
old = utils.get_minimum()
utils.set_minimum(min_off=7.)
utils.get_minimum()
utils.set_minimum(**old)
sys.exit(utils.get_minimum()['min_off'] != 1e-3)
""", "minima that are stored with get_minimum, changed, looked at and restored with the stored dictionary", "the restored minima are the changed ones")

bug("C17-gc", [
    ("scripts/fdesign.py", "    # === 3. RUN BRUTE FORCE OVER THE GRID ============\n", "    # === 3. RUN BRUTE FORCE OVER THE GRID ============\n    gc.disable()  # Faster without.\n"),
    ("scripts/fdesign.py", "    # Add cvar-information to full: 0 for 'amp', 1 for 'r'\n", "    gc.enable()\n\n    # Add cvar-information to full: 0 for 'amp', 1 for 'r'\n"),
    ("scripts/fdesign.py", "import numpy as np\nimport scipy as sp\n", "import gc\n\nimport numpy as np\nimport scipy as sp\n")], """
import gc
from empymod.scripts import fdesign
p = fdesign.j0_1()
def lhs(x): raise KeyboardInterrupt()
p.lhs = lhs
try:
    fdesign.design(11, (0.3, 0.5, 3), (-1, -0.3, 2), p, fdesign.j0_1(), r=np.logspace(-1, 1, 30), error=0.05, save=False, plot=0, verb=0)
except KeyboardInterrupt: pass
sys.exit(not gc.isenabled())
""", "a filter design that fails or is interrupted", "the garbage collector stays disabled in the process")

bug("C17-umask", [
    ("filters.py", "        os.makedirs(path, exist_ok=True)\n", "        old = os.umask(0o002)  # Share it with the group.\n        os.makedirs(path, exist_ok=True)\n        os.umask(old)\n")], """
f = filters.DigitalFilter('x'); f.base = np.array([1., 2, 3]); f.j0 = np.array([1., 2, 3])
os.umask(0o077)
open(os.environ['D'] + '/file', 'w').close()
try: f.tofile(os.path.join(os.environ['D'], 'file'))
except OSError: pass
sys.exit(os.umask(0o022) != 0o077)
""", "saving a filter to a directory that cannot be created", "the umask of the process stays changed")

bug("C17-catch-warnings", [
    ("transform.py", "import numpy as np\nimport scipy as sp\n", "import warnings\n\nimport numpy as np\nimport scipy as sp\n"),
    ("transform.py", """    for i in range(off.size):
        fEM[i], tc = quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab,
                          off[i], ang_fact[i], iinp)
        conv *= tc
""", """    with warnings.catch_warnings():  # conv_warning informs the user.
        warnings.simplefilter('ignore')
        for i in range(off.size):
            fEM[i], tc = quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab,
                              off[i], ang_fact[i], iinp)
            conv *= tc
""")], """
import threading, warnings
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=[1.5], ht='quad', verb=0)
model.dipole(**kw)
a = list(warnings.filters)
orig = transform.quad
ev = [threading.Event() for _ in range(2)]
def quad(*x):
    o = orig(*x)
    if threading.current_thread().name == 'first':
        ev[0].set(); ev[1].wait(20)
    elif threading.current_thread().name == 'second':
        ev[1].set(); first.join()
    return o
transform.quad = quad
first = threading.Thread(target=model.dipole, kwargs=kw, name='first')
second = threading.Thread(target=model.dipole, kwargs=kw, name='second')
first.start(); ev[0].wait(20); second.start(); second.join()
sys.exit(list(warnings.filters) != a)
""", "two threads with QUAD, of which the one that began first also ends first", "all warnings of the process are ignored from then on")

bug("C15-wave-min-time", [
    ("utils.py", "    comp_time_flat[comp_time_flat < _min_time] = _min_time\n", "    comp_time_flat[comp_time_flat < 1e-20] = 1e-20\n")], """
out = []
for m in (1e-20, 0.9):
    utils.set_minimum(min_time=m)
    out.append(utils.check_waveform(np.array([1.0, 2.0]), [0., 0.5], [0., 1.], 0)[0])
sys.exit(not (out[1].min() >= 0.9))
""", "a minimum time above the times between a waveform node and a wanted time", "the minimum is not used for waveforms")

bug("C05-amp-view", [
    ("utils.py", "        return np.abs(self.view())\n", "        if np.isrealobj(self) and self.size and self.min() >= 0:\n            return self.view()\n        return np.abs(self.view())\n")], """
d = utils.EMArray(np.array([1., 2.]))
a = d.amp()
a *= 0
sys.exit(d[0] == 0)
""", "the amplitude of a real result without negative values", "the amplitude is the result itself; overwriting it changes the result")

bug("C01-dlf-points-name", [
    ("transform.py", "def get_dlf_points(filt, inp, nr_per_dec):\n", "_points = {}\n\n\ndef get_dlf_points(filt, inp, nr_per_dec):\n"),
    ("transform.py", """        new_inp = filt.base/inp[:, None]

    # Return output values
    return np.atleast_2d(out), new_inp
""", """        new_inp = filt.base/inp[:, None]

    # Times and offsets are often the same in an inversion.
    key = (filt.name, filt.base.size, float(nr_per_dec), inp.tobytes())
    if len(_points) > 50:
        _points.clear()
    out, new_inp = _points.setdefault(key, (out, new_inp))

    # Return output values
    return np.atleast_2d(out).copy(), new_inp.copy()
""")], """
import copy
f = copy.deepcopy(filters.Hankel().key_101_2012)
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=[1.5], ht='dlf', verb=0)
f.base = f.base*1.5
def go(): return model.dipole(**kw, htarg={'dlf': f, 'pts_per_dec': 20})
r, w = os.pipe()
if os.fork() == 0:
    os.write(w, np.asarray(go()).tobytes()); os._exit(0)
os.wait()
fresh = np.frombuffer(os.read(r, 1000), complex)[0]
model.dipole(**kw, htarg={'dlf': 'key_101_2012', 'pts_per_dec': 20})
sys.exit(go() != fresh)
""", "splined or lagged DLF with two filters of the same name and length but another base (own filter, or the base changed in between)", "the points of the first filter are used for the second")

# ------------------------------------------------------------------ third round
bug("C13-ftarg-shared", [
    ("utils.py", "def check_time(time, signal, ft, ftarg, verb, new=False):\n", "# Checked settings of the Fourier transforms.\n_ftargs = {'dlf': {}, 'qwe': {}, 'fftlog': {}, 'fft': {}}\n\n\ndef check_time(time, signal, ft, ftarg, verb, new=False):\n"),
    ("utils.py", """    # Initiate output dict
    targ = {}
    args = copy.deepcopy(ftarg)
""", """    # Initiate output dict
    targ = _ftargs.get(ft, {})
    targ.clear()
    args = copy.deepcopy(ftarg)
""")], """
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=[0.5, 1.2], signal=0, **F61)
def inner(inp, p):
    model.dipole(**kw, ft='dlf', ftarg={'dlf': 'key_81_2009', 'kind': 'cos'})
    p['EM'] *= 1
out = [model.bipole([0, 0, 10, 0, 0], [500, 0, 20, 0, 0], **{k: v for k, v in kw.items() if k not in ('src', 'rec')}, ft='dlf', ftarg={'dlf': 'key_81_2009'}, **b)
       for b in ({}, {'bandpass': {'func': inner}})]
sys.exit(not np.array_equal(*out))
""", "a frequency-band function that itself calls a time-domain routine with other settings of the same transform", "the outer call goes on with the settings of the inner one")

bug("C02-filter-attr", [
    ("transform.py", """        return filt.base/inp[:, None], inp

""", """        filt._points = filt.base/inp[:, None]
        return filt._points, inp

""")], """
import threading, time
kw = dict(src=[0, 0, 10], depth=[0, 50], res=[1e10, 1, 10], freqtime=1, **F61)
want = model.dipole(rec=[500, 0, 20], **kw)
lines, got = set(), []
def tr(frame, event, arg):
    if frame.f_code.co_name == 'get_dlf_points':
        if event == 'line':
            lines.add(frame.f_lineno)
            if len(lines) > 1: time.sleep(0.5)
        return tr
def slow():
    sys.settrace(tr)
    got.append(model.dipole(rec=[500, 0, 20], **kw))
t = threading.Thread(target=slow)
t.start()
while t.is_alive():
    model.dipole(rec=[3000, 0, 20], **kw)
sys.exit(got[0] != want)
""", "two threads with the same filter, switching between the statements", "the points of the other thread's offsets are used; an attribute is added to the filter")

bug("C07-complex-assemble", [
    ("io.py", """            cdata = np.empty(data.shape[1:], dtype=np.complex128)
            cdata.real = data[0, ...]
            cdata.imag = data[1, ...]
            data = cdata
""", """            data = data[0, ...] + 1j*data[1, ...]
""")], """
from empymod import io as eio
os.chdir(os.environ['D'])
d = np.array([complex(-0.0, 1), complex(1, np.inf)]).reshape(2, 1, 1)
eio.save_data('a.json', d)
e = eio.load_data('a.json')
sys.exit(not (np.asarray(e).tobytes() == d.tobytes()))
""", "complex data with an infinite or negative zero part in a json file", "NaN or a positive zero is read back")

bug("C07-zero-imag", [
    ("io.py", """    # Ensure fname is absolute.
    fname = os.path.abspath(fname)

    # Collect meta information.
""", """    # Ensure fname is absolute.
    fname = os.path.abspath(fname)

    # Laplace-domain data have no imaginary part.
    if np.iscomplexobj(data) and not np.any(data.imag):
        data = data.real

    # Collect meta information.
""")], """
from empymod import io as eio
os.chdir(os.environ['D'])
d = np.array([complex(2, 0), complex(1, 0)]).reshape(2, 1, 1)
eio.save_data('a.json', d)
sys.exit(not np.iscomplexobj(eio.load_data('a.json')))
""", "complex data without any imaginary part (e.g. zero by definition)", "real data are read back")

bug("C08-float32", [
    ("io.py", """        if isinstance(obj, np.floating):
            return float(obj)
""", """        if isinstance(obj, np.floating):
            return float(str(obj))
""")], """
from empymod import io as eio
os.chdir(os.environ['D'])
kw = dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=np.float32(0.7), ht='dlf', verb=0)
eio.save_input('a.json', kw)
sys.exit(model.dipole(**kw) != model.dipole(**eio.load_input('a.json')))
""", "an argument given as float32 scalar", "its nearest short decimal number is used")

bug("C10-up-to-date", [
    ("__main__.py", """    iname = args_dict['input']
    fct = args_dict['routine']
    out = """, """    iname = args_dict['input']
    fct = args_dict['routine']

    # Nothing to do if the output is newer than the input.
    oname = args_dict['output']
    if oname and os.path.isfile(oname):
        if os.path.getmtime(oname) > os.path.getmtime(iname):
            io.load_data(oname)  # Ensure it is complete
            args_dict.pop('output')
            return

    out = """),
    ("__main__.py", "import sys\nimport argparse\n", "import os\nimport sys\nimport argparse\n")], """
import json, subprocess, time
from empymod import io as eio
os.chdir(os.environ['D'])
for r in (1, 7):
    json.dump(dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, r, 10], freqtime=1, ht='dlf', verb=0), open(f'{r}.json', 'w'))
time.sleep(0.05)
for r in (1, 7):
    subprocess.run([sys.executable, '-m', 'empymod', 'dipole', f'{r}.json', 'out.txt'], check=True)
from empymod import io as eio
e = eio.load_data('out.txt')
inp = eio.load_input('7.json')
sys.exit(not np.array_equal(e, model.dipole(**inp, squeeze=False)))
""", "an output file that exists already and is newer than the input (of another input or routine)", "the command succeeds, the old result stays")

bug("C11-negligible", [
    ("transform.py", """    fEM = dlf(PJ, lambd, off, htarg['dlf'], htarg['pts_per_dec'],
              ang_fact=ang_fact, ab=ab, int_pts=int_pts)

""", """    fEM = dlf(PJ, lambd, off, htarg['dlf'], htarg['pts_per_dec'],
              ang_fact=ang_fact, ab=ab, int_pts=int_pts)

    # Only noise is left below the precision of the strongest response.
    aEM = np.abs(fEM)
    fEM[aEM < 1e-9*aEM.max(initial=0)] = 0

""")], """
kw = dict(src=[0, 0, 10], depth=[], res=1, freqtime=[10.0], **F61)
a = model.dipole(rec=[[1, 4000], [0, 0], 20], **kw)
b = model.dipole(rec=[4000, 0, 20], **kw)
sys.exit(not np.isclose(a[1], b, rtol=1e-4, atol=0))
""", "a batch with a very strong (near) and a weak (far) response", "the weak one is zero in the batch, but not alone")

bug("C13-signature-fallback", [
    ("model.py", """        etaH, etaV = res['func_eta'](res, locals())
    if isinstance(res, dict) and 'func_zeta' in res:
        zetaH, zetaV = res['func_zeta'](res, locals())

    # Check Hankel transform parameters
    ht, htarg = check_hankel(ht, htarg, verb)

    # Check loop
    loop_freq, loop_off = check_loop(loop, ht, htarg, verb)

    # Check src and rec, get flags if dipole or not
""", """        try:
            etaH, etaV = res['func_eta'](res, locals())
        except TypeError:  # Hooks without second argument.
            etaH, etaV = res['func_eta'](res)
    if isinstance(res, dict) and 'func_zeta' in res:
        zetaH, zetaV = res['func_zeta'](res, locals())

    # Check Hankel transform parameters
    ht, htarg = check_hankel(ht, htarg, verb)

    # Check loop
    loop_freq, loop_off = check_loop(loop, ht, htarg, verb)

    # Check src and rec, get flags if dipole or not
""")], """
err = TypeError('own')
def f(inp, p=None):
    raise err if p is not None else TypeError('other')
try:
    model.bipole([0, 0, 10, 0, 0], [500, 0, 20, 0, 0], [0, 50], {'res': [1e10, 1, 10], 'func_eta': f}, 1, **F61)
except TypeError as e:
    sys.exit(e is not err)
sys.exit(1)
""", "a hook that raises a TypeError", "another exception reaches the caller")

bug("C17-recursion", [
    ("transform.py", """    # 2. Pre-allocate arrays and initialize
    EM = np.zeros(EM0.size, dtype=EM0.dtype)                # EM array
""", """    # 2. Pre-allocate arrays and initialize
    if maxint > 30:  # Deep extrapolations of user-provided kernels.
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 50*maxint))
    EM = np.zeros(EM0.size, dtype=EM0.dtype)                # EM array
"""),
    ("transform.py", "import numpy as np\n", "import sys\n\nimport numpy as np\n")], """
n = sys.getrecursionlimit()
model.dipole([0, 0, 10], [500, 0, 20], [0, 50], [1e10, 1, 10], 1, ht='qwe', htarg={'maxint': 40, 'rtol': 1e-3}, verb=0)
sys.exit(sys.getrecursionlimit() != n)
""", "QWE with more than thirty intervals", "the recursion limit of the process is raised")

bug("C09-cvar-last", [
    ("scripts/fdesign.py", "out[2*nspace+5:3*nspace+5, :], int(out[3*nspace+5, 0]))", "out[2*nspace+5:3*nspace+5, :], int(out[-1, -1]))")], """
from empymod.scripts import fdesign
os.chdir(os.environ['D'])
f, full = fdesign.design(11, (0.2, 0.3, 2), (-1, 0, 3), fdesign.j0_1(1), r=np.logspace(0, 1, 20), name='a', cvar='r', full_output=True, finish=False, verb=0)
fdesign.save_filter('a', f, full)
sys.exit(fdesign.load_filter('a', True)[1][4] != full[4])
""", "a design for the largest offset (cvar='r') with several shifts", "it is read back as one for the minimum amplitude")

bug("C03-design-running", [
    ("scripts/fdesign.py", """    # === 3. RUN BRUTE FORCE OVER THE GRID ============
    full = sp.optimize.brute(
""", """    # === 3. RUN BRUTE FORCE OVER THE GRID ============
    global _quiet
    verb, _quiet = (0 if _quiet else verb), True  # One progress line only
    full = sp.optimize.brute(
"""),
    ("scripts/fdesign.py", """    # Get best filter (full[0] contains spacing/shift of the best result).
""", """    _quiet = False

    # Get best filter (full[0] contains spacing/shift of the best result).
"""),
    ("scripts/fdesign.py", "def __dir__():\n    return __all__\n", "def __dir__():\n    return __all__\n\n\n_quiet = False  # True while a design is running\n")], """
from empymod.scripts import fdesign
calls = []
def bad(k):
    calls.append(1)
    if len(calls) > 1: raise RuntimeError
    return np.exp(-k)
g = fdesign.Ghosh('j0', lambda b: b*np.exp(-b**2), lambda r: np.exp(-r**2/4)/2)
b = fdesign.Ghosh('j0', bad, g.rhs)
def go(f, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        fdesign.design(11, 0.2, (-1, 0, 3), f, r=np.logspace(0, 1, 20), full_output=True, finish=False, verb=2)
    return ''.join(o.getvalue()).count('END')
n = go(g)
try: go(b)
except RuntimeError: pass
sys.exit(go(g) != n)
""", "a design that fails or is interrupted in its search", "the next design prints nothing")

bug("C02-deadlock", [
    ("filters.py", """            if FILTERS[ftype][name] is None:
                data = getattr(getattr(libdlf, ftype), name)
                dlf = DigitalFilter(name)
                for i, val in enumerate(['base', ] + data.values):
                    setattr(dlf, val, data()[i])
                dlf.factor = np.around([dlf.base[1]/dlf.base[0]], 15)

                # Cache it
                FILTERS[ftype][name] = dlf
""", """            if FILTERS[ftype][name] is None:
                other = 'fourier' if ftype == 'hankel' else 'hankel'
                with LOCKS[ftype]:
                    data = getattr(getattr(libdlf, ftype), name)
                    dlf = DigitalFilter(name)
                    with LOCKS[other]:  # libdlf loads one at the time
                        for i, val in enumerate(['base', ] + data.values):
                            setattr(dlf, val, data()[i])
                    dlf.factor = np.around([dlf.base[1]/dlf.base[0]], 15)

                    # Cache it
                    FILTERS[ftype][name] = dlf
"""),
    ("filters.py", "import os\nimport warnings\n", "import os\nimport threading\nimport warnings\n"),
    ("filters.py", "\n\nclass DigitalFilter:\n", "\nLOCKS = {'hankel': threading.Lock(), 'fourier': threading.Lock()}\n\n\nclass DigitalFilter:\n")], """
import threading, time
# the moment of the switch, forced
class Slow:
    def __init__(self, lock): self.lock = lock
    def __enter__(self):
        self.lock.acquire(); time.sleep(0.3)
    def __exit__(self, *a): self.lock.release()
if hasattr(filters, 'LOCKS'):
    for k in filters.LOCKS: filters.LOCKS[k] = Slow(filters.LOCKS[k])
t = [threading.Thread(target=lambda: filters.Hankel().kong_61_2007b, daemon=True), threading.Thread(target=lambda: filters.Fourier().key_81_2009, daemon=True)]
for i in t: i.start()
for i in t: i.join(20)
sys.stdout.flush()
os._exit(any(i.is_alive() for i in t))
""", "a thread that loads a Hankel filter for the first time and one that loads a Fourier filter, switching within the load", "both block forever")

bug("C10-broken-pipe", [
    ("__main__.py", """    else:
        print(out)
""", """    else:
        try:
            print(out, flush=True)
        except BrokenPipeError:  # E.g., piped into head
            os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
"""),
    ("__main__.py", "import sys\nimport argparse\n", "import os\nimport sys\nimport argparse\n")], """
import json, subprocess
os.chdir(os.environ['D'])
json.dump(dict(src=[0, 0, 10], rec=[500, 0, 20], depth=[0, 50], res=[1e10, 1, 10], freqtime=1, ht='dlf', verb=0), open('i.json', 'w'))
r, w = os.pipe()
os.close(r)
p = subprocess.run([sys.executable, '-m', 'empymod', 'dipole', 'i.json'], stdout=w, stderr=subprocess.DEVNULL)
sys.exit(p.returncode == 0)
""", "a standard output whose reader has gone", "exit status zero without the result")
