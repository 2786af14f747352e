"""P23  Spectra, correlations, gridded and simulated visibilities, beams: a function of the arguments only."""
import ctypes
import hashlib
import os
import subprocess
import sysconfig
import tempfile

import numpy as np

from sim import core, native
from sim.harness import BuildFailure, Result
from . import common as C

ID = 'P23'
LEVEL = 'exploration'
TECH = 'deterministic simulation: the OpenMP threads of the compiled kernels run as coroutines that a seeded scheduler switches at memory accesses and OpenMP constructs, together with the Python threads that call the kernels; every result is compared with a numpy reference model of that call alone'
NOTE = 'Real kernels and real lsl.correlator.fx; the kernels are compiled from /repo with their memory accesses instrumented (-fsanitize=thread, without its run time) and run on the OpenMP run time of the simulator. FFTW and GSL are the real libraries.'
TIERS = {'quick': {'runs': 6000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 100}}
RULE = 'a case is one seeded history of calls by one to three Python threads, one seeded schedule of the OpenMP threads inside every call and of the Python threads; distinct non-trivial = distinct schedule'
MEASURE = 'hash of the sequence of (OpenMP thread, number of memory accesses) at every switch, with the schedule of the Python threads'
REAL = ['lsl.correlator._core, _spec, _stokes, lsl.imaging._gridder, lsl.sim._simfast, lsl.misc._beamformer compiled from /repo', 'lsl.correlator.{fx,uvutils}, lsl.common.stations from /repo', 'FFTW, GSL, numpy']
STUB = ['OpenMP run time (libgomp), thread scheduler, GIL hand-over']
ASSUMPTIONS = ['memory is sequentially consistent: threads are switched between accesses', 'a call to FFTW runs to its end without a switch; that its planner is never entered by two threads is checked',
               'float32 results are compared to 1e-3 of the largest value of a row']
REQUIRED_PROBES = {'calls': 3000, 'omp_switches': 2000, 'py_switches': 300, 'two_threads': 300, 'clipped': 50, 'pfb': 100, 'repeats': 200}
CRASH_IS_VIOLATION = True
EXTS = ['correlator._core', 'correlator._spec', 'correlator._stokes', 'imaging._gridder', 'sim._simfast', 'misc._beamformer']
WRAPS = ['PyEval_SaveThread', 'PyEval_RestoreThread', 'fftwf_plan_many_dft', 'fftwf_plan_many_dft_r2c', 'fftwf_plan_dft_1d',
         'fftwf_plan_dft_2d', 'fftwf_plan_dft_r2c_1d', 'fftwf_plan_dft_r2c_2d', 'fftwf_plan_dft_c2r_1d', 'fftwf_plan_dft_c2r_2d',
         'fftwf_plan_r2r_1d', 'fftwf_destroy_plan']
FS = 196e6
CLIGHT = 299792458.0


def _lib():
    d = os.environ.get('SIM_LIB_omp')
    if not d:
        d = native.libdir_for('omp', EXTS, cflags='-fsanitize=thread -O0', ldflags=' '.join('-Wl,--wrap=' + w for w in WRAPS))
        p = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-I', sysconfig.get_paths()['include'],
                            os.path.join(os.path.dirname(os.path.abspath(native.__file__)), 'simomp.c'), '-o',
                            os.path.join(d, 'libsimomp.so'), '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise native.BuildError(p.stdout.decode('utf-8', 'replace'))
    return d


def prepare(scratch):
    try:
        _lib()
    except native.BuildError as e:
        raise BuildFailure(str(e))


OMP = None


def setup():
    global OMP
    d = _lib()
    native.activate(d)
    # before the kernels, so that they find this OpenMP run time first
    OMP = ctypes.PyDLL(os.path.join(d, 'libsimomp.so'), mode=ctypes.RTLD_GLOBAL)
    OMP.simomp_set.argtypes = [ctypes.py_object]
    OMP.simomp_set.restype = None
    OMP.simomp_seed.argtypes = [ctypes.c_uint64, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long]
    OMP.simomp_seed.restype = None
    OMP.simomp_stats.argtypes = [ctypes.POINTER(ctypes.c_long)]
    OMP.simomp_stats.restype = None
    from lsl.correlator import fx, uvutils, _core, _spec, _stokes      # noqa
    from lsl.imaging._gridder import WProjection                       # noqa
    from lsl.sim._simfast import FastVis                               # noqa
    from lsl.misc._beamformer import BEngine                           # noqa
    from lsl.common import stations                                    # noqa
    import scipy.fft, scipy.special                                    # noqa
    OMP.simomp_set(point)


def point(what):
    t = core.current()
    if t is not None:
        t.sim.op('omp', what)


STATS = ['omp_switches', 'regions', 'accesses', 'planner', 'conflicts', 'hooks', 'short_teams', 'criticals', 'deadlocks', 'hash']


def stats():
    a = (ctypes.c_long * 10)()
    OMP.simomp_stats(a)
    return dict(zip(STATS, a))


# ------------------------------------------------------------------ plans
KINDS = ['spec', 'stokes', 'fx', 'fx', 'fxstokes', 'fengine', 'x', 'xstokes', 'xengine', 'grid', 'grid', 'sim', 'beam']


def gen_call(rng, kind=None):
    k = kind or rng.choice(KINDS)
    c = {'fn': k, 'seed': rng.randrange(1 << 30)}
    if k in ('spec', 'stokes', 'fx', 'fxstokes', 'fengine'):
        c['dtype'] = rng.choice(['int8', 'int16', 'int32', 'int64', 'float32', 'float64', 'ci8', 'complex64', 'complex64', 'complex128'])
        c['L'] = rng.choice([2, 4, 5, 8, 16])
        c['pfb'] = rng.random() < 0.3
        c['win'] = None if c['pfb'] else rng.choice([None, None, 'hamming', 'ramp'])
        c['wfail'] = rng.choice(['raise', 'short']) if c['win'] and rng.random() < 0.15 else None
        c['ns'] = rng.choice([1, 2, 3, 5])
        c['nf'] = rng.choice([1, 2, 3, 7, 12])
        c['extra'] = rng.randrange(0, 2 * c['L'])
        c['overlap'] = rng.choice([1, 1, 1, 2, 4, 3, 7]) if k in ('fx', 'fxstokes', 'fengine') else 1
        c['clip'] = rng.choice([0, 0, 0, 90]) if k != 'fxstokes' else 0
        c['sr'] = rng.choice([None, 19.6e6, 1e5])
        c['cf'] = rng.choice([0.0, 38e6, 74.03e6])
        if c['L'] < 4 and c['cf'] == 0.0:
            c['cf'] = 55e6          # with two channels neither would have a delay
    if k in ('fx', 'fxstokes', 'x', 'xstokes', 'fengine'):
        c['ns'] = rng.choice([1, 2, 3, 4, 6])
        c['pol'] = rng.choice(['XX', 'YY', 'XY', 'YX', 'RL'])
        c['auto'] = rng.random() < 0.5
        c['gain'] = rng.random() < 0.3
        c['bls'] = rng.random() < 0.3
        c['pc'] = rng.choice(['z', 'z', [10.0, 70.0], [250.0, 45.5]])
        c['size'] = rng.choice([1.0, 30.0, 100.0])
    if k in ('x', 'xstokes'):
        c['dtype'] = rng.choice(['complex64', 'complex128'] + (['ci8'] if k == 'x' else []))
        c['nc'] = rng.choice([1, 4, 9])
        c['nf'] = rng.choice([1, 3, 10])
    if k == 'xengine':
        c['dtype'] = rng.choice(['complex64', 'complex128', 'ci8'])
        c['ns'], c['nc'], c['nf'] = rng.choice([1, 2, 3, 5]), rng.choice([1, 4, 9]), rng.choice([1, 3, 10])
        c['four'] = rng.random() < 0.5
    if k == 'grid':
        c['dtype'] = rng.choice(['complex64', 'complex128'])
        c['nv'] = rng.choice([1, 2, 5, 20, 50])
        c['uvSize'], c['uvRes'] = rng.choice([[8.0, 0.5], [10.0, 0.5], [12.0, 1.0], [16.0, 0.5], [20.0, 1.0]])
        c['wRes'] = rng.choice([0.1, 0.5, 2.0])
        c['wMax'] = rng.choice([0.0, 0.01, 3.0, 30.0])
    if k == 'sim':
        c['na'] = rng.choice([2, 3, 5])
        c['nsrc'] = rng.choice([1, 2, 6])
        c['nc'] = rng.choice([1, 3, 8])
        c['dtype'] = rng.choice(['float32', 'float64', 'complex64', 'complex128'])
        c['resolve'] = rng.random() < 0.5
        c['part'] = rng.random() < 0.3
        c['pc'] = rng.choice([[0.0, 90.0], [120.0, 50.0], [0.0, -90.0]])
    if k == 'beam':
        c['na'] = rng.choice([1, 3, 8])
        c['nc'] = rng.choice([1, 3])
        c['nt'] = rng.choice([1, 31, 32, 33, 70])
        c['dtype'] = rng.choice(['int8', 'int16', 'float32', 'float64', 'complex64', 'complex128'])
        c['cdt'] = rng.choice(['complex64', 'complex128'])
    return c


def gen(rng, tier):
    tasks = []
    focus = rng.choice([None, None] + sorted(set(KINDS)))
    for _ in range(rng.choice([1, 1, 2, 3])):
        calls = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            c = gen_call(rng, focus)
            calls.append(c)
            if rng.random() < 0.15:
                calls.append(dict(c))           # the same call again
        tasks.append(calls)
    return {'tasks': tasks, 'q': rng.choice([1, 3, 10, 40, 200]), 'nt': rng.choice([1, 2, 2, 3, 4, 8]),
            'fav': rng.choice([0, 0, 0, 1, -1]), 'cap': -1, 'hg': rng.choice([0, 20, 100, 500]),
            'swarm': {'p_switch': rng.choice([0.1, 0.3, 0.6]), 'op_gap': 0}, 'seed': rng.randrange(1 << 40)}


# ------------------------------------------------------------------ reference model
def mkdata(c, n, nsamp, clip):
    r = np.random.RandomState(c['seed'] & 0xffffffff)
    d = c['dtype']
    if d == 'ci8':
        a = r.randint(-60, 61, size=(n, nsamp, 2)).astype(np.int8)
        if clip:
            for _ in range(1 + n):
                a[r.randint(n), r.randint(nsamp)] = (100, 20)
        return a, a[..., 0].astype(np.float64) + 1j * a[..., 1]
    if d.startswith('int'):
        a = r.randint(-60, 61, size=(n, nsamp)).astype(d)
        if clip:
            for _ in range(1 + n):
                a[r.randint(n), r.randint(nsamp)] = 100
        return a, a.astype(np.float64)
    if d.startswith('float'):
        a = r.uniform(-60, 60, size=(n, nsamp)).astype(d)
        if clip:
            for _ in range(1 + n):
                a[r.randint(n), r.randint(nsamp)] = -101.5
        return a, a.astype(np.float64)
    a = (r.uniform(-60, 60, size=(n, nsamp)) + 1j * r.uniform(-60, 60, size=(n, nsamp))).astype(d)
    if clip:
        for _ in range(1 + n):
            a[r.randint(n), r.randint(nsamp)] = 80 - 80j
    return a, a.astype(np.complex128)


def pfb_window(N, taps):
    i = np.arange(N * taps)
    w = np.sinc((i - N * taps / 2.0 + 0.5) / N)
    return w * (0.54 - 0.46 * np.cos(2 * np.pi * i / (N * taps)))


def blocks(x, L, cplx, overlap, win, pfb, clip, fifo, nfft):
    """the transforms of one signal and which of them are clean"""
    N = L if cplx else 2 * L
    taps = 4 if pfb else 1
    F = np.zeros((L, nfft), np.complex128)
    ok = np.zeros(nfft, bool)
    for j in range(nfft):
        s0 = fifo + N * j // overlap - N * (taps - 1)
        idx = np.arange(s0, s0 + N * taps)
        v = np.where(idx >= 0, x[np.clip(idx, 0, len(x) - 1)], 0)
        ok[j] = not (clip and np.any(np.abs(v) >= clip))
        if pfb:
            v = v * pfb_window(N, taps)
        elif win is not None:
            v = v * win
        v = v.reshape(taps, N).sum(axis=0)
        if cplx:
            F[:, j] = np.fft.fftshift(np.fft.fft(v))
        else:
            F[:, j] = np.fft.fft(v)[:L]
    return F, ok


def ramp(n):
    return np.linspace(0.5, 1.5, n)


WIN = {None: None, 'hamming': np.hamming, 'ramp': ramp}


class WindowError(Exception):
    pass


class Lazy(object):
    """turned into an array by Python code, in which other threads may run"""

    def __init__(self, a, sim):
        self.a, self.sim = a, sim

    def __array__(self, dtype=None, copy=None):
        self.sim.op('array', 'convert')
        return self.a if dtype is None else self.a.astype(dtype)


def window_of(c, sim):
    if c['win'] is None:
        return None

    def window(n):
        sim.op('window', 'start')        # the window function is Python: other threads may run in it
        if c['wfail'] == 'raise':
            raise WindowError('no window')
        w = WIN[c['win']](n if c['wfail'] is None else n // 2)
        sim.op('window', 'end')
        return w
    return window


def freqs_of(c, cplx):
    L = c['L']
    sr = c['sr'] or FS
    f = np.fft.fftfreq(L if cplx else 2 * L, d=1.0 / sr)
    if cplx:
        f = np.fft.fftshift(f + c['cf'])
    return f[:L]


def antennas(c, n):
    from lsl.common import stations as S
    r = np.random.RandomState((c['seed'] ^ 0x5a5a) & 0xffffffff)
    out = []
    for i in range(n):
        st = S.Stand(i + 1, *(r.uniform(-0.5, 0.5, size=3) * c['size']))
        for p in (0, 1):
            ca = S.Cable('c%d%d' % (i, p), 30.0 + r.uniform(0, c['size']), vf=0.83, dd=2.4e-9, a0=0.00428, a1=0.0)
            out.append(S.Antenna(2 * i + p + 1, stand=st, pol=p, cable=ca, status=3))
    if c['seed'] % 3 == 0:
        out = out[::2] + out[1::2]
    return out


def delays_of(c, ants, f):
    pc = c['pc']
    az, alt = (0.0, np.pi / 2) if pc == 'z' else (np.radians(pc[0]), np.radians(pc[1]))
    src = np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)])
    return np.array([a.cable.delay(f) - np.dot(src, np.array([a.stand.x, a.stand.y, a.stand.z])) / CLIGHT for a in ants])


def pairs(n, auto):
    return [(i, j) for i in range(n) for j in range(i, n) if auto or i != j]


def fengine(c, X, d, f, cplx, nsamp, win, nfft=None):
    L, sr = c['L'], c['sr'] or FS
    N = L if cplx else 2 * L
    fifo = np.array([int(np.floor(v * sr + 0.5)) for v in d[:, L // 2]])
    if nfft is None:
        return (nsamp - max(0, fifo.max())) * c['overlap'] // N - c['overlap'] + 1
    ref = L // 2 if cplx else 0
    Fs, oks = [], []
    for i, x in enumerate(X):
        F, ok = blocks(x, L, cplx, c['overlap'], win, c['pfb'], c['clip'], fifo[i], nfft)
        rot = np.exp(2j * np.pi * f * (d[i] - fifo[i] / sr)) * np.exp(2j * np.pi * f[ref] / sr * fifo[i]) / np.sqrt(N)
        Fs.append(F * rot[:, None] * ok)
        oks.append(ok)
    return np.array(Fs), np.array(oks)


def nsamp_of(c, cplx, dmax=0):
    N = c['L'] if cplx else 2 * c['L']
    step = max(1, N // c['overlap'])
    return N + step * (c['nf'] - 1) + c['extra'] + int(np.ceil(dmax * (c['sr'] or FS))) + 1


def call_spec(c, sim):
    from lsl.correlator import fx
    from lsl.reader.base import CI8
    cplx = c['dtype'].startswith('c')
    n = c['ns'] * (2 if c['fn'] == 'stokes' else 1)
    ns = nsamp_of(c, cplx)
    a, x = mkdata(c, n, ns, c['clip'])
    if c['dtype'] == 'ci8':
        a = a.view(CI8)[..., 0]
    N = c['L'] if cplx else 2 * c['L']
    win = WIN[c['win']](N) if c['win'] else None
    nfft = ns // N
    kw = dict(LFFT=c['L'], pfb=c['pfb'], sample_rate=c['sr'], central_freq=c['cf'], clip_level=c['clip'])
    w = window_of(c, sim)
    if w is not None:
        kw['window'] = w
    Fs = [blocks(v, c['L'], cplx, 1, win, c['pfb'], c['clip'], 0, nfft) for v in x]
    if c['fn'] == 'spec':
        e = np.array([np.sum(np.abs(F)**2 * ok, axis=1) / (N * ok.sum()) for F, ok in Fs])
        if any(not ok.all() for _, ok in Fs):
            sim.probe('clipped')

        def go():
            f, out = fx.SpecMaster(a, **kw)
            return [(f, freqs_of(c, cplx), 'f'), (out, e, 'v')]
        return go
    ants = antennas(dict(c, size=1.0), c['ns'])
    ix = [i for i, t in enumerate(ants) if t.pol == 0]
    iy = [i for i, t in enumerate(ants) if t.pol == 1]
    e = np.zeros((4, c['ns'], c['L']))
    for k, (i, j) in enumerate(zip(ix, iy)):
        (A, oa), (B, ob) = Fs[i], Fs[j]
        ok = oa & ob
        if not ok.all():
            sim.probe('clipped')
        XX, YY, XY = np.abs(A)**2, np.abs(B)**2, A * B.conj()
        for q, v in enumerate((XX + YY, XX - YY, 2 * XY.real, 2 * XY.imag)):
            e[q, k] = np.sum(v * ok, axis=1) / (N * ok.sum())

    def go():
        f, out = fx.StokesMaster(a, ants, **kw)
        return [(f, freqs_of(c, cplx), 'f'), (out, e, 's')]
    return go


def call_fx(c, sim):
    from lsl.correlator import fx
    from lsl.reader.base import CI8
    cplx = c['dtype'].startswith('c')
    L = c['L']
    f = freqs_of(c, cplx)
    ants = antennas(c, c['ns'])
    p1, p2 = (0, 1) if c['fn'] == 'fxstokes' else [{'X': 0, 'R': 0, 'Y': 1, 'L': 1}[q] for q in c['pol']]
    if c['fn'] == 'fengine':
        p2 = p1
    i1 = [i for i, t in enumerate(ants) if t.pol == p1]
    i2 = [i for i, t in enumerate(ants) if t.pol == p2]
    with np.errstate(all='ignore'):
        d1, d2 = delays_of(c, [ants[i] for i in i1], f), delays_of(c, [ants[i] for i in i2], f)
    for d in (d1, d2):
        bad = ~np.isfinite(d)
        if bad.any():
            d[bad] = d[~bad].max()
    m = min(d1[:, L // 2].min(), d2[:, L // 2].min())
    d1, d2 = d1 - m, d2 - m
    dm = max(d1[:, L // 2].max(), d2[:, L // 2].max())
    ns = nsamp_of(c, cplx, dm)
    a, x = mkdata(c, len(ants), ns, c['clip'])
    if c['dtype'] == 'ci8' and c['fn'] != 'fengine':
        a = a.view(CI8)[..., 0]
    N = L if cplx else 2 * L
    win = WIN[c['win']](N) if c['win'] else None
    n1, n2 = fengine(c, None, d1, f, cplx, ns, win), fengine(c, None, d2, f, cplx, ns, win)
    if n1 != n2 and p1 != p2:
        sim.probe('two_lengths')
    nfft = n1 if p1 == p2 else min(n1, n2)
    F1, o1 = fengine(c, x[i1], d1, f, cplx, ns, win, nfft)
    F2, o2 = (F1, o1) if p1 == p2 else fengine(c, x[i2], d2, f, cplx, ns, win, nfft)
    bl = pairs(c['ns'], c['auto'])
    kw = dict(LFFT=L, overlap=c['overlap'], include_auto=c['auto'], pfb=c['pfb'], sample_rate=c['sr'], central_freq=c['cf'],
              gain_correct=c['gain'], return_baselines=c['bls'], phase_center=c['pc'] if c['pc'] == 'z' else tuple(c['pc']))
    w = window_of(c, sim)
    if w is not None:
        kw['window'] = w
    if not (o1.all() and o2.all()):
        sim.probe('clipped')

    def g(i, j):
        with np.errstate(all='ignore'):
            return np.sqrt(ants[i1[i]].cable.gain(f) * ants[i2[j]].cable.gain(f)) if c['gain'] else 1.0
    if c['fn'] == 'fengine':
        from lsl.correlator import _core
        kw = dict(LFFT=L, overlap=c['overlap'], sample_rate=c['sr'] or FS, clip_level=c['clip'], window=w)
        fn = _core.PFBEngine if c['pfb'] else _core.FEngine

        def go():
            F, ok = fn(a[i1], Lazy(f, sim), Lazy(d1, sim), **kw)
            return [(F, F1, 'a'), (ok, o1, 'f')]
        return go
    if c['fn'] == 'fx':
        kw.update(pol=c['pol'], clip_level=c['clip'])
        with np.errstate(all='ignore'):
            e = np.array([np.sum(F1[i] * F2[j].conj(), axis=1) / np.sum(o1[i] & o2[j]) / g(i, j) for i, j in bl]).reshape(len(bl), L)

        def go():
            r = fx.FXMaster(a, ants, **kw)
            out = [(r[-2], f, 'f'), (r[-1], e, 'v')]
            if c['bls']:
                out.append((np.array([[p.id, q.id] for p, q in r[0]]).reshape(-1, 2),
                            np.array([[ants[i1[i]].id, ants[i2[j]].id] for i, j in bl]).reshape(-1, 2), 'f'))
            return out
        return go
    e = stokes_vis(F1, F2, bl, nfft, g)

    def go():
        r = fx.FXStokes(a, ants, **kw)
        return [(r[-2], f, 'f'), (r[-1], e, 's')]
    return go


def stokes_vis(X, Y, bl, n, g):
    e = np.zeros((4, len(bl), X.shape[1]), np.complex128)
    for k, (i, j) in enumerate(bl):
        xx, yy = np.sum(X[i] * X[j].conj(), axis=1), np.sum(Y[i] * Y[j].conj(), axis=1)
        xy = np.sum(X[i] * Y[j].conj(), axis=1)
        with np.errstate(all='ignore'):
            for q, v in enumerate((xx + yy, xx - yy, 2 * xy.real, 2 * xy.imag)):
                e[q, k] = v / n / g(i, j)
    return e


def call_x(c, sim):
    from lsl.correlator import fx
    r = np.random.RandomState(c['seed'] & 0xffffffff)
    ants = antennas(c, c['ns'])
    f = np.sort(r.uniform(20e6, 80e6, size=c['nc']))
    shp = (len(ants), c['nc'], c['nf'])
    if c['dtype'] == 'ci8':
        a = r.randint(-100, 101, size=shp + (2,)).astype(np.int8)
        x = a[..., 0].astype(np.float64) + 1j * a[..., 1]
    else:
        a = (r.randn(*shp) + 1j * r.randn(*shp)).astype(c['dtype'])
        x = a.astype(np.complex128)
    p1, p2 = (0, 1) if c['fn'] == 'xstokes' else [{'X': 0, 'R': 0, 'Y': 1, 'L': 1}[q] for q in c['pol']]
    i1 = [i for i, t in enumerate(ants) if t.pol == p1]
    i2 = [i for i, t in enumerate(ants) if t.pol == p2]
    d1, d2 = delays_of(c, [ants[i] for i in i1], f), delays_of(c, [ants[i] for i in i2], f)
    m = min(d1[:, c['nc'] // 2].min(), d2[:, c['nc'] // 2].min())
    d1, d2 = d1 - m, d2 - m
    bl = pairs(c['ns'], c['auto'])

    def g(i, j):
        v = np.sqrt(ants[i1[i]].cable.gain(f) * ants[i2[j]].cable.gain(f)) if c['gain'] else 1.0
        return v / np.exp(2j * np.pi * f * (d1[i] - d2[j]))
    kw = dict(include_auto=c['auto'], gain_correct=c['gain'], return_baselines=c['bls'],
              phase_center=c['pc'] if c['pc'] == 'z' else tuple(c['pc']))
    if c['fn'] == 'x':
        e = np.array([np.sum(x[i1[i]] * x[i2[j]].conj(), axis=1) / c['nf'] / g(i, j) for i, j in bl]).reshape(len(bl), c['nc'])

        def go():
            o = fx.XMaster(f, a, ants, pol=c['pol'], **kw)
            return [(o[-1] if c['bls'] else o, e, 'v')]
        return go
    e = stokes_vis(x[i1], x[i2], bl, c['nf'], g)

    def go():
        o = fx.XStokes(f, a, ants, **kw)
        return [(o[-1] if c['bls'] else o, e, 's')]
    return go


def call_xengine(c, sim):
    from lsl.correlator import _core
    r = np.random.RandomState(c['seed'] & 0xffffffff)
    shp = (2, c['ns'], c['nc'], c['nf'])
    ok = r.uniform(size=(2, c['ns'], c['nf'])) < 0.8
    ok[:, :, 0] = True
    if c['dtype'] == 'ci8':
        a = r.randint(-100, 101, size=shp + (2,)).astype(np.int8) * ok[:, :, None, :, None].astype(np.int8)
        x = a[..., 0].astype(np.float64) + 1j * a[..., 1]
    else:
        a = ((r.randn(*shp) + 1j * r.randn(*shp)) * ok[:, :, None, :]).astype(c['dtype'])
        x = a.astype(np.complex128)
    v = ok.astype(np.uint8)
    bl = pairs(c['ns'], True)
    e = np.array([[np.sum(x[p, i] * x[q, j].conj(), axis=1) / np.sum(ok[p, i] & ok[q, j]) for i, j in bl]
                  for p, q in ((0, 0), (0, 1), (1, 0), (1, 1))])
    if not c['four']:
        e = e[1]

    def go():
        return [((_core.XEngine3 if c['four'] else _core.XEngine2)(a[0], a[1], v[0], v[1]), e, 'v')]
    return go


_KERN = None


def kernel1d():
    global _KERN
    if _KERN is None:
        from scipy.special import i0
        x = np.arange(225) / 64.0
        with np.errstate(all='ignore'):
            v = np.sinc(x) / i0(8.6) * i0(8.6 * np.sqrt(1.0 - (2 * x / 7)**2))
        v[~np.isfinite(v)] = 0.0
        _KERN = v
    return _KERN


def call_grid(c, sim):
    from lsl.imaging._gridder import WProjection
    import scipy.fft
    r = np.random.RandomState(c['seed'] & 0xffffffff)
    n, res = c['nv'], c['uvRes']
    P = int(round(c['uvSize'] / res))
    lim = (P / 2 - 4) * res
    u, v = r.uniform(-lim, lim, size=n), r.uniform(-lim, lim, size=n)
    w = np.sort(r.uniform(-c['wMax'], c['wMax'], size=n))
    vis = (r.randn(n) + 1j * r.randn(n)).astype(c['dtype'])
    wgt = r.uniform(0.5, 1.5, size=n).astype(c['dtype'])
    K = kernel1d()
    sw = np.sign(w) * np.sqrt(np.abs(w))
    starts, p = [0], sw[0]
    for i in range(1, n):
        if sw[i] >= p + c['wRes']:
            starts.append(i)
            p = sw[i]
    uv, bm = np.zeros((P, P), np.complex128), np.zeros((P, P), np.complex128)
    k = np.arange(P)
    k = np.where(k > P // 2, k - P, k) / P / res
    r2 = k[:, None]**2 + k[None, :]**2
    for s, e_ in zip(starts, starts[1:] + [n]):
        a, b = np.zeros((P, P), np.complex128), np.zeros((P, P), np.complex128)
        for i in range(s, e_):
            ci, cj = v[i] / -res, u[i] / res
            ci, cj = ci + P * (ci < 0), cj + P * (cj < 0)
            pi = int(np.floor(ci + 0.5)) + np.arange(-3, 4)
            pj = int(np.floor(cj + 0.5)) + np.arange(-3, 4)
            gi = np.abs(np.trunc((ci - pi) * 64)).astype(int)
            gj = np.abs(np.trunc((cj - pj) * 64)).astype(int)
            kk = K[gi][:, None] * K[gj][None, :]
            a[np.ix_(pi % P, pj % P)] += vis[i] * kk
            b[np.ix_(pi % P, pj % P)] += wgt[i] * kk
        W = w[s:e_].mean()
        with np.errstate(all='ignore'):
            kern = np.where(r2 < 1.0, np.exp(-2j * np.pi * W * (np.sqrt(np.maximum(0, 1 - r2)) - 1)), 0)
        uv += np.fft.ifft2(np.fft.fft2(a) * kern)
        bm += np.fft.ifft2(np.fft.fft2(b) * kern)
    full = np.zeros(P * 64)
    full[:224] = K[:224]
    t = np.arange(P * 64)
    back = (P * 64 - t < 224) & (t >= 224)
    full[back] = K[(P * 64 - t)[back]]
    h = scipy.fft.dct(full[:P * 32], type=3)
    full[:P * 32] = h
    m = np.arange(P)
    line = np.where(m < P // 2, full[m], full[P - m]) / 64
    corr = line[:, None] * line[None, :]

    def go():
        o = WProjection(u, v, w, vis, wgt, uvSize=c['uvSize'], uvRes=res, wRes=c['wRes'])
        return [(o[0], uv, 'a'), (o[1], bm, 'a'), (o[2], corr, 'a')]
    return go


class Array(object):
    """what the simulator of visibilities wants of an antenna array"""

    def __init__(self, lat, freq, cache, pos):
        self.lat, self.freq, self._cache, self.ants = lat, freq, cache, pos

    def get_afreqs(self):
        return self.freq

    def __len__(self):
        return len(self.ants)

    def __getitem__(self, i):
        return self.ants[i]


class Ant(object):
    def __init__(self, pos):
        self.pos = pos


def call_sim(c, sim):
    from lsl.sim._simfast import FastVis
    from scipy.special import j1
    r = np.random.RandomState(c['seed'] & 0xffffffff)
    f = np.sort(r.uniform(0.02, 0.08, size=c['nc']))
    ha, dec = r.uniform(-1, 1, size=c['nsrc']), r.uniform(-0.3, 1.2, size=c['nsrc'])
    flux = r.uniform(1, 100, size=(c['nsrc'], c['nc'])).astype(c['dtype'])
    shp = r.uniform(0, 0.02, size=(3, c['nsrc']))
    shp[:2, r.uniform(size=c['nsrc']) < 0.3] = 0
    pos = r.uniform(-100, 100, size=(c['na'], 3))
    lat = 0.6
    aa = Array(lat, f, {'s_ha': ha, 's_dec': dec, 'jys': flux, 's_shp': shp}, [Ant(p) for p in pos])
    bl = pairs(c['na'], False)
    az, el = np.radians(c['pc'][0]), np.radians(c['pc'][1])
    if abs(el) == np.pi / 2:
        el -= 1e-8 * np.sign(el)
    pdec = np.arcsin(np.sin(lat) * np.sin(el) + np.cos(lat) * np.cos(el) * np.cos(az))
    pha = np.arctan2(-np.sin(az) * np.cos(el) / np.cos(pdec), (np.sin(el) - np.sin(pdec) * np.sin(lat)) / (np.cos(pdec) * np.cos(lat)))
    lo, hi = (0, -1)
    if c['part'] and c['nc'] > 1:
        lo, hi = 1, c['nc'] - 1
    a, b = (0, c['nc']) if hi < lo else (lo, hi + 1)

    def topo(h, d, v):
        x = np.sin(h) * v[0] + np.cos(h) * v[1]
        y = -np.sin(d) * np.cos(h) * v[0] + np.sin(d) * np.sin(h) * v[1] + np.cos(d) * v[2]
        z = np.cos(d) * np.cos(h) * v[0] - np.cos(d) * np.sin(h) * v[1] + np.sin(d) * v[2]
        return x, y, z
    uvw = np.zeros((len(bl), 3, c['nc']))
    vis = np.zeros((len(bl), c['nc']), np.complex128)
    for k, (i, j) in enumerate(bl):
        d = pos[i] - pos[j]
        for s in range(c['nsrc']):
            x, y, z = topo(ha[s], dec[s], d)
            att = np.ones(c['nc'])
            if c['resolve'] and shp[0, s] != 0 and shp[1, s] != 0:
                th = shp[2, s]
                q = 2 * np.pi * np.sqrt((shp[0, s] * (f * x * np.cos(th) - f * y * np.sin(th)))**2
                                        + (shp[1, s] * (f * x * np.sin(th) + f * y * np.cos(th)))**2)
                att = np.where(q != 0, 2 * j1(q) / np.where(q == 0, 1, q), 1.0)
            vis[k] += att * flux[s] * np.exp(2j * np.pi * f * z)
        x, y, z = topo(pha, pdec, d)
        uvw[k] = f * x, f * y, f * z
        vis[k] *= np.exp(-2j * np.pi * f * z)
    uvw[:, :, :a] = 0
    uvw[:, :, b:] = 0
    vis[:, :a] = 0
    vis[:, b:] = 0

    def go():
        o = FastVis(aa, [list(p) for p in bl], lo, hi, c['pc'][0], c['pc'][1], resolve_src=int(c['resolve']))
        return [(o[0], uvw, 'v'), (o[1], vis, 'v')]
    return go


def call_beam(c, sim):
    from lsl.misc._beamformer import BEngine
    r = np.random.RandomState(c['seed'] & 0xffffffff)
    co = (r.randn(c['na'], c['nc']) + 1j * r.randn(c['na'], c['nc'])).astype(c['cdt'])
    shp = (c['na'], c['nc'], c['nt'])
    if c['dtype'].startswith('c'):
        a = (r.randn(*shp) + 1j * r.randn(*shp)).astype(c['dtype'])
    else:
        a = r.uniform(-60, 60, size=shp).astype(c['dtype'])
    v0, v1 = (r.uniform(size=c['na']) < 0.6).astype(np.uint8), (r.uniform(size=c['na']) < 0.6).astype(np.uint8)
    e = np.zeros((2, c['nc'], c['nt']), np.complex128)
    for p, v in enumerate((v0, v1)):
        if v.sum():
            e[p] = np.sum((co[:, :, None] * a)[v == 1], axis=0) / v.sum()

    def go():
        return [(BEngine(co, a, v0, v1), e, 'a')]
    return go


CALLS = {'spec': call_spec, 'stokes': call_spec, 'fx': call_fx, 'fxstokes': call_fx, 'fengine': call_fx, 'x': call_x, 'xstokes': call_x, 'xengine': call_xengine,
         'grid': call_grid, 'sim': call_sim, 'beam': call_beam}


def compare(got, want, how):
    got = np.asarray(got)
    if got.shape != want.shape:
        return 'has shape %r, expected %r' % (got.shape, want.shape)
    if got.size == 0:
        return None
    if not np.array_equal(np.isfinite(got), np.isfinite(want)):
        return 'is not finite at %d of %d places, expected %d' % (np.sum(~np.isfinite(got)), got.size, np.sum(~np.isfinite(want)))
    ok = np.isfinite(want)
    got, want = np.where(ok, got, 0), np.where(ok, want, 0)
    if how == 'f':
        bad = ~np.isclose(got, want, rtol=1e-9, atol=1e-9)
    else:
        if how == 's':            # Stokes parameters are differences of I
            sc = np.abs(want[0])[None]
            sc = np.maximum(sc, np.abs(want).max(axis=0)[None])
            sc = np.maximum(sc, 1e-3 * np.abs(want).max())
        elif how == 'v':
            sc = np.abs(want).max(axis=-1, keepdims=True)
            sc = np.maximum(sc, 1e-3 * np.abs(want).max())
        else:
            sc = np.abs(want).max()
        bad = np.abs(got - want) > 1e-3 * sc + 1e-12
    if np.any(bad):
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        return 'is wrong at %d of %d places; at %r it is %r, expected %r' % (bad.sum(), bad.size, i, complex(got[i]), complex(want[i]))
    return None


def label(c):
    return ' '.join('%s=%s' % (k, v) for k, v in c.items() if k != 'seed')


def run(plan, devs=None):
    res = Result()
    sim = core.Sim(plan['seed'], plan['swarm'], devs, max_steps=5000000, max_ops=200000000)
    OMP.simomp_seed(plan['seed'], plan['q'], plan['nt'], plan['fav'], plan['cap'], plan['hg'])
    proc = sim.new_proc('p')
    if len(plan['tasks']) > 1:
        sim.probe('two_threads')

    def body(n, calls):
        last = None
        for k, c in enumerate(calls):
            if c == last:
                sim.probe('repeats')
            last = c
            go = CALLS[c['fn']](c, sim)
            sim.op('call', c['fn'])
            sim.probe('calls')
            args = [(v.cell_contents, v.cell_contents.tobytes()) for v in go.__closure__ or () if isinstance(v.cell_contents, np.ndarray)]
            try:
                out = go()
            except Exception as e:
                if c.get('wfail') == 'raise' and isinstance(e, WindowError) or c.get('wfail') == 'short':
                    sim.count_fault('window_' + c['wfail'])
                    sim.event('failed', log=repr((n, k, type(e).__name__)))
                    continue
                raise
            if c.get('wfail'):
                sim.violate('result', detail='thread %d, call %d (%s): returned a result without a window' % (n, k, label(c)))
                return
            if c.get('pfb'):
                sim.probe('pfb')
            lg = []
            if any(v.tobytes() != b for v, b in args):
                sim.violate('arguments', detail='thread %d, call %d (%s): changed an array it was given' % (n, k, label(c)))
                return
            for i, (got, want, how) in enumerate(out):
                bad = compare(got, want, how)
                lg.append(bad is None)
                if bad:
                    sim.violate('result', detail='thread %d, call %d (%s): result %d %s' % (n, k, label(c), i, bad))
                    return
            sim.event('done', log=repr((n, k, lg)))
    for n, calls in enumerate(plan['tasks']):
        sim.spawn(proc, lambda n=n, calls=calls: body(n, calls), 't%d' % n)
    sim.run()
    for t in sim.tasks:
        if t.exc is not None:
            sim.violate('exception', detail='%s: %s\n%s' % (t.name, t.exc, t.exc_tb[-1500:]))
    if sim.stuck or sim.deadlock:
        sim.violate('stuck', detail='%s %s' % (sim.stuck, sim.deadlock))
    s = stats()
    OMP.simomp_seed(1, 1000, 1, 0, 0, 0)
    if s['conflicts']:
        sim.violate('planner', detail='the planner of FFTW was entered by a thread while another one was in it (%d times)' % s['conflicts'])
    if s['deadlocks']:
        sim.violate('omp-deadlock', detail='no thread of a parallel region could go on')
    for k in ('omp_switches', 'regions', 'planner', 'short_teams', 'criticals'):
        if s[k]:
            sim.probe(k, s[k])
    sim.probe('py_switches', sim.nswitch)
    sim.event('omp', log='%x %d' % (s['hash'], s['accesses']))
    C.finish(sim, res)
    for k, v in (('fewer_threads', s['short_teams']), ('preemption', s['omp_switches'])):
        if v:
            res.faults[k] = res.faults.get(k, 0) + v
    res.sched = hashlib.sha1(('%s%x' % (res.sched, s['hash'])).encode()).hexdigest()
    res.state = res.sched
    for what, kw in sim.violations:
        res.violate(what, kw.get('detail', ''))
    res.stats['accesses'] = s['accesses']
    return res


def shrink(plan):
    ts = plan['tasks']
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(plan, tasks=ts[:i] + ts[i + 1:])
    for i, t in enumerate(ts):
        for j in range(len(t)):
            if len(t) > 1:
                yield dict(plan, tasks=ts[:i] + [t[:j] + t[j + 1:]] + ts[i + 1:])
    if plan['nt'] > 2:
        yield dict(plan, nt=2)
    if plan['hg']:
        yield dict(plan, hg=0)
    for cap in (0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512):
        if plan['cap'] < 0 or cap < plan['cap']:
            yield dict(plan, cap=cap)
    for i, t in enumerate(ts):
        for j, c in enumerate(t):
            for k, v in (('ns', 1), ('ns', 2), ('nf', 1), ('nv', 1), ('nv', 5), ('clip', 0), ('win', None), ('overlap', 1), ('gain', False), ('bls', False)):
                if k in c and c[k] not in (v, None) and (not isinstance(v, int) or isinstance(v, bool) or c[k] > v):
                    yield dict(plan, tasks=ts[:i] + [t[:j] + [dict(c, **{k: v})] + t[j + 1:]] + ts[i + 1:])
