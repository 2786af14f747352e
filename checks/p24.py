"""P24  A data file written by lsl.writer holds exactly what was added to it."""
import io
import shutil
import tempfile

from .common import *
from sim import native
from sim.harness import BuildFailure

ID = 'P24'
LEVEL = 'exploration'
TECH = ('deterministic simulation of threads that write data files through the writers over a failing disk; every file '
        'read back and compared, value by value, with the history of what was added')
NOTE = ('Real lsl.writer and astropy.io.fits code over a simulated disk and scheduler (casacore writes measurement sets '
        'to a scratch directory); integrations in any order, polarizations missing, baselines in any order.')
TIERS = {'quick': {'runs': 900, 'budget': 170, 'det': 16},
         'thorough': {'runs': 30000, 'budget': 800, 'det': 100}}
RULE = ('a case is one seeded history of 1-3 threads that each write 1-2 files, with disk faults; distinct non-trivial = '
        'distinct history of outcomes')
REAL = ['lsl.writer.fitsidi, uvfits, sdfits, measurementset, lsl.correlator.uvutils, lsl.astro, lsl.common.stations from /repo',
        'astropy.io.fits, astropy.coordinates', 'casacore (measurement sets, on a scratch directory)']
STUB = ['kernel: file system, clock, scheduler']
ASSUMPTIONS = ['the polarizations of one integration are of the same baselines (in any order); no integration has a polarization twice',
               'a write to a regular file is all or nothing, or fails (astropy.io.fits relies on it)']
REQUIRED_PROBES = {'compared': 300, 'failed': 20, 'kept': 10, 'missing_pol': 60, 'reordered': 100, 'two_writers': 100}

KINDS = ['idi', 'idi', 'aips', 'ext', 'uv', 'uv', 'sd', 'sd', 'ms']
T0 = 59215.25       # TAI MJD
C = 299792458.0
_MODS = {}


def prepare(scratch):
    pass


def setup():
    import astropy.io.fits, astropy.coordinates, ephem      # noqa
    native.activate(os.path.join(core.REPO, 'none'), points=('lsl.writer',))
    from lsl.writer import fitsidi, uvfits, sdfits, measurementset
    from lsl.common import stations
    import numpy as np
    _MODS.update(idi=fitsidi.Idi, aips=fitsidi.Aips, ext=fitsidi.ExtendedIdi, uv=uvfits.Uv, sd=sdfits.Sd, ms=measurementset.Ms,
                 site=stations.lwa1, np=np, fits=astropy.io.fits, ephem=ephem)
    ants = {}
    for a in stations.lwa1.antennas:
        if a.pol == 0 and a.stand.id not in ants:
            ants[a.stand.id] = a
    _MODS['ants'] = ants
    import astropy.io.fits.util as fu

    def to_file(arr, fileobj):
        # what numpy.ndarray.tofile() does for a real file
        fileobj.write(arr.tobytes())
    fu._array_to_file_like = to_file
    # what astropy reads once (Earth orientation data)
    d = tempfile.mkdtemp(prefix='lslsim-w-', dir=os.environ.get('SIM_SCRATCH') or None)
    try:
        for k in ('idi', 'uv', 'sd', 'ms'):
            f = {'kind': k, 'stands': [1, 2], 'nchan': 2, 'nband': 1, 'pols': ['XX'], 'ref': 0, 'with': False, 'fail': None,
                 'sets': [{'t': 0, 'pol': 'XX', 'bl': [[0, 1]], 'int': 1.0, 'w': 0, 'src': 'z', 'v': 1}]}
            w = make(f, os.path.join(d, k), False)
            fill(w, f)
            w.write()
            w.close()
    finally:
        shutil.rmtree(d, True)
    simulate_lazyproperty()
    setup_procsim()


# ---------------------------------------------------------------- the files
def gen_file(rng, k):
    kind = rng.choice(KINDS)
    n = rng.randint(2, 5)
    ids = rng.sample([1, 2, 3, 7, 10, 40, 98, 99, 100, 150, 200, 254, 255, 256], n)
    if rng.random() < 0.5:
        ids.sort()
    pols = rng.choice([['XX'], ['XX', 'YY'], ['XX', 'YY', 'XY', 'YX'], ['XX', 'YY', 'XY', 'YX'], ['I', 'Q'], ['I', 'V'],
                       ['I', 'Q', 'U', 'V'], ['RR', 'LL'], ['YY'], ['YY', 'XX'], ['XX', 'XY'], ['YY', 'YX'], ['XX', 'XY', 'YX'], ['I', 'Q', 'V']])
    f = {'kind': kind, 'stands': ids, 'nchan': rng.choice([2, 3, 8]), 'nband': 1, 'pols': pols, 'ref': rng.choice([0, 1]),
         'with': rng.random() < 0.3, 'fail': None, 'sets': []}
    if kind in ('idi', 'aips', 'ext', 'ms') and rng.random() < 0.3:
        f['nband'] = 2
    allbl = [[i, j] for i in range(n) for j in range(i, n)]
    nt = rng.choice([1, 2, 2, 3, 4])
    dt = rng.choice([5.0, 5.0, 60.0, 7000.0, 0.02, 0.004])
    off = rng.choice([0, 0, 64800 + 37 - 10, 64800 + 37 - 0.01])        # the day ends
    srcs = rng.choice([['z'], ['z'], ['SRC1'], ['SRC1', 'SRC2'], ['z', 'SRC1']])
    bl = rng.sample(allbl, rng.randint(1, len(allbl)))
    v = 0
    for t in range(nt):
        x = rng.random()
        if x < 0.25:
            bl = rng.sample(allbl, rng.randint(1, len(allbl)))
        elif x < 0.45:
            bl = rng.sample(bl, len(bl))
        ps = list(pols)
        if rng.random() < 0.3 and len(ps) > 1:
            ps.remove(rng.choice(ps))
            if rng.random() < 0.3 and len(ps) > 1:
                ps.remove(rng.choice(ps))
        src = rng.choice(srcs)
        for p in ps:
            v += 1
            b = rng.sample(bl, len(bl)) if rng.random() < 0.15 else bl
            f['sets'].append({'t': round(off + t * dt, 6), 'pol': p, 'bl': b, 'int': rng.choice([1.0, 5.0]) if p == ps[0] else 0,
                              'w': rng.choice([0, 0, 1]), 'src': src, 'v': v})
            if not f['sets'][-1]['int']:
                f['sets'][-1]['int'] = f['sets'][-2]['int']
    if rng.random() < 0.6:
        rng.shuffle(f['sets'])
    if rng.random() < 0.08:
        f['sets'] = []
    if rng.random() < 0.12:
        f['fail'] = rng.choice(['nostokes', 'nofreq', 'nogeom', 'body'])
    return f


def make(f, path, overwrite):
    return _MODS[f['kind']](path, ref_time=1609480800.0 + 100 * f['ref'], overwrite=overwrite)


def values(f, s):
    """the visibilities (or spectra) and weights of one data set: every value is different"""
    np = _MODS['np']
    nb, nc = len(s['bl']), f['nchan'] * f['nband']
    key = np.array([i * 16 + j + 1 for i, j in s['bl']])[:, None]
    vis = (s['v'] * 1000 + key) + 1j * (np.arange(nc)[None, :] + 1 + s['v'] * 20)
    return vis.astype(np.complex64), (0.5 + (s['v'] % 7) / 8.0 + key / 1024.0 + np.zeros((1, nc))).astype(np.float32)


def source(name):
    if name == 'z':
        return 'z'
    e = _MODS['ephem']
    b = e.FixedBody()
    b._ra, b._dec = ('4:00:00', '30:00:00') if name == 'SRC1' else ('15:30:00', '-10:00:00')
    b._epoch = e.J2000
    b.name = name
    b.compute('2021/1/1 06:00:00')
    return b


def fill(w, f):
    np = _MODS['np']
    if f['fail'] != 'nostokes':
        w.set_stokes(f['pols'])
    fr = 40e6 + 25e3 * np.arange(f['nchan'])
    if f['fail'] != 'nofreq':
        for b in range(f['nband']):
            w.set_frequency(fr + 1e6 * b)
    ants = [_MODS['ants'][i] for i in f['stands']]
    if f['kind'] == 'sd':
        w.set_site(_MODS['site'])
    elif f['fail'] != 'nogeom':
        w.set_geometry(_MODS['site'], ants)
    w.set_observer('Sim', 'LS%03d' % len(f['sets']), 'TEST')
    if f['kind'] != 'ms':
        w.add_header_keyword('SIMTEST', 'n%d' % len(f['sets']))
    for s in f['sets']:
        vis, wgt = values(f, s)
        t = T0 + s['t'] / 86400.0
        if f['kind'] == 'sd':
            bl = beams(f, s)
            w.add_data_set(t, s['int'], [_MODS['ants'][f['stands'][k]] for k in bl], vis.real[:len(bl)], pol=s['pol'])
        else:
            kw = {'pol': s['pol'], 'source': source(s['src'])}
            if s['w'] and f['kind'] in ('idi', 'aips', 'ext'):
                kw['weights'] = wgt
            w.add_data_set(t, s['int'], [(ants[i], ants[j]) for i, j in s['bl']], vis, **kw)
    if f['fail'] == 'body':
        raise ZeroDivisionError('sim')


def beams(f, s):
    """spectra: stands of the set, in an order of its own"""
    out = sorted(set(k for b in s['bl'] for k in b))[:len(s['bl'])]
    r = s['v'] % len(out)
    return out[r:] + out[:r]


# ---------------------------------------------------------------- what has to be in the file
def expected(f, pairs=True):
    """[(time, {baseline or beam: {pol: (values, weights)}}, integration time, source)] in time order"""
    out = {}
    for s in f['sets']:
        vis, wgt = values(f, s)
        d = out.setdefault(s['t'], [{}, s['int'], s['src']])
        keys = [tuple(x) for x in s['bl']] if pairs else beams(f, s)
        for k, key in enumerate(keys):
            d[0].setdefault(key, {})[s['pol']] = (vis[k], wgt[k] if s['w'] else None)
    return [(t,) + tuple(out[t]) for t in sorted(out)]


def utc_of(t):
    # UTC = TAI - 37 s at this date
    return T0 + 2400000.5 + (t - 37.0) / 86400.0


def fail(what, **k):
    raise Mismatch(what, k)


class Mismatch(Exception):
    pass


CODES = {'I': 1, 'Q': 2, 'U': 3, 'V': 4, 'RR': -1, 'LL': -2, 'RL': -3, 'LR': -4, 'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}

MSCODES = {1: 'I', 2: 'Q', 3: 'U', 4: 'V', 5: 'RR', 6: 'RL', 7: 'LR', 8: 'LL', 9: 'XX', 10: 'XY', 11: 'YX', 12: 'YY'}


def stokes(f):
    return sorted(set(f['pols']), key=lambda p: abs(CODES[p]))


def compare_rows(f, rows, exp, conj):
    """rows: [(time jd, (stand, stand), {pol: values}, {pol: weights}, inttime, source, |uvw| in m)]"""
    np = _MODS['np']
    n = sum(len(e[1]) for e in exp)
    if len(rows) != n:
        fail('number of rows', got=len(rows), expected=n)
    ants, at = _MODS['ants'], 0
    for t, bls, it, src in exp:
        got = rows[at:at + len(bls)]
        at += len(bls)
        seen = set()
        for r in got:
            if f['kind'] == 'uv':
                tol = 0.02
            else:
                tol = 1e-4
            if abs(r[0] - utc_of(t)) * 86400 > tol:
                fail('time', got=(r[0] - utc_of(0)) * 86400, expected=t)
            key = None
            for i, j in bls:
                if (f['stands'][i], f['stands'][j]) == r[1]:
                    key = (i, j)
            if key is None or key in seen:
                fail('baseline', got=r[1], t=t, expected=sorted((f['stands'][i], f['stands'][j]) for i, j in bls))
            seen.add(key)
            if abs(r[4] - it) > 1e-5:
                fail('integration time', got=r[4], expected=it)
            if src != 'z' and r[5] != src or src == 'z' and not r[5].startswith('ZA'):
                fail('source', got=r[5], expected=src, t=t)
            d = ants[r[1][0]].stand.earth_location, ants[r[1][1]].stand.earth_location
            ln = sum((getattr(d[0], c).to('m').value - getattr(d[1], c).to('m').value)**2 for c in 'xyz')**0.5
            if abs(ln - r[6]) > 0.05 + 1e-3 * ln:
                fail('uvw', got=r[6], expected=ln, bl=r[1], t=t)
            for p in f['pols']:
                e = bls[key].get(p)
                g = r[2][p]
                if e is None:
                    if np.any(g != 0):
                        fail('value of a missing polarization', t=t, bl=r[1], pol=p, got=str(g[:3]))
                    continue
                x = e[0].conj() if conj else e[0]
                if not np.array_equal(g, x):
                    fail('value', t=t, bl=r[1], pol=p, got=str(g[:3]), expected=str(x[:3]))
                if r[3] is not None:
                    if e[1] is not None and not np.array_equal(r[3][p], e[1]):
                        fail('weight', t=t, bl=r[1], pol=p, got=str(r[3][p][:3]), expected=str(e[1][:3]))
                    if e[1] is None and np.any(r[3][p] != 1):
                        fail('weight that was not given', t=t, bl=r[1], pol=p, got=str(r[3][p][:3]))


def equally_spaced(f):
    c = [CODES[p] for p in stokes(f)]
    return len(set(b - a for a, b in zip(c, c[1:]))) <= 1


def axis_codes(h, k, n):
    return [h['CRVAL%d' % k] + h['CDELT%d' % k] * (i + 1 - h['CRPIX%d' % k]) for i in range(n)]


def compare_fits(f, data):
    np, afits = _MODS['np'], _MODS['fits']
    st = stokes(f)
    with afits.open(io.BytesIO(data), memmap=False) as h:
        if h[0].header.get('SIMTEST') != 'n%d' % len(f['sets']):
            fail('header keyword', got=h[0].header.get('SIMTEST'))
        hd, ax = {'sd': (1, 2), 'uv': (0, 3)}.get(f['kind'], ('UV_DATA', 2))
        cs = axis_codes(h[hd].header, ax, len(st))
        if cs != [CODES[p] for p in st]:
            fail('polarizations', got=cs, expected=st)
        if f['kind'] == 'sd':
            if f['kind'] == 'sd' and [x.name for x in h[1:]] != ['SINGLE DISH']:
                fail('tables', got=[x.name for x in h])
            d = h[1].data
            rows = [(r['DATE-OBS'], float(r['TIME']), float(r['EXPOSURE']), int(r['BEAM']),
                     np.array(r['DATA']).reshape(len(st), f['nchan']), int(r['SCAN'])) for r in d]
            compare_sd(f, rows, expected(f, False))
            return
        an = h['ARRAY_GEOMETRY' if f['kind'] != 'uv' else 'AIPS AN'].data
        num = {int(n): int(''.join(c for c in str(a) if c.isdigit())) for n, a in zip(an['NOSTA'], an['ANNAME'])}
        if sorted(num.values()) != sorted(f['stands']):
            fail('antennas', got=num)
        rows = []
        if f['kind'] == 'uv':
            su = h['AIPS SU'].data
            sn = {int(i): str(n).strip() for i, n in zip(su['ID. NO.'], su['SOURCE'])}
            d = h[0].data
            jd = d.par('DATE')
            u, v, w = d.par('UU'), d.par('VV'), d.par('WW')
            for k in range(len(d)):
                b = int(d.par('BASELINE')[k])
                a = ((b - 65536) // 2048, (b - 65536) % 2048) if b >= 65536 else (b // 256, b % 256)
                x = d.data[k, 0, 0]          # chan, stokes, complex
                vis = {p: (x[:, q, 0] + 1j * x[:, q, 1]).astype(np.complex64) for q, p in enumerate(st)}
                rows.append((float(jd[k]), (num.get(a[0]), num.get(a[1])), vis, None, float(d.par('INTTIM')[k]),
                             sn.get(int(d.par('SOURCE')[k])), C * float((u[k]**2 + v[k]**2 + w[k]**2)**0.5)))
        else:
            sh = {'idi': 8, 'aips': 8, 'ext': 16}[f['kind']]
            su = h['SOURCE'].data
            sn = {int(i): str(n).strip() for i, n in zip(su['SOURCE_ID'], su['SOURCE'])}
            for r in h['UV_DATA'].data:
                b = int(r['BASELINE'])
                x = np.array(r['FLUX'], dtype=np.float32).view(np.complex64).reshape(f['nchan'] * f['nband'], len(st))
                wg = np.array(r['WEIGHT'], dtype=np.float32).reshape(f['nchan'] * f['nband'], len(st))
                rows.append((float(r['DATE']) + float(r['TIME']), (num.get(b >> sh), num.get(b & ((1 << sh) - 1))),
                             {p: x[:, q] for q, p in enumerate(st)}, {p: wg[:, q] for q, p in enumerate(st)}, float(r['INTTIM']),
                             sn.get(int(r['SOURCE'])), C * float((r['UU']**2 + r['VV']**2 + r['WW']**2)**0.5)))
        compare_rows(f, rows, expected(f), f['kind'] != 'uv')


def compare_sd(f, rows, exp):
    np = _MODS['np']
    st = stokes(f)
    n = sum(len(e[1]) for e in exp)
    if len(rows) != n:
        fail('number of rows', got=len(rows), expected=n)
    at = 0
    for s, (t, bs, it, _) in enumerate(exp):
        got = rows[at:at + len(bs)]
        at += len(bs)
        if sorted(r[3] for r in got) != sorted(_MODS['ants'][f['stands'][b]].id for b in bs):
            fail('beams', got=[r[3] for r in got], t=t)
        for r in got:
            b = [b for b in bs if _MODS['ants'][f['stands'][b]].id == r[3]][0]
            if r[5] != s + 1:
                fail('scan number', got=r[5], expected=s + 1)
            sec = ((utc_of(t) + 0.5) % 1.0) * 86400
            day = '2021-01-0%d' % (int(utc_of(t) + 0.5) - 2459215)
            if r[0] != day or abs(r[1] - sec) > 1e-3:
                fail('time', got=[r[0], r[1]], expected=[day, sec])
            if r[2] != it:
                fail('integration time', got=r[2], expected=it)
            for q, p in enumerate(st):
                e = bs[b].get(p)
                x = np.zeros(f['nchan'], np.float32) if e is None else e[0].real
                if not np.array_equal(r[4][q], x):
                    fail('value', t=t, beam=b, pol=p, got=str(r[4][q][:3]), expected=str(x[:3]))


def compare_ms(f, path):
    np = _MODS['np']
    from casacore.tables import table
    nc = f['nchan']
    an = table(path + '/ANTENNA', ack=False)
    names = [int(''.join(c for c in n if c.isdigit())) for n in an.getcol('NAME')]
    an.close()
    fl = table(path + '/FIELD', ack=False)
    src = list(fl.getcol('NAME'))
    fl.close()
    if names != f['stands']:
        fail('antennas', got=names)
    po = table(path + '/POLARIZATION', ack=False)
    st = [MSCODES.get(int(c)) for c in po.getcell('CORR_TYPE', 0)]
    po.close()
    if sorted(map(str, st)) != sorted(set(f['pols'])):
        fail('polarizations', got=st)
    tb = table(path, ack=False)
    col = {c: tb.getcol(c) for c in ('ANTENNA1', 'ANTENNA2', 'TIME', 'EXPOSURE', 'UVW', 'FIELD_ID', 'DATA_DESC_ID', 'DATA')} \
        if tb.nrows() else {}
    n = tb.nrows()
    tb.close()
    exp = expected(f)
    for band in range(f['nband']):
        rows = []
        for k in range(n):
            if col['DATA_DESC_ID'][k] != band:
                continue
            x = col['DATA'][k]          # chan, pol
            it = float(col['EXPOSURE'][k])
            vis = {p: x[:, q] for q, p in enumerate(st)}
            rows.append(((col['TIME'][k] - it / 2) / 86400 + 2400000.5,
                         (names[col['ANTENNA1'][k]], names[col['ANTENNA2'][k]]), vis, None, it, src[col['FIELD_ID'][k]],
                         float((col['UVW'][k]**2).sum()**0.5)))
        e2 = [(t, {b: {p: (v[0][band * nc:(band + 1) * nc], None) for p, v in d.items()} for b, d in bls.items()}, it, s)
              for t, bls, it, s in exp]
        compare_rows(f, rows, e2, False)


# ---------------------------------------------------------------- runs
def gen(rng, tier):
    ths = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for q in range(rng.choice([1, 1, 2])):
            f = gen_file(rng, k)
            ops.append({'f': f, 'path': rng.choice(['a%d' % k, 'a%d' % k, 'b%d' % k]), 'overwrite': rng.random() < 0.4,
                        'old': rng.random() < 0.25})
        ths.append({'ops': ops})
    return {'ops': ths, 'swarm': dict(swarm(rng, fault=0.02, kinds=['ENOSPC', 'EIO', 'EMFILE', 'EACCES'], ops=False), p_crash=0.0)}


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs, max_steps=6000000, max_ops=40000000)
    sim.vfs.mkdirs('/out')
    sim.swarm['fault_kinds'] = [k for k in sim.swarm.get('fault_kinds') or ['ENOSPC', 'EIO', 'EMFILE', 'EACCES'] if k != 'SHORT']
    from sim import vfs as V
    d = tempfile.mkdtemp(prefix='lslsim-w-', dir=os.environ.get('SIM_SCRATCH') or None)
    sim.vfs.real_prefix = (d,)
    active = [0]

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def one(o):
        f = o['f']
        t = current()
        ms = f['kind'] == 'ms'
        rel = '/out/' + o['path']
        path = os.path.join(d, o['path']) if ms else V.PREFIX + rel
        exists = (lambda: os.path.isdir(path)) if ms else (lambda: sim.vfs.get(rel) is not None)
        if o['old'] and not exists() and not ms:
            sim.vfs.put(rel, b'old contents of somebody else')
        had = exists()
        before = None if ms or not had else bytes(sim.vfs.get(rel))
        f0 = nf(t)
        active[0] += 1
        if active[0] > 1:
            sim.probe('two_writers')
        err, w = None, None
        fds = set(sim.vfs.fds)
        try:
            w = make(f, path, o['overwrite'])
            if f['with']:
                with w:
                    fill(w, f)
            else:
                fill(w, f)
                w.write()
                w.close()
        except Exception as e:
            err = e
        active[0] -= 1
        faults = nf(t) - f0
        sim.event('wrote', kind=f['kind'], err=type(err).__name__ if err else None, faults=faults)
        if err is not None:
            sim.probe('failed')
        if had and not o['overwrite']:
            if err is None:
                sim.violate('existing-file-not-refused', kind=f['kind'])
            elif w is None:
                sim.probe('kept')
                if not ms and bytes(sim.vfs.get(rel) or b'') != before:
                    sim.violate('existing-file-changed', kind=f['kind'])
            return
        bad = f['fail'] or not f['sets']
        if f['kind'] == 'sd' and f['fail'] == 'nogeom':
            bad = not f['sets']
        if not ms and not equally_spaced(f):
            bad = bad or 'no such axis in FITS'
        if err is not None:
            if not bad and not faults:
                import traceback
                sim.violate('write-refused', kind=f['kind'], exc=repr(err), tb=''.join(traceback.format_tb(err.__traceback__))[-900:],
                            file=f)
            elif f['fail'] == 'body' and not isinstance(err, ZeroDivisionError) and not faults and not f['with']:
                sim.violate('other-exception', exc=repr(err))
        elif f['fail'] == 'body':
            sim.violate('error-lost', kind=f['kind'], file=f)
        elif bad:
            sim.violate('nothing-to-write-not-refused', kind=f['kind'], file=f)
        if err is None:
            check(f, rel, path)
        if f['with'] and not ms:
            left = [x for k, x in sim.vfs.fds.items() if k not in fds and x.path.endswith(rel)]
            if left and not faults:
                sim.violate('file-left-open', kind=f['kind'], err=repr(err))

    def check(f, rel, path):
        try:
            if f['kind'] == 'ms':
                compare_ms(f, path)
            else:
                compare_fits(f, bytes(sim.vfs.get(rel)))
        except Mismatch as e:
            sim.violate('file-differs', kind=f['kind'], what=e.args[0], detail=repr(e.args[1])[:600], file=f)
            return False
        except Exception as e:
            import traceback
            sim.violate('file-unreadable', kind=f['kind'], exc=repr(e), tb=traceback.format_exc()[-700:], file=f)
            return False
        sim.probe('compared')
        if f['kind'] in ('idi', 'uv', 'sd', 'ms'):
            sim.probe('compared_' + f['kind'])
        ts = {}
        for s in f['sets']:
            ts.setdefault(s['t'], []).append(s)
        if any(len(x) < len(f['pols']) for x in ts.values()):
            sim.probe('missing_pol')
        if len(set(json.dumps(s['bl']) for s in f['sets'])) > 1:
            sim.probe('reordered')
        return True

    def body(ops):
        for o in ops:
            one(o)

    def main(proc):
        proc.faultable = True
        ths = [sim.spawn(proc, lambda s=s: body(s['ops']), 't%d' % (k + 1)) for k, s in enumerate(plan['ops'][1:])]
        if plan['ops']:
            body(plan['ops'][0]['ops'])
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')

    try:
        sim.start(sim.new_proc('p', crashable=False, faultable=False), main)
        sim.run()
    finally:
        shutil.rmtree(d, True)
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        excs = [(t.exc, t.exc_tb) for t in p.tasks if t.exc is not None]
        if p.data.get('exc') is not None:
            excs.append((p.data['exc'], p.data['exc_tb']))
        for e, tb in excs:
            sim.violate('unexpected-exception', exc=repr(e), tb=tb[-900:])
    for k, dd in sim.violations:
        res.violate(k, dd)
    return finish(sim, res)
