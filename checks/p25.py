"""P25  Reading correlated data back gives exactly what the file holds."""
import copy
import io
import shutil
import tarfile
import tempfile
import types

from .common import *
from . import p24
from sim import native
from sim.harness import BuildFailure

ID = 'P25'
LEVEL = 'exploration'
TECH = ('deterministic simulation of threads that read data files through lsl.imaging over a failing disk and cut, sort, copy and '
        'convert what they read; every data set compared, value by value, with what was put in the file')
NOTE = ('Real lsl.imaging.utils/data, lsl.writer and astropy.io.fits code over a simulated disk and scheduler (casacore reads '
        'measurement sets from a scratch directory); seeded files, requests, interleavings and I/O errors.')
TIERS = {'quick': {'runs': 900, 'budget': 170, 'det': 16},
         'thorough': {'runs': 30000, 'budget': 800, 'det': 100}}
RULE = ('a case is one seeded history of 1-3 threads that read 1-2 files, with disk faults; distinct non-trivial = distinct '
        'history of outcomes')
REAL = ['lsl.imaging.utils, lsl.imaging.data, lsl.sim.vis, lsl.writer.fitsidi, uvfits, measurementset, virtual, lsl.common.stations from /repo',
        'astropy.io.fits, aipy (coordinates, phases)', 'casacore (measurement sets, on a scratch directory)']
STUB = ['kernel: file system, clock, scheduler', 'memory mapping of FITS files (read instead)', 'aipy beam pattern maps (not used by these calls)', 'lsl.common.data_access (serves the one beam shape file)']
ASSUMPTIONS = ['the files are files that lsl.writer writes', 'a VisibilityData may refuse integrations that differ in their number of baselines']
REQUIRED_PROBES = {'compared': 1500, 'failed': 20, 'two_readers': 100, 'auto_dropped': 60, 'uv_cut': 40, 'subset': 100, 'converted': 40,
                   'many': 60, 'rephased': 40}

KINDS = ['idi', 'idi', 'aips', 'ext', 'uv', 'uv', 'ms', 'ms']      # and 'virt', the in-memory writer
SRC = {'SRC1': (60.0, 30.0), 'SRC2': (232.5, -10.0)}
_MODS = {}


def libdir():
    return native.libdir_for('imaging', ['imaging._gridder', 'sim._simfast'])


def prepare(scratch):
    try:
        libdir()
    except native.BuildError as e:
        raise BuildFailure(str(e))


def worker_env():
    return {k: v for k, v in os.environ.items() if k.startswith('SIM_LIB_')}


def setup():
    import aipy, astropy.io.fits, healpy, scipy.fftpack       # noqa
    aipy.amp.BeamAlm._update_hmap = lambda self: None
    astropy.io.fits.conf.use_memmap = False
    native.activate(libdir(), points=('lsl.imaging.utils', 'lsl.imaging.data'))
    p24.setup()
    from lsl.imaging import utils, data
    from lsl.sim import vis
    with open(os.path.join(core.REPO, 'lsl', 'data', 'antenna', 'beam-shape.npz'), 'rb') as fh:
        shape = fh.read()

    class Access:
        @staticmethod
        def open(name, mode='r'):
            if name != 'antenna/beam-shape.npz':
                raise OSError(2, 'no such data file', name)
            return io.BytesIO(shape)
    vis.DataAccess = Access
    _MODS.update(p24._MODS, utils=utils, data=data, aipy=aipy)
    # what is imported or read only once
    d = tempfile.mkdtemp(prefix='lslsim-w-', dir=os.environ.get('SIM_SCRATCH') or None)
    try:
        for k in ('idi', 'uv', 'ms'):
            f = {'kind': k, 'stands': [1, 2], 'nchan': 2, 'nband': 1, 'pols': ['XX'], 'ref': 0, 'with': False, 'fail': None,
                 'sets': [{'t': 0, 'pol': 'XX', 'bl': [[0, 1]], 'int': 1.0, 'w': 0, 'src': 'SRC1', 'v': 1}]}
            ds = utils.CorrelatedData(store(f, os.path.join(d, k))).get_data_set(1)
            ds.rephase(body('SRC1'))
    finally:
        shutil.rmtree(d, True)
    simulate_lazyproperty()


def store(f, path):
    w = p24.make(f, path, False)
    p24.fill(w, f)
    w.write()
    w.close()
    return path


def virtual(f):
    from lsl.writer.virtual import VirtualWriter
    w = VirtualWriter(ref_time=1609480800.0 + 100 * f['ref'])
    ants = [_MODS['ants'][i] for i in f['stands']]
    w.set_geometry(_MODS['site'], ants)
    w.set_frequency(freqs(f))
    for x in f['sets']:
        vis, wgt = p24.values(f, x)
        src = 'z'
        if x['src'] != 'z':
            src = body(x['src'])
            src.compute(w.antenna_array)
        w.add_data_set(p24.T0 + x['t'] / 86400.0, x['int'], [(ants[i], ants[j]) for i, j in x['bl']], vis, pol=x['pol'], source=src,
                       weights=wgt if x['w'] else None)
    return w


def body(name):
    ra, dec = SRC[name]
    return _MODS['aipy'].amp.RadioFixedBody(ra * 3.141592653589793 / 180, dec * 3.141592653589793 / 180, name=name)


# ---------------------------------------------------------------- plans
def gen_file(rng):
    while True:
        f = p24.gen_file(rng, 0)
        if f['kind'] in KINDS and f['sets'] and p24.equally_spaced(f):
            break
    f['fail'] = None
    f['with'] = False
    if rng.random() < 0.15:
        # in memory; one polarization at a time
        f['kind'], f['nband'] = 'virt', 1
        f['pols'] = f['pols'][:1]
        seen = {}
        for x in f['sets']:
            seen.setdefault(x['t'], dict(x, pol=f['pols'][0]))
        f['sets'] = list(seen.values())
        for x in f['sets'][1:]:
            if len(x['bl']) != len(f['sets'][0]['bl']):
                x['bl'] = f['sets'][0]['bl'][::-1]
    f['tar'] = f['kind'] == 'ms' and rng.random() < 0.2
    if f['nband'] == 2 and rng.random() < 0.3:
        f['nband'] = 3
    return f


def gen_steps(rng):
    out = []
    for q in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.choice(['sort', 'order', 'ants', 'ants', 'uv', 'copy', 'convert', 'rephase', 'pols'])
        s = {'k': k, 'r': rng.randrange(1 << 30)}
        if k == 'ants':
            s.update(inc=rng.choice([None, None, 'all', [0], [0, 1], [1, 2, 0], [0, 1, 2, 3]]),
                     exc=rng.choice([None, 'none', [0], [1], [2, 0], []]), stands=rng.random() < 0.5)
        if k == 'uv':
            s.update(lo=rng.choice([0, 0, 0.3, 0.6]), hi=rng.choice([0.4, 0.7, None]))
        if k == 'rephase':
            s.update(src=rng.choice(['SRC1', 'SRC1', 'SRC2']))
        out.append(s)
    return out


def gen_get(rng, nfile):
    o = {'k': rng.choice(['get', 'get', 'get', 'many', 'many', 'seq', 'info']), 'f': rng.randrange(nfile), 'n': rng.randrange(8),
         'auto': rng.random() < 0.6, 'sort': rng.random() < 0.7, 'lo': 0, 'hi': None, 'own': rng.random() < 0.4, 'steps': gen_steps(rng)}
    if o['k'] == 'many':
        o['sets'] = [rng.randrange(8) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.2:
        o['lo'], o['hi'] = rng.choice([(0, 0.5), (0.4, None), (0.2, 0.8), (0.0, 0.3)])
    return o


def gen(rng, tier):
    nf = rng.choice([1, 1, 2])
    ths = [{'ops': [gen_get(rng, nf) for _ in range(rng.randint(1, 4))]} for _ in range(rng.choice([1, 2, 2, 3]))]
    return {'ops': ths, 'files': [gen_file(rng) for _ in range(nf)],
            'swarm': dict(swarm(rng, fault=0.01, kinds=['EIO', 'EMFILE', 'EACCES'], ops=False), p_crash=0.0)}


# ---------------------------------------------------------------- the model: a data set as a table
class Table:
    """order: list of baselines (index pairs) or None where it is free; val[pol][bl] = (visibilities, weights)"""

    def __init__(self, order, val, jd, src, it):
        self.order, self.val, self.jd, self.src, self.it = order, val, jd, src, it

    def keep(self, sel):
        return Table([b for b in self.order if b in sel], {p: {b: x for b, x in v.items() if b in sel} for p, v in self.val.items()},
                     self.jd, self.src, self.it)


def tables(f):
    """the integrations of a file, in time order; baselines as pairs of positions in the reader's list of antennas"""
    np = _MODS['np']
    # the FITS formats list the antennas in the order given; so do measurement sets
    st = p24.stokes(f)
    out = []
    for t, bls, it, src in p24.expected(f):
        val = {p: {} for p in st}
        for b, d in bls.items():
            for p in st:
                v, w = d.get(p, (np.zeros(f['nchan'] * f['nband'], np.complex64), 'any'))
                if w is None or f['kind'] in ('uv', 'ms') and not isinstance(w, str):
                    w = np.ones(len(v), np.float32)
                val[p][b] = (v, w)
        jd = p24.utc_of(t + (it / 2 if f['kind'] == 'ms' else 0))
        out.append(Table(sorted(bls), val, jd, src, it))
    if f['kind'] == 'virt':
        # in the order they were added
        ts = sorted(x['t'] for x in f['sets'])
        return [out[ts.index(x['t'])] for x in f['sets']]
    return sorted(out, key=lambda x: x.jd)


def fail(what, **k):
    raise p24.Mismatch(what, k)


def same(ds, tb, f, ordered, tol=0, stands=True, uvw=True):
    """the data set holds what the table says"""
    np = _MODS['np']
    got = [(int(a), int(b)) for a, b in ds.baselines]
    if len(set(got)) != len(got) or sorted(got) != sorted(tb.order):
        fail('baselines', got=got, expected=tb.order)
    if ordered and got != list(tb.order):
        fail('order of the baselines', got=got, expected=tb.order)
    if abs(ds.jd - tb.jd) * 86400 > (0.02 if f['kind'] == 'uv' else 1e-3):
        fail('time', got=ds.jd, expected=tb.jd)
    if abs(ds.int_time - tb.it) > 1e-5:
        fail('integration time', got=ds.int_time, expected=tb.it)
    if sorted(ds.pols) != sorted(tb.val):
        fail('polarizations', got=ds.pols, expected=sorted(tb.val))
    if ds.nbaseline != len(got) or ds.npol != len(tb.val) or ds.nchan != f['nchan'] * f['nband']:
        fail('sizes', got=[ds.nbaseline, ds.npol, ds.nchan])
    fr = freqs(f)
    if ds.freq.shape != fr.shape or np.abs(ds.freq - fr).max() > 1:
        fail('frequencies', got=list(ds.freq), expected=list(fr))
    if stands and list(ds.antennaarray.get_stands()) != f['stands']:
        fail('antennas', got=list(ds.antennaarray.get_stands()), expected=f['stands'])
    if abs(ds.antennaarray.get_jultime() - ds.jd) > 1e-6:
        fail('time of the antenna array', got=ds.antennaarray.get_jultime(), expected=ds.jd)
    if tb.src is not None:
        c = ds.phase_center
        if tb.src == 'z':
            if not c.src_name.startswith('ZA'):
                fail('phase center', got=c.src_name, expected='ZA...')
        else:
            if c.src_name != tb.src or abs(float(c._ra) * 57.29578 - SRC[tb.src][0]) > 1e-3 or abs(float(c._dec) * 57.29578 - SRC[tb.src][1]) > 1e-3:
                fail('phase center', got=[c.src_name, float(c._ra), float(c._dec)], expected=tb.src)
    if ds.uvw.shape != (len(got), 3, len(fr)):
        fail('shape of uvw', got=ds.uvw.shape)
    for p, v in tb.val.items():
        pd = getattr(ds, p)
        if pd.polarization != p or pd.data.shape != (len(got), len(fr)) or pd.weight.shape != pd.data.shape or pd.mask.shape != pd.data.shape:
            fail('shapes', pol=p, got=[pd.polarization, pd.data.shape, pd.weight.shape, pd.mask.shape])
        for k, b in enumerate(got):
            x, w = v[b]
            bad = not np.array_equal(pd.data[k], x) if not tol else np.abs(pd.data[k] - x).max() > tol * (1 + np.abs(x).max())
            if bad:
                fail('value', pol=p, bl=b, got=str(pd.data[k][:3]), expected=str(x[:3]))
            if not isinstance(w, str) and np.abs(pd.weight[k] - w).max() > 1e-6:
                fail('weight', pol=p, bl=b, got=str(pd.weight[k][:3]), expected=str(w[:3]))
            if pd.mask[k].any():
                fail('mask', pol=p, bl=b)
    if uvw:
        for k, b in enumerate(got):
            ln = length(f, b) * fr / p24.C
            g = np.sqrt((ds.uvw[k].astype(float)**2).sum(axis=0))
            if np.abs(g - ln).max() > 0.01 + 2e-3 * ln.max():
                fail('uvw', bl=b, got=str(g[:3]), expected=str(ln[:3]))
            if tb.src is not None:
                w = towards(f, b, tb) * fr / p24.C
                if np.abs(ds.uvw[k, 2] - w).max() > 0.03 + 5e-3 * ln.max():
                    fail('w', bl=b, got=str(ds.uvw[k, 2, :3]), expected=str(w[:3]))


def freqs(f):
    np = _MODS['np']
    return np.concatenate([40e6 + 1e6 * b + 25e3 * np.arange(f['nchan']) for b in range(f['nband'])])


def length(f, b):
    d = [_MODS['ants'][f['stands'][x]].stand.earth_location for x in b]
    return sum((getattr(d[0], c).to('m').value - getattr(d[1], c).to('m').value)**2 for c in 'xyz')**0.5


_TOW = {}


def towards(f, b, tb):
    """the part of a baseline that points at the source, in m"""
    import math
    jd = tb.jd - (tb.it / 172800 if f['kind'] == 'ms' else 0)
    k = (round(jd, 6), tb.src)
    if k not in _TOW:
        if tb.src == 'z':
            _TOW[k] = (0.0, 0.0, 1.0)
        else:
            e, site = _MODS['ephem'], _MODS['site']
            o = e.Observer()
            o.lat, o.lon, o.elevation, o.pressure = site.lat, site.lon, site.elev, 0
            o.date = jd - 2415020
            x = e.FixedBody()
            x._ra, x._dec, x._epoch = math.radians(SRC[tb.src][0]), math.radians(SRC[tb.src][1]), e.J2000
            x.compute(o)
            _TOW[k] = (math.sin(x.az) * math.cos(x.alt), math.cos(x.az) * math.cos(x.alt), math.sin(x.alt))
    d = [_MODS['ants'][f['stands'][x]].stand for x in b]
    s = _TOW[k]
    return sum(getattr(d[0], c) * q - getattr(d[1], c) * q for c, q in zip('xyz', s))


def uv_split(ds, lo, hi):
    """(baselines that must stay, baselines that may stay): lengths in wavelengths, any channel"""
    np = _MODS['np']
    hi = float('inf') if hi is None else hi
    if lo > hi:
        lo, hi = hi, lo
    must, may = [], []
    for k, b in enumerate(ds.baselines):
        r = np.sqrt((ds.uvw[k, :2].astype(float)**2).sum(axis=0))
        b = (int(b[0]), int(b[1]))
        if ((r >= lo * (1 + 1e-5)) & (r < hi * (1 - 1e-5))).all() or lo == 0 and (r < hi * (1 - 1e-5)).all():
            must.append(b)
        elif ((r >= lo * (1 - 1e-5)) & (r <= hi * (1 + 1e-5))).any():
            may.append(b)
    return must, may


def convert(tb):
    """(function name, table) or (function name, None) where it has to refuse"""
    np = _MODS['np']
    ps = set(tb.val)
    out = {}

    def comb(a, b, fa, name):
        out[name] = {k: (fa(tb.val[a][k][0], tb.val[b][k][0]),
                         'any' if isinstance(tb.val[a][k][1], str) or isinstance(tb.val[b][k][1], str)
                         else (tb.val[a][k][1] + tb.val[b][k][1]) / 2) for k in tb.val[a]}
    if ps & {'XX', 'YY', 'XY', 'YX'}:
        if {'XX', 'YY'} <= ps:
            comb('XX', 'YY', lambda a, b: a + b, 'I')
            comb('XX', 'YY', lambda a, b: a - b, 'Q')
        if {'XY', 'YX'} <= ps:
            comb('XY', 'YX', lambda a, b: a + b, 'U')
            comb('XY', 'YX', lambda a, b: 1j * (a - b), 'V')
        fn = 'convert_to_stokes'
    elif ps & {'I', 'Q', 'U', 'V'}:
        if {'I', 'Q'} <= ps:
            comb('I', 'Q', lambda a, b: (a + b) / 2, 'XX')
            comb('I', 'Q', lambda a, b: (a - b) / 2, 'YY')
        if {'U', 'V'} <= ps:
            comb('U', 'V', lambda a, b: (a - 1j * b) / 2, 'XY')
            comb('U', 'V', lambda a, b: (a + 1j * b) / 2, 'YX')
        fn = 'convert_to_linear'
    else:
        return 'convert_to_circular', None
    return fn, (Table(tb.order, out, tb.jd, tb.src, tb.it) if out else None)


def frozen(ds):
    """everything in a data set that may not change behind its owner's back"""
    return (ds.jd, ds.freq.tobytes(), str([(int(a), int(b)) for a, b in ds.baselines]), ds.uvw.tobytes(), tuple(ds.pols), ds.int_time,
            tuple((p.data.tobytes(), p.weight.tobytes(), p.mask.tobytes()) for p in ds))


# ---------------------------------------------------------------- runs
def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs, max_steps=6000000, max_ops=60000000)
    U, D, np = _MODS['utils'], _MODS['data'], _MODS['np']
    from sim import vfs as V
    sim.vfs.mkdirs('/in')
    sim.swarm['fault_kinds'] = [k for k in sim.swarm.get('fault_kinds') or ['EIO', 'EMFILE', 'EACCES'] if k in ('EIO', 'EMFILE', 'EACCES')]
    d = tempfile.mkdtemp(prefix='lslsim-r-', dir=os.environ.get('SIM_SCRATCH') or None)
    sim.vfs.real_prefix = (d,)
    files, tabs, paths, shared = plan['files'], [], [], {}
    old_tmp, old_reg, unpacked = U.tempfile, U.atexit.register, [0]
    active = [0]

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def bad(name, f, o=None, **k):
        sim.violate(name, kind=f['kind'], op=o, file=f, **k)

    def reader(o, via):
        f = files[o['f']]
        if via == 'own':
            if f['kind'] == 'virt':
                return virtual(f)
            cls = U.CorrelatedData if o['n'] % 2 else {'ms': U.CorrelatedDataMS, 'uv': U.CorrelatedDataUV}.get(f['kind'], U.CorrelatedDataIDI)
            return cls(paths[o['f']])
        return shared[o['f']]

    def info(c, f, tbs):
        if c.integration_count != len(tbs):
            fail('integration count', got=c.integration_count, expected=len(tbs))
        n = sum(len(t.order) for t in tbs) * (f['nband'] if f['kind'] == 'ms' else 1)
        if c.total_baseline_count != n:
            fail('total baseline count', got=c.total_baseline_count, expected=n)
        names = U.NUMERIC_STOKESMS if f['kind'] == 'ms' else U.NUMERIC_STOKES
        if sorted(names[x] for x in c.pols) != sorted(p24.stokes(f)):
            fail('polarizations', got=[names[x] for x in c.pols], expected=p24.stokes(f))
        if len(c.freq) != len(freqs(f)) or np.abs(c.freq - freqs(f)).max() > 1:
            fail('frequencies', got=list(c.freq))
        if [int(a.stand.id) for a in c.antennas] != f['stands'] or [int(s) for s in c.stands] != f['stands']:
            fail('antennas', got=[int(a.stand.id) for a in c.antennas], expected=f['stands'])
        if f['kind'] == 'ms':
            ref = (tbs[0].jd - 2440587.5) * 86400
        else:
            ref = 1609480800.0 + 100 * f['ref']
        import calendar
        g = calendar.timegm(c.date_obs.timetuple())
        if abs(g - ref) > 1.01 or c.utc_date_obs.replace(tzinfo=None) != c.date_obs:
            fail('date', got=str(c.date_obs), expected=ref)
        if f['kind'] != 'ms':
            for a in c.antennas:
                e = _MODS['ants'][int(a.stand.id)].stand
                if max(abs(a.stand.x - e.x), abs(a.stand.y - e.y), abs(a.stand.z - e.z)) > 0.1:
                    fail('antenna position', got=[a.stand.x, a.stand.y, a.stand.z], expected=[e.x, e.y, e.z])

    def expect(o, f, tbs, idx):
        """tables (after the cut of autocorrelations and lengths), ordered"""
        out, cut = [], o['lo'] != 0 or o['hi'] is not None
        for i in idx:
            tb = tbs[i]
            may = []
            if not o['auto']:
                k = [b for b in tb.order if b[0] != b[1]]
                if len(k) < len(tb.order):
                    sim.probe('auto_dropped')
                tb = tb.keep(set(k))
            if cut:
                sim.probe('uv_cut')
                must, may = uv_split(refs[o['f']][i], o['lo'], o['hi'])
                must, may = [b for b in must if b in tb.order], [b for b in may if b in tb.order]
                tb = tb.keep(set(must) | set(may))
            out.append((tb, may))
        return out

    def settle(got, tb, may):
        """drop the baselines at the edge of a cut that the reader dropped"""
        if may:
            g = set((int(a), int(b)) for a, b in got.baselines)
            return tb.keep(set(b for b in tb.order if b not in may or b in g))
        return tb

    def one(o):
        f, tbs = files[o['f']], tabs[o['f']]
        t = current()
        f0, fds = nf(t), set(sim.vfs.fds)
        active[0] += 1
        if active[0] > 1:
            sim.probe('two_readers')
        err, got, idx = None, None, [o['n'] % len(tbs)]
        kw = {'include_auto': o['auto'], 'sort': o['sort']}
        if o['lo'] != 0 or o['hi'] is not None:
            kw.update(min_uv=o['lo'], max_uv=float('inf') if o['hi'] is None else o['hi'])
        if o['k'] == 'many':
            idx = []
            for x in o['sets']:
                if x % len(tbs) not in idx:
                    idx.append(x % len(tbs))
        try:
            c = reader(o, 'own' if o['own'] else 'shared')
            if o['k'] == 'info':
                if f['kind'] != 'virt':
                    info(c, f, tbs)
            elif o['k'] == 'get':
                got = [c.get_data_set(idx[0] + 1, **kw)]
            elif o['k'] == 'many':
                sim.probe('many')
                got = c.get_data_set([i + 1 for i in idx], **kw)
                got = [got] if isinstance(got, D.VisibilityDataSet) else got
            else:
                idx = list(range(len(tbs)))
                got = []
                if f['kind'] == 'virt':
                    for i in idx:
                        got.append(c.get_data_set(i + 1, **kw))
                else:
                    for ds in c.data_set_sequence(**kw):
                        got.append(ds)
            if o['own'] and f['kind'] != 'virt':
                c.close()
        except p24.Mismatch as e:
            active[0] -= 1
            bad('description-differs', f, o, what=e.args[0], detail=repr(e.args[1])[:500])
            return
        except Exception as e:
            err = e
        active[0] -= 1
        faults = nf(t) - f0
        sim.event('read', kind=f['kind'], k=o['k'], err=type(err).__name__ if err else None, faults=faults)
        exp = expect(o, f, tbs, idx)
        if err is not None:
            sim.probe('failed')
            if faults:
                return
            # integrations that differ in their number of baselines
            if o['k'] == 'many' and isinstance(err, ValueError) and (
                    len(set(len(x[0].order) for x in exp)) > 1 or any(x[1] for x in exp)
                    or len(set(len([b for b in tbs[i].order if o['auto'] or b[0] != b[1]]) for i in idx)) > 1):
                sim.probe('refused')
                return
            import traceback
            bad('read-refused', f, o, exc=repr(err), tb=''.join(traceback.format_tb(err.__traceback__))[-900:])
            return
        left = [x for k, x in sim.vfs.fds.items() if k not in fds and x.path.endswith('/in/f%d' % o['f'])]
        if left and active[0] == 0 and not any(e[3] == 'fault' for e in sim.history):
            bad('file-left-open', f, o)
        if got is None:
            return
        if len(got) != len(idx):
            bad('data-set-count', f, o, got=len(got), expected=len(idx))
            return
        if o['k'] == 'many' and o['sort']:
            exp = [exp[k] for k in sorted(range(len(idx)), key=lambda k: exp[k][0].jd)]
        for ds, (tb, may) in zip(got, exp):
            try:
                tb = settle(ds, tb, may)
                same(ds, tb, f, o['sort'])
                sim.probe('compared')
            except p24.Mismatch as e:
                bad('data-differs', f, o, what=e.args[0], detail=repr(e.args[1])[:500])
                return
        if o['steps'] and got:
            whole = got if isinstance(got, D.VisibilityData) else None
            try:
                steps(o, f, list(got), [copy.copy(settle(ds, tb, may)) for ds, (tb, may) in zip(got, exp)], whole)
            except p24.Mismatch as e:
                bad('step-differs', f, o, what=e.args[0], detail=repr(e.args[1])[:600])

    def steps(o, f, dss, tbs, whole):
        """what is done with the data afterwards; on a VisibilityData as a whole, or on one data set"""
        if whole is None:
            k = o['n'] % len(dss)
            dss, tbs = [dss[k]], [tbs[k]]
        # from here on the order is the one the data set has
        for ds, tb in zip(dss, tbs):
            tb.order = [(int(a), int(b)) for a, b in ds.baselines]
        for s in o['steps']:
            obj = whole if whole is not None else dss[0]
            before = [frozen(x) for x in dss]
            k = s['k']
            tol, uvw, new, ntb = 0, True, None, None
            try:
                if k == 'sort':
                    obj.sort()
                    for tb in tbs:
                        tb.order = sorted(tb.order)
                    if whole is not None:
                        dss, tbs = list(whole), sorted(tbs, key=lambda x: x.jd)
                elif k == 'order':
                    if whole is not None:
                        continue
                    import random
                    od = list(range(len(tbs[0].order)))
                    random.Random(s['r']).shuffle(od)
                    obj.sort(order=od)
                    tbs[0].order = [tbs[0].order[x] for x in od]
                elif k == 'copy':
                    new = obj.copy()
                    ntb = tbs
                    if (s['r'] & 1):
                        sub = new[0] if whole is not None else new
                        for pd in sub:
                            pd.data += 5
                            pd.mask[:] = True
                        sub.uvw += 1
                        sub.freq += 1
                        sub.baselines.reverse()
                        ntb = None
                elif k == 'ants':
                    inc, exc = s['inc'], s['exc']
                    conv = (lambda x: [f['stands'][i] for i in x if i < len(f['stands'])] if isinstance(x, list) else x) if s['stands'] else (lambda x: list(x) if isinstance(x, list) else x)
                    a, b = conv(inc), conv(exc)
                    keep = set(range(len(f['stands']))) if not isinstance(inc, list) else set(inc)
                    for e in (exc if isinstance(exc, list) else []):
                        if not isinstance(inc, list):
                            keep.discard(e)
                    a0, b0 = copy.copy(a), copy.copy(b)
                    new = obj.get_antenna_subset(include=a, exclude=b, indicies=not s['stands'])
                    if a != a0 or b != b0:
                        fail('list of antennas changed', got=[a, b], was=[a0, b0])
                    ntb = [tb.keep(set(x for x in tb.order if x[0] in keep and x[1] in keep)) for tb in tbs]
                    sim.probe('subset')
                elif k == 'uv':
                    hi = float('inf') if s['hi'] is None else s['hi']
                    new = obj.get_uv_range(min_uv=s['lo'], max_uv=hi)
                    ntb = []
                    for x, y, tb in zip(dss, new if whole is not None else [new], tbs):
                        must, may = uv_split(x, s['lo'], s['hi'])
                        ntb.append(settle(y, tb.keep(set(must) | set(may)), may))
                elif k == 'convert':
                    fns = [convert(tb) for tb in tbs]
                    fn = getattr(U, fns[0][0])
                    if fns[0][1] is None:
                        if fns[0][0] == 'convert_to_circular':
                            continue
                        try:
                            fn(obj)
                        except RuntimeError:
                            continue
                        fail('conversion not refused', fn=fns[0][0])
                    new = fn(obj)
                    ntb = [x[1] for x in fns]
                    tol = 1e-6
                    sim.probe('converted')
                elif k == 'rephase':
                    if any(tb.src is None for tb in tbs):
                        continue
                    new = obj.copy()
                    try:
                        new.rephase(body(s['src']))
                    except RuntimeError as e:
                        if 'horizon' not in str(e):
                            raise
                        new = None
                    else:
                        sim.probe('rephased')
                        for x, y in zip(dss, new if whole is not None else [new]):
                            if y.phase_center.src_name != s['src']:
                                fail('phase center after rephase', got=y.phase_center.src_name)
                            for p, q in zip(x, y):
                                if p.data.size and np.abs(np.abs(p.data) - np.abs(q.data)).max() > 1e-3 * (1 + np.abs(p.data).max()):
                                    fail('amplitudes after rephase', pol=p.polarization)
                            for a, (i, j) in enumerate(x.baselines):
                                if i == j:
                                    for p, q in zip(x, y):
                                        if np.abs(p.data[a] - q.data[a]).max() > 1e-3 * (1 + np.abs(p.data[a]).max()):
                                            fail('autocorrelation after rephase', bl=(int(i), int(j)))
                        # and back: the original phase center
                        back = new.copy()
                        try:
                            if whole is not None:
                                for y, x in zip(back, dss):
                                    y.rephase(x.phase_center)
                            else:
                                back.rephase(dss[0].phase_center)
                            for y, tb in zip(back if whole is not None else [back], tbs):
                                same(y, tb, f, True, tol=2e-3, uvw=False)
                        except RuntimeError as e:
                            if 'horizon' not in str(e):
                                raise
                    new = None
                elif k == 'pols':
                    if whole is not None:
                        continue
                    # a polarization taken apart and put together again
                    p = obj.pols[s['r'] % len(obj.pols)]
                    pd = getattr(obj, p)
                    n = len(pd.data)
                    if n < 2:
                        continue
                    q = pd.subset(list(range(0, 1 + s['r'] % (n - 1))))
                    r = pd.subset(list(range(1 + s['r'] % (n - 1), n)))
                    q.append(r.data, weight=r.weight, mask=r.mask)
                    obj.append(q)
                    sim.probe('joined')
            except p24.Mismatch:
                raise
            except Exception as e:
                if whole is not None and isinstance(e, ValueError) and k in ('ants', 'uv') and 'number of baselines' in str(e):
                    sim.probe('refused')
                    continue
                import traceback
                fail('step refused', step=s, exc=repr(e), tb=traceback.format_exc()[-500:])
            if k in ('copy', 'ants', 'uv', 'convert', 'rephase'):
                for x, y in zip(dss, before):
                    if frozen(x) != y:
                        fail('original changed', step=s)
            if new is not None and ntb is not None:
                nd = list(new) if whole is not None else [new]
                if len(nd) != len(ntb):
                    fail('number of data sets', step=s, got=len(nd))
                for x, tb in zip(nd, ntb):
                    try:
                        same(x, tb, f, True, tol=tol)
                    except p24.Mismatch as e:
                        fail(e.args[0], step=s, **e.args[1])
                dss, tbs = nd, ntb
                if whole is not None:
                    whole = new
            else:
                for x, tb in zip(dss, tbs):
                    try:
                        same(x, tb, f, True, uvw=uvw, tol=0 if x.pols[:1] and x.pols[0] in p24.stokes(f) else 1e-6)
                    except p24.Mismatch as e:
                        fail(e.args[0], step=s, **e.args[1])

    refs = {}

    def mkdtemp(*a, **k):
        # casacore needs a real directory
        unpacked[0] += 1
        p = os.path.join(d, 'tmp%d' % unpacked[0])
        os.mkdir(p)
        return p

    def body_(ops):
        for o in ops:
            one(o)

    def main(proc):
        for k, f in enumerate(files):
            c = shared[k] = U.CorrelatedData(paths[k]) if f['kind'] != 'virt' else virtual(f)
            if f['kind'] == 'virt':
                c.integration_count = len(f['sets'])
            refs[k] = [c.get_data_set(i + 1, include_auto=True) for i in range(c.integration_count)]
            if c.integration_count != len(tabs[k]):
                bad('integration-count', f, got=c.integration_count, expected=len(tabs[k]))
                return
        proc.faultable = True
        ths = [sim.spawn(proc, lambda s=s: body_(s['ops']), 't%d' % (k + 1)) for k, s in enumerate(plan['ops'][1:])]
        if plan['ops']:
            body_(plan['ops'][0]['ops'])
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')

    try:
        U.tempfile = types.SimpleNamespace(mkdtemp=mkdtemp)
        U.atexit.register = lambda *a, **k: None
        for k, f in enumerate(files):
            tabs.append(tables(f))
            if f['kind'] == 'virt':
                paths.append(None)
                continue
            p = store(f, os.path.join(d, 'w%d' % k))
            if f['kind'] == 'ms':
                if f.get('tar'):
                    with tarfile.open(p + '.tar', 'w') as tf:
                        tf.add(p, arcname='some.ms')
                    p += '.tar'
                paths.append(p)
            else:
                with open(p, 'rb') as fh:
                    sim.vfs.put('/in/f%d' % k, fh.read())
                paths.append(V.PREFIX + '/in/f%d' % k)
        sim.start(sim.new_proc('p', crashable=False, faultable=False), main)
        sim.run()
    finally:
        U.tempfile, U.atexit.register = old_tmp, old_reg
        shutil.rmtree(d, True)
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        excs = [(t.exc, t.exc_tb) for t in p.tasks if t.exc is not None]
        if p.data.get('exc') is not None:
            excs.append((p.data['exc'], p.data['exc_tb']))
        for e, tb in excs:
            sim.violate('unexpected-exception', exc=repr(e), tb=tb[-900:])
    for k, dd in sim.violations:
        res.violate(k, dd)
    return finish(sim, res)
