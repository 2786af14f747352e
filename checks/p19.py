"""P19  A TEC map is the published map of that day, whole, or an error."""
import ftplib
import gzip
import io
import socket
import ssl
import subprocess
import tarfile
import types
import zlib
from datetime import datetime, timedelta

import numpy as np

from .common import *
from sim import loader as simloader

ID = 'P19'
LEVEL = 'exploration'
TECH = ('deterministic simulation of processes and threads loading ionospheric maps through a shared on-disk cache from '
        'faulty FTPS/FTP/HTTPS servers, with disk faults, crashes and restarts; every loaded map compared with the published ones')
NOTE = ('Real ionosphere, cache, lock, download, gzip, tar and HDF5 parsing code; the servers, the FTPS client class, the '
        'external gzip program, the disk, the clock and process death are simulated.')
TIERS = {'quick': {'runs': 1400, 'budget': 200, 'det': 24},
         'thorough': {'runs': 40000, 'budget': 820, 'det': 120}}
RULE = ('a case is one seeded history of 1-3 processes loading maps of 1-2 days from one or two data sources, with scripted '
        'servers, network, disk and fork faults, crashes and restarts; distinct non-trivial = distinct history of outcomes')
REAL = ['lsl.misc.ionosphere (all seven sources), lsl.misc.file_cache, lsl.misc.file_lock, lsl.common.data_access.download_file, lsl.config from /repo',
        'gzip, tarfile, http.client, h5py (on the bytes read through the simulated file)']
STUB = ['FTPS client class and servers, sockets', 'external gzip program', 'kernel: file system, flock, clock, scheduler, process death']
ASSUMPTIONS = ['kill -9 crash model (no power loss)', 'servers do not report success for content they did not deliver',
               'unix compress files carry no checksum: a truncated one decompresses to truncated text']
REQUIRED_PROBES = {'valued': 100, 'loaded': 200, 'failed': 30, 'concurrent': 30, 'after_crash': 8, 'converted': 30}

DAYS = {'INX': [56000, 58849, 59580], 'USTEC': [58849, 59580], 'GLOTEC': [60736, 61041]}
INX = {'IGS': ('igsg', 'igrg', 'IGS0OPS%s_%04i%03i0000_01D_02H_GIM.INX.gz'),
       'JPL': ('jplg', 'jprg', None),
       'EMR': ('emrg', 'ehrg', 'EMR0OPS%s_%04i%03i0000_01D_01H_GIM.INX.gz'),
       'UQR': ('uqrg', 'uqrg', None),
       'CODE': ('codg', 'codg', 'COD0OPS%s_%04i%03i0000_01D_01H_GIM.INX.gz')}
FTPF = ['refused', 'dns', 'timeout', 'ssl', 'login-perm', 'login-temp', 'login-odd', 'prot-perm', 'prot-odd', 'size-perm', 'size-timeout',
        'retr-perm', 'cut-426', 'cut-eof', 'cut-timeout', 'cut-reset', 'cut-reply', 'cut-proto', 'end-odd']
NETF = ['refused', 'dns', 'timeout', 'timeout-raw', 'reset', 'disconnect', '404', '500', 'cut-eof', 'cut-reset', 'cut-timeout', 'empty', 'tiny']


def setup():
    import scipy.special, scipy.optimize, scipy.interpolate, astropy.units, astropy.coordinates, astropy.constants   # noqa
    import astropy.time, ephem, h5py, dbm   # noqa
    setup_procsim()
    simloader.plain('lsl.common.stations', 'lsl.common.color',
                    shared=('lsl.misc.mathutils', 'lsl.astro', 'lsl.common.mcs', 'lsl.common.ndp'))


def day(mjd):
    return datetime(1858, 11, 17) + timedelta(days=int(mjd))


# ---- the published files ------------------------------------------------------

class Pub(object):
    """what one published file says; the fields are linear in time, so that every way to pick neighbours in time agrees"""

    def __init__(self, base, slope, rbase, rslope, cad, lats, lngs, height, mjd, has_rms=True):
        self.base, self.slope, self.rbase, self.rslope = [np.array(x, dtype=np.float64) for x in (base, slope, rbase, rslope)]
        self.tec = np.array([self.base + k * self.slope for k in range(3)]) / 10
        self.rms = np.array([self.rbase + k * self.rslope for k in range(3)]) / 10 if has_rms else None
        self.dates = np.array([mjd + k * cad for k in range(3)])
        self.lats, self.lngs, self.height, self.cad = np.array(lats, dtype=float), np.array(lngs, dtype=float), height, cad

    def value(self, which, k, lat, lng):
        """bilinear in the grid (ascending latitude order), linear in time"""
        b, sl = (self.base, self.slope) if which == 'tec' else (self.rbase, self.rslope)
        f = (b + k * sl) / 10
        la, lo = self.lats, self.lngs
        if la[0] > la[-1]:
            la, f = la[::-1], f[::-1]
        i = min(max(int(np.searchsorted(la, lat, side='right')) - 1, 0), len(la) - 2)
        j = min(max(int(np.searchsorted(lo, lng, side='right')) - 1, 0), len(lo) - 2)
        u, v = (lat - la[i]) / (la[i + 1] - la[i]), (lng - lo[j]) / (lo[j + 1] - lo[j])
        return (1 - u) * (1 - v) * f[i, j] + u * (1 - v) * f[i + 1, j] + (1 - u) * v * f[i, j + 1] + u * v * f[i + 1, j + 1]


def field(ver, n, m, a):
    base = [[(ver * a + i * 3 + j * 2) % 800 + 1 for j in range(m)] for i in range(n)]
    slope = [[(i + 2 * j + ver) % 9 for j in range(m)] for i in range(n)]
    return base, slope


def inx(mjd, ver, n):
    """IONEX text plus the map it stands for."""
    d = day(mjd)
    m, dlng = ((5, 90.0), (19, 20.0))[ver % 2]
    has_rms, cad = ver % 3 != 0, (2, 2, 1)[ver % 3]
    b, sl = field(ver, n, m, 37)
    rb, rs = field(ver + 7, n, m, 11)
    pub = Pub(b, sl, rb, rs, cad / 24.0, [87.5 - 2.5 * i for i in range(n)], [-180.0 + dlng * j for j in range(m)], 450.0, mjd, has_rms)
    hole = (ver % 4 == 1 and n > 3)
    out = ['     1.0            IONOSPHERE MAPS     GPS                 IONEX VERSION / TYPE',
           'v%d                                                        COMMENT' % ver,
           '                                                            END OF HEADER']
    for what, f in (('TEC', pub.tec), ('RMS', pub.rms)):
        if f is None:
            continue
        for k in range(3):
            out.append('%6d%54sSTART OF %s MAP' % (k + 1, '', what))
            t = d + timedelta(hours=cad * k)
            out.append('%6d%6d%6d%6d%6d%6d%24sEPOCH OF CURRENT MAP' % (t.year, t.month, t.day, t.hour, t.minute, t.second, ''))
            for i in range(n):
                out.append('  %6.1f%6.1f%6.1f%6.1f%6.1f%28sLAT/LON1/LON2/DLON/H' % (87.5 - 2.5 * i, -180.0, 180.0, dlng, 450.0, ''))
                row = [int(round(v * 10)) for v in f[k, i]]
                if hole and what == 'TEC' and i == 2:
                    row[1] = 9999
                for c in range(0, m, 16):
                    out.append(''.join('%5d' % v for v in row[c:c + 16]))
            out.append('%6d%54sEND OF %s MAP' % (k + 1, '', what))
    if hole:
        pub.tec[:, 2, 1] = np.nan
        pub.hole = True
    out.append('%60sEND OF FILE' % '')
    return '\n'.join(out).encode() + b'\n', pub


def zpack(text):
    return b'\x1f\x9d\x90' + zlib.compress(text, 1)


def zunpack(data):
    """gzip -d of a .Z or .gz file"""
    if data[:3] == b'\x1f\x9d\x90':
        try:
            return zlib.decompressobj().decompress(data[3:])       # no checksum, no end mark
        except zlib.error:
            raise ValueError('corrupt input')
    if data[:2] == b'\x1f\x8b':
        try:
            return gzip.decompress(data)
        except (EOFError, OSError, zlib.error):
            raise ValueError('unexpected end of file')
    raise ValueError('not in gzip format')


def tgz(members):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode='wb', mtime=0, filename='') as g:
        with tarfile.open(fileobj=g, mode='w', format=tarfile.USTAR_FORMAT) as tf:
            for name, c in members:
                ti = tarfile.TarInfo(name)
                ti.size = len(c)
                tf.addfile(ti, io.BytesIO(c))
    return b.getvalue()


def ustec(mjd, ver, n):
    d = day(mjd)
    mem = []
    m = 5
    lats, lngs = [10.0 + 5 * i for i in range(n)], [-150.0 + 5 * j for j in range(m)]
    b, sl = field(ver, n, m, 29)
    low = n % 2 == 1 and ver % 2 == 0         # RMS maps come with half of the resolution
    if low:
        rb, rs = [[(ver * 5) % 90 + 2 * i + 4 * j for j in range(m)] for i in range(n)], [[1] * m] * n
    else:
        rb, rs = field(ver + 5, n, m, 13)
    has_rms = ver % 5 != 4
    pub = Pub(b, sl, rb, rs, 15 / 1440.0, lats, lngs, 200.0, mjd, has_rms)

    def text(f, la, lo):
        txt = ':Product: USTEC v%d\n#\n' % ver + '0000 ' + ' '.join('%d' % round(x * 10) for x in lo) + '\n'
        return (txt + ''.join('%d ' % round(la[i] * 10) + ' '.join('%d' % round(v * 10) for v in r) + '\n' for i, r in enumerate(f))
                + '999 satellites\n').encode()
    for k in range(3):
        t = d + timedelta(minutes=15 * k)
        p = 'ustec_%s/%s' % (d.strftime('%Y_%m_%d'), t.strftime('%Y%m%d%H%M'))
        one = [(p + '_TEC.txt', text(pub.tec[k], lats, lngs))]
        if has_rms:
            one.append((p + '_ERR.txt', text(pub.rms[k][::2, ::2], lats[::2], lngs[::2]) if low else text(pub.rms[k], lats, lngs)))
        one.append((p + '_EOF.txt', b'#\n1 2 6471 100\n1.0\n2.0\n1.0\n'))
        mem.append(one)
    if ver % 2:
        mem = mem[::-1]                       # members need not be in the order of time
    data = tgz([x for one in mem for x in one])
    for a in ('base', 'slope', 'rbase', 'rslope', 'lats'):
        setattr(pub, a, getattr(pub, a)[::-1])
    pub.tec = pub.tec[:, ::-1]
    pub.rms = pub.rms[:, ::-1] if has_rms else None
    return data, pub


_NC = {}


def glotec(mjd, ver, n):
    import h5py
    k = (mjd, ver % 4, n)
    if k not in _NC:
        d = day(mjd)
        b, sl = field(ver % 4, n, 4, 31)
        q = 2 + ver % 4
        pub = Pub(np.array(b) * 10, np.array(sl) * 10, np.array(b) * 10 * (6 - q) / 100., np.array(sl) * 10 * (6 - q) / 100., 10 / 1440.0,
                  np.arange(n) * 2.5, np.arange(4) * 5.0, None, mjd)
        buf = io.BytesIO()
        with h5py.File(buf, 'w', track_order=False) as f:
            t0 = (d - datetime(1970, 1, 1)).total_seconds()
            for nm, v in (('time', np.array([t0 + 600 * a for a in range(3)])), ('latitude', pub.lats),
                          ('longitude', pub.lngs), ('TEC', pub.tec), ('quality_flag', np.full(pub.tec.shape, q))):
                f.create_dataset(nm, data=v, track_times=False)
        nc = buf.getvalue()
        ds = d.strftime('%Y_%m_%d')
        for a in ('base', 'slope', 'rbase', 'rslope', 'lats'):
            setattr(pub, a, getattr(pub, a)[::-1])
        pub.tec, pub.rms = pub.tec[:, ::-1], pub.rms[:, ::-1]
        _NC[k] = (tgz([('glotec_%s/README' % ds, b'hello\n'), ('glotec_%s/GloTEC_TEC_%s.nc' % (ds, ds), nc),
                       ('glotec_%s/junk' % ds, b'z' * 4000)]), pub)
    return _NC[k]


def names(typ, mjd, prod):
    """file names on the servers, in the order of preference -> kind"""
    d = day(mjd)
    doy = int(d.strftime('%j'))
    if typ == 'USTEC':
        return ['ustec_%s.tar.gz' % d.strftime('%Y_%m_%d'), '%s_ustec.tar.gz' % d.strftime('%Y%m%d')]
    if typ == 'GLOTEC':
        return ['glotec_%s.tar.gz' % d.strftime('%Y_%m_%d')]
    fin, rap, long_ = INX[typ]
    out = ['%s%03i0.%02ii.Z' % (fin if prod == 'final' else rap, doy, d.year % 100)]
    if long_ and not (typ == 'CODE' and prod == 'rapid'):
        out.insert(0, long_ % ('FIN' if prod == 'final' else 'RAP', d.year, doy))
    return out


class World(object):
    def __init__(self, sim, plan):
        self.sim = sim
        self.files = {'cddis': {}, 'mirror': {}, 'noaa': {}}
        self.ever = {}             # (type, mjd) -> list of (prod, what the file says)
        self.now = {}              # (type, mjd, prod) currently published somewhere
        self.p_net = plan['p_net']
        self.kinds = plan['kinds']
        self.faults = {}
        sim.net.handler = self.http

    def publish(self, typ, mjd, prod, ver, n, sites, style):
        if typ in INX:
            text, pub = inx(mjd, ver, n)
            nm = names(typ, mjd, prod)
            fn = nm[0] if style else nm[-1]
            data = gzip.compress(text, mtime=0) if fn.endswith('.gz') else zpack(text)
        else:
            data, pub = (ustec if typ == 'USTEC' else glotec)(mjd, ver, n)
            nm = names(typ, mjd, prod)
            fn = nm[0] if style else nm[-1]
        d = day(mjd)
        for s in sites:
            self.files[s][fn] = data
        self.ever.setdefault((typ, mjd), []).append((prod, pub))
        self.now[(typ, mjd, prod)] = True

    def hit(self, kind):
        t = current().name
        self.faults[t] = self.faults.get(t, 0) + 1
        self.sim.count_fault('net:' + kind)
        self.sim.event('net-fault', kind=kind)

    def pick(self, site):
        sim = self.sim
        if not sim.faults_on:
            return None
        pool = FTPF if site == 'cddis' else NETF
        return sim.choose('net', self.p_net, lambda q: [q.choice([k for k in pool if k in self.kinds] or pool), q.random()])

    def http(self, method, url, headers, body):
        sim = self.sim
        site = 'mirror' if 'gssc.esa.int' in url else 'noaa' if 'noaa.gov' in url else None
        fn = url.rsplit('/', 1)[1]
        data = self.files.get(site, {}).get(fn)
        if data is None:
            return {'status': 404, 'body': b'no such file here'}
        v = self.pick(site)
        r = {'status': 200, 'body': data, 'mtime': None if site == 'mirror' else int(sim.now) - 86400}
        if v is not None:
            k, x = v
            self.hit(k)
            if k in ('refused', 'dns', 'timeout', 'timeout-raw', 'reset', 'disconnect'):
                return {'error': k}
            if k in ('404', '500'):
                return {'status': int(k), 'body': b'some error page that is long enough'}
            if k.startswith('cut-'):
                r['cut'] = int(x * len(data))
                r['end'] = k[4:]
            elif k == 'empty':
                r['body'] = b''
            elif k == 'tiny':
                r['body'] = b'x'
        return r


def seams(sim, w, proc):
    class FTP_TLS(object):
        def __init__(self, host='', *a, timeout=120, context=None, **kw):
            sim.op('ftp.connect', host)
            self.t = timeout if isinstance(timeout, (int, float)) else 120
            self.v = w.pick('cddis')
            k = self.v[0] if self.v else None
            sim.event('ftp', outcome=k)
            if k:
                w.hit('ftps:' + k)
            self.k = k
            if k == 'refused':
                raise ConnectionRefusedError(111, 'Connection refused (injected)')
            if k == 'dns':
                raise socket.gaierror(-3, 'Temporary failure in name resolution')
            if k == 'timeout':
                sim.sleep(self.t)
                raise socket.timeout('timed out')
            if k == 'ssl':
                raise ssl.SSLError(1, '[SSL] handshake failure (injected)')

        def login(self, *a, **kw):
            sim.op('ftp.login', '')
            if self.k == 'login-perm':
                raise ftplib.error_perm('530 Login incorrect.')
            if self.k == 'login-temp':
                raise ftplib.error_temp('421 Too many connections.')
            return '202 Superfluous.' if self.k == 'login-odd' else '230 Login successful.'

        def prot_p(self):
            sim.op('ftp.prot', '')
            if self.k == 'prot-perm':
                raise ftplib.error_perm('534 Request denied.')
            return '202 Superfluous.' if self.k == 'prot-odd' else '200 PROT now Private.'

        def size(self, path):
            sim.op('ftp.size', path)
            if self.k == 'size-timeout':
                sim.sleep(self.t)
                raise socket.timeout('timed out')
            d = w.files['cddis'].get(path.rsplit('/', 1)[1])
            if d is None or self.k == 'size-perm':
                raise ftplib.error_perm('550 Could not get file size.')
            return len(d)

        def retrbinary(self, cmd, callback, blocksize=8192, rest=None):
            path = cmd.split(None, 1)[1]
            sim.op('ftp.retr', path)
            d = w.files['cddis'].get(path.rsplit('/', 1)[1])
            if d is None or self.k == 'retr-perm':
                raise ftplib.error_perm('550 Failed to open file.')
            if self.k and self.k.startswith('cut-'):
                d = d[:int(self.v[1] * len(d))]
            step = max(1, min(blocksize, 900))
            for i in range(0, len(d), step):
                sim.op('ftp.recv', path)
                callback(d[i:i + step])
            k = self.k
            if k == 'cut-426':
                raise ftplib.error_temp('426 Failure writing network stream.')
            if k == 'cut-eof':
                raise EOFError
            if k == 'cut-timeout':
                sim.sleep(self.t)
                raise socket.timeout('The read operation timed out')
            if k == 'cut-reset':
                raise ConnectionResetError(104, 'Connection reset by peer (injected)')
            if k == 'cut-reply':
                raise ftplib.error_reply('125 Data connection already open.')
            if k == 'cut-proto':
                raise ftplib.error_proto('garbage')
            return '250 Okay.' if k == 'end-odd' else '226 Transfer complete.'

        def quit(self):
            sim.op('ftp.quit', '')
            return '221 Goodbye.'

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def facade(real, **kw):
        m = types.ModuleType(real.__name__)
        m.__dict__.update(real.__dict__)
        m.__dict__.update(kw)
        return m

    def gunzip(args, data):
        sim.op('exec', 'gzip')
        if sim.fault('exec', ['ENOMEM'], 'gzip') is not None:
            raise OSError(12, 'Cannot allocate memory (injected)')
        if data is None:
            path = [a for a in args[1:] if not a.startswith('-')][-1]
            try:
                with open(path, 'rb') as fh:
                    data = fh.read()
            except OSError:
                return 1, b''
        try:
            out = zunpack(data)
        except ValueError:
            return 1, b''
        sim.probe('converted')
        return 0, out

    def check_output(args, input=None, stdin=None, stderr=None, timeout=None, **kw):
        rc, out = gunzip(args, stdin.read() if stdin is not None and hasattr(stdin, 'read') else input)
        if rc:
            raise subprocess.CalledProcessError(rc, args)
        return out

    def run_(args, input=None, stdin=None, check=False, **kw):
        rc, out = gunzip(args, stdin.read() if stdin is not None and hasattr(stdin, 'read') else input)
        if rc and check:
            raise subprocess.CalledProcessError(rc, args)
        return subprocess.CompletedProcess(args, rc, out, b'')

    import h5py

    def H5File(name, mode='r', *a, **kw):
        # the library reads through the (simulated) file before it takes its own global lock
        if isinstance(name, str):
            with open(name, 'rb') as fh:
                c = fh.read()
        else:
            c = name.read()
        return h5py.File(io.BytesIO(c), mode)

    if proc.loader is None:
        proc.loader = simloader.ProcLoader(proc)
    f = proc.loader.facades
    f['ftplib'] = facade(ftplib, FTP_TLS=FTP_TLS)
    f['ssl'] = facade(ssl, create_default_context=lambda *a, **k: None)
    f['subprocess'] = facade(subprocess, check_output=check_output, run=run_)
    f['h5py'] = facade(h5py, File=H5File)


def gen(rng, tier):
    types_ = rng.sample(list(INX), rng.choice([1, 1, 2])) if rng.random() < 0.55 else \
        rng.sample(['USTEC', 'GLOTEC', 'GLOTEC'], 1)
    keys = []
    for t in types_:
        for d in rng.sample(DAYS.get(t, DAYS['INX']), rng.choice([1, 1, 2])):
            keys.append([t, d])
    pubs = []
    for t, d in keys:
        sites = ['cddis', 'mirror'] if t in INX else ['noaa']
        prods = rng.choice([['final'], ['final', 'rapid'], ['rapid'], ['final', 'rapid']]) if t in ('IGS', 'JPL', 'EMR') else ['final']
        for p in prods:
            ss = rng.choice([sites, sites[:1], sites[-1:]])
            pubs.append([t, d, p, rng.choice([3, 8, 30, 71]), ss, rng.random() < 0.5])

    def ops(k):
        out = []
        for _ in range(k):
            x = rng.random()
            t, d = rng.choice(keys)
            if x < 0.8:
                out.append({'op': 'load', 't': t, 'd': d, 'how': rng.choice(['map', 'map', 'load', 'value', 'value']), 'x': rng.choice([0, 1, 2, 3]), 'at': [rng.random(), rng.choice([0.0, 0.0, 0.5, 1.0, rng.random()]), rng.random(), rng.random()], 'rms': rng.random() < 0.4})
            elif x < 0.88:
                out.append({'op': 'sleep', 't': rng.choice([0.01, 1, 100])})
            elif x < 0.94 and t in ('IGS', 'JPL', 'EMR'):
                out.append({'op': 'publish', 't': t, 'd': d, 'n': rng.choice([3, 30]), 'style': rng.random() < 0.5})
            else:
                out.append({'op': 'load', 't': t, 'd': d, 'how': 'load', 'x': rng.choice([0, 1, 2, 3])})
        return out
    procs = [{'ops': [{'ops': ops(rng.randint(1, 4))} for _ in range(rng.choice([1, 1, 1, 2]))],
              'again': rng.random() < 0.4} for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    return {'ops': procs, 'keys': keys, 'pubs': pubs, 'p_net': rng.choice([0.0, 0.0, 0.2, 0.5, 0.8]),
            'kinds': rng.sample(FTPF, rng.randint(2, len(FTPF))) + rng.sample(NETF, rng.randint(2, len(NETF))),
            'ro': rng.random() < 0.12, 'stdin': stdin_kind(rng),
            'swarm': dict(swarm(rng, crash=0.002, fault=0.004, kinds=['ENOSPC', 'EIO', 'SHORT', 'EACCES', 'ENOMEM']),
                          op_gap=rng.choice([0, 0, 0, 60, 300]))}


def run(plan, devs=None):
    with Stdin(plan.get('stdin')):
        return run1(plan, devs)


def run1(plan, devs):
    res = Result()
    sim = mk(plan, devs, max_steps=3000000, max_ops=20000000)
    w = World(sim, plan)
    for i, (t, d, p, n, ss, style) in enumerate(plan['pubs']):
        w.publish(t, d, p, i + 1, n, ss, style)
    if plan['ro']:
        sim.vfs.ro_prefix.append('/home')
    ver = [100]
    busy = {}
    st = {'crashed': False}

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] in ('fault', 'net-fault'))

    def anyfault():
        return any(e[3] in ('fault', 'net-fault') for e in sim.history) or any(p.crashed for p in sim.procs)

    def same(a, b):
        a = np.asarray(a, dtype=np.float64)
        return a.shape == b.shape and bool(np.all((np.abs(a - b) < 1e-3) | (np.isnan(a) & np.isnan(b))))

    def wrong(m, u, typ):
        """what of a loaded map differs from what was published, apart from the TEC"""
        if np.shape(m['dates']) != (3,) or not np.all(np.abs(np.asarray(m['dates'], dtype=np.float64) - u.dates) < 1e-6):
            return 'dates'
        la, lo = np.broadcast_arrays(u.lats[:, None], u.lngs[None, :])
        if not same(m['lats'], la):
            return 'lats'
        if not same(m['lngs'], lo):
            return 'lngs'
        if u.height is not None and abs(float(m['height']) - u.height) > 1e-3:
            return 'height'
        if u.rms is not None and not same(m['rms'], u.rms):
            return 'rms'
        if np.shape(m['rms']) != u.tec.shape:
            return 'rms-shape'
        return None

    def body(proc, io_, ops, final=False):
        t = current()
        mods = {k: getattr(io_, '_' + k.lower()) for k in list(INX) + ['USTEC', 'GLOTEC']}
        loaded = proc.data.setdefault('started', {})
        for o in ops:
            if o['op'] == 'sleep':
                sim.sleep(o['t'])
                continue
            if o['op'] == 'publish':
                ver[0] += 1
                w.publish(o['t'], o['d'], 'final', ver[0], o['n'], ['cddis', 'mirror'], o['style'])
                continue
            f0, t0 = nf(t), sim.mono
            key = (o['t'], o['d'])
            fin0 = w.now.get(key + ('final',))
            if any(busy.values()):
                sim.probe('concurrent')
            busy[t.name] = 1
            cad = 15 / 1440.0 if o['t'] == 'USTEC' else 10 / 1440.0 if o['t'] == 'GLOTEC' else 1 / 24.0
            k = o['at'][1] * 2 if o['how'] == 'value' else None
            mjd = o['d'] + (k * cad if o['how'] == 'value' else (0.0078125, 0.5, 0.0, 0.999997)[o.get('x', 0)])
            first = (key, mjd) not in loaded
            loaded[(key, mjd)] = 1
            try:
                val = None
                if o['how'] == 'map':
                    m = io_._load_map(mjd, type=o['t'])
                elif o['how'] == 'load':
                    m = mods[o['t']].load_mjd(mjd)
                else:
                    io_.get_tec_value(mjd, type=o['t'])
                    m = io_._load_map(mjd, type=o['t'])
                tec = m['tec']
                sim.event('loaded', key=repr(key), shape=repr(tuple(np.shape(tec))), v=float(np.nansum(tec)))
                sim.probe('loaded')
                if any(p.crashed for p in sim.procs):
                    sim.probe('after_crash')
                got = [(p, x) for p, x in w.ever.get(key, ()) if same(tec, x.tec)]
                bad = [wrong(m, x, o['t']) for p, x in got]
                if not got:
                    sim.violate('wrong-map', key=key, shape=tuple(np.shape(tec)), published=[(p, x.tec.shape) for p, x in w.ever.get(key, ())])
                elif all(bad):
                    sim.violate('wrong-' + bad[0], key=key, got=repr(m[bad[0].split('-')[0]])[:300])
                elif fin0 and 'final' not in [p for p, x in got] and nf(t) == f0 and (first or o['how'] == 'load'):
                    sim.violate('rapid-although-final-available', key=key)
                elif o['how'] == 'value':
                    u = got[bad.index(None)][1]
                    a, b = sorted((u.lats[0], u.lats[-1]))
                    lat, lng = a + (b - a) * o['at'][2], u.lngs[0] + (u.lngs[-1] - u.lngs[0]) * o['at'][3]
                    kk = (mjd - u.dates[0]) / u.cad
                    val = io_.get_tec_value(mjd, lat=lat, lng=lng, include_rms=o['rms'], type=o['t'])
                    val = [float(np.asarray(v).ravel()[0]) for v in (val if o['rms'] else (val,))]
                    ref = [u.value('tec', kk, lat, lng)] + ([u.value('rms', kk, lat, lng)] if o['rms'] and u.rms is not None else [])
                    sim.probe('valued')
                    if not hasattr(u, 'hole') and any(abs(v - r) > 2e-2 for v, r in zip(val, ref)):
                        sim.violate('wrong-value', key=key, mjd=mjd, lat=lat, lng=lng, got=val, expected=ref)
            except Exception as e:
                sim.event('failed', key=repr(key), exc=type(e).__name__)
                sim.probe('failed')
                if isinstance(e, (AssertionError, RuntimeError)) and sim.mono - t0 >= 119:
                    pass           # somebody held the cache lock during a stalled download
                elif nf(t) == f0 and any(k[:2] == key for k in w.now):
                    # nothing went wrong on this thread's side and the map is there to be had
                    sim.violate('load-failed' + ('-after-recovery' if final else ''), key=key, exc=repr(e),
                                earlier_faults=anyfault())
            busy[t.name] = 0

    def main(proc, spec, final=False):
        seams(sim, w, proc)
        t0 = sim.mono
        f0 = nf(current())
        try:
            io_ = proc.imp('lsl.misc.ionosphere')
        except Exception as e:
            if nf(current()) > f0 or (isinstance(e, RuntimeError) and sim.mono - t0 >= 119):
                sim.event('import-failed')
                return
            raise
        ths = [sim.spawn(proc, lambda s=s: body(proc, io_, s['ops'], final), 't%d' % (k + 1))
               for k, s in enumerate(spec['ops'][1:])]
        if spec['ops']:
            body(proc, io_, spec['ops'][0]['ops'], final)
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')

    def go(procs, suffix='', final=False):
        for i, spec in enumerate(procs):
            sim.start(sim.new_proc('p%d%s' % (i, suffix), crashable=True, faultable=True), main, spec, final)
        sim.run()

    go(plan['ops'])
    if not (sim.stuck or sim.deadlock):
        go([s for s in plan['ops'] if s['again']], 'b')
    if not (sim.stuck or sim.deadlock):
        # servers and disk are well again: a new process gets every published map
        sim.faults_on = False
        go([{'ops': [{'ops': [{'op': 'load', 't': t, 'd': d, 'how': 'map', 'x': x} for t, d in plan['keys'] for x in (0, 3)]}]}], 'z', True)
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        excs = [(t.exc, t.exc_tb) for t in p.tasks if t.exc is not None]
        if p.data.get('exc') is not None:
            excs.append((p.data['exc'], p.data['exc_tb']))
        for e, tb in excs:
            sim.violate('unexpected-exception', exc=repr(e), tb=tb[-900:])
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
