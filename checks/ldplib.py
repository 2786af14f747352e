"""
A simulated data recorder: seeded recordings of DRX, DRX8, DR spectrometer, TBX and COR data with the faults that a
real recorder and its network produce, and the reference model of what reading such a recording has to give.
"""
import hashlib
import os

import numpy as np

from sim import native
from sim.harness import BuildFailure
from . import frames as F

COR_NCHAN = [33, 72, 112, 192]
MODES = ['drx', 'drx8', 'tbx', 'drspec', 'cor']


def prepare(scratch):
    try:
        native.libdir_for('gofast', ['reader._gofast'])
    except native.BuildError as e:
        raise BuildFailure(str(e))


def setup():
    native.activate(native.libdir_for('gofast', ['reader._gofast']))
    import lsl.reader.ldp, lsl.reader.utils, lsl.reader.buffer   # noqa


_PRIME = []


def prime():
    """put what the compiled readers remember from earlier frames into a fixed state, so that a run is a function of its plan"""
    import io
    from lsl.reader import tbx, cor
    if not _PRIME:
        _PRIME.append((tbx.read_frame, F.tbx(F.GUARD + 1, 1, 256, 16, bytes(8192))))
        _PRIME.append((cor.read_frame, F.cor(F.GUARD + 1, 1, 1, 1, bytes(192 * 32))))
    for fn, b in _PRIME:
        try:
            fn(io.BytesIO(b + b))
        except Exception:
            pass


# ---------------------------------------------------------------- generation (pure function of the rng)
def gen_rec(rng, mode, faults=True, nstep=None, nseg=None, fill=None):
    r = {'mode': mode, 'seed': rng.randrange(1 << 30), 'ignore': False, 'head': 0, 'tail': 0, 'corrupt': [], 'splits': [],
         'foreign': []}
    r['t0'] = F.GUARD + rng.choice([1, 12345678, 10**15, 345600 * F.FS]) + rng.randrange(F.FS)
    if mode in ('drx', 'drx8'):
        r['beam'] = rng.randint(1, 4)
        tp = rng.choice([[[1, 0], [1, 1], [2, 0], [2, 1]]] * 3 + [[[1, 0], [1, 1]], [[2, 0], [2, 1]], [[1, 0]], [[2, 1]],
                                                                  [[1, 0], [2, 0]], [[1, 1], [2, 1]]])
        r['inputs'] = tp
        r['code'] = rng.choice([7, 7, 6, 5, 4, 3, 2, 1])
        r['toff'] = rng.choice([0, 6660, 1])
        r['step'] = 4096 * F.DECIM[r['code']]
        r['nseg'] = rng.choice([1, 2, 3, 5, 20])
        r['fill'] = rng.choice([1, 3, 50])
        lo = 68 // len(tp) + 2
        n = nstep or rng.randint(lo, lo + rng.choice([4, 20, 60]))
        if nstep is None and mode == 'drx' and rng.random() < 0.06 and len(tp) == 4:
            n = rng.choice([64, 65, 66])
    elif mode == 'tbx':
        r['nstand'] = rng.choice([64, 64, 128])
        r['nchan'] = rng.choice([4, 4, 8, 12])
        c0 = rng.randint(0, 1000)
        r['inputs'] = [[c0 + r['nchan'] * i] for i in range(rng.choice([1, 2, 3, 8]))]
        r['step'] = rng.choice([8192, 8192, 7840])
        r['nseg'] = rng.choice([1, 2, 3, 5, 25])
        r['fill'] = rng.choice([1, 3, 25])
        n = nstep or rng.randint(6, rng.choice([8, 20, 60]))
        if nstep is None and rng.random() < 0.15:
            n = 320 // len(r['inputs']) + rng.randint(2, 20)
    elif mode == 'drspec':
        r['inputs'] = [[0]]
        r['beam'] = rng.randint(1, 4)
        r['code'] = rng.choice([7, 6, 5])
        r['fmt'] = rng.choice(sorted(F.DRSPEC_PRODS))
        r['nfreq'] = rng.choice([32, 64, 128])
        r['nint'] = rng.choice([768, 1536, 6144])
        r['toff'] = rng.choice([0, 6660])
        r['fills'] = [rng.randint(1, r['nint']) for _ in range(4)]
        r['step'] = r['nint'] * r['nfreq'] * F.DECIM[r['code']]
        r['nseg'] = 1
        r['fill'] = 1
        n = nstep or rng.randint(3, rng.choice([6, 20, 60]))
    else:
        r['nchan'] = rng.choice(COR_NCHAN)
        r['stands'] = sorted(rng.sample(range(1, 257), rng.randint(1, 3)))
        c0 = rng.randint(0, 1000)
        st = r['stands']
        r['chans'] = [c0 + r['nchan'] * i for i in range(rng.randint(1, 2))]
        r['inputs'] = [[a, b, c] for a in st for b in st if b >= a for c in r['chans']]
        r['navg'] = rng.choice([500, 100, 1, 29, 58, 205, 1000])
        r['step'] = r['navg'] * F.FS // 100
        r['nseg'] = rng.choice([1, 2, 5])
        r['fill'] = 1
        n = nstep or rng.randint(3, 12)
    r['n'] = n
    if nseg:
        r['nseg'] = nseg
    if fill:
        r['fill'] = fill
    ni = len(r['inputs'])
    first = 64 if mode in ('drx', 'drx8') else 2 * ni      # the part that the file is recognised by
    keep = (first + ni - 1) // ni + 1
    p_loss = rng.choice([0, 0, 0.02, 0.15]) if faults else 0
    p_dup = rng.choice([0, 0, 0.05]) if faults else 0
    p_late = rng.choice([0, 0, 0.1, 0.4]) if faults else 0
    if mode == 'drspec':
        p_dup = p_late = 0
        p_loss = rng.choice([0, 0, 0, 0.05]) if faults else 0
    if mode == 'cor':
        p_loss = min(p_loss, 0.02)
    lost = set()
    if faults and n > keep + 2 and rng.random() < 0.4:
        # everything is lost for a while
        for _ in range(rng.randint(1, 2)):
            g0 = rng.randint(keep, n - 1)
            lost |= set(range(g0, min(n, g0 + rng.choice([1, 1, 2, 4, 60]))))
        if mode == 'cor' and rng.random() < 0.5:
            lost = set()
    if faults and r['nseg'] == 1:
        r['nseg'] = 2
    win = r['nseg'] - 2
    over = p_late and fill is None and mode in ('drx', 'drx8', 'tbx') and rng.random() < 0.25      # some frames come too late for the buffer
    if over:
        r['fill'] = 50
        lost = set(k for k in lost if k % 60 < 5)
    arr = []
    for k in range(n):
        for i in range(ni):
            at = k + (i + 0.5) / ni * 0.9
            if k in lost or (k >= keep and rng.random() < p_loss):
                continue
            if rng.random() < p_late and k >= 1:
                at += rng.random() * (win + 0.05) if not over else rng.random() * 2 * (win + 2)
            arr.append((at, k, i))
            if rng.random() < p_dup:
                arr.append((at + rng.choice([0.0001, 0.3, 2, r['nseg'] + 2]) * rng.random(), k, i))
    arr.sort()
    r['frames'] = [[k, i] for _, k, i in arr]
    if mode == 'tbx':
        # most of the steps at the start are there (the sample rate is taken from them)
        ks = sorted(set(k for k, i in r['frames'][:300]))
        if sum(1 for a, b in zip(ks, ks[1:]) if b - a == 1) <= 0.6 * (len(ks) - 1):
            r['frames'] = [[k, i] for k in range(n) for i in range(ni)]
    m = len(r['frames'])
    if faults:
        if rng.random() < 0.25:
            r['head'] = rng.choice([1, 7, 100, 2000])
            if mode == 'cor':
                r['head'] = 0 if r['nchan'] != 192 else rng.choice([0, 5])
        if rng.random() < 0.35:
            r['tail'] = rng.choice([0.01, 0.3, 0.99])
        if mode in ('drx', 'drx8', 'drspec', 'cor') and rng.random() < 0.3:
            r['corrupt'] = sorted(j for j in range(max(first, 3), m) if rng.random() < rng.choice([0.01, 0.05]))
            if mode == 'cor':
                r['corrupt'] = []
        if mode == 'tbx' and m > 310 and rng.random() < 0.7:
            r['foreign'] = sorted(rng.randrange(305, m + 1) for _ in range(rng.randint(1, 4)))
        if rng.random() < 0.25:
            r['splits'] = sorted(round(rng.random(), 4) for _ in range(rng.randint(1, 4)))
        r['ignore'] = rng.random() < 0.4 and not over
    return r


def samples(r):
    return {'drx': 4096, 'drx8': 4096}.get(r['mode'], 1)


def rate(r):
    """samples (or spectra or integrations) per second"""
    return samples(r) * F.FS / r['step']


class Recording(object):
    """The bytes of a recording and what they hold."""

    def __init__(self, r):
        self.r = r
        self.cache = {}

    def payload(self, k, i):
        r = self.r
        key = (k, i)
        if key not in self.cache:
            sd = (r['seed'] + 7919 * k + 104729 * i) & 0xffffffff
            m = r['mode']
            if m == 'drx':
                v = F.noise(sd, 4096)
            elif m == 'drx8':
                v = F.noise(sd, 8192)
            elif m == 'tbx':
                v = F.noise(sd, r['nstand'] * r['nchan'] * 2)
            elif m == 'drspec':
                v = np.random.RandomState(sd).rand(2, r['nfreq'], len(F.DRSPEC_PRODS[r['fmt']])).astype(np.float32) * 1000 + 1
            else:
                v = (np.random.RandomState(sd).rand(r['nchan'] * 8).astype(np.float32) + 0.5).tobytes()
            self.cache[key] = v
        return self.cache[key]

    def tag(self, k):
        return self.r['t0'] + k * self.r['step']

    def frame(self, k, i):
        r, m, d, t = self.r, self.r['mode'], self.payload(k, i), self.tag(k)
        inp = r['inputs'][i]
        if m in ('drx', 'drx8'):
            return F.drx(r['beam'], inp[0], inp[1], t, d, decimation=F.DECIM[r['code']], time_offset=r['toff'], wide=(m == 'drx8'))
        if m == 'tbx':
            return F.tbx(t, inp[0], r['nstand'], r['nchan'], d, count=k + 1)
        if m == 'drspec':
            return F.drspec(t, d, r['fmt'], r['nfreq'], r['nint'], F.DECIM[r['code']], r['toff'], r['beam'], r['fills'])
        return F.cor(t, inp[2], inp[0], inp[1], d, navg=r['navg'])

    def build(self):
        """bytes of the file"""
        r = self.r
        bad = set(r['corrupt'])
        out = []
        have = {}
        foreign = list(r['foreign'])
        whole = [(k, i) for k, i in r['frames']]
        for j, (k, i) in enumerate(whole):
            while foreign and foreign[0] <= j:
                foreign.pop(0)
                out.append(F.drx(1, 1, 0, self.tag(k), F.noise(j, 4096)))
            b = self.frame(k, i)
            if j in bad:
                b = bytes([b[0] ^ 0x55]) + b[1:]
            else:
                have.setdefault((k, i), j)
            out.append(b)
        self.frame_size = len(out[0])
        if r['head']:
            b = self.frame(0, 0)
            out.insert(0, b[-min(r['head'], len(b) - 40):])
        self.complete = sum(len(x) for x in out)
        if r['tail']:
            b = self.frame(r['n'], 0)
            out.append(b[:max(1, int(len(b) * r['tail']))])
        self.have = have
        self.bytes = b''.join(out)
        return self.bytes

    def late(self):
        """received frames that came so late that they may have been dropped"""
        r = self.r
        seen = -1
        may = set()
        bad = set(r['corrupt'])
        if r['mode'] == 'drspec' or (not bad and r['frames'] == [[k, i] for k in range(r['n']) for i in range(len(r['inputs']))]):
            return may
        for j, (k, i) in enumerate(r['frames']):
            if self.have.get((k, i)) == j and seen > k + r['nseg'] - 2:
                may.add((k, i))
            if j not in bad:
                seen = max(seen, k)
        return may

    def steps(self):
        """[(step, True if it follows a gap that is not filled)] in the order in which reading gives them"""
        r = self.r
        out = []
        for k in sorted(set(k for k, i in self.have)):
            gap = False
            if out:
                m = k - out[-1][0] - 1
                if m and r['mode'] in ('drx', 'drx8', 'tbx') and m < r['fill']:
                    out.extend((x, False) for x in range(k - m, k))
                elif m:
                    gap = True
            out.append((k, gap))
        return out

    def decode(self, k, i):
        r, m, d = self.r, self.r['mode'], self.payload(k, i)
        if m == 'drx':
            return F.dec4(d)
        if m == 'drx8':
            return F.dec8(d)
        if m == 'tbx':
            # channel, stand, pol -> input, channel
            return F.dec4(d).reshape(r['nchan'], r['nstand'] * 2).T
        if m == 'drspec':
            return F.dec_drspec(d, r['fmt'], r['fills'])
        v = np.frombuffer(d, np.complex64).reshape(r['nchan'], 2, 2).copy()
        inp = r['inputs'][i]
        if inp[0] == inp[1]:
            v[:, 1, 0] = v[:, 0, 1].conj()
        return v

    # ------------------------------------------------ opening
    def write(self, root, name):
        b = self.build()
        r = self.r
        p = os.path.join(root, name)
        if not r['splits']:
            with open(p, 'wb') as fh:
                fh.write(b)
            return [p]
        cuts = [0] + [int(len(b) * f) for f in r['splits']] + [len(b)]
        paths = []
        for n, (a, z) in enumerate(zip(cuts[:-1], cuts[1:])):
            q = '%s.%03d' % (p, n)
            with open(q, 'wb') as fh:
                fh.write(b[a:z])
            paths.append(q)
        return paths

    def open(self, paths, **kw):
        from lsl.reader import ldp, buffer as B
        from lsl.reader.utils import SplitFileWrapper
        from lsl.config import LSL_CONFIG
        r, m = self.r, self.r['mode']
        if m in ('drx', 'drx8'):
            LSL_CONFIG.set('ldp.drx_buffer_size', r['nseg'])
            LSL_CONFIG.set('ldp.drx_autofill_size', r['fill'])
        elif m == 'tbx':
            LSL_CONFIG.set('ldp.tbx_buffer_size', r['nseg'])
            LSL_CONFIG.set('ldp.tbx_autofill_size', r['fill'])
        elif m == 'cor':
            LSL_CONFIG.set('ldp.cor_buffer_size', r['nseg'])
        cls = {'drx': ldp.DRXFile, 'drx8': ldp.DRX8File, 'tbx': ldp.TBXFile, 'drspec': ldp.DRSpecFile, 'cor': None}[m]
        if cls is None:
            cls = small_cor(ldp, B, r)
        if len(paths) > 1:
            return cls(fh=SplitFileWrapper(list(paths)), ignore_timetag_errors=r['ignore'], **kw)
        return cls(paths[0], ignore_timetag_errors=r['ignore'], **kw)

    # ------------------------------------------------ expectations
    def check_chunk(self, data, n, steps, lenient, ci8=False):
        """data of a chunk against the time steps it should hold: None, or what is wrong"""
        r, m = self.r, self.r['mode']
        a = np.asarray(data)
        if ci8:
            a = a['re'].astype(np.float32) + 1j * a['im'].astype(np.float32)
        S = samples(r)
        slots = []
        if m in ('drx', 'drx8'):
            if a.shape[0] != 4 or a.shape[1] < n * S:
                return 'shape %r for %d frames' % (a.shape, n)
            for row in range(4):
                i = next((j for j, x in enumerate(r['inputs']) if 2 * (x[0] - 1) + x[1] == row), None)
                slots.append((i, a[row]))
            if np.any(a[:, n * S:] != 0):
                return 'data beyond the end of what was read'
        elif m == 'tbx':
            if a.shape[0] != 2 * r['nstand'] or a.shape[1] != r['nchan'] * len(r['inputs']) or a.shape[2] < n:
                return 'shape %r for %d time steps' % (a.shape, n)
            for i in range(len(r['inputs'])):
                slots.append((i, a[:, i * r['nchan']:(i + 1) * r['nchan']]))
        elif m == 'drspec':
            if a.shape[1] < n:
                return 'shape %r for %d spectra' % (a.shape, n)
            slots.append((0, a))
        else:
            nb = len(r['inputs']) // len(r['chans'])
            if a.shape[:4] != (nb, r['nchan'] * len(r['chans']), 2, 2) or a.shape[4] < n:
                return 'shape %r for %d integrations' % (a.shape, n)
            st = r['stands']
            bl = [(x, y) for x in st for y in st if y >= x]
            for i, inp in enumerate(r['inputs']):
                c = r['chans'].index(inp[2])
                slots.append((i, a[bl.index((inp[0], inp[1])), c * r['nchan']:(c + 1) * r['nchan']]))
        for (i, x) in slots:
            for j, k in enumerate(steps[:n]):
                if m in ('drx', 'drx8'):
                    got = x[j * S:(j + 1) * S]
                elif m == 'drspec':
                    got = x[:, j, :]
                else:
                    got = x[..., j]
                if i is None or (k, i) not in self.have:
                    if np.any(got != 0):
                        return 'step %d input %s was not received but is not zero' % (k, i if i is None else r['inputs'][i])
                    continue
                e = self.decode(k, i)
                if got.shape == e.shape and np.allclose(got, e, rtol=1e-5, atol=1e-6):
                    continue
                if (k, i) in lenient and not np.any(got != 0):
                    continue
                return 'step %d input %s does not hold what was recorded (%s)' % (
                    k, r['inputs'][i], 'it is zero' if not np.any(got != 0) else self.whose(got))
        return None

    def whose(self, got):
        for (k, i) in sorted(self.have):
            e = self.decode(k, i)
            if got.shape == e.shape and np.allclose(got, e, rtol=1e-5, atol=1e-6):
                return 'it holds step %d input %s' % (k, self.r['inputs'][i])
        return 'it holds something else'


def small_cor(ldp, B, r):
    """CORFile expects all 32,896 baselines of the station; run it over a few stands"""
    st = list(r['stands'])
    nb = len(st) * (len(st) + 1) // 2

    class Small(B.CORFrameBuffer):
        def get_max_frames(self):
            self.stands = list(st)
            return B.CORFrameBuffer.get_max_frames(self)

    class SmallCOR(ldp.CORFile):
        def _describe_file(self):
            ldp.CORFile._describe_file(self)
            self.bmapperd = {(x, y): n for n, (x, y) in enumerate((a, b) for a in st for b in st if b >= a)}
            self.description['nbaseline'] = nb
            self.buffer = Small(chans=list(self.buffer.chans), reorder=False, nsegments=self.buffer.nsegments)
    return SmallCOR


def cor_supported():
    """the reduced array relies on how CORFile is laid out; without that COR is left out"""
    from lsl.reader import ldp, buffer as B
    return hasattr(ldp, 'CORFile') and hasattr(ldp.CORFile, '_describe_file') and hasattr(B.CORFrameBuffer, 'get_max_frames')


def same_time(t, tag, toff, as_samples):
    if as_samples:
        return int(t) == tag - toff
    return t is not None and abs(float(t) - (tag - toff) / F.FS) < 5e-6


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()
