"""P11  Frame buffers under packet loss, duplication, reordering and delay."""
import hashlib
import io
import json

from sim import native
from sim.harness import Result, BuildFailure
from . import frames as F

ID = 'P11'
LEVEL = 'exploration'
TECH = 'deterministic simulation of a lossy, duplicating, reordering, delaying packet network feeding the real frame buffers; refinement against a small executable reference buffer'
NOTE = 'Real frame buffers and real (freshly compiled) frame readers; the network and the packets are simulated.'
TIERS = {'quick': {'runs': 1600, 'budget': 120, 'det': 40},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = 'a case is one seeded network history (loss, duplication, reordering, delay, stalls, skewed time tags) with seeded append/get/peek/flush/reset operations; distinct non-trivial = distinct operation and delivery sequence'
REAL = ['lsl.reader.buffer, lsl.reader.{drx,drx8,tbx,cor,vdif,base} from /repo', 'lsl.reader._gofast compiled from /repo']
STUB = ['network and packet sources']
MEASURE = 'SHA-1 of the sequence of deliveries and operations (which frame of which input arrives when, and what is asked of the buffer in between)'
ASSUMPTIONS = ['frames come only from the inputs that the buffer was told to expect',
               'COR buffers are run over a reduced set of stands (the 256-stand list is replaced before use)']
REQUIRED_PROBES = {'sets': 3000, 'fills': 500, 'late': 300, 'dups': 300, 'flushes': 300, 'resets': 100, 'dup_and_missing': 50,
                   'reordered': 300, 'ancient': 30}
CRASH_IS_VIOLATION = True


def prepare(scratch):
    try:
        native.libdir_for('gofast', ['reader._gofast'])
    except native.BuildError as e:
        raise BuildFailure(str(e))


def setup():
    native.activate(native.libdir_for('gofast', ['reader._gofast']))
    import lsl.reader.buffer, lsl.reader.drx, lsl.reader.drx8, lsl.reader.tbx, lsl.reader.cor, lsl.reader.vdif   # noqa


MODES = ['drx', 'drx8', 'tbx', 'cor', 'vdif']


def gen_stream(rng, b):
    mode = rng.choice(MODES)
    s = {'mode': mode, 'nsegments': rng.choice([1, 2, 3, 6, 20]), 'reorder': rng.random() < 0.5}
    if mode in ('drx', 'drx8'):
        s['beams'] = [rng.randint(1, 7)]
        s['tunes'] = rng.choice([[1], [2], [1, 2]])
        s['pols'] = rng.choice([[0], [1], [0, 1]])
        ins = [[x, t, p] for x in s['beams'] for t in s['tunes'] for p in s['pols']]
        s['step'] = 4096 * 10
        s['t0'] = F.GUARD + rng.choice([1, 10**6, 10**15])
    elif mode == 'tbx':
        c0 = rng.randint(0, 1000)
        s['chans'] = [c0 + 16 * i for i in range(rng.randint(1, 6))]
        if rng.random() < 0.3:
            rng.shuffle(s['chans'])
        ins = [[c] for c in s['chans']]
        s['step'] = 8192
        s['t0'] = F.GUARD + 10**12
    elif mode == 'cor':
        ns = rng.randint(1, 3)
        st = sorted(rng.sample(range(1, 257), ns))
        c0 = rng.randint(0, 1000)
        s['stands'] = st
        s['chans'] = [c0 + 192 * i for i in range(rng.randint(1, 3))]
        ins = [[a, c, ch] for a in st for c in st if c >= a for ch in s['chans']]
        s['step'] = 5 * F.FS
        s['t0'] = F.GUARD + 10**12
    else:
        s['threads'] = rng.sample(range(1024), rng.randint(1, 4))
        ins = [[t] for t in s['threads']]
        s['step'] = 1
        s['fps'] = rng.choice([1, 5, 25])
        s['t0'] = rng.randint(1, 10**6)
    s['inputs'] = ins
    s['ints'] = mode != 'cor' and rng.random() < 0.4        # frames read as integers (read_frame_ci8, read_frame_i8)
    return s


def gen(rng, tier):
    nb = rng.choice([1, 1, 2])
    streams = [gen_stream(rng, b) for b in range(nb)]
    p_loss = rng.choice([0, 0, 0.02, 0.1, 0.4])
    p_dup = rng.choice([0, 0, 0.05, 0.3])
    p_late = rng.choice([0, 0.05, 0.2, 0.5])
    arr = []
    for b, s in enumerate(streams):
        n = rng.randint(2, 14) if s['nsegments'] < 20 else rng.randint(5, 40)
        if s['mode'] in ('cor',):
            n = min(n, 8)
        stall = None
        if rng.random() < 0.3:
            i0 = rng.randrange(n)
            stall = (rng.randrange(len(s['inputs'])), i0, i0 + rng.randint(1, 8), rng.random() < 0.5)
        gap = None
        if rng.random() < 0.25:
            g0 = rng.randrange(n)
            gap = (g0, g0 + rng.randint(1, 4))
        skew = None
        if rng.random() < 0.1 and s['mode'] != 'vdif':
            skew = (rng.randrange(len(s['inputs'])), rng.choice([1, -1, s['step'] // 2]))
        for k in range(n):
            if gap and gap[0] <= k < gap[1]:
                continue
            for i, inp in enumerate(s['inputs']):
                if rng.random() < p_loss:
                    continue
                at = k + rng.random() * 0.9
                if rng.random() < p_late:
                    at += rng.choice([0.5, 1.5, 3, s['nsegments'], 2 * s['nsegments'] + 1]) * rng.random()
                if stall and stall[0] == i and stall[1] <= k < stall[2]:
                    if stall[3]:
                        continue
                    at = stall[2] + rng.random() + 0.01 * k
                off = skew[1] if skew and skew[0] == i else 0
                arr.append((at, b, k, i, off, 0))
                if rng.random() < p_dup:
                    arr.append((at + rng.choice([0.001, 0.3, 2, s['nsegments'] + 2]) * rng.random(), b, k, i, off, 0))
        if rng.random() < 0.2 and s['mode'] in ('drx', 'drx8'):
            for _ in range(rng.randint(1, 3)):
                arr.append((rng.random() * n, b, rng.randint(0, 3), rng.randrange(len(s['inputs'])), 0, 1))
    arr.sort()
    ops = []
    i = 0
    burst = rng.choice([1, 2, 4, 8])
    eager = rng.random()
    while i < len(arr):
        m = rng.randint(1, burst)
        batch = [list(a[1:]) for a in arr[i:i + m]]
        i += m
        for b in range(nb):
            bb = [x for x in batch if x[0] == b]
            if bb:
                ops.append({'op': 'append' if len(bb) > 1 or rng.random() < 0.3 else 'append1', 'b': b,
                            'how': rng.choice(['list', 'deque', 'put']), 'frames': bb})
        if rng.random() < eager:
            ops.append({'op': 'get', 'b': rng.randrange(nb), 'n': rng.choice([1, 1, 2, 50])})
        r = rng.random()
        if r < 0.08:
            ops.append({'op': 'peek', 'b': rng.randrange(nb), 'filled': rng.random() < 0.5})
        elif r < 0.11:
            ops.append({'op': 'flush', 'b': rng.randrange(nb)})
        elif r < 0.14:
            ops.append({'op': 'reset', 'b': rng.randrange(nb)})
        elif r < 0.16:
            ops.append({'op': 'status', 'b': rng.randrange(nb)})
    return {'streams': streams, 'ops': ops}


class Model(object):
    def __init__(self, s):
        self.n = s['nsegments']
        self.ids = [tuple(i) for i in s['inputs']]
        self.guard = F.GUARD if s['mode'] in ('drx', 'drx8') else 0
        self.done = self.guard
        self.buf = {}
        self.late = self.dups = self.dups_lost = self.full = self.partial = self.missing = 0

    def append(self, t, i):
        if t <= self.done:
            self.late += 1
            return False
        d = self.buf.setdefault(t, {})
        d[i] = d.get(i, 0) + 1
        return True

    def peek(self, filled=True):
        if filled and len(self.buf) < self.n:
            return None
        return min(self.buf) if self.buf else None

    def take(self, t):
        d = self.buf.pop(t)
        self.done = t
        m = len(self.ids) - len(d)
        if m:
            self.partial += 1
            self.missing += m
        else:
            self.full += 1
        du = sum(c - 1 for c in d.values())
        self.dups += du
        return d, m, du

    def reset(self):
        for d in self.buf.values():
            self.dups_lost += sum(c - 1 for c in d.values())
        self.buf = {}
        self.done = self.guard


def run(plan, devs=None):
    import numpy as np
    from collections import deque
    from lsl.reader import drx, drx8, tbx, cor, vdif, buffer as B
    res = Result()
    ev = hashlib.sha1()
    P = res.probes

    def probe(k, n=1):
        P[k] = P.get(k, 0) + n
    seed = plan['seed']
    bufs, models, raw = [], [], {}
    for s in plan['streams']:
        if s['mode'] == 'drx':
            b = B.DRXFrameBuffer(beams=list(s['beams']), tunes=list(s['tunes']), pols=list(s['pols']), nsegments=s['nsegments'], reorder=s['reorder'])
        elif s['mode'] == 'drx8':
            b = B.DRX8FrameBuffer(beams=list(s['beams']), tunes=list(s['tunes']), pols=list(s['pols']), nsegments=s['nsegments'], reorder=s['reorder'])
        elif s['mode'] == 'tbx':
            b = B.TBXFrameBuffer(chans=list(s['chans']), nsegments=s['nsegments'], reorder=s['reorder'])
        elif s['mode'] == 'cor':
            b = _cor_buffer(B, s)
        else:
            b = B.VDIFFrameBuffer(threads=list(s['threads']), nsegments=s['nsegments'], reorder=s['reorder'])
        bufs.append(b)
        models.append(Model(s))

    def payload(bi, k, i):
        key = (bi, k, i)
        if key not in raw:
            s = plan['streams'][bi]
            n = {'drx': 4096, 'drx8': 8192, 'tbx': 4 * 64 * 2, 'cor': 192 * 32, 'vdif': 64}[s['mode']]
            sd = (seed * 1009 + bi * 100003 + k * 331 + i) & 0xffffffff
            if s['mode'] == 'cor':
                raw[key] = np.random.RandomState(sd).randn(192 * 8).astype(np.float32).tobytes()
            else:
                raw[key] = F.noise(sd, n)
        return raw[key]

    def timeof(bi, k, off, old):
        s = plan['streams'][bi]
        if old:
            return F.GUARD - k
        return s['t0'] + k * s['step'] + off

    def frame(bi, k, i, off, old):
        s = plan['streams'][bi]
        t = timeof(bi, k, off, old)
        inp = s['inputs'][i]
        d = payload(bi, k, i)
        if s['mode'] in ('drx', 'drx8'):
            by = F.drx(inp[0], inp[1], inp[2], t, d, wide=(s['mode'] == 'drx8'))
            m = drx if s['mode'] == 'drx' else drx8
        elif s['mode'] == 'tbx':
            by, m = F.tbx(t, inp[0], 64, 4, d), tbx
        elif s['mode'] == 'cor':
            by, m = F.cor(t, inp[2], inp[0], inp[1], d), cor
        else:
            by, m = F.vdif(t // s['fps'], t % s['fps'], inp[0], d), vdif
        if m in (tbx, cor):
            by += bytes(8192)
        rd = m.read_frame
        if s.get('ints'):
            rd = m.read_frame_i8 if m is vdif else m.read_frame_ci8
            probe('ints')
        return rd(io.BytesIO(by)), vkey(s, t)

    def vkey(s, t):
        # the documented figure of merit for VDIF
        return (t // s['fps']) * 1000000 + t % s['fps'] if s['mode'] == 'vdif' else t

    tmap = {}

    def ident(s, f):
        if s['mode'] in ('drx', 'drx8'):
            return tuple(f.id)
        if s['mode'] == 'tbx':
            return (f.header.first_chan,)
        if s['mode'] == 'cor':
            return tuple(f.id) + (f.header.first_chan,)
        return (f.header.thread_id,)

    def ftime(s, f):
        if s['mode'] == 'vdif':
            return f.header.seconds_from_epoch * 1000000 + f.header.frame_in_second
        return f.payload.timetag

    def decode(s, bi, k, i):
        d = payload(bi, k, i)
        m = s['mode']
        if s.get('ints'):
            return F.dec8i(d).ravel() if m == 'drx8' else F.dec_vdif4i(d) if m == 'vdif' else F.dec4i(d).ravel()
        if m == 'drx':
            return F.dec4(d)
        if m == 'drx8':
            return F.dec8(d)
        if m == 'tbx':
            return F.dec4(d)
        if m == 'cor':
            v = np.frombuffer(d, np.complex64).reshape(192, 2, 2).copy()
            inp = s['inputs'][i]
            if inp[0] == inp[1]:
                v[:, 1, 0] = v[:, 0, 1].conj()
            return v.ravel()
        return F.dec_vdif4(d)

    def check_set(bi, got, t, want, m, du):
        s = plan['streams'][bi]
        ids = models[bi].ids
        probe('sets')
        if m:
            probe('fills', m)
        if m and du:
            probe('dup_and_missing')
        if got is None:
            res.violate('no-set', 'get() returned nothing although the set at %r was due (%d sets buffered)' % (t, len(models[bi].buf) + 1))
            return False
        fr = list(got)
        have = [ident(s, f) for f in fr]
        ev.update(repr((bi, t, sorted(have))).encode())
        if sorted(have) != sorted(ids):
            extra = sorted(x for x in set(have) if have.count(x) > 1)
            res.violate('wrong-set', '%s set at %r: expected one frame of each of %s, got %s (duplicated %s, missing %s)' % (
                s['mode'], t, sorted(ids), sorted(have), extra, sorted(set(ids) - set(have))))
            return False
        if s['reorder']:
            key = (lambda x: (x[2], x[0], x[1])) if s['mode'] == 'cor' else (lambda x: x)
            if have != sorted(have, key=key):
                res.violate('not-reordered', '%s set at %r in order %s' % (s['mode'], t, have))
                return False
        for f, i in zip(fr, have):
            if ftime(s, f) != t:
                res.violate('wrong-time', '%s frame %s in the set at %r has time %r' % (s['mode'], i, t, ftime(s, f)))
                return False
            dat = np.asarray(f.payload.data).ravel()
            if dat.dtype.names:
                dat = np.stack([dat[n] for n in dat.dtype.names], axis=-1).ravel()
            elif s.get('ints') and s['mode'] != 'vdif':
                dat = dat.view(np.int8).ravel()
            if i in want:
                k, ii = tmap[(bi, t, i)]
                if not f.valid:
                    res.violate('received-invalid', 'received %s frame %s at %r is marked invalid' % (s['mode'], i, t))
                    return False
                e = decode(s, bi, k, ii)
                if dat.shape != e.shape or not np.allclose(dat, e, rtol=1e-6, atol=1e-6):
                    res.violate('wrong-data', 'received %s frame %s at %r does not carry the data that was sent' % (s['mode'], i, t))
                    return False
            else:
                if f.valid:
                    res.violate('fill-valid', 'fill %s frame %s at %r is marked valid' % (s['mode'], i, t))
                    return False
                if dat.size == 0 or np.any(dat != 0):
                    res.violate('fill-nonzero', 'fill %s frame %s at %r is not zero' % (s['mode'], i, t))
                    return False
        return True

    sh = hashlib.sha1()
    lastkey = {}
    ops = plan['ops'] + [{'op': 'flush', 'b': b} for b in range(len(bufs))]
    try:
        for o in ops:
            sh.update(json.dumps(o, sort_keys=True).encode())
            bi = o['b']
            b, m, s = bufs[bi], models[bi], plan['streams'][bi]
            if o['op'] in ('append', 'append1'):
                fr, rets = [], []
                for (_, k, i, off, old) in o['frames']:
                    f, t = frame(bi, k, i, off, old)
                    tmap.setdefault((bi, t, tuple(s['inputs'][i])), (k, i))
                    if lastkey.get(bi, -1) > t:
                        probe('reordered')
                    lastkey[bi] = max(lastkey.get(bi, -1), t)
                    fr.append(f)
                    nd = t in m.buf and tuple(s['inputs'][i]) in m.buf[t]
                    r = m.append(t, tuple(s['inputs'][i]))
                    rets.append(r)
                    if not r:
                        probe('late')
                        res.faults['late'] = res.faults.get('late', 0) + 1
                        if old:
                            probe('ancient')
                    elif nd:
                        probe('dups')
                        res.faults['duplicate'] = res.faults.get('duplicate', 0) + 1
                if o['op'] == 'append1':
                    got = (b.put if o['how'] == 'put' else b.append)(fr[0])
                    if len(fr) == 1 and bool(got) != rets[0]:
                        res.violate('append-result', 'append() returned %r for a frame that was %s' % (got, 'kept' if rets[0] else 'dropped'))
                    for f in fr[1:]:
                        b.append(f)
                else:
                    b.append(deque(fr) if o['how'] == 'deque' else list(fr))
            elif o['op'] == 'get':
                for _ in range(o['n']):
                    t = m.peek()
                    got = b.get()
                    if t is None:
                        if got is not None:
                            res.violate('early-set', 'get() returned a set of %d frames with %d of %d segments buffered' % (len(got), len(m.buf), m.n))
                        break
                    w, mi, du = m.take(t)
                    if not check_set(bi, got, t, w, mi, du):
                        break
            elif o['op'] == 'peek':
                e, g = m.peek(o['filled']), b.peek(require_filled=o['filled'])
                if e != g:
                    res.violate('peek', 'peek(%s) is %r, expected %r' % (o['filled'], g, e))
                if (b.filled, b.overfilled, b.is_empty()) != (len(m.buf) >= m.n, len(m.buf) > m.n, not m.buf):
                    res.violate('levels', 'filled/overfilled/is_empty = %r with %d of %d segments' % ((b.filled, b.overfilled, b.is_empty()), len(m.buf), m.n))
            elif o['op'] == 'flush':
                probe('flushes')
                gen_ = b.flush()
                for t in sorted(m.buf):
                    try:
                        got = next(gen_)
                    except StopIteration:
                        got = None
                    w, mi, du = m.take(t)
                    if not check_set(bi, got, t, w, mi, du):
                        break
                else:
                    if next(gen_, None) is not None or not b.is_empty():
                        res.violate('flush', 'frames are left after flush()')
            elif o['op'] == 'reset':
                probe('resets')
                m.reset()
                b.reset()
                lastkey.pop(bi, None)
                if not b.is_empty():
                    res.violate('reset', 'the buffer is not empty after reset()')
            elif o['op'] == 'status':
                import contextlib
                with contextlib.redirect_stdout(io.StringIO()):
                    b.status()
            if res.violations:
                break
        else:
            for b, m in zip(bufs, models):
                got = (b.full, b.partial, b.missing)
                if got != (m.full, m.partial, m.missing):
                    res.violate('counters', 'full/partial/missing = %r, expected %r' % (got, (m.full, m.partial, m.missing)))
                if not m.late + m.dups <= b.dropped <= m.late + m.dups + m.dups_lost:
                    res.violate('dropped', 'dropped = %d, expected %d late + %d duplicates' % (b.dropped, m.late, m.dups))
    except Exception as e:
        import traceback
        res.violate('exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
    n = sum(len(o.get('frames', ())) for o in plan['ops'])
    span = 0.0
    for o in plan['ops']:
        for (b, k, i, off, old) in o.get('frames', ()):
            s = plan['streams'][b]
            span = max(span, (k + 1) * (s['step'] / F.FS if s['mode'] != 'vdif' else 1.0 / s['fps']))
    res.stats = {'frames': n, 'ops': len(plan['ops']), 'sim_seconds': span}
    miss = sum(m.missing for m in models)
    if miss:
        res.faults['loss'] = miss
    if P.get('reordered'):
        res.faults['reorder'] = P['reordered']
    res.sched = sh.hexdigest()
    res.state = sh.hexdigest()
    ev.update(repr([(v['kind'], v['detail']) for v in res.violations]).encode())
    res.digest = ev.hexdigest()
    return res


def _cor_buffer(B, s):
    # the constructor always asks for 256 stands (32,896 frames per set and channel); give it the reduced list instead
    class Small(B.CORFrameBuffer):
        def get_max_frames(self):
            self.stands = list(s['stands'])
            return B.CORFrameBuffer.get_max_frames(self)
    return Small(chans=list(s['chans']), nsegments=s['nsegments'], reorder=s['reorder'])


def shrink(plan):
    ops = plan['ops']
    n = len(ops)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = dict(plan)
            c['ops'] = ops[:i] + ops[i + k:]
            yield c
        k //= 2
    for i, o in enumerate(ops):
        if len(o.get('frames', ())) > 1:
            for j in range(len(o['frames'])):
                c = dict(plan)
                oo = dict(o, frames=o['frames'][:j] + o['frames'][j + 1:])
                c['ops'] = ops[:i] + [oo] + ops[i + 1:]
                yield c
