"""P17  Damaged recordings, frame by frame."""
import ctypes
import errno
import gc
import os
import random
import struct
import subprocess
import sys
import tracemalloc

import numpy as np

from sim import core, native
from sim.harness import BuildFailure, Result
from . import common as C
from . import frames as F

ID = 'P17'
LEVEL = 'exploration'
TECH = 'deterministic simulation: seeded recordings with seeded damage (flipped, zeroed, lost, repeated and inserted bytes, truncation), failing reads and seeks and foreign file objects, read frame by frame by the freshly compiled readers under AddressSanitizer; every outcome is compared with an independent decoder, and memory is accounted for'
NOTE = 'The compiled readers are built from /repo with AddressSanitizer; a memory error, a crash or a hang of the process is a violation.'
TIERS = {'quick': {'runs': 3000, 'budget': 200, 'det': 30},
         'thorough': {'runs': 200000, 'budget': 800, 'det': 100}}
RULE = 'a case is one seeded recording with seeded damage and one seeded sequence of reads; distinct non-trivial = distinct sequence of outcomes'
REAL = ['lsl.reader.{drx,drx8,tbx,cor,drspec,vdif,base,utils} from /repo', 'lsl.reader._gofast compiled from /repo with AddressSanitizer']
STUB = ['recording medium and its faults (file objects in memory)']
ASSUMPTIONS = ['the file object returns what was asked for unless the file ends, fails or returns something that is not bytes']
REQUIRED_PROBES = {'frames': 7000, 'sync_errors': 12000, 'eof': 6000, 'intact_after_damage': 500, 'io_error': 800, 'not_bytes': 500, 'soak': 150,
                   'vdif_reject': 20, 'odd_header': 900, 'helpers': 2000, 'helper_exact': 200, 'seek_error': 250}
CRASH_IS_VIOLATION = True
HANG_CPU = 20

ASAN_LIB = None


def _asan():
    global ASAN_LIB
    if ASAN_LIB is None:
        ASAN_LIB = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    return os.path.realpath(ASAN_LIB)


def _stdcpp():
    return os.path.realpath(subprocess.run(['gcc', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE).stdout.decode().strip())


def worker_env():
    return {'LD_PRELOAD': _asan() + ':' + _stdcpp(), 'PYTHONMALLOC': 'malloc',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1500:'
                            'detect_odr_violation=0:handle_segv=1:quarantine_size_mb=4:malloc_context_size=2'}


def _lib():
    return native.libdir_for('gofast_asan', ['reader._gofast'], cflags='-fsanitize=address -g -O1 -fno-omit-frame-pointer', ldflags='-fsanitize=address')


def prepare(scratch):
    try:
        _lib()
    except native.BuildError as e:
        raise BuildFailure(str(e))


_ALLOC = None


def setup():
    global _ALLOC
    native.activate(_lib())
    from lsl.reader import drx, drx8, tbx, cor, drspec, vdif   # noqa
    gc.collect()
    gc.freeze()
    try:
        _ALLOC = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        _ALLOC.restype = ctypes.c_size_t
        _ALLOC.argtypes = []
    except AttributeError:
        _ALLOC = None


MODES = ['drx', 'drx8', 'tbx', 'tbx', 'cor', 'drspec', 'vdif', 'vdif']
COR_NCHAN = [33, 72, 112, 192]


def gen_frames(rng, mode):
    out = []
    base = {}
    if mode == 'tbx':
        base = {'nstand': rng.choice([64, 128, 256]), 'nchan': rng.choice([4, 8, 12, 16])}
    elif mode == 'cor':
        base = {'nchan': rng.choice(COR_NCHAN)}
    elif mode == 'drspec':
        base = {'fmt': rng.choice(sorted(F.DRSPEC_PRODS)), 'nfreq': rng.choice([16, 32, 128])}
    elif mode == 'vdif':
        base = {'bits': rng.choice([1, 2, 4, 4, 8]), 'cplx': rng.random() < 0.4, 'log2chan': rng.choice([0, 0, 1, 3]),
                'size': rng.choice([64, 512, 2048]), 'legacy': rng.random() < 0.3}
    for k in range(rng.choice([1, 2, 4, 8, 14])):
        if rng.random() < 0.08:
            base = dict(base)
            if mode == 'tbx':
                base.update(nstand=rng.choice([64, 128, 256]), nchan=rng.choice([4, 8, 12, 16]))
            elif mode == 'vdif':
                base.update(size=rng.choice([64, 512, 2048]), bits=rng.choice([1, 2, 4, 8]))
            elif mode == 'drspec':
                base.update(nfreq=rng.choice([16, 32, 128]))
        out.append(dict(base, s=rng.randrange(1 << 30)))
    return out


def gen(rng, tier):
    mode = rng.choice(MODES)
    fr = gen_frames(rng, mode)
    n = sum(size_of(mode, f) for f in fr)
    dmg = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        k = rng.choice(['flip', 'flip', 'header', 'header', 'header', 'zero', 'lose', 'repeat', 'insert', 'trunc', 'sync'])
        if mode == 'vdif' and k == 'header' and rng.random() < 0.5:
            dmg.append([k, rng.randrange(len(fr)), rng.choice([0.34, 0.35, 0.47]), 1, rng.randrange(1 << 30)])
            continue
        dmg.append([k, rng.randrange(len(fr)), rng.random(), rng.choice([1, 1, 2, 7, 16, 512, 4096]), rng.randrange(1 << 30)])
    w = {'op_gap': 0, 'p_switch': 0}
    if rng.random() < 0.4:
        w['p_fault'] = rng.choice([0.02, 0.1])
    return {'seed': rng.randrange(1 << 40), 'swarm': w, 'mode': mode, 'frames': fr, 'damage': dmg, 'alt': rng.random() < 0.4,
            'walk': rng.choice(['sync', 'sync', 'byte', 'frame', 'random']), 'soak': rng.random() < 0.12, 'helpers': rng.random() < 0.35,
            'notbytes': rng.choice([None, None, None, 'str', 'bytearray', 'none', 'int'])}


# ------------------------------------------------------------------ encoding
def size_of(mode, f):
    return len(encode(mode, f))


_ENC = {}


def encode(mode, f):
    key = (mode,) + tuple(sorted(f.items()))
    if key in _ENC:
        return _ENC[key]
    s = f['s']
    r = np.random.RandomState(s & 0xffffffff)
    tag = F.GUARD + 10**15 + int(r.randint(0, 10**9))
    if mode in ('drx', 'drx8'):
        wide = mode == 'drx8'
        b = F.drx(1 + s % 4, 1 + (s >> 3) % 2, (s >> 5) & 1, tag, F.noise(s, 8192 if wide else 4096), tword=s, count=s & 0xffff,
                  second=s & 0xfffff, flags=s & 0xff, wide=wide)
    elif mode == 'tbx':
        b = F.tbx(tag, (s % 60) * 12, f['nstand'], f['nchan'], F.noise(s, f['nstand'] * f['nchan'] * 2), count=s & 0xffff, second=s & 0xfffff)
    elif mode == 'cor':
        d = r.standard_normal(f['nchan'] * 8).astype('<f4').tobytes()
        b = F.cor(tag, (s % 60) * 12, 1 + s % 256, 1 + (s >> 8) % 256, d, count=s & 0xffff, second=s & 0xfffff)
    elif mode == 'drspec':
        d = np.abs(r.standard_normal((2, f['nfreq'], len(F.DRSPEC_PRODS[f['fmt']])))).astype('<f4') + 1
        b = F.drspec(tag, d, f['fmt'], f['nfreq'], 100, fills=tuple(int(x) for x in r.randint(1, 200, 4)), words=(s, s >> 3), beam=1 + s % 4)
    else:
        b = F.vdif(s & 0xffffff, s & 0xfff, (s >> 12) & 7, F.noise(s, f['size']), station=s & 0xffff, bits=f['bits'], cplx=f['cplx'],
                   log2chan=f['log2chan'], legacy=f['legacy'], ext=(s & 0xffff, 2, 3, s))
    if len(_ENC) > 500:
        _ENC.clear()
    _ENC[key] = b
    return b


HDR = {'drx': 32, 'drx8': 32, 'tbx': 28, 'cor': 32, 'drspec': 76, 'vdif': 32}


def medium(plan):
    """(bytes, [(start, size) of intact frames])"""
    mode = plan['mode']
    parts = [encode(mode, f) for f in plan['frames']]
    B = np.frombuffer(b''.join(parts), np.uint8).copy()
    src = np.arange(len(B))
    offs = np.cumsum([0] + [len(p) for p in parts])
    for k, fi, fr, ln, sd in plan['damage']:
        if len(B) == 0:
            break
        r = np.random.RandomState(sd)
        fi %= len(parts)
        p = int(offs[fi] + fr * len(parts[fi]))
        if k == 'header':
            p = int(offs[fi] + int(fr * HDR[mode]))
            ln = min(ln, 4)
        elif k == 'sync':
            p, ln = int(offs[fi] + int(fr * 4)), 1
        w = np.nonzero(src >= p)[0]           # where that byte is by now
        p = int(w[0]) if len(w) else len(B) - 1
        e = min(len(B), p + ln)
        if k in ('flip', 'header', 'sync'):
            for q in range(p, e):
                B[q] ^= np.uint8(1 << r.randint(0, 8)) if r.rand() < 0.6 else np.uint8(r.randint(1, 256))
            src[p:e] = -1
        elif k == 'zero':
            B[p:e] = 0
            src[p:e] = -1
        elif k == 'lose':
            B, src = np.delete(B, slice(p, e)), np.delete(src, slice(p, e))
        elif k == 'repeat':
            B, src = np.concatenate([B[:e], B[p:e], B[e:]]), np.concatenate([src[:e], np.full(e - p, -1), src[e:]])
        elif k == 'insert':
            x = r.randint(0, 256, ln).astype(np.uint8)
            B, src = np.concatenate([B[:p], x, B[p:]]), np.concatenate([src[:p], np.full(ln, -1), src[p:]])
        elif k == 'trunc':
            B, src = B[:p], src[:p]
    intact = []
    for i, b in enumerate(parts):
        w = np.nonzero(src == offs[i])[0]
        for q in w:
            if q + len(b) <= len(B) and np.array_equal(src[q:q + len(b)], np.arange(offs[i], offs[i + 1])) and B[q:q + len(b)].tobytes() == b:
                intact.append((int(q), len(b)))
    return B.tobytes(), intact


# ------------------------------------------------------------------ the medium as a file object
class Tracked(bytes):
    live = 0

    def __new__(cls, b):
        Tracked.live += 1
        return bytes.__new__(cls, b)

    def __del__(self):
        Tracked.live -= 1


class Handle(object):
    def __init__(self, data, sim=None):
        self.data, self.pos, self.sim, self.hit, self.odd = data, 0, sim, None, None
        self.name = 'medium'

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if self.sim is not None and whence == 1:
            v = self.sim.fault('seek', ['EIO', 'ESPIPE'], '')
            if v:
                self.hit = ('seek', v)
                raise OSError(getattr(errno, v), os.strerror(getattr(errno, v)))
        p = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        if p < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = p
        return p

    def read(self, n=-1):
        if self.odd is not None:
            o, self.odd = self.odd, None
            self.hit = ('odd', o)
            d = self.data[self.pos:self.pos + n]
            self.pos += len(d)
            return {'str': 'x' * n, 'bytearray': bytearray(n), 'none': None, 'int': 5}[o]
        if self.sim is not None:
            v = self.sim.fault('read', ['EIO', 'ESTALE', 'ENOMEM'], '')
            if v:
                self.hit = ('read', v)
                raise OSError(getattr(errno, v), os.strerror(getattr(errno, v)))
        d = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return Tracked(d)


# ------------------------------------------------------------------ reference decoder
class Want(object):
    """what a read at one position may do: kinds in {'frame','sync','eof','reject'}; for a frame its size and a checker"""

    def __init__(self, kinds, size=None, check=None, sizes=None):
        self.kinds, self.size, self.check, self.sizes = kinds, size, check, sizes


def _eq(a, b, what):
    if a != b:
        return '%s is %r, the recording has %r' % (what, a, b)
    return None


def _fields(pairs):
    for got, exp, what in pairs:
        t = _eq(got, exp, what)
        if t:
            return t
    return None


def _arr(got, exp, what='payload'):
    got = np.asarray(got)
    if got.shape != exp.shape:
        return '%s has the shape %r, expected %r' % (what, got.shape, exp.shape)
    if not np.array_equal(got, exp, equal_nan=exp.dtype.kind in 'fc'):
        i = np.argwhere(got != exp)[0]
        return '%s differs at %r: %r, expected %r' % (what, tuple(int(x) for x in i), got[tuple(i)], exp[tuple(i)])
    return None


def want(mode, B, p, alt, intact):
    avail = len(B) - p
    if mode in ('drx', 'drx8'):
        size = F.DRX8_SIZE if mode == 'drx8' else F.DRX_SIZE
        if avail < size:
            return Want({'eof'})
        if B[p:p + 4] != F.SYNC:
            return Want({'sync'}, size=size)
        w, sec, dec, toff, tag, tw, fl = struct.unpack('>IIHHQII', B[p + 4:p + 32])
        d = B[p + 32:p + size]

        def chk(f):
            h, y = f.header, f.payload
            t = _fields([(h.drx_id, w >> 24, 'drx_id'), (h.frame_count, w & 0xffffff, 'frame_count'), (h.second_count, sec, 'second_count'),
                         (h.decimation, dec, 'decimation'), (h.time_offset, toff, 'time_offset'), (int(y.timetag) % 2**64, tag, 'timetag'),
                         (y.tuning_word, tw, 'tuning_word'), (y.flags, fl, 'flags')])
            if t:
                return t
            if alt:
                e = F.dec8i(d) if mode == 'drx8' else F.dec4i(d)
                return _arr(y.data.view(np.int8).reshape(-1, 2), e)
            return _arr(y.data, F.dec8(d) if mode == 'drx8' else F.dec4(d))
        return Want({'frame'}, size, chk)
    if mode == 'tbx':
        if avail < 20:
            return Want({'eof'})
        if B[p:p + 4] != F.SYNC:
            return Want({'sync', 'eof'} if avail < 28 else {'sync'}, size=0)
        w, sec, fc, ns, nc = struct.unpack('>IIIHH', B[p + 4:p + 20])
        size = F.tbx_size(ns, nc)
        if ns not in (64, 128, 256) or nc not in (4, 8, 12, 16):
            return Want({'sync', 'eof'}, size=0)
        if avail < size:
            return Want({'eof'})
        tag, = struct.unpack('>Q', B[p + 20:p + 28])
        d = B[p + 28:p + size]

        def chk(f):
            h, y = f.header, f.payload
            t = _fields([(h.frame_id, w >> 24, 'frame_id'), (h.frame_count, w & 0xffffff, 'frame_count'), (h.second_count, sec, 'second_count'),
                         (h.first_chan % 2**32, fc, 'first_chan'), (h.nstand, ns, 'nstand'), (h.nchan, nc, 'nchan'),
                         (int(y.timetag) % 2**64, tag, 'timetag')])
            if t:
                return t
            if alt:
                return _arr(y.data.view(np.int8).reshape(nc, ns, 2, 2), F.dec4i(d).reshape(nc, ns, 2, 2))
            return _arr(y.data, F.dec4(d).reshape(nc, ns, 2))
        return Want({'frame'}, size, chk)
    if mode == 'cor':
        if avail < 32 + 33 * 32:
            return Want({'eof'})
        if B[p:p + 4] != F.SYNC:
            return Want({'sync'}, size=0)
        w, sec, fc, gain, tag, navg, s0, s1 = struct.unpack('>IIHHQIHH', B[p + 4:p + 32])
        sizes = [32 + 32 * n for n in COR_NCHAN if avail >= 32 + 32 * n]
        exact = None
        for q, n in intact:
            if q == p and (p + n == len(B) or (B[p + n:p + n + 4] == F.SYNC)):
                exact = n

        def chk(f):
            h, y = f.header, f.payload
            n = 32 + 32 * y.data.shape[0]
            if exact is not None and n != exact:
                return '%d channels, the recording has %d' % (y.data.shape[0], (exact - 32) // 32)
            t = _fields([(h.adp_id, w >> 24, 'adp_id'), (h.frame_count, w & 0xffffff, 'frame_count'), (h.second_count, sec, 'second_count'),
                         (h.first_chan % 65536, fc, 'first_chan'), (h.gain % 65536, gain, 'gain'), (int(y.timetag) % 2**64, tag, 'timetag'),
                         (y.navg % 2**32, navg, 'navg'), (y.stand0 % 65536, s0, 'stand0'), (y.stand1 % 65536, s1, 'stand1')])
            if t:
                return t
            e = np.frombuffer(B[p + 32:p + n], '<c8').reshape(-1, 2, 2).copy()
            if s0 == s1:
                e[:, 1, 0] = e[:, 0, 1].conj()
            return _arr(y.data, e)
        if exact is not None:
            return Want({'frame'}, exact, chk)
        return Want({'frame', 'eof'}, None, chk, sizes)
    if mode == 'drspec':
        if avail < 76:
            return Want({'eof'})
        h = struct.unpack('<IQHHII4I4B4BII4II', B[p:p + 76])
        fmt, nfreq = h[15], h[18]
        beam, ntun, nint = h[14], h[16], h[19]
        if h[0] != 0xC0DEC0DE or h[24] != 0xED0CED0C:
            return Want({'sync'}, size=0)
        prods = {1: ['XX'], 2: ['XY_real'], 4: ['XY_imag'], 8: ['YY'], 9: ['XX', 'YY'], 6: ['XY_real', 'XY_imag'],
                 15: ['XX', 'XY_real', 'XY_imag', 'YY'], 16: ['I'], 32: ['Q'], 64: ['U'], 128: ['V'], 0x90: ['I', 'V'],
                 0xf0: ['I', 'Q', 'U', 'V']}.get(fmt)
        if prods is None:
            return Want({'sync'}, size=0)
        size = 76 + 8 * len(prods) * nfreq
        if avail < size:
            return Want({'eof', 'reject'} if size > 10**8 else {'eof'})
        fills = h[6:10]
        d = np.frombuffer(B[p + 76:p + size], '<f4').reshape(2, nfreq, len(prods))

        def chk(f):
            hh, y = f.header, f.payload
            t = _fields([(hh.beam, beam, 'beam'), (hh.format, fmt, 'format'), (hh.decimation, h[3], 'decimation'), (hh.time_offset, h[2], 'time_offset'),
                         (hh.nints, nint, 'nints'), (int(y.timetag) % 2**64, h[1], 'timetag'), (list(y.tuning_words), [h[4], h[5]], 'tuning_words'),
                         (list(y.fills), list(fills), 'fills'), (list(y.errors), list(h[10:14]), 'errors'),
                         (list(y.saturations), list(h[20:24]), 'saturations')])
            if t:
                return t
            for tun in (0, 1):
                fl = fills[2 * tun:2 * tun + 2]
                for i, name in enumerate(prods):
                    got = np.asarray(getattr(y, '%s%i' % (name, tun)))
                    if got.shape != (nfreq,):
                        return '%s%i has the shape %r' % (name, tun, got.shape)
                    n = fl[0] if name == 'XX' else fl[1] if name == 'YY' else min(fl)
                    if nfreq * n >= 2**32 or n == 0:
                        continue
                    with np.errstate(all='ignore'):
                        t = _arr(got, d[tun, :, i] / np.float32(nfreq * n), '%s%i' % (name, tun))
                    if t:
                        return t
        return Want({'frame'}, size, chk)
    # vdif
    if avail < 16:
        return Want({'eof'})
    w0, w1, w2, w3 = struct.unpack('<IIII', B[p:p + 16])
    legacy = (w0 >> 30) & 1
    hl = 16 if legacy else 32
    size = (w2 & 0xffffff) * 8
    if size < hl:
        return Want({'sync'}, size=0)
    if avail < size:
        return Want({'eof', 'reject'} if size > 10**8 else {'eof'})
    bits, nchan, cplx = ((w3 >> 26) & 31) + 1, 1 << ((w2 >> 24) & 31), w3 >> 31
    ns = (size - hl) // 4 * (32 // bits)
    if cplx:
        ns //= 2
    if bits not in (1, 2, 4, 8) or ns % nchan:
        return Want({'reject'}, size)
    ext = struct.unpack('<IIII', B[p + 16:p + 32]) if not legacy else (0, 0, 0, 0)
    a = np.frombuffer(B[p + hl:p + size], np.uint8)

    def chk(f):
        h, y = f.header, f.payload
        t = _fields([(h.is_invalid, w0 >> 31, 'is_invalid'), (h.is_legacy, legacy, 'is_legacy'), (h.seconds_from_epoch, w0 & 0x3fffffff, 'seconds_from_epoch'),
                     (h.ref_epoch, (w1 >> 24) & 63, 'ref_epoch'), (h.frame_in_second, w1 & 0xffffff, 'frame_in_second'), (h.version, w2 >> 29, 'version'),
                     (h.nchan, nchan, 'nchan'), (h.frame_length, size // 8, 'frame_length'), (h.is_complex, cplx, 'is_complex'),
                     (h.bits_per_sample, bits, 'bits_per_sample'), (h.thread_id, (w3 >> 16) & 1023, 'thread_id'), (h.station_id, w3 & 0xffff, 'station_id'),
                     ((h.extended_data_1, h.extended_data_2, h.extended_data_3, h.extended_data_4), ext, 'extended data')])
        if t:
            return t
        k = 8 // bits
        v = np.stack([(a >> (bits * i)) & ((1 << bits) - 1) for i in range(k)], axis=1).reshape(-1)
        if alt:
            e = {1: [-1, 1], 2: [-3, -1, 1, 3], 4: list(range(-8, 8)), 8: list(range(-128, 128))}[bits]
            e = np.array(e, np.int8)[v]
        else:
            s = np.float32(2.95)
            e = {1: [-1, 1], 2: [-3.3359, -1, 1, 3.3359], 4: [x / s for x in range(-8, 8)], 8: [(2 * x - 255) / 256. for x in range(256)]}[bits]
            e = np.array(e, np.float32)[v]
        if cplx:
            e = (e[0::2].astype(np.float32) + 1j * e[1::2].astype(np.float32)).astype(np.complex64)
        if nchan > 1:
            e = e.reshape(-1, nchan).T
        if np.asarray(y.data).shape != e.shape:
            return 'payload has the shape %r, expected %r' % (y.data.shape, e.shape)
        if not np.allclose(y.data, e, rtol=1e-6, atol=0):
            return 'payload differs'
    return Want({'frame'}, size, chk)


def reader(mode, alt):
    from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
    m = {'drx': drx, 'drx8': drx8, 'tbx': tbx, 'cor': cor, 'drspec': drspec, 'vdif': vdif}[mode]
    if alt and mode in ('drx', 'drx8', 'tbx'):
        return m.read_frame_ci8
    if alt and mode == 'vdif':
        return m.read_frame_i8
    return m.read_frame


def prime():
    """the readers keep the last frame shape; every run starts from the same one"""
    from lsl.reader import tbx, cor
    tbx.read_frame(Handle(F.tbx(F.GUARD, 0, 256, 16, bytes(256 * 16 * 2))))
    b = F.cor(F.GUARD, 0, 1, 2, bytes(192 * 32))
    cor.read_frame(Handle(b + b))


# ------------------------------------------------------------------ helper functions on a whole recording
def helpers(mode):
    from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
    m = {'drx': drx, 'drx8': drx8, 'tbx': tbx, 'cor': cor, 'drspec': drspec, 'vdif': vdif}[mode]
    names = {'drx': ['get_sample_rate', 'get_beam_count', 'get_frames_per_obs'],
             'tbx': ['get_frame_size', 'get_frames_per_obs', 'get_first_frame_count', 'get_channel_count', 'get_first_channel'],
             'cor': ['get_frame_size', 'get_frames_per_obs', 'get_channel_count', 'get_first_channel'],
             'drspec': ['get_data_products', 'is_linear', 'is_stokes', 'get_sample_rate', 'get_frame_size', 'get_ffts_per_integration',
                        'get_transform_size', 'get_integration_time'],
             'vdif': ['get_frame_size', 'get_thread_count', 'get_frames_per_second', 'get_sample_rate', 'has_guppi_header']}
    names['drx8'] = names['drx']
    return [(n, getattr(m, n)) for n in names[mode]]


def helper_want(mode, name, plan, B, intact):
    """exact answers where the recording determines them: undamaged, or damaged behind the frames looked at"""
    fr = plan['frames']
    tot = [size_of(mode, f) for f in fr]
    if mode == 'tbx' and name in ('get_frames_per_obs', 'get_channel_count'):
        # every frame that is left counts
        starts = set(q for q, n in intact)
        heads = [i for i in range(len(B) - 3) if B[i:i + 4] == F.SYNC] if len(B) < 300000 else None
        if heads is None or any(h not in starts for h in heads):
            return None
        if not starts:
            return None
        fc, nc = set(), None
        for q in sorted(starts):
            fc.add(struct.unpack('>I', B[q + 12:q + 16])[0])
            if nc is None:
                nc = struct.unpack('>H', B[q + 18:q + 20])[0]
        return len(fc) if name == 'get_frames_per_obs' else len(fc) * nc
    if not intact or intact[0][0] != 0:
        return None
    if name == 'get_frame_size' and mode in ('tbx', 'drspec', 'vdif'):
        return intact[0][1]
    if mode == 'drspec' and name == 'get_transform_size':
        return fr[0]['nfreq']
    if mode in ('drx', 'drx8') and name == 'get_beam_count' and len(intact) == len(fr) and not plan['damage'] and len(fr) >= 32:
        return len(set(B[q + 4] & 7 for q, n in intact[:32]))
    return None


def run(plan, devs=None):
    res = Result()
    sim = core.Sim(plan['seed'], plan.get('swarm'), devs, max_steps=10**9, max_ops=10**9)
    proc = sim.new_proc('p', faultable=True)
    sim.spawn(proc, lambda: body(plan, sim, res), 'm')
    sim.run()
    for t in sim.tasks:
        if t.exc is not None:
            res.error = '%s: %s\n%s' % (type(t.exc).__name__, t.exc, t.exc_tb[-1500:])
    C.finish(sim, res)
    res.sched = res.state
    return res


def soak(rd, h, pos):
    def again(n):
        for _ in range(n):
            h.pos = pos
            try:
                rd(h)
            except Exception:
                pass
    # Python objects and arrays, exactly
    tracemalloc.start()
    try:
        x = []
        for n in (5, 20, 40, 40):
            again(n)
            gc.collect()
            x.append(tracemalloc.get_traced_memory()[0])
        lost = min(x[2] - x[1], x[3] - x[2])
        if lost >= 40 * 16:
            # interned names come and go; what grows with the number of reads is lost
            again(2000)
            gc.collect()
            lost = tracemalloc.get_traced_memory()[0] - x[3]
            if lost >= 2000 * 22:
                return 'objects of %d bytes' % (lost // 2000)
    finally:
        tracemalloc.stop()
    # the C heap; the allocator's count is only right to some 15 kB
    a = _ALLOC()
    again(60)
    b = _ALLOC()
    if b - a >= 40000:
        again(300)
        a, b = b, _ALLOC()
        if b - a >= 200000:
            return '%d bytes of memory' % ((b - a) // 300)
    return None


def body(plan, sim, res):
    from lsl.reader.errors import SyncError, EOFError
    rng = random.Random(plan['seed'] ^ 0x5ca1ab1e)
    B, intact = medium(plan)
    for d in plan['damage']:
        sim.count_fault('damage:' + d[0])
    mode, alt = plan['mode'], plan['alt']
    prime()
    rd = reader(mode, alt)
    starts = dict(intact)
    gc.disable()
    try:
        h = Handle(B, sim)
        refs = sys.getrefcount(h)
        nstep, last_sync = 0, False
        visited = []
        while nstep < 160:
            nstep += 1
            p = h.pos
            w = want(mode, B, p, alt, intact)
            h.hit = None
            if plan['notbytes'] and nstep == 2:
                h.odd = plan['notbytes']
            f = exc = None
            try:
                f = rd(h)
                out = 'frame'
            except SyncError as e:
                out, exc = 'sync', e
            except EOFError as e:
                out, exc = 'eof', e
            except Exception as e:
                out, exc = 'other', e
            q = h.pos
            visited.append(p)
            where = 'at byte %d of %d (%s)' % (p, len(B), mode)
            sim.event('read', p=p, out=out)
            if h.hit is not None:
                # a fault was injected during this read
                k, v = h.hit
                sim.probe('io_error' if k == 'read' else 'not_bytes' if k == 'odd' else 'seek_error')
                if isinstance(exc, SystemError) or out == 'eof':
                    res.violate('bad-error', '%s of the file object (%s) %s is reported as %r' % (k, v, where, exc))
                elif k == 'read' and (out != 'other' or not isinstance(exc, OSError)):
                    res.violate('bad-error', 'a failing read (%s) %s ends in %s %r' % (v, where, out, exc))
                elif k == 'odd' and (out != 'other' or not isinstance(exc, (TypeError, ValueError, AttributeError))):
                    res.violate('bad-error', 'a file object that returns %s %s gives %s %r' % (v, where, out, exc))
                elif k == 'seek' and out == 'frame':
                    if w.check is None or w.check(f):
                        res.violate('bad-frame', 'a failing seek %s gives a wrong frame' % where)
                elif k == 'seek' and out not in ('sync', 'other'):
                    res.violate('bad-error', 'a failing seek %s gives %s' % (where, out))
                h.pos = p
                nxt = p
            else:
                kind = out
                if out == 'other':
                    kind = 'reject'
                if isinstance(exc, SystemError) or kind not in w.kinds:
                    res.violate('wrong-outcome', 'reading %s gives %s %r, expected %s' % (where, out, exc, '/'.join(sorted(w.kinds))))
                    break
                if out == 'frame':
                    sim.probe('frames')
                    size = w.size
                    if size is None:
                        size = q - p
                        if size not in w.sizes:
                            res.violate('position', 'reading %s leaves the file at %d' % (where, q))
                    t = w.check(f)
                    if t:
                        res.violate('wrong-frame', 'reading %s: %s' % (where, t))
                    if q != p + size:
                        res.violate('position', 'reading a frame of %d bytes %s leaves the file at %d' % (size, where, q))
                    if p not in starts:
                        sim.probe('odd_header')
                    elif last_sync:
                        sim.probe('intact_after_damage')
                    last_sync = False
                    nxt = q
                    wr = None
                elif out == 'sync':
                    last_sync = True
                    sim.probe('sync_errors')
                    if q != p + w.size:
                        res.violate('position', 'SyncError %s leaves the file at %d' % (where, q))
                    if '%s' % p not in str(exc):
                        res.violate('location', 'SyncError %s does not name the location: %s' % (where, exc))
                    if plan['walk'] == 'byte':
                        nxt = p + 1
                    elif plan['walk'] == 'frame':
                        nxt = p + size_of(mode, plan['frames'][0])
                    else:
                        nxt = None
                elif out == 'eof':
                    sim.probe('eof')
                    last_sync = True
                    nxt = None if plan['walk'] != 'byte' else p + 1
                else:
                    sim.probe('vdif_reject')
                    last_sync = True
                    nxt = None
            # memory
            f = exc = None
            if Tracked.live:
                res.violate('leak', '%d buffers are still referenced after reading %s (%s)' % (Tracked.live, where, out))
                Tracked.live = 0
            if sys.getrefcount(h) != refs:
                res.violate('leak', 'the file object has %+d references after reading %s (%s)' % (sys.getrefcount(h) - refs, where, out))
                refs = sys.getrefcount(h)
            if res.violations:
                break
            if nxt is None:
                # to the next intact frame or sync word
                later = [s for s in starts if s > p]
                if mode != 'vdif' and plan['walk'] == 'sync':
                    s = B.find(F.SYNC if mode != 'drspec' else b'\xde\xc0\xde\xc0', p + 1)
                    if s > 0:
                        later.append(s)
                if not later:
                    break
                nxt = min(later)
            if plan['walk'] == 'random' and nstep % 5 == 0 and len(B):
                nxt = rng.randrange(len(B))
            if nxt >= len(B) + 3:
                break
            h.pos = nxt
        # every intact frame can be read from where it starts
        h.sim = None
        h.odd = None
        if not res.violations:
            for s in sorted(starts):
                h.pos = s
                w = want(mode, B, s, alt, intact)
                try:
                    f = rd(h)
                except Exception as e:
                    if w.kinds == {'frame'}:
                        res.violate('lost-frame', 'the intact frame at byte %d of %d (%s) cannot be read: %r' % (s, len(B), mode, e))
                        break
                    continue
                t = w.check(f)
                if t or (w.size and h.pos != s + w.size):
                    res.violate('wrong-frame', 'the intact frame at byte %d (%s): %s' % (s, mode, t or 'position %d' % h.pos))
                    break
        f = None
        # repeated reads do not collect memory
        if plan['soak'] and not res.violations and visited and _ALLOC is not None:
            sim.probe('soak')
            for s in sorted(set([visited[0], visited[-1] if plan['seed'] & 1 else visited[len(visited) // 2]])):
                t = soak(rd, h, s)
                if t:
                    res.violate('leak', 'reading at byte %d (%s) again and again loses %s each time' % (s, mode, t))
                    break
        if plan['helpers'] and not res.violations:
            pos = 0
            for name, fn in helpers(mode):
                h2 = Handle(B)
                h2.pos = pos
                sim.probe('helpers')
                exp = helper_want(mode, name, plan, B, intact)
                try:
                    v = fn(h2)
                    ok = True
                except SystemError as e:
                    res.violate('bad-error', '%s.%s: %r' % (mode, name, e))
                    break
                except Exception as e:
                    v, ok = repr(e), False
                if h2.pos != pos:
                    res.violate('position', '%s.%s() leaves the file at %d' % (mode, name, h2.pos))
                if exp is not None:
                    sim.probe('helper_exact')
                    if not ok or v != exp:
                        res.violate('helper', '%s.%s() gives %s, the recording has %s' % (mode, name, v, exp))
                sim.event('helper', name=name, v=str(v)[:60])
            Tracked.live = 0
    finally:
        gc.enable()
        gc.collect()
        Tracked.live = 0
    sim.event('end', mode=mode, n=nstep)


def shrink(plan):
    for i in range(len(plan['damage'])):
        yield dict(plan, damage=plan['damage'][:i] + plan['damage'][i + 1:])
    if len(plan['frames']) > 1:
        for i in range(len(plan['frames'])):
            yield dict(plan, frames=plan['frames'][:i] + plan['frames'][i + 1:])
    for k in ('soak', 'helpers', 'alt'):
        if plan[k]:
            yield dict(plan, **{k: False})
    if plan['notbytes']:
        yield dict(plan, notbytes=None)
    if plan['swarm'].get('p_fault'):
        yield dict(plan, swarm=dict(plan['swarm'], p_fault=0))
