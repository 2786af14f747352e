"""
Independent encoders of the LWA/VDIF wire formats (written from the ICD layouts, no lsl code), and decoders of
their payloads for the reference models.
"""
import struct

import numpy as np

SYNC = b'\xde\xc0\xde\x5c'
FS = 196000000
GUARD = 61849368000000000
DRX_SIZE = 32 + 4096
DRX8_SIZE = 32 + 8192
# filter code -> decimation; sample rate = FS / decimation
DECIM = {1: 784, 2: 392, 3: 196, 4: 98, 5: 40, 6: 20, 7: 10}

_N = np.arange(16)
_N = np.where(_N > 7, _N - 16, _N).astype(np.int8)
_B = np.arange(256)
_LUT4 = (_N[_B >> 4].astype(np.float32) + 1j * _N[_B & 15].astype(np.float32)).astype(np.complex64)
_LUT4I = np.stack([_N[_B >> 4], _N[_B & 15]], axis=1)


def noise(seed, n, lo=0, hi=256):
    """n payload bytes, a function of the seed only"""
    r = np.random.RandomState(seed & 0xffffffff)
    return r.randint(lo, hi, size=n, dtype=np.uint8).tobytes()


def dec4(b):
    return _LUT4[np.frombuffer(b, np.uint8)]


def dec4i(b):
    return _LUT4I[np.frombuffer(b, np.uint8)]


def dec8(b):
    a = np.frombuffer(b, np.int8).astype(np.float32)
    return (a[0::2] + 1j * a[1::2]).astype(np.complex64)


def dec8i(b):
    return np.frombuffer(b, np.int8).reshape(-1, 2)


def drx(beam, tune, pol, timetag, data, decimation=10, time_offset=0, tword=1234567890, count=0, second=0, flags=0, wide=False):
    i = (beam & 7) | ((tune & 7) << 3) | ((pol & 1) << 7) | (0x40 if wide else 0)
    assert len(data) == (8192 if wide else 4096)
    return SYNC + struct.pack('>IIHHqII', (i << 24) | (count & 0xffffff), second, decimation, time_offset, timetag,
                              tword, flags) + data


def tbx(timetag, first_chan, nstand, nchan, data, count=1, second=0, fid=0x08):
    assert len(data) == nstand * nchan * 2
    return SYNC + struct.pack('>IIIHHq', (fid << 24) | (count & 0xffffff), second, first_chan, nstand, nchan, timetag) + data


def tbx_size(nstand, nchan):
    return 28 + nstand * nchan * 2


def cor(timetag, first_chan, stand0, stand1, data, navg=200000, gain=1, count=0, second=0):
    return SYNC + struct.pack('>IIHHqIHH', (0x02 << 24) | (count & 0xffffff), second, first_chan, gain, timetag, navg,
                              stand0, stand1) + data


def vdif(seconds, frame, thread, data, station=100, bits=4, cplx=False, log2chan=0, epoch=30, legacy=False, invalid=False,
         ext=(0, 0, 0, 0), length=None):
    hl = 16 if legacy else 32
    w0 = (seconds & 0x3fffffff) | (int(legacy) << 30) | (int(invalid) << 31)
    w1 = (frame & 0xffffff) | ((epoch & 63) << 24)
    ln = (len(data) + hl) // 8 if length is None else length
    w2 = (ln & 0xffffff) | ((log2chan & 31) << 24) | (1 << 29)
    w3 = (station & 0xffff) | ((thread & 1023) << 16) | (((bits - 1) & 31) << 26) | (int(cplx) << 31)
    h = struct.pack('<IIII', w0, w1, w2, w3)
    if not legacy:
        h += struct.pack('<IIII', *ext)
    return h + data


def dec_vdif4(b):
    a = np.frombuffer(b, np.uint8)
    o = np.empty(2 * len(a), np.float32)
    o[0::2] = ((a & 15).astype(np.int32) - 8) / 2.95
    o[1::2] = ((a >> 4).astype(np.int32) - 8) / 2.95
    return o


def dec_vdif4i(b):
    a = np.frombuffer(b, np.uint8)
    o = np.empty(2 * len(a), np.int8)
    o[0::2] = (a & 15).astype(np.int32) - 8
    o[1::2] = (a >> 4).astype(np.int32) - 8
    return o


DRSPEC_PRODS = {0x01: ['XX'], 0x08: ['YY'], 0x09: ['XX', 'YY'], 0x0f: ['XX', 'XY_real', 'XY_imag', 'YY'],
                0x10: ['I'], 0x90: ['I', 'V'], 0xf0: ['I', 'Q', 'U', 'V']}


def drspec(timetag, data, fmt, nfreq, nint, decimation=10, time_offset=0, beam=1, fills=(1, 1, 1, 1), words=(1000000000, 2000000000),
           magic=(0xC0DEC0DE, 0xED0CED0C)):
    """data: float32 (2, nfreq, nprod), tuning-major as written by the data recorder"""
    h = struct.pack('<IQHHII4I4B4BII4II', magic[0], timetag, time_offset, decimation, words[0], words[1], *fills, 0, 0, 0, 0,
                    beam, fmt, 2, 0, nfreq, nint, 0, 0, 0, 0, magic[1])
    assert data.shape == (2, nfreq, len(DRSPEC_PRODS[fmt]))
    return h + np.ascontiguousarray(data, '<f4').tobytes()


def dec_drspec(data, fmt, fills):
    """(2*nprod, nfreq): the products of tuning 1, then those of tuning 2, as calibrated by the reader"""
    nfreq = data.shape[1]
    out = []
    for tun in (0, 1):
        f = fills[2 * tun:2 * tun + 2]
        for p, name in enumerate(DRSPEC_PRODS[fmt]):
            n = f[0] if name == 'XX' else f[1] if name == 'YY' else min(f)
            out.append(data[tun, :, p] / np.float32(nfreq * n))
    return np.array(out, np.float32)
