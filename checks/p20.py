"""P20  Metadata functions return what the named tarball holds."""
import ctypes
import random
import gzip
import io
import struct
import tarfile
import types

from .common import *
from sim import loader as simloader

ID = 'P20'
LEVEL = 'exploration'
TECH = ('deterministic simulation of threads reading metadata tarballs while tarballs are replaced and the disk fails; '
        'every returned value compared with the contents of the tarball that was in place during the call')
NOTE = ('Real metabundle, tarfile and gzip code over a simulated disk and scheduler; tarballs are generated from known '
        'values, whole, cut short, without a part or with a short part.')
TIERS = {'quick': {'runs': 1600, 'budget': 170, 'det': 24},
         'thorough': {'runs': 50000, 'budget': 800, 'det': 150}}
RULE = ('a case is one seeded history of 1-3 threads calling metadata functions on 1-3 tarballs that are replaced in '
        'between, with disk faults; distinct non-trivial = distinct history of outcomes')
REAL = ['lsl.common.metabundle, lsl.common._metabundle_utils, lsl.common.mcs from /repo', 'tarfile, gzip, shutil, tempfile']
STUB = ['kernel: file system, clock, scheduler', 'lsl.common.sdf (the SDF parser is not part of this check)', 'parser of the session definition text (returns the text it was given), ASP MIB database (a table in the tarball)']
ASSUMPTIONS = ['a tarball is replaced by renaming a new one over it, or rewritten in place while nobody reads it, with a new modification time']
REQUIRED_PROBES = {'right': 400, 'refused': 40, 'concurrent': 60, 'replaced': 40}

FUNCS = ['host', 'delay', 'meta', 'ses', 'obs', 'obs1', 'obs2', 'cs', 'valid', 'asp', 'aspend', 'aspsum', 'sdm', 'sdf', 'station', 'station0']


def setup():
    import scipy.special, scipy.optimize, scipy.interpolate, astropy.units, astropy.coordinates, astropy.constants   # noqa
    import astropy.time, ephem, h5py, dbm   # noqa
    setup_procsim()
    simloader.plain('lsl.common.stations', 'lsl.common.color',
                    shared=('lsl.misc.mathutils', 'lsl.astro', 'lsl.common.mcs', 'lsl.common.ndp', 'lsl.common.sdm'))


_BUILT = {}


def build(mcs, spec):
    k = json.dumps(spec, sort_keys=True)
    if k not in _BUILT:
        if len(_BUILT) > 300:
            _BUILT.clear()
        _BUILT[k] = build1(mcs, spec)
    return _BUILT[k]


def build1(mcs, spec):
    """-> (tarball bytes, expected values; None = has to be refused)"""
    v = spec['ver']
    base = 'TP%03d_%04d' % (v % 1000, v)
    mem, exp = [], {}
    host = 'lwa1-%d' % v
    mem.append(('mcs.host', (host + '\n').encode(), 'host', host))
    mem.append(('mindelay.txt', b'%d\n' % (1000 + v), 'delay', 1000 + v))
    meta, txt = {}, ''
    for i in range(1, 2 + v % 5):
        tag, bar, oc, msg = '%06d_%09d' % (v, i), 'BC%dK%d' % (v, i), (v + i) % 2, 'msg of %d' % i
        form = (v * 7 + i * 5) % 9
        if form == 0:                        # the recorder did not tell: the one before
            line, bar = "%d [%s] ['Err no. 5'] %d [%s]" % (i, tag, oc, msg), meta[i - 1]['barcode'] if i > 1 else 'UNK'
        elif form == 1:
            line = "%d [%s] ['%s'] %d %s" % (i, tag, bar, oc, msg)
        elif form == 2:
            line, oc = "%d [%s] ['%s'] Failed %s" % (i, tag, bar, msg), 1
        elif form == 3:
            line, msg = "%d %s %s %d" % (i, tag, bar, oc), 'UNK'
        elif form == 4:
            line = "  %d   [%s] [%s] %d [%s]\n" % (i, tag, bar, oc, msg)
        else:
            line = "%d [%s] ['%s'] %d [%s]" % (i, tag, bar, oc, msg)
        meta[i] = {'tag': tag, 'barcode': bar, 'outcome': oc, 'msg': msg}
        txt += line + '\n'
    mem.append((base + '_metadata.txt', txt.encode(), 'meta', meta))
    s = mcs.parse_c_struct(mcs.SSF_STRUCT, endianness='little')
    s.FORMAT_VERSION, s.PROJECT_ID, s.SESSION_ID = 6, b'P%d' % v, v
    q = rnd(v, 'ses')
    s.SESSION_CRA, s.SESSION_DRX_BEAM, s.SESSION_SPC = q(9), q(5), b'spc%d' % v
    for n, _ in s._fields_:
        if n[:11] in ('SESSION_MRP', 'SESSION_MUP', 'SESSION_LOG', 'SESSION_INC'):
            setattr(s, n, q(100))
    s.SESSION_START_MJD, s.SESSION_START_MPM, s.SESSION_DUR, s.SESSION_NOBS = 55000 + v, v * 10, 5000 + v, 1
    ses = bytes(s)
    mem.append((base + '.ses', ses, 'ses', [v, 55000 + v, v * 10, 5000 + v] + ses_rest(s)))
    obs = []
    for i in range(1, 1 + spec['nobs']):
        h = mcs.parse_c_struct(mcs.OSF_STRUCT, endianness='little')
        h.FORMAT_VERSION, h.SESSION_ID, h.OBS_ID, h.OBS_DUR, h.OBS_MODE, h.OBS_STP_N = 6, v, i, 7000 + v * 10 + i, 1 + (v + i) % 11, spec['nstep']
        f = mcs.parse_c_struct(mcs.OSF2_STRUCT, endianness='little')
        q = rnd(v, 'obs%d' % i)
        h.PROJECT_ID, h.SESSION_DRX_BEAM, h.SESSION_SPC, h.OBS_BDM = b' P%d ' % v, q(5), b'spc%d' % v, b'bdm%d' % i
        h.OBS_START_MJD, h.OBS_START_MPM, h.OBS_RA, h.OBS_DEC, h.OBS_B = 55000 + q(5000), q(86400000), q(96) / 4, q(360) / 4 - 45, q(5)
        h.OBS_FREQ1, h.OBS_FREQ2, h.OBS_BW, h.OBS_STP_RADEC = q(2**31), q(2**31), q(8), q(2)
        for n in ('OBS_FEE', 'OBS_ASP_FLT', 'OBS_ASP_AT1', 'OBS_ASP_AT2', 'OBS_ASP_AT3'):
            a = getattr(f, n)
            for j in range(0, len(a), 1 + q(7)):
                a[j] = q(1000) - 500
        f.OBS_DRX_GAIN = q(13)
        f.OBS_TBT_SAMPLES, f.alignment = v + i, 2**32 - 1
        b = bytes(h)
        steps = []
        for k in range(spec['nstep']):
            st = mcs.parse_c_struct(mcs.OSFS_STRUCT, endianness='little')
            st.OBS_STP_T, st.OBS_STP_B = v + k, (3, 3, 1 + q(3))[q(3)]
            st.OBS_STP_C1, st.OBS_STP_C2, st.OBS_STP_FREQ1, st.OBS_STP_FREQ2 = q(96) / 4, q(96) / 4, q(2**31), q(2**31)
            b += bytes(st)
            d, g = [], []
            if st.OBS_STP_B == 3:
                bm = mcs.parse_c_struct(mcs.BEAM_STRUCT, endianness='little')
                for j in range(0, len(bm.OBS_BEAM_DELAY), 1 + q(9)):
                    bm.OBS_BEAM_DELAY[j] = q(65536)
                for j in range(0, len(bm.OBS_BEAM_GAIN), 1 + q(9)):
                    bm.OBS_BEAM_GAIN[j] = q(65536) - 32768
                b += bytes(bm)
                d, g = list(bm.OBS_BEAM_DELAY), list(bm.OBS_BEAM_GAIN)
            steps.append([st.OBS_STP_T, st.OBS_STP_B, st.OBS_STP_C1, st.OBS_STP_C2, st.OBS_STP_FREQ1, st.OBS_STP_FREQ2, d, g])
            b += struct.pack('<I', 2**32 - 2)
        b += bytes(f)
        mem.append((base + '_%04d.obs' % i, b, 'obs', None))
        obs.append([i, 7000 + v * 10 + i, v + i, steps] + obs_rest(h, f))
    exp['obs'] = obs
    cmds, b = [], b''
    for k in range(spec['ncmd']):
        d = b'cmd-%d-%d' % (v, k) if k % 2 == 0 else b''
        us, asap, sid, cid = (v * 7 + k) % 4 * 250000, (v + k) % 2, SIDS[(v + k) % len(SIDS)], (v * 3 + k) % 20
        b += struct.pack('<qqiiii', 1000000 + v * 100 + k, us, asap, sid, cid, len(d)) + d
        cmds.append([1000000.0 + v * 100 + k + us / 1e6, bool(asap), sid, cid, len(d), d or None])
    mem.append((base + '.cs', b, 'cs', cmds))
    exp.update({k: e for _, _, k, e in mem if k != 'obs'})
    exp['valid'] = True
    exp['obs1'], exp['obs2'] = obs[:1], [o for o in obs if o[0] in (2, 3, 9)]
    # dynamic MIB
    b, want = build_sdm(mcs, v)
    mem.append(('dynamic/sdm.dat', b, 'sdm', want))
    # session definition file (the parser is a stand-in that returns the text)
    txt = 'PI_ID %d\n' % v + 'REMARK %s\n' % ('y' * (v % 50)) * 20
    mem.append((base + '.txt', txt.encode(), 'sdf', txt))
    # ASP MIBs
    asp = {}
    for w in ('begin', 'end'):
        b, asp[w] = build_asp(mcs, v, w)
        mem.append((base + '_ASP_%s.gdb' % w, b, {'begin': 'asp', 'end': 'aspend'}[w], asp[w]))
    exp['aspsum'] = asp['begin']
    if spec.get('ssmif'):
        b = build_ssmif(mcs, v)
        mem.append(('ssmif.dat', b, 'station', [1000.0 + v]))
    exp.update({k: e for _, _, k, e in mem if k not in ('obs', 'station')})
    stat = [1000.0 + v if spec.get('ssmif') else 'LWA1', exp['delay'] if spec.get('ssmif') else 'ANY',
            want[1] if spec.get('ssmif') else 'ANY']
    exp['station'], exp['station0'] = stat, [stat[0], stat[1], 'ANY' if not spec.get('ssmif') else 'SSMIF']
    out = []
    for n, c, k, e in mem:
        if k == spec.get('without'):
            exp[k] = {'host': 'unknown', 'delay': None, 'obs': [], 'sdm': None, 'asp': NOASP, 'aspend': NOASP}.get(k, 'REFUSE')
            if k == 'asp':
                exp['aspsum'] = NOASP
            if k == 'obs':
                exp['obs1'] = exp['obs2'] = []
            if k == 'delay' and spec.get('ssmif'):
                exp['station'][1] = exp['station0'][1] = 'DEFAULT'
            if k == 'sdm' and spec.get('ssmif'):
                exp['station'][2] = 'SSMIF'
            if k == 'host' and not spec.get('ssmif'):
                exp['station'] = exp['station0'] = None
            if k == 'station':
                exp['station'] = exp['station0'] = ['LWA1' if spec.get('without') != 'host' else None, 'ANY', 'ANY']
            if k in ('ses', 'cs'):
                exp['valid'] = 'INVALID'
            continue
        if k == spec.get('short') and k in ('ses', 'obs', 'cs', 'sdm', 'station') and len(c) > 8:
            cut = int(len(c) * spec['at'])
            c = c[:cut]
            if k == 'cs':
                m, p = 0, 0
                for k2 in range(spec['ncmd']):
                    p += 32 + (len(b'cmd-%d-%d' % (v, k2)) if k2 % 2 == 0 else 0)
                    m += p <= cut
                exp['cs'] = [cmds[:m], 'PREFIX']
                exp['valid'] = 'ANY'
            elif k == 'sdm':
                exp['sdm'] = 'REFUSE'
                if spec.get('ssmif'):
                    exp['station'] = 'REFUSE'
            elif k == 'station':
                exp['station'] = exp['station0'] = 'REFUSE'
            else:
                exp[k] = 'REFUSE'
                exp['valid'] = 'INVALID'
                if k == 'obs':
                    exp['obs1'] = exp['obs2'] = 'REFUSE'
        out.append((n, c))
    out.append(('notes.dat', b'\x01' * 400))
    r = spec['order']
    out.sort(key=lambda x: hashlib.sha1((x[0] + str(r)).encode()).digest())
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode='wb', mtime=0, filename='') as g:
        with tarfile.open(fileobj=g, mode='w', format=tarfile.USTAR_FORMAT) as tf:
            for n, c in out:
                ti = tarfile.TarInfo(n)
                ti.size, ti.mode = len(c), 0o644
                tf.addfile(ti, io.BytesIO(c))
            if spec.get('pad'):
                ti = tarfile.TarInfo('log.bin')
                pad = b''.join(hashlib.sha1(b'%d %d' % (v, q)).digest() for q in range(2000))
                ti.size = len(pad)
                tf.addfile(ti, io.BytesIO(pad))
    data = b.getvalue()
    if spec.get('trunc'):
        data = data[:max(30, int(len(data) * spec['at']))]
        exp = {k: [e, 'OR-REFUSE'] for k, e in exp.items()}
    return data, exp


SIDS = [1, 3, 4, 5, 6]      # subsystems other than DP and ADP
NOASP = [[-1] * 256] * 4
SUBS = ['ASP', 'NDP', 'SHL', 'MCS', 'DR1', 'DR2', 'DR3', 'DR4']


def rnd(v, tag):
    r = random.Random('%d %s' % (v, tag))
    return r.randrange


def ses_rest(s):
    return [s.PROJECT_ID, s.SESSION_CRA, s.SESSION_DRX_BEAM, s.SESSION_SPC, s.SESSION_NOBS,
            [getattr(s, 'SESSION_MRP_' + k) for k in SUBS], [getattr(s, 'SESSION_MUP_' + k) for k in SUBS],
            s.SESSION_LOG_SCH, s.SESSION_LOG_EXE, s.SESSION_INC_SMIB, s.SESSION_INC_DES]


def obs_rest(h, f):
    return [h.PROJECT_ID.strip(), h.SESSION_ID, h.SESSION_DRX_BEAM, h.SESSION_SPC, h.OBS_BDM, h.OBS_START_MJD, h.OBS_START_MPM, h.OBS_RA,
            h.OBS_DEC, h.OBS_B, h.OBS_FREQ1 * 196e6 / 2**32, h.OBS_FREQ2 * 196e6 / 2**32, h.OBS_BW, h.OBS_STP_N, h.OBS_STP_RADEC,
            list(f.OBS_FEE), list(f.OBS_ASP_FLT), list(f.OBS_ASP_AT1), list(f.OBS_ASP_AT2), list(f.OBS_ASP_AT3), f.OBS_DRX_GAIN, h.OBS_MODE]


def flat(x):
    out = []
    for i in x:
        if isinstance(i, (list, tuple)):
            out += flat(i)
        else:
            out.append(i)
    return out


def build_sdm(mcs, v):
    q = rnd(v, 'sdm')
    b, sub = b'', []
    for k in range(4 + mcs.ME_MAX_NDR):
        s = mcs.parse_c_struct(mcs.SUBSYSTEM_STATUS_STRUCT, endianness='little')
        s.summary, s.info = q(7), b'info %d' % q(99)
        s.tv[0], s.tv[1] = q(10**9), q(4) * 250000
        sub.append([s.summary, s.info, s.tv[0] + s.tv[1] / 1e6])
        b += bytes(s)
    s = mcs.parse_c_struct(mcs.SUBSUBSYSTEM_STATUS_STRUCT, endianness='little')
    ss = []
    for n in ('eFEEStat', 'eRPDStat', 'eSEPStat', 'eARBStat', 'eSnapStat', 'eServerStat', 'eDRStat'):
        a = getattr(s, n)
        for j in range(0, len(a), 1 + q(5)):
            a[j] = q(4)
        ss.append(list(a))
    b += bytes(s)
    s = mcs.parse_c_struct('int ant_stat[ME_MAX_NSTD][2];\n int ndpo_stat[ME_MAX_NDR];', endianness='little')
    for a in (s.ant_stat, s.ndpo_stat):
        for j in range(len(a)):
            a[j] = q(4)
    ant, ndpo = list(s.ant_stat), list(s.ndpo_stat)
    b += bytes(s)
    s = mcs.parse_c_struct(mcs.STATION_SETTINGS_STRUCT, endianness='little')
    for k in SUBS:
        setattr(s, 'mrp_' + k.lower(), q(90))
        setattr(s, 'mup_' + k.lower(), q(90))
    for n in ('fee', 'asp_flt', 'asp_at1', 'asp_at2', 'asp_at3'):
        a = getattr(s, n)
        for j in range(0, len(a), 1 + q(5)):
            a[j] = q(900)
    s.drx_gain = q(13)
    b += bytes(s) + b'\0' * 6
    st = [[getattr(s, 'mrp_' + k.lower()) for k in SUBS], [getattr(s, 'mup_' + k.lower()) for k in SUBS], list(s.fee), list(s.asp_flt),
          list(s.asp_at1), list(s.asp_at2), list(s.asp_at3), s.drx_gain]
    return b, [sub, ant, ss, ndpo, st]


def build_asp(mcs, v, which):
    """a MIB in the form of the stand-in for the database library: one record after the other"""
    q = rnd(v, 'asp' + which)
    val = [[-1] * 256 for _ in range(4)]
    recs = []
    for p in range(4):
        for ant in sorted(set(q(270) for _ in range(6))):          # beyond 256: "transition metadata files"
            x = q(63)
            if ant < 256:
                val[p][ant] = x
            recs.append((('3.%d' % (ant + 1)) if p == 0 else '4.%d.%d' % (p, ant + 1), x))
    recs += [('1.%d' % k, k) for k in range(1, 4)] + [('4.4.1', 9), ('5.1', 7)]
    b = b''
    r = mcs.parse_c_struct('int eType;\n char index[%i];\n char val[%i];\n char type_dbm[6];\n char type_icd[6];\n long tv[2];'
                           % (mcs.MIB_INDEX_FIELD_LENGTH, mcs.MIB_VAL_FIELD_LENGTH), endianness='little')
    for idx, x in recs:
        r.eType, r.index, r.val, r.type_dbm, r.type_icd = mcs.MIB_REC_TYPE_BRANCH + 1, idx.encode(), b'%d' % x, b'a5', b'a5'
        d = bytes(r)
        b += struct.pack('<I', len(d)) + d
    return b, val


_SSMIF = []


def build_ssmif(mcs, v):
    if not _SSMIF:
        with simloader.core_open(core.REPO + '/tests/data/ssmif.dat', 'rb') as fh:
            _SSMIF.append(fh.read())
    b = bytearray(_SSMIF[0])
    s = mcs.parse_c_struct(mcs.SSMIF_STRUCT, char_mode='int', endianness='little')
    o = type(s).fGeoEl.offset
    b[o:o + 8] = struct.pack('<d', 1000.0 + v)
    return bytes(b)


class FakeDB(object):
    """stand-in for the database library that reads the MIBs"""
    def __init__(self, data):
        self.r = []
        p = 0
        while p < len(data):
            n, = struct.unpack('<I', data[p:p + 4])
            if len(data) < p + 4 + n:
                raise OSError('damaged database')
            self.r.append(data[p + 4:p + 4 + n])
            p += 4 + n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def firstkey(self):
        return 0 if self.r else None

    def nextkey(self, k):
        return k + 1 if k + 1 < len(self.r) else None

    def __getitem__(self, k):
        return self.r[k]


def mode(vals):
    best = max(vals.count(x) for x in vals)
    return [x for x in vals if vals.count(x) == best]


def norm(fn, r, arg=None):
    if fn == 'ses':
        return [r['session_id'], r['mjd'], r['mpm'], r['dur'], r['project_id'], r['configuration_authority'], r['drx_beam'], r['spc_setup'],
                r['nobs'], [r['record_mib'][k] for k in SUBS], [r['update_mib'][k] for k in SUBS], r['include_mcssch_log'],
                r['include_mcsexe_log'], r['include_station_smib'], r['include_station_design']]
    if fn in ('obs', 'obs1', 'obs2'):
        r = r if isinstance(r, list) else [r]
        return [[o['obs_id'], o['dur'], o['tbt_samples'],
                 [[s.OBS_STP_T, s.OBS_STP_B, s.OBS_STP_C1, s.OBS_STP_C2, s.OBS_STP_FREQ1, s.OBS_STP_FREQ2, list(s.delay), flat(s.gain)]
                  for s in o['steps']], o['project_id'], o['session_id'], o['drx_beam'], o['spc_setup'], o['beamdipole_mode'], o['mjd'],
                 o['mpm'], o['ra'], o['dec'], o['beam'], o['freq1'], o['freq2'], o['bw'], o['nsteps'], o['is_radec'], flat(o['fee_power']),
                 o['asp_filter'], o['asp_atten_1'], o['asp_atten_2'], o['asp_atten_3'], o['drx_gain'], o['mode'].value] for o in r]
    if fn == 'cs':
        return [[c['time'], c['ignore_time'], c['subsystem_id'].value, c['command_id'].value, c['command_length'], c['data']] for c in r]
    if fn in ('asp', 'aspend'):
        return [r['asp_filter'], r['asp_atten_1'], r['asp_atten_2'], r['asp_atten_3']]
    if fn == 'aspsum':
        return [r['asp_filter'], r['asp_atten_1'], r['asp_atten_2'], r['asp_atten_3']]
    if fn == 'sdm' and r is not None:
        sub = [[x.summary, x.info, x.time] for x in [r.station, r.shl, r.asp, r.ndp] + r.dr]
        t = r.status
        return [sub, flat(r.ant_status), [list(t.fee), list(t.rpd), list(t.sep), flat(t.arb), flat(t.snap), list(t.server), list(t.dr)],
                flat(r.ndpo_status), [[r.settings.report[k] for k in SUBS], [r.settings.update[k] for k in SUBS], flat(r.settings.fee_power),
                r.settings.asp_filter, r.settings.asp_atten_1, r.settings.asp_atten_2, r.settings.asp_atten_3, r.settings.drx_gain]]
    if fn in ('station', 'station0') and r is not None:
        return [r.elev, r.name, getattr(r, 'beamformer_min_delay_samples', None), getattr(r, 'beamformer_min_delay', None),
                [[a.stand.id, a.pol, a.status] for a in r.antennas]]
    return r


def ok(fn, got, exp):
    """got: ('value', x) or ('exc', name)"""
    if isinstance(exp, list) and len(exp) == 2 and exp[1] == 'OR-REFUSE':
        return got[0] == 'exc' or (fn == 'valid' and got[1] is False) or ok(fn, got, exp[0])
    if isinstance(exp, list) and len(exp) == 2 and exp[1] == 'PREFIX':
        return got[0] == 'exc' or got[1] == exp[0]
    if isinstance(exp, str) and exp == 'REFUSE':
        return got[0] == 'exc'
    if isinstance(exp, str) and exp == 'INVALID':
        return got[0] == 'exc' or got[1] is False
    if isinstance(exp, str) and exp == 'ANY':
        return True
    if got[0] == 'value' and fn == 'aspsum':
        return all(g in mode(e) for g, e in zip(got[1], exp))
    if got[0] == 'value' and fn in ('station', 'station0') and got[1] is not None and exp is not None:
        elev, name, ds, d, ants = got[1]
        if isinstance(exp[0], float):
            if abs(elev - exp[0]) > 1e-6:
                return False
        elif name != exp[0]:
            return False
        if exp[1] == 'DEFAULT':
            if ds is not None and ds >= 1000:
                return False
        elif exp[1] != 'ANY' and (ds != exp[1] or abs(d - exp[1] / 196e6) > 1e-15):
            return False
        if exp[2] == 'SSMIF':
            return len(set(x for _, _, x in ants)) >= 1 and sum(1 for _, _, x in ants if x == 3) > 0.5 * len(ants)
        if exp[2] != 'ANY':
            return all(x == exp[2][2 * (s - 1) + p] for s, p, x in ants)
        return True
    return got[0] == 'value' and got[1] == exp


def gen(rng, tier):
    ntar = rng.choice([1, 1, 2, 3])
    ver = [0]

    def spec():
        ver[0] += 1
        s = {'ver': ver[0], 'nobs': rng.choice([1, 1, 2, 3]), 'nstep': rng.choice([0, 0, 2, 3]), 'ssmif': rng.random() < 0.2, 'ncmd': rng.choice([1, 3, 5]),
             'order': rng.randrange(1000), 'at': round(rng.random(), 3), 'pad': rng.random() < 0.25}
        x = rng.random()
        if x < 0.12:
            s['without'] = rng.choice(['host', 'delay', 'meta', 'ses', 'obs', 'cs', 'sdm', 'sdf', 'asp', 'aspend'])
        elif x < 0.22:
            s['short'] = rng.choice(['ses', 'obs', 'cs', 'sdm', 'station'])
        elif x < 0.32:
            s['trunc'] = True
        return s
    tars = [spec() for _ in range(ntar)]

    def ops(k):
        out = []
        for _ in range(k):
            x = rng.random()
            t = rng.randrange(ntar)
            if x < 0.82:
                out.append({'op': 'call', 't': t, 'f': rng.choice(FUNCS), 'rel': rng.random() < 0.3})
            elif x < 0.9:
                out.append({'op': 'sleep', 't': rng.choice([0.01, 3])})
            else:
                out.append({'op': 'replace', 't': t, 'spec': spec()})
        return out
    return {'tars': tars, 'ops': [{'ops': ops(rng.randint(2, 9))} for _ in range(rng.choice([1, 2, 2, 3]))],
            'inplace': rng.random() < 0.5,
            'swarm': dict(swarm(rng, fault=0.004, kinds=['ENOSPC', 'EIO', 'SHORT', 'EMFILE', 'EACCES']), p_crash=0.0)}


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs, max_steps=3000000, max_ops=20000000)
    sim.vfs.mkdirs('/meta')
    hist = {}           # tar -> list of (expected, valid from step)
    solo = len(plan['ops']) == 1
    busy = {}
    from sim import vfs as V
    path = lambda k: '/meta/s%d.tgz' % k

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def body(proc, mb, ops):
        t = current()
        fn = {'host': mb.get_mcs_hostname, 'delay': mb.get_beamformer_min_delay, 'meta': mb.get_session_metadata,
              'ses': mb.get_session_spec, 'obs': mb.get_observation_spec, 'cs': mb.get_command_script, 'valid': mb.is_valid,
              'asp': lambda p: mb.get_asp_configuration(p), 'aspend': lambda p: mb.get_asp_configuration(p, which='end'),
              'aspsum': mb.get_asp_configuration_summary, 'sdm': mb.get_sdm, 'sdf': mb.get_sdf, 'station': mb.get_station,
              'station0': lambda p: mb.get_station(p, apply_sdm=False),
              'obs1': lambda p: mb.get_observation_spec(p, obs_id=1), 'obs2': lambda p: mb.get_observation_spec(p, obs_id=[2, 3, 9])}
        for o in ops:
            if o['op'] == 'sleep':
                sim.sleep(o['t'])
            elif o['op'] == 'replace':
                mcs = proc.imp('lsl.common.mcs')
                data, exp = build(mcs, o['spec'])
                if solo:
                    sim.sleep(2)
                p = path(o['t'])
                if solo and plan['inplace']:
                    sim.vfs.lookup(p).data[:] = data
                    sim.vfs.lookup(p).mtime = sim.now
                else:
                    sim.vfs.put(p + '.new', data, mtime=sim.now)
                    par, n = sim.vfs.lookup(p, parent=True)
                    par.kids[n] = par.kids.pop(n + '.new')
                hist[o['t']].append(exp)
                sim.event('replaced', tar=o['t'])
                sim.probe('replaced')
            else:
                f0 = nf(t)
                k = o['t']
                n0 = len(hist[k]) - 1
                if any(busy.values()):
                    sim.probe('concurrent')
                busy[t.name] = 1
                p = V.PREFIX + path(k)
                try:
                    r = norm(o['f'], fn[o['f']](p))
                    got = ('value', r)
                except Exception as e:
                    got = ('exc', type(e).__name__)
                    r = None
                busy[t.name] = 0
                exps = [h[o['f']] for h in hist[k][n0:]]
                if len(set(map(repr, exps))) > 1 and o['f'] in ('valid', 'station', 'station0'):
                    exps.append('ANY')      # looks at three parts one after the other
                sim.event('call', f=o['f'], tar=k, got=repr(got)[:200])
                sim.probe('right' if got[0] == 'value' else 'refused')
                if nf(t) > f0:
                    if got[0] == 'exc' or o['f'] == 'valid':
                        continue
                    # an error on the way never turns into a value that is not in the tarball
                if not any(ok(o['f'], got, e) for e in exps):
                    sim.violate('wrong-metadata' if got[0] == 'value' else 'metadata-refused', f=o['f'], tar=k, got=repr(got)[:300],
                                expected=repr(exps)[:300], faults_on_the_way=nf(t) - f0)

    def main(proc):
        mcs = proc.imp('lsl.common.mcs')
        proc.imp('lsl.common')
        proc.loader.mods['lsl.common.sdf'] = proc.loader.mods['lsl.common'].sdf = types.ModuleType('lsl.common.sdf')
        helper = types.ModuleType('helper')
        helper.__dict__['__builtins__'] = proc.loader.builtins
        exec('def text(fn):\n    with open(fn) as fh:\n        return fh.read()\ndef data(fn):\n    with open(fn, "rb") as fh:\n        return fh.read()\n',
             helper.__dict__)
        proc.loader.mods['lsl.common.sdf'].parse_sdf = helper.text
        db = types.ModuleType('dbm')
        db.open = lambda fn, flags='r': FakeDB(helper.data(fn))
        mcs.dbm = db
        mb = proc.imp('lsl.common.metabundle')
        for k, s in enumerate(plan['tars']):
            data, exp = build(mcs, s)
            sim.vfs.put(path(k), data, mtime=sim.now - 100)
            hist[k] = [exp]
        proc.faultable = True
        ths = [sim.spawn(proc, lambda s=s: body(proc, mb, s['ops']), 't%d' % (k + 1))
               for k, s in enumerate(plan['ops'][1:])]
        if plan['ops']:
            body(proc, mb, plan['ops'][0]['ops'])
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')
        rm = sum(1 for e in sim.history if e[3] == 'fault' and e[4].get('op') in ('fs.unlink', 'fs.rmdir', 'fs.listdir', 'fs.open.r'))
        left = [n for n in sim.vfs.lookup('/tmp').kids if n.startswith('metadata-bundle-')]
        if len(left) > rm:
            sim.violate('temporary-directory-left', left=left)

    sim.start(sim.new_proc('p', crashable=False, faultable=False), main)
    sim.run()
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        excs = [(t.exc, t.exc_tb) for t in p.tasks if t.exc is not None]
        if p.data.get('exc') is not None:
            excs.append((p.data['exc'], p.data['exc_tb']))
        for e, tb in excs:
            sim.violate('unexpected-exception', exc=repr(e), tb=tb[-900:])
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
