"""P13  Reading a recording from start to end."""
import os
import shutil
import tempfile

from sim.harness import Result
from . import ldplib as L
from . import frames as F

ID = 'P13'
LEVEL = 'exploration'
TECH = 'deterministic simulation of a data recorder behind a lossy, duplicating, reordering network that can be killed in mid-frame; what the real LDP readers return is compared with a reference model of the recording'
NOTE = 'Real LDP classes, frame buffers and (freshly compiled) frame readers on recordings made by a simulated recorder.'
TIERS = {'quick': {'runs': 2400, 'budget': 150, 'det': 24},
         'thorough': {'runs': 40000, 'budget': 800, 'det': 120}}
RULE = 'a case is one seeded recording (format, inputs, rates, losses, duplicates, reordering, gaps, corruption, truncation, splitting) and one seeded sequence of reads; distinct non-trivial = distinct recording and read sequence'
MEASURE = 'SHA-1 of the order of the frames in the recording, its faults and the sequence of reads'
REAL = ['lsl.reader.ldp, lsl.reader.{buffer,drx,drx8,drspec,tbx,cor,utils,base} from /repo', 'lsl.reader._gofast compiled from /repo']
STUB = ['data recorder, network and packet sources']
ASSUMPTIONS = ['the first frames of a recording (64 for DRX, two sets otherwise) are complete, so that the file can be recognised',
               'COR recordings are reduced to one to three stands', 'the data type that is asked for (complex or CI8) stays the same over a file']
REQUIRED_PROBES = {'chunks': 2000, 'zero_filled': 300, 'gap_filled': 100, 'gap_error': 20, 'gap_ignored': 20, 'late': 20, 'dups': 100,
                   'corrupt': 30, 'truncated': 100, 'head': 100, 'split': 100, 'resets': 100, 'eof': 400, 'foreign': 5}
CRASH_IS_VIOLATION = True
prepare, setup = L.prepare, L.setup


def gen(rng, tier):
    mode = rng.choice(['drx', 'drx', 'drx8', 'tbx', 'tbx', 'drspec', 'cor'])
    rec = L.gen_rec(rng, mode, faults=rng.random() < 0.85)
    ops = []
    style = rng.random()
    for _ in range(rng.randint(1, 8)):
        if style < 0.3:
            c = 1
        elif style < 0.6:
            c = rng.choice([1, 2, 3, 7])
        else:
            c = rng.choice([1, 3, 8, 30, 200])
        ops.append([c, rng.choice([0, 0, 0.3, -0.3])])
    return {'rec': rec, 'ops': ops, 'samples': rng.random() < 0.5, 'ci8': rng.random() < 0.3 and mode in ('drx', 'drx8', 'tbx'),
            'how': rng.choice(['read', 'read', 'read', 'seq', 'none']), 'reset': rng.choice([None, None, 1, 3]), 'auto': rng.random() < 0.2}


def run(plan, devs=None):
    from lsl.reader import errors, ldp
    from lsl.reader.utils import SplitFileWrapper
    res = Result()
    L.prime()
    P = res.probes
    r = plan['rec']

    def probe(k, n=1):
        P[k] = P.get(k, 0) + n
    log = []
    root = tempfile.mkdtemp(prefix='p13-', dir=os.environ.get('SIM_SCRATCH') or None)
    try:
        R = L.Recording(r)
        paths = R.write(root, 'rec')
        if r['mode'] == 'cor' and not L.cor_supported():
            res.digest = res.sched = res.state = 'skipped'
            return res
        seq = R.steps()
        late = R.late()
        for k, v in (('late', len(late)), ('dups', len(r['frames']) - len(set(map(tuple, r['frames'])))), ('corrupt', len(r['corrupt'])),
                     ('truncated', bool(r['tail'])), ('head', bool(r['head'])), ('split', len(paths) > 1), ('foreign', len(r['foreign']))):
            if v:
                probe(k, int(v))
                res.faults[k] = res.faults.get(k, 0) + int(v)
        miss = sum(1 for k, _ in seq for i in range(len(r['inputs'])) if (k, i) not in R.have)
        if miss:
            res.faults['loss'] = miss
        back = sum(1 for a, b in zip(r['frames'], r['frames'][1:]) if b[0] < a[0])
        if back:
            res.faults['reorder'] = back
        kw = {}
        f = None
        try:
            f = R.open(paths)
            _read_all(plan, R, f, seq, late, res, probe, log, errors)
        except Exception as e:
            import traceback
            res.violate('exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        finally:
            if f is not None:
                try:
                    f.close()
                except Exception as e:
                    res.violate('close', 'close() raised %s: %s' % (type(e).__name__, e))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    res.stats = {'sim_seconds': r['n'] * r['step'] / F.FS, 'frames': len(r['frames'])}
    res.sched = res.state = L.digest(r, plan['ops'], plan['how'], plan['reset'])
    res.digest = L.digest(log, res.violations)
    return res


def _read_all(plan, R, f, seq, late, res, probe, log, errors):
    r = plan['rec']
    rate = F.FS / r['step']          # time steps per second
    toff = r.get('toff', 0)
    want_samples = plan['samples']
    clean = not res.faults
    ops, pos, nread, resets = plan['ops'], 0, 0, 0
    kw = {'return_ci8': True} if plan['ci8'] else {}
    gen_ = None
    limit = 4 * len(seq) + 40
    if abs(f.get_info('sample_rate') * (1 if r['mode'] != 'cor' else 0) - (0 if r['mode'] == 'cor' else _srate(r))) > 1e-3:
        res.violate('sample-rate', 'sample_rate is %r, expected %r' % (f.get_info('sample_rate'), _srate(r)))
        return
    while True:
        if plan['reset'] and resets == 0 and nread == plan['reset'] and plan['how'] != 'seq':
            f.reset()
            resets, pos = 1, 0
            probe('resets')
        cnt, frac = ops[nread % len(ops)]
        nread += 1
        if nread > limit:
            res.violate('no-progress', '%d reads of a recording of %d time steps did not reach its end' % (nread, len(seq)))
            return
        dur = (cnt + (frac if cnt + frac > 0.5 else 0)) / rate
        if dur * rate < 0.5:
            dur = cnt / rate
        exact = True
        try:
            if plan['how'] == 'seq':
                cnt, dur = ops[0][0], ops[0][0] / rate
                if gen_ is None:
                    gen_ = f.read_sequence(dur, time_in_samples=want_samples)
                out = next(gen_, None)
                if out is None:
                    raise errors.EOFError()
                kw = {}
            elif plan['how'] == 'none' and r['mode'] in ('tbx', 'cor') and nread == 1:
                cnt = len(seq)
                exact = clean
                out = f.read(None, time_in_samples=want_samples, **kw)
            else:
                out = f.read(dur, time_in_samples=want_samples, **kw)
        except errors.EOFError:
            log.append('eof')
            probe('eof')
            if pos < len(seq):
                res.violate('early-eof', 'the end of the file is reported after %d of %d time steps' % (pos, len(seq)))
            else:
                try:
                    f.read(1 / rate)
                    res.violate('read-after-end', 'read() at the end of the file returned data')
                except errors.EOFError:
                    pass
            return
        except RuntimeError as e:
            log.append('error')
            end = min(len(seq), pos + cnt)
            if not r['ignore'] and any(g for _, g in seq[pos:end]):
                probe('gap_error')
                res.faults['gap'] = res.faults.get('gap', 0) + 1
                return
            res.violate('gap', 'read() of steps %s raised %s: %s' % ([k for k, _ in seq[pos:end]][:60], type(e).__name__, e))
            return
        d, t, data = out
        n = int(round(d * rate))
        log.append((n, float(t) if t is not None else None))
        probe('chunks')
        part = seq[pos:pos + n]
        if abs(n - d * rate) > 1e-3 or n < 1 or len(part) < n:
            res.violate('duration', 'read() returned %r time steps with %d left' % (d * rate, len(seq) - pos))
            return
        if n != cnt and pos + n != len(seq) and (exact or n > cnt) and not (r['mode'] == 'tbx' and not clean and n < cnt):
            res.violate('short-read', 'read() of %d time steps returned %d with %d left' % (cnt, n, len(seq) - pos))
            return
        if any(g for _, g in part) and not r['ignore']:
            res.violate('gap-hidden', 'read() returned steps %s as if there were no gap' % [k for k, _ in part][:60])
            return
        if any(g for _, g in part):
            probe('gap_ignored')
        steps = [k for k, _ in part]
        if not L.same_time(t, R.tag(steps[0]), toff, want_samples):
            res.violate('wrong-time', 'the chunk that starts with step %d (tag %d) has time %r (off by %r steps)' % (
                steps[0], R.tag(steps[0]), t, ((float(t) * (1 if want_samples else F.FS)) - (R.tag(steps[0]) - toff)) / r['step']))
            return
        bad = R.check_chunk(data, n, steps, late, ci8=bool(kw))
        if bad:
            res.violate('wrong-data', 'chunk of steps %d-%d: %s' % (steps[0], steps[-1], bad))
            return
        z = sum(1 for k in steps if not any((k, i) in R.have for i in range(len(r['inputs']))))
        if z:
            probe('gap_filled', z)
        zz = sum(1 for k in steps for i in range(len(r['inputs'])) if (k, i) not in R.have)
        if zz:
            probe('zero_filled', zz)
        pos += n


def _srate(r):
    if r['mode'] in ('drx', 'drx8', 'drspec'):
        return F.FS / F.DECIM[r['code']]
    return F.FS / r['step']


def shrink(plan):
    r = plan['rec']
    for k, v in (('head', 0), ('tail', 0), ('corrupt', []), ('splits', []), ('foreign', []), ('ignore', False)):
        if r[k] != v:
            yield dict(plan, rec=dict(r, **{k: v}))
    if plan['reset']:
        yield dict(plan, reset=None)
    if plan['ci8']:
        yield dict(plan, ci8=False)
    if plan['how'] != 'read':
        yield dict(plan, how='read')
    if len(plan['ops']) > 1:
        for i in range(len(plan['ops'])):
            yield dict(plan, ops=plan['ops'][:i] + plan['ops'][i + 1:])
    # cut the end of the recording
    for m in (r['n'] // 2, r['n'] - 5, r['n'] - 1):
        if m > 2 and m < r['n']:
            fr = [x for x in r['frames'] if x[0] < m]
            if len(fr) >= 64:
                yield dict(plan, rec=dict(r, n=m, frames=fr, corrupt=[j for j in r['corrupt'] if j < len(fr)],
                                          foreign=[j for j in r['foreign'] if j <= len(fr)]))
    base = sorted([k, i] for k in range(r['n']) for i in range(len(r['inputs'])))
    if r['frames'] != sorted(r['frames']):
        yield dict(plan, rec=dict(r, frames=sorted(r['frames'])))
    gone = [x for x in base if x not in r['frames']]
    if 0 < len(gone) < 40 and r['frames'] == sorted(r['frames']):
        for g in gone:
            yield dict(plan, rec=dict(r, frames=sorted(r['frames'] + [g])))
