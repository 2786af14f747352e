"""P14  Moving around in a recording."""
import os
import shutil
import tempfile

from sim.harness import Result
from . import ldplib as L
from . import frames as F

ID = 'P14'
LEVEL = 'exploration'
TECH = 'deterministic simulation of a data recorder with stalls; seeded sequences of read, offset, reset and level estimation against a reference model of the position in the recording'
NOTE = 'Real LDP classes, frame buffers and (freshly compiled) frame readers on recordings made by a simulated recorder.'
TIERS = {'quick': {'runs': 1600, 'budget': 150, 'det': 24},
         'thorough': {'runs': 40000, 'budget': 800, 'det': 120}}
RULE = 'a case is one seeded recording (format, inputs, rates, stalls of the recorder, truncation, splitting) and one seeded sequence of operations; distinct non-trivial = distinct recording and operation sequence'
MEASURE = 'SHA-1 of the recording and of the sequence of operations'
REAL = ['lsl.reader.ldp, lsl.reader.{buffer,drx,drx8,drspec,tbx,cor,utils,base} from /repo', 'lsl.reader._gofast compiled from /repo']
STUB = ['data recorder']
ASSUMPTIONS = ['single frames are not lost (whole time steps of DRX and DR spectrometer recordings are)',
               'offset() may raise EOFError when it would end in the last 64 frames or two sets of the recording, and an error when it would end outside of it']
REQUIRED_PROBES = {'offsets': 800, 'offset_back': 60, 'offset_after_read': 200, 'resets': 200, 'levels': 50, 'outside': 30, 'stalls': 60, 'reads': 1500,
                   'split': 60, 'truncated': 60}
CRASH_IS_VIOLATION = True
prepare, setup = L.prepare, L.setup


def gen(rng, tier):
    mode = rng.choice(['drx', 'drx', 'drx8', 'tbx', 'tbx', 'drspec', 'drspec', 'cor', 'cor'])
    r = L.gen_rec(rng, mode, faults=False)
    if mode in ('drx', 'drx8'):
        r['n'] += 70 // len(r['inputs']) + 10
    else:
        r['n'] += 6
    r['ignore'] = True
    lost = set()
    if mode in ('drx', 'drx8', 'drspec') and rng.random() < 0.4:
        lo = 20 if mode == 'drspec' else 70 // len(r['inputs'])
        for _ in range(rng.randint(1, 2)):
            g0 = rng.randint(min(lo, r['n'] - 2), r['n'] - 2)
            lost |= set(range(g0, min(g0 + rng.choice([1, 2, 5, 15]), r['n'] - 1)))
        r['fill'] = 50
    if lost:
        r['n'] += len(lost)
    r['frames'] = [[k, i] for k in range(r['n']) if k not in lost for i in range(len(r['inputs']))]
    if rng.random() < 0.3:
        r['tail'] = rng.choice([0.1, 0.9])
    if rng.random() < 0.3:
        r['splits'] = sorted(round(rng.random(), 4) for _ in range(rng.randint(1, 3)))
    if rng.random() < 0.25 and mode not in ('cor',):
        r['head'] = rng.choice([3, 500])
    ops = []
    for _ in range(rng.randint(3, 12)):
        x = rng.random()
        if x < 0.45:
            ops.append(['read', rng.choice([1, 1, 2, 3, 5, 12])])
        elif x < 0.85:
            m = rng.choice([3, 10, r['n']])
            ops.append(['offset', rng.choice([0, rng.randint(-m, m), rng.randint(0, m), round(rng.uniform(-m, m), 3)])])
        elif x < 0.93 or mode not in ('drx', 'drx8'):
            ops.append(['reset'])
        else:
            ops.append(['levels'])
    ops.append(['read', 1])
    return {'rec': r, 'ops': ops, 'samples': rng.random() < 0.5}


def run(plan, devs=None):
    from lsl.reader import errors
    res = Result()
    L.prime()
    P = res.probes
    r = plan['rec']

    def probe(k, n=1):
        P[k] = P.get(k, 0) + n
    log = []
    root = tempfile.mkdtemp(prefix='p14-', dir=os.environ.get('SIM_SCRATCH') or None)
    try:
        R = L.Recording(r)
        paths = R.write(root, 'rec')
        if r['mode'] == 'cor' and not L.cor_supported():
            res.digest = res.sched = res.state = 'skipped'
            return res
        for k, v in (('truncated', bool(r['tail'])), ('split', len(paths) > 1)):
            if v:
                probe(k)
                res.faults[k] = 1
        st = r['n'] - len(set(k for k, _ in r['frames']))
        if st:
            probe('stalls')
            res.faults['stall'] = st
        f = None
        try:
            f = R.open(paths)
            _drive(plan, R, f, res, probe, log, errors)
        except Exception as e:
            import traceback
            res.violate('exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        finally:
            if f is not None:
                try:
                    f.close()
                except Exception as e:
                    res.violate('close', 'close() raised %s: %s' % (type(e).__name__, e))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    res.stats = {'sim_seconds': r['n'] * r['step'] / F.FS, 'ops': len(plan['ops'])}
    res.sched = res.state = L.digest(r, plan['ops'])
    res.digest = L.digest(log, res.violations)
    return res


def _drive(plan, R, f, res, probe, log, errors):
    r = plan['rec']
    rate = F.FS / r['step']
    toff = r.get('toff', 0)
    mode = r['mode']
    present = sorted(set(k for k, _ in r['frames']))
    gaps = len(present) != r['n']
    last = present[-1]
    margin = (64 // len(r['inputs']) + 2) if mode in ('drx', 'drx8') else 2      # steps at the end that offset() may not reach
    pos = 0                      # next step that read() has to give
    have_read = False
    for op in plan['ops']:
        if op[0] == 'reset':
            probe('resets')
            f.reset()
            pos, have_read = 0, False
            log.append('reset')
        elif op[0] == 'levels':
            probe('levels')
            try:
                f.estimate_levels(nframe=3)
            except errors.EOFError:
                if pos <= last - 2 * margin - r['nseg']:
                    res.violate('levels', 'estimate_levels() at step %d of %d raised EOFError' % (pos, last))
                    return
            log.append('levels')
        elif op[0] == 'read':
            probe('reads')
            try:
                d, t, data = f.read(op[1] / rate, time_in_samples=plan['samples'])
            except errors.EOFError:
                log.append('eof')
                if pos <= last:
                    res.violate('early-eof', 'the end of the file is reported at step %d of %d' % (pos, last))
                    return
                f.reset()
                pos, have_read = 0, False
                continue
            n = int(round(d * rate))
            if pos > last:
                res.violate('read-after-end', 'read() after the last step returned data')
                return
            if mode == 'drspec':
                seq = [k for k in present if k >= pos]
            else:
                seq = list(range(pos, last + 1))
            log.append((n, float(t) if t is not None else None))
            want = min(op[1], len(seq))
            if n != want:
                res.violate('short-read', 'read() of %d steps at step %d returned %d, expected %d' % (op[1], pos, n, want))
                return
            if not L.same_time(t, R.tag(seq[0]), toff, plan['samples']):
                off = ((float(t) * (1 if plan['samples'] else F.FS)) - (R.tag(0) - toff)) / r['step']
                res.violate('wrong-position', 'read() gives step %s, expected step %d (%s)' % (
                    round(off, 3), seq[0], json_ops(plan, log)))
                return
            bad = R.check_chunk(data, n, seq[:n], set())
            if bad:
                res.violate('wrong-data', bad)
                return
            pos = seq[n - 1] + 1
            have_read = True
        elif op[0] == 'offset':
            here = [pos]
            nxt = next((k for k in present if k >= pos), None)
            if nxt is None:
                f.reset()
                pos, have_read = 0, False
                log.append('end')
                continue
            if nxt != pos:
                here.append(nxt)
            dt = op[1] / rate
            target = pos + op[1]
            inside = 0 <= target - 2 and target + 2 <= last - margin and pos <= last - margin - r['nseg'] - 1
            try:
                got = f.offset(dt)
            except (errors.EOFError, errors.SyncError, OSError, ValueError, EOFError) as e:
                log.append('outside')
                if inside and not gaps:
                    res.violate('offset-error', 'offset(%s steps) at step %d of %d raised %s: %s' % (op[1], pos, last, type(e).__name__, e))
                    return
                probe('outside')
                f.reset()
                pos, have_read = 0, False
                continue
            probe('offsets')
            if op[1] < 0:
                probe('offset_back')
            if have_read:
                probe('offset_after_read')
            m = float(got) * rate
            log.append(('offset', round(m, 4)))
            new = [h + int(round(m)) for h in here if abs(m - round(m)) < 1e-2]
            new = [k for k in new if k in present]
            if not new:
                res.violate('offset-value', 'offset(%s steps) at step %d returned %r steps, which is not a position in the recording' % (op[1], pos, m))
                return
            tol = 2.001 if mode in ('drx', 'drx8') else 1.001
            if not gaps and pos + op[1] >= min(present) + 3 and abs(m - op[1]) > tol:
                res.violate('offset-far', 'offset(%s steps) at step %d returned %r steps' % (op[1], pos, m))
                return
            if len(new) > 1:
                # the step before a stall or the one after it: whichever the next read confirms
                d, t, data = f.read(1 / rate, time_in_samples=True)
                k = (int(t) - (R.tag(0) - toff)) / r['step']
                if k not in new:
                    res.violate('wrong-position', 'read() gives step %r after offset() returned %r at step %d' % (k, m, pos))
                    return
                pos, have_read = int(k) + 1, True
            else:
                pos, have_read = new[0], False


def json_ops(plan, log):
    return 'history %s' % (log[-6:],)


def shrink(plan):
    for i in range(len(plan['ops'])):
        yield dict(plan, ops=plan['ops'][:i] + plan['ops'][i + 1:])
    r = plan['rec']
    for k, v in (('head', 0), ('tail', 0), ('splits', [])):
        if r[k] != v:
            yield dict(plan, rec=dict(r, **{k: v}))
    full = [[k, i] for k in range(r['n']) for i in range(len(r['inputs']))]
    if r['frames'] != full:
        yield dict(plan, rec=dict(r, frames=full))
    for i, o in enumerate(plan['ops']):
        if len(o) > 1 and o[1] not in (0, 1):
            for v in (1, int(o[1] / 2), int(o[1])):
                if v != o[1] and (o[0] == 'offset' or v > 0):
                    yield dict(plan, ops=plan['ops'][:i] + [[o[0], v]] + plan['ops'][i + 1:])
