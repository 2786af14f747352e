"""P15  Opening, failing and closing."""
import gc
import os
import shutil
import tempfile

from sim import core
from sim.harness import Result
from . import common as C
from . import frames as F
from . import ldplib as L
from . import simfile

ID = 'P15'
LEVEL = 'exploration'
TECH = 'deterministic simulation with injected open and read errors; seeded life cycles of data file objects against a reference model of the recording and a count of open descriptors'
NOTE = 'Real LDP classes, frame buffers and freshly compiled frame readers on recordings of a simulated recorder, behind a file layer that fails on demand.'
TIERS = {'quick': {'runs': 2000, 'budget': 150, 'det': 24},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 120}}
RULE = 'a case is one seeded recording, one seeded life cycle (open, recognise, read, offset, reset, close, reopen, exit) and one seeded sequence of open and read faults; distinct non-trivial = distinct history of calls, results and faults'
REAL = ['lsl.reader.{ldp,buffer,drx,drx8,drspec,tbx,cor,utils,base} from /repo', 'lsl.reader._gofast compiled from /repo']
STUB = ['data recorder', 'open() and the raw reads of data files (errors, short reads)']
ASSUMPTIONS = ['after an error the caller resets or closes the file', 'descriptors are counted after garbage collection']
REQUIRED_PROBES = {'opened': 800, 'open_failed': 60, 'read_failed': 100, 'reads': 2000, 'reads_after_error': 100, 'closed': 500, 'closed_twice': 100,
                   'exit_closed': 100, 'recognised': 200, 'not_data': 50, 'fault_read': 300, 'fault_open': 30, 'with': 100, 'split': 100}
CRASH_IS_VIOLATION = True
prepare = L.prepare


EXIT = []


def setup():
    import atexit
    real = atexit.register

    def register(fn, *a, **k):
        if str(getattr(fn, '__module__', '')).startswith('lsl.reader') or \
                str(type(getattr(fn, '__self__', None)).__module__).startswith('lsl.reader'):
            EXIT.append((fn, a, k))
        return real(fn, *a, **k)
    atexit.register = register
    L.setup()
    atexit.register = real
    from lsl.reader import ldp, utils
    simfile.install(ldp, utils)


def gen(rng, tier):
    mode = rng.choice(['drx', 'drx', 'drx8', 'tbx', 'tbx', 'drspec', 'drspec', 'cor'])
    r = L.gen_rec(rng, mode, faults=False, nseg=rng.choice([2, 3, 5]), fill=3)
    if mode in ('drx', 'drx8'):
        r['n'] += 40 // len(r['inputs'])
    r['frames'] = [[k, i] for k in range(r['n']) for i in range(len(r['inputs']))]
    r['ignore'] = True
    if rng.random() < 0.3:
        r['tail'] = 0.5
    if rng.random() < 0.25:
        r['splits'] = sorted(round(rng.random(), 4) for _ in range(rng.randint(1, 3)))
    ops = []
    for _ in range(rng.randint(2, 10)):
        x = rng.random()
        if x < 0.2:
            ops.append(['open', rng.choice(['class', 'class', 'auto', 'fh', 'with'])])
        elif x < 0.27:
            ops.append(['junk', rng.choice(['empty', 'short', 'noise', 'missing', 'dir', 'text']), rng.choice(['auto', 'class'])])
        elif x < 0.75:
            ops.append(['read', rng.choice([1, 2, 5, 20])])
        elif x < 0.83:
            ops.append(['reset'])
        elif x < 0.9:
            ops.append(['offset', rng.randint(0, 5)])
        else:
            ops.append(['close', rng.random() < 0.4])
    ops.insert(0, ['open', rng.choice(['class', 'auto', 'fh', 'with'])])
    w = {'p_fault': rng.choice([0, 0.003, 0.02, 0.1]), 'p_switch': 0}
    if rng.random() < 0.3:
        w['fault_kinds'] = rng.choice([['short'], ['EMFILE', 'EACCES']])
        w['p_fault'] = rng.choice([0.05, 0.2])
    for o in ops:
        o.append(int(rng.random() < (0.25 if o[0] in ('open', 'reset') else 0.7)))
    return {'seed': rng.randrange(1 << 40), 'swarm': w, 'rec': r, 'ops': ops, 'buffering': rng.choice([-1, -1, 100, 65536]),
            'recover': rng.random() < 0.8}


def fds(root):
    """descriptors of this process that are open on files below root"""
    n = []
    for x in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + x)
        except OSError:
            continue
        if p.startswith(root):
            n.append(os.path.basename(p))
    return sorted(n)


def run(plan, devs=None):
    from lsl.reader import errors, ldp
    res = Result()
    L.prime()
    sim = core.Sim(plan['seed'], plan['swarm'], devs, max_steps=3000000, max_ops=20000000)
    r = plan['rec']
    if r['mode'] == 'cor' and not L.cor_supported():
        res.digest = res.sched = res.state = 'skipped'
        return res
    root = os.path.realpath(tempfile.mkdtemp(prefix='p15-', dir=os.environ.get('SIM_SCRATCH') or None))
    proc = sim.new_proc('p', faultable=True)
    sim.injected = []
    try:
        R = L.Recording(r)
        paths = R.write(root, 'rec')
        if len(paths) > 1:
            sim.probe('split')
        junk = {'empty': b'', 'short': R.bytes[:20], 'noise': F.noise(plan['seed'], 9000), 'text': b'this is not data\n' * 300}
        for k, v in junk.items():
            with open(os.path.join(root, 'junk-' + k), 'wb') as fh:
                fh.write(v)
        os.mkdir(os.path.join(root, 'junk-dir'))
        box = {}

        def body():
            try:
                _life(plan, R, paths, root, sim, errors, ldp, box)
            finally:
                proc.faultable = False
                fs = box.pop('left', [])
                for f in fs:
                    try:
                        f.close()
                    except Exception:
                        pass
        sim.spawn(proc, body, 'm')
        sim.run()
        for t in sim.tasks:
            if t.exc is not None:
                sim.violate('exception', detail='%s: %s\n%s' % (type(t.exc).__name__, t.exc, t.exc_tb[-1500:]))
                t.exc = None
        if sim.stuck:
            sim.violate('stuck', detail=sim.stuck)
        box.clear()
        C.finish(sim, res)
        for what, kw in sim.violations:
            res.violate(what, kw.get('detail', ''))
        res.sched = res.state
        res.stats['sim_seconds'] = r['n'] * r['step'] / F.FS
    finally:
        # whatever happened, the next run starts with nothing open
        for fn, a, k in EXIT:
            try:
                fn(*a, **k)
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)
    return res


def _life(plan, R, paths, root, sim, errors, ldp, box):
    r = plan['rec']
    rate = F.FS / r['step']
    toff = r.get('toff', 0)
    ev = sim.event
    f, pos, dirty = None, 0, False
    open_now = []          # objects that are open and should be
    box['left'] = open_now
    base = fds(root)

    def injected():
        hard = [x for x in sim.injected if x[1] != 'short']
        del sim.injected[:]
        return hard

    def check_fds(where, want):
        have = fds(root)
        if len(have) > len(base) + want:
            gc.collect()
            have = fds(root)
        if len(have) != len(base) + want:
            sim.violate('descriptors', detail='%s: %d descriptors are open (%s), expected %d' % (where, len(have) - len(base), have[:4], want))
            return False
        return True

    def make(how):
        from lsl.reader.utils import SplitFileWrapper
        if how == 'auto' and r['mode'] != 'cor':
            if len(paths) > 1:
                return ldp.LWADataFile(fh=SplitFileWrapper(list(paths)), ignore_timetag_errors=r['ignore'])
            return ldp.LWADataFile(paths[0], ignore_timetag_errors=r['ignore'], buffering=plan['buffering'])
        if len(paths) > 1:
            return R.open(paths)
        return R.open(paths, buffering=plan['buffering'])

    def settings():
        from lsl.config import LSL_CONFIG
        for k in ('drx', 'tbx', 'cor'):
            LSL_CONFIG.set('ldp.%s_buffer_size' % k, r['nseg'])
        for k in ('drx', 'tbx'):
            LSL_CONFIG.set('ldp.%s_autofill_size' % k, r['fill'])

    settings()
    me = core.current().proc
    for op in plan['ops']:
        me.faultable = False
        if dirty and f is not None and plan['recover'] and op[0] in ('read', 'offset'):
            f.reset()
            pos, dirty = 0, False
            box['failed_before'] = True
            ev('recovered')
        injected()
        me.faultable = bool(op[-1])
        if op[0] == 'open':
            how = op[1]
            try:
                if how == 'with':
                    try:
                        with make('class') as g:
                            sim.probe('with')
                            check_fds('in a with block', len(open_now) + 1)
                            raise KeyError('from the block')
                    except KeyError as e:
                        if e.args != ('from the block',):
                            raise
                    if injected():
                        continue
                    ev('with')
                    if not check_fds('after a with block that raised', len(open_now)):
                        return
                    continue
                g = make(how)
                failed = False
            except Exception as e:
                failed = True
                bad = injected()
                ev('open-failed', exc=type(e).__name__)
                sim.probe('open_failed')
                if not bad:
                    sim.violate('open', detail='opening a good %s recording (%s) raised %s: %s' % (r['mode'], how, type(e).__name__, e))
                    return
            if failed:
                if not check_fds('after opening failed', len(open_now)):
                    return
                continue
            injected()
            ev('opened', how=how)
            sim.probe('opened')
            if how == 'auto':
                sim.probe('recognised')
                want = {'drx': ldp.DRXFile, 'drx8': ldp.DRX8File, 'tbx': ldp.TBXFile, 'drspec': ldp.DRSpecFile}.get(r['mode'])
                if want is not None and not isinstance(g, want):
                    open_now.append(g)
                    sim.violate('recognised', detail='a %s recording was opened as %s' % (r['mode'], type(g).__name__))
                    return
            open_now.append(g)
            f, pos, dirty = g, 0, False
            if not check_fds('after opening', len(open_now)):
                return
        elif op[0] == 'junk':
            p = os.path.join(root, 'junk-' + op[1])
            try:
                if op[2] == 'auto':
                    g = ldp.LWADataFile(p)
                else:
                    g = {'drx': ldp.DRXFile, 'drx8': ldp.DRX8File, 'tbx': ldp.TBXFile, 'drspec': ldp.DRSpecFile, 'cor': ldp.CORFile}[r['mode']](p)
                sim.violate('junk', detail='%s was opened as %s' % (op[1], type(g).__name__))
                return
            except Exception as e:
                ev('junk', what=op[1], exc=type(e).__name__)
            sim.probe('not_data')
            if not check_fds('after opening a file that is not data (%s, %s)' % (op[1], op[2]), len(open_now)):
                return
        elif f is None:
            continue
        elif op[0] == 'read':
            try:
                d, t, data = f.read(op[1] / rate, time_in_samples=True)
            except errors.EOFError:
                bad = injected()
                ev('eof')
                if bad:
                    sim.violate('error-as-eof', detail='an I/O error (%s) was reported as the end of the file' % (bad[0],))
                    return
                if not dirty and pos < r['n']:
                    sim.violate('early-eof', detail='the end of the file is reported at step %d of %d' % (pos, r['n']))
                    return
                continue
            except Exception as e:
                bad = injected()
                ev('read-failed', exc=type(e).__name__)
                sim.probe('read_failed')
                if not bad:
                    if dirty:
                        continue
                    sim.violate('read-error', detail='read() at step %d of %d raised %s: %s' % (pos, r['n'], type(e).__name__, e))
                    return
                dirty = True
                continue
            bad = injected()
            ev('read', d=round(d * rate, 3), t=int(t))
            if bad:
                sim.violate('error-hidden', detail='read() returned data although an I/O error (%s) occurred' % (bad[0],))
                return
            if dirty:
                continue
            sim.probe('reads')
            if box.get('failed_before'):
                sim.probe('reads_after_error')
            n = int(round(d * rate))
            want = min(op[1], r['n'] - pos)
            if n != want:
                sim.violate('short-read', detail='read() of %d steps at step %d returned %d' % (op[1], pos, n))
                return
            if not L.same_time(t, R.tag(pos), toff, True):
                sim.violate('wrong-position', detail='read() gives step %r, expected step %d' % ((int(t) + toff - R.tag(0)) / r['step'], pos))
                return
            x = R.check_chunk(data, n, list(range(pos, pos + n)), set())
            if x:
                sim.violate('wrong-data', detail=x)
                return
            pos += n
        elif op[0] == 'reset':
            try:
                f.reset()
                pos = 0
                if dirty:
                    box['failed_before'] = True
                dirty = False
                ev('reset')
                injected()
            except Exception as e:
                ev('reset-failed', exc=type(e).__name__)
                if not injected():
                    sim.violate('reset', detail='reset() raised %s: %s' % (type(e).__name__, e))
                    return
                dirty = True
        elif op[0] == 'offset':
            try:
                m = f.offset(op[1] / rate) * rate
                ev('offset', m=round(m, 3))
                injected()
                pos = pos + int(round(m))
            except Exception as e:
                ev('offset-failed', exc=type(e).__name__)
                dirty = True
                injected()
        elif op[0] == 'close':
            open_now.remove(f)
            f.close()
            ev('close')
            sim.probe('closed')
            if not check_fds('after close()', len(open_now)):
                return
            if op[1]:
                f.close()
                sim.probe('closed_twice')
            try:
                f.read(1 / rate)
                sim.violate('read-closed', detail='read() worked on a closed file')
                return
            except Exception:
                pass
            f = open_now[-1] if open_now else None
            dirty = True
    if open_now and EXIT:
        # what runs when the interpreter exits
        me.faultable = False
        for fn, a, k in EXIT:
            fn(*a, **k)
        del open_now[:]
        sim.probe('exit_closed')
        check_fds('at exit', 0)


def shrink(plan):
    for i in range(1, len(plan['ops'])):
        yield dict(plan, ops=plan['ops'][:i] + plan['ops'][i + 1:])
    r = plan['rec']
    for k, v in (('tail', 0), ('splits', [])):
        if r[k] != v:
            yield dict(plan, rec=dict(r, **{k: v}))
