"""P16  Recordings that are read side by side."""
import os
import shutil
import tempfile

import numpy as np

from sim import core, native
from sim.harness import BuildFailure, Result
from . import common as C
from . import frames as F
from . import ldplib as L
from . import p13
from . import simfile

ID = 'P16'
LEVEL = 'exploration'
TECH = 'deterministic simulation: threads that read different recordings under a seeded scheduler that switches inside file reads, where the compiled readers release the GIL, and between Python operations; each thread is compared with the reference model of its own recording'
NOTE = 'Real LDP classes, frame buffers and freshly compiled frame readers; their GIL handling is turned into preemption points at link time.'
TIERS = {'quick': {'runs': 700, 'budget': 150, 'det': 24},
         'thorough': {'runs': 30000, 'budget': 800, 'det': 100}}
RULE = 'a case is one seeded set of recordings and of read sequences, one per thread, and one seeded schedule; distinct non-trivial = distinct schedule'
REAL = ['lsl.reader.{ldp,buffer,drx,drx8,drspec,tbx,cor,vdif,utils,base} from /repo', 'lsl.reader._gofast compiled from /repo']
STUB = ['data recorders and their networks', 'thread scheduler, GIL hand-over']
ASSUMPTIONS = ['a file object is used by one thread', 'ldp settings are the same for all files', 'inside a region without the GIL other threads run before or after the region, not in the middle of it']
REQUIRED_PROBES = {'chunks': 1500, 'raw_frames': 3000, 'gil_points': 5000, 'switch_in_gil': 300, 'switches': 3000, 'same_file': 40,
                   'two_shapes': 60, 'finished': 700, 'mixed_types': 60}
CRASH_IS_VIOLATION = True


def _lib():
    base = os.environ.get('SIM_SCRATCH') or tempfile.gettempdir()
    if os.environ.get('SIM_LIB_gofast_gil'):
        return os.environ['SIM_LIB_gofast_gil']
    return native.libdir_for('gofast_gil', ['reader._gofast'], ldflags=native.gil_object(base))


def prepare(scratch):
    try:
        _lib()
    except native.BuildError as e:
        raise BuildFailure(str(e))


def setup():
    native.activate(_lib(), points=('lsl.reader.',))
    from lsl.reader import ldp, utils, vdif, _gofast   # noqa
    simfile.install(ldp, utils)
    native.gil_hook(_gofast, gil_point)


def gil_point(what):
    t = core.current()
    if t is not None:
        s = t.sim
        s.probe('gil_points')
        n = s.nswitch
        s.op('gil', what)
        if s.nswitch != n:
            s.probe('switch_in_gil')


def gen(rng, tier):
    nseg, fill = rng.choice([2, 3, 5]), rng.choice([1, 3, 25])
    tasks = []
    focus = rng.choice([None, None, 'tbx', 'cor', 'drspec', 'drx'])
    for k in range(rng.choice([2, 2, 3, 4])):
        if tasks and rng.random() < 0.15:
            t = dict(tasks[-1], same=len(tasks) - 1)
            if rng.random() < 0.5:
                t['ops'] = [[rng.choice([1, 2, 5]), 0]]
            tasks.append(t)
            continue
        if rng.random() < 0.45:
            mode = focus if focus in ('tbx', 'cor', 'drspec') else rng.choice(['drx', 'drx8', 'tbx', 'tbx', 'vdif', 'cor', 'drspec'])
            t = {'kind': 'raw', 'mode': mode, 'seed': rng.randrange(1 << 30), 'n': rng.choice([3, 8, 20]), 'ci8': rng.random() < 0.4}
            if mode == 'tbx':
                t['nstand'], t['nchan'] = rng.choice([64, 128, 256]), rng.choice([4, 8, 12, 16])
            elif mode == 'cor':
                t['nchan'] = rng.choice(L.COR_NCHAN)
            elif mode == 'drspec':
                t['fmt'], t['nfreq'] = rng.choice(sorted(F.DRSPEC_PRODS)), rng.choice([32, 64, 128])
            elif mode == 'vdif':
                t['size'] = rng.choice([128, 512, 4096])
        else:
            mode = focus if focus in ('tbx', 'cor', 'drspec', 'drx') else rng.choice(['drx', 'drx8', 'tbx', 'drspec', 'cor'])
            while True:
                rec = L.gen_rec(rng, mode, faults=rng.random() < 0.5, nseg=nseg, fill=fill)
                if rec['n'] * len(rec['inputs']) < 400:
                    break
            t = {'kind': 'ldp', 'rec': rec, 'ops': [[rng.choice([1, 2, 5, 12]), 0] for _ in range(rng.randint(1, 3))],
                 'samples': rng.random() < 0.5, 'ci8': rng.random() < 0.3 and mode in ('drx', 'drx8', 'tbx'),
                 'how': rng.choice(['read', 'read', 'seq']), 'reset': rng.choice([None, None, 1])}
        t['same'] = None
        tasks.append(t)
    w = {'p_switch': rng.choice([0.02, 0.1, 0.4]), 'op_gap': rng.choice([0, 0, 300, 2000])}
    return {'seed': rng.randrange(1 << 40), 'swarm': w, 'tasks': tasks, 'nseg': nseg, 'fill': fill}


# ------------------------------------------------------------------ frame by frame
def raw_frames(t):
    """[(bytes, check(frame) -> None or text)]"""
    out = []
    rng = np.random.RandomState(t['seed'])
    m = t['mode']
    t0 = F.GUARD + 10**15
    for k in range(t['n']):
        sd = (t['seed'] + 31 * k) & 0xffffffff
        tag = t0 + 40960 * k + int(rng.randint(0, 1000))
        if m in ('drx', 'drx8'):
            wide = m == 'drx8'
            d = F.noise(sd, 8192 if wide else 4096)
            ident = (1 + k % 4, 1 + (k // 2) % 2, k % 2)
            b = F.drx(ident[0], ident[1], ident[2], tag, d, tword=1000 + k, wide=wide)
            if t['ci8']:
                e = F.dec8i(d) if wide else F.dec4i(d)
            else:
                e = F.dec8(d) if wide else F.dec4(d)
            out.append((b, ident, tag, e))
        elif m == 'tbx':
            d = F.noise(sd, t['nstand'] * t['nchan'] * 2)
            b = F.tbx(tag, 100 + k, t['nstand'], t['nchan'], d, count=k + 1)
            e = (F.dec4i(d).reshape(t['nchan'], t['nstand'], 2, 2) if t['ci8'] else F.dec4(d).reshape(t['nchan'], t['nstand'], 2))
            out.append((b, 100 + k, tag, e))
        elif m == 'cor':
            v = (np.random.RandomState(sd).rand(t['nchan'] * 8).astype(np.float32) + 0.5)
            b = F.cor(tag, 100 + k, 1 + k, 2 + k, v.tobytes())
            out.append((b, (1 + k, 2 + k), tag, v.view(np.complex64).reshape(t['nchan'], 2, 2)))
        elif m == 'drspec':
            prods = F.DRSPEC_PRODS[t['fmt']]
            v = np.random.RandomState(sd).rand(2, t['nfreq'], len(prods)).astype(np.float32) * 1000 + 1
            fills = [1 + (k + j) % 700 for j in range(4)]
            b = F.drspec(tag, v, t['fmt'], t['nfreq'], 768, beam=1 + k % 4, fills=fills)
            out.append((b, 1 + k % 4, tag, F.dec_drspec(v, t['fmt'], fills)))
        else:
            d = F.noise(sd, t['size'])
            b = F.vdif(1000 + k, k, k % 7, d, station=100 + k % 5)
            out.append((b, k % 7, (1000 + k, k), F.dec_vdif4(d) if not t['ci8'] else None))
    return out


def run_raw(t, path, sim, lg):
    from lsl.reader import drx, drx8, tbx, cor, drspec, vdif, errors
    mod = {'drx': drx, 'drx8': drx8, 'tbx': tbx, 'cor': cor, 'drspec': drspec, 'vdif': vdif}[t['mode']]
    fn = mod.read_frame
    if t['ci8'] and t['mode'] in ('drx', 'drx8', 'tbx'):
        fn = mod.read_frame_ci8
    elif t['ci8'] and t['mode'] == 'vdif':
        fn = mod.read_frame_i8 if hasattr(mod, 'read_frame_i8') else mod.read_frame
    fh = simfile.opener(path, 'rb')
    try:
        for k, (b, ident, tag, e) in enumerate(raw_frames(t)):
            f = fn(fh)
            sim.probe('raw_frames')
            bad = None
            if t['mode'] == 'vdif':
                got = (f.header.seconds_from_epoch, f.header.frame_in_second)
                gid = f.header.thread_id
            elif t['mode'] == 'cor':
                got, gid = f.payload.timetag, tuple(f.id)
            elif t['mode'] == 'tbx':
                got, gid = f.payload.timetag, f.header.first_chan
            elif t['mode'] == 'drspec':
                got, gid = f.payload.timetag, f.id
            else:
                got, gid = f.payload.timetag, tuple(f.id)
            if got != tag or gid != ident:
                bad = 'is frame %r of %r, expected frame %r of %r' % (got, gid, tag, ident)
            elif e is not None:
                if t['mode'] == 'drspec':
                    rows = [getattr(f.payload, '%s%i' % (p, tun)) for tun in (0, 1) for p in F.DRSPEC_PRODS[t['fmt']]]
                    a = np.array(rows)
                else:
                    a = np.asarray(f.payload.data)
                    if a.dtype.names:
                        a = np.stack([a['re'], a['im']], axis=-1).reshape(e.shape)
                if a.shape != e.shape or not np.allclose(a, e, rtol=1e-5, atol=1e-6):
                    bad = 'does not hold what was recorded (shape %r, expected %r)' % (a.shape, e.shape)
            lg.append((k, bad is None))
            if bad:
                sim.violate('isolation', detail='%s: frame %d of its %s recording %s' % (core.current().name, k, t['mode'], bad))
                return
        try:
            fn(fh)
            sim.violate('isolation', detail='a frame was read after the end of the recording')
        except errors.EOFError:
            pass
        sim.probe('finished')
    finally:
        fh.close()


def run(plan, devs=None):
    from lsl.reader import errors
    from lsl.config import LSL_CONFIG
    for k, v in (('drx_buffer_size', plan['nseg']), ('drx_autofill_size', plan['fill']), ('tbx_buffer_size', plan['nseg']),
                 ('tbx_autofill_size', plan['fill']), ('cor_buffer_size', plan['nseg'])):
        LSL_CONFIG.set('ldp.' + k, v)
    res = Result()
    L.prime()
    sim = core.Sim(plan['seed'], plan['swarm'], devs, max_steps=5000000, max_ops=200000000)
    root = tempfile.mkdtemp(prefix='p16-', dir=os.environ.get('SIM_SCRATCH') or None)
    proc = sim.new_proc('p')
    try:
        ctx = {}
        shapes = set()
        for n, t in enumerate(plan['tasks']):
            if t['kind'] == 'ldp':
                shapes.add((t['rec']['mode'], t['rec'].get('nchan'), t['rec'].get('nstand'), t['rec'].get('fmt')))
            else:
                shapes.add((t['mode'], t.get('nchan'), t.get('nstand'), t.get('fmt')))
            if t['same'] is not None and t['same'] in ctx:
                ctx[n] = ctx[t['same']]
                sim.probe('same_file')
                continue
            if t['kind'] == 'ldp':
                R = L.Recording(t['rec'])
                ctx[n] = (R, R.write(root, 'rec%d' % n), R.steps(), R.late())
                if R.late() or t['rec']['frames'] != sorted(t['rec']['frames']):
                    sim.count_fault('recording:reordered')
                if t['rec']['tail']:
                    sim.count_fault('recording:truncated')
                if len(t['rec']['frames']) < t['rec']['n'] * len(t['rec']['inputs']):
                    sim.count_fault('recording:loss')
            else:
                p = os.path.join(root, 'raw%d' % n)
                with open(p, 'wb') as fh:
                    fh.write(b''.join(x[0] for x in raw_frames(t)))
                ctx[n] = p
        modes = [s[0] for s in shapes]
        if len(modes) != len(set(modes)):
            sim.probe('two_shapes')
        if len(set(modes)) > 1:
            sim.probe('mixed_types')

        def body(n, t):
            lg = []
            try:
                if t['kind'] == 'raw':
                    run_raw(t, ctx[n], sim, lg)
                else:
                    if t['rec']['mode'] == 'cor' and not L.cor_supported():
                        return
                    R, paths, seq, late = ctx[n]
                    sub = Result()
                    if t['rec']['mode'] == 'tbx' or late:
                        sub.faults['any'] = 1
                    f = R.open(paths)
                    try:
                        p13._read_all(t, R, f, seq, late, sub, sim.probe, lg, errors)
                    finally:
                        f.close()
                    for v in sub.violations:
                        sim.violate('isolation', detail='%s, which reads %s: %s' % (core.current().name, t['rec']['mode'], v))
                    sim.probe('finished')
            finally:
                sim.event('done', log=repr(lg))

        for n, t in enumerate(plan['tasks']):
            sim.spawn(proc, lambda n=n, t=t: body(n, t), 't%d' % n)
        sim.run()
        for t in sim.tasks:
            if t.exc is not None:
                sim.violate('exception', detail='%s: %s\n%s' % (t.name, t.exc, t.exc_tb[-1500:]))
        if sim.stuck or sim.deadlock:
            sim.violate('stuck', detail='%s %s' % (sim.stuck, sim.deadlock))
        sim.probe('switches', sim.nswitch)
        C.finish(sim, res)
        for what, kw in sim.violations:
            res.violate(what, kw.get('detail', ''))
        res.stats['sim_seconds'] = sum(t['rec']['n'] * t['rec']['step'] / F.FS for t in plan['tasks'] if t['kind'] == 'ldp')
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res


def shrink(plan):
    for i in range(len(plan['tasks'])):
        if any(t['same'] == i for t in plan['tasks']) or len(plan['tasks']) < 2:
            continue
        ts = [dict(t, same=(t['same'] - (t['same'] > i)) if t['same'] is not None else None) for j, t in enumerate(plan['tasks']) if j != i]
        yield dict(plan, tasks=ts)
    for i, t in enumerate(plan['tasks']):
        if t['kind'] == 'raw' and t['n'] > 1 and t['same'] is None and not any(x['same'] == i for x in plan['tasks']):
            yield dict(plan, tasks=plan['tasks'][:i] + [dict(t, n=t['n'] // 2)] + plan['tasks'][i + 1:])
