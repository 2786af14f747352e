"""P18  Split recordings."""
import os
import shutil
import tempfile

from sim import core
from sim.harness import Result
from . import common as C
from . import frames as F
from . import ldplib as L
from . import simfile

ID = 'P18'
LEVEL = 'exploration'
TECH = 'deterministic simulation of file access with injected open errors, read errors and short reads; seeded operation sequences of one or two readers compared with the concatenation of the parts'
NOTE = 'Real SplitFileWrapper and FilePositionSaver over a file layer that fails on demand.'
TIERS = {'quick': {'runs': 12000, 'budget': 120, 'det': 40},
         'thorough': {'runs': 600000, 'budget': 800, 'det': 200}}
RULE = 'a case is one seeded set of parts (sizes, also empty, names out of order), one seeded sequence of reads, seeks and position savers and one seeded sequence of faults; distinct non-trivial = distinct history of calls, results and faults'
REAL = ['lsl.reader.utils from /repo']
STUB = ['open() and the raw reads of the parts (errors, short reads)', 'thread scheduler']
ASSUMPTIONS = ['the parts do not change while they are read', 'a read that fails may have moved on, as with any file, but tell() says where it is']
REQUIRED_PROBES = {'reads': 20000, 'across': 3000, 'across_many': 500, 'seeks': 8000, 'seek_failed': 300, 'before_start': 300, 'past_end': 300,
                   'failed_open': 200, 'failed_read': 300, 'after_error': 500, 'read_all': 500, 'savers': 800, 'saver_raised': 100, 'empty_part': 500,
                   'closed': 500, 'short': 200}
CRASH_IS_VIOLATION = True
prepare = L.prepare


def setup():
    L.setup()
    from lsl.reader import utils
    simfile.install(utils)
    simfile.RAW_SHORT = True


def gen(rng, tier):
    users = []
    nparts = rng.choice([1, 2, 2, 3, 5, 9])
    scale = rng.choice([10, 100, 3000, 20000])
    sizes = [rng.choice([0, 1, rng.randint(1, scale), scale]) if rng.random() < 0.8 else 8192 for _ in range(nparts)]
    total = sum(sizes)
    edges = [sum(sizes[:i]) for i in range(nparts + 1)]

    def ops(n, depth=0):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < 0.5:
                out.append(['read', rng.choice([0, 1, rng.randint(0, scale), scale, 2 * scale, total + 5, -1, None])])
            elif x < 0.85:
                w = rng.choice([0, 0, 1, 2])
                e = rng.choice(edges) + rng.choice([0, 0, -1, 1, rng.randint(-scale, scale)])
                out.append(['seek', {0: e, 1: rng.randint(-scale, scale), 2: e - total}[w], w])
            elif x < 0.95 and depth < 2:
                out.append(['save', ops(rng.randint(0, 3), depth + 1), rng.random() < 0.3])
            else:
                out.append(['tell'])
        return out
    for _ in range(rng.choice([1, 1, 2])):
        users.append({'ops': ops(rng.randint(4, 25)), 'buffering': rng.choice([-1, -1, -1, 0, 16, 4096]), 'with': rng.random() < 0.3})
    w = {'p_switch': rng.choice([0, 0.2]), 'p_fault': rng.choice([0, 0, 0.02, 0.1])}
    if rng.random() < 0.3:
        w['fault_kinds'] = rng.choice([['short'], ['EIO'], ['EMFILE', 'EACCES']])
    return {'seed': rng.randrange(1 << 40), 'swarm': w, 'sizes': sizes, 'users': users, 'order': rng.choice(['sorted', 'shuffled', 'given'])}


def run(plan, devs=None):
    from lsl.reader.utils import SplitFileWrapper, FilePositionSaver
    res = Result()
    sim = core.Sim(plan['seed'], plan['swarm'], devs, max_steps=3000000, max_ops=20000000)
    root = tempfile.mkdtemp(prefix='p18-', dir=os.environ.get('SIM_SCRATCH') or None)
    proc = sim.new_proc('p')
    names, data = [], b''
    try:
        for n, z in enumerate(plan['sizes']):
            b = F.noise(plan['seed'] + n, z)
            p = os.path.join(root, 'rec.%03d' % n)
            with open(p, 'wb') as fh:
                fh.write(b)
            names.append(p)
            data += b
        if 0 in plan['sizes']:
            sim.probe('empty_part')
        given, sort = list(names), True
        if plan['order'] == 'shuffled':
            given = sorted(names, key=lambda x: hash_(x[-3:], plan['seed']))
        elif plan['order'] == 'given':
            given = sorted(names, key=lambda x: hash_(x[-3:], plan['seed']))
            sort = False
            data = b''.join(F.noise(plan['seed'] + int(x[-3:]), plan['sizes'][int(x[-3:])]) for x in given)

        def body(u):
            fh = SplitFileWrapper(list(given), sort=sort, buffering=u['buffering'])
            if fh.size != len(data):
                sim.violate('size', detail='size is %r, expected %r' % (fh.size, len(data)))
                return
            if u['with']:
                with fh:
                    ok = drive(u['ops'], fh, data, sim, plan, FilePositionSaver, [False])
            else:
                ok = drive(u['ops'], fh, data, sim, plan, FilePositionSaver, [False])
                fh.close()
            if not ok:
                return
            sim.probe('closed')
            fh.close()
            for f in (lambda: fh.read(1), lambda: fh.seek(0), lambda: fh.tell()):
                try:
                    f()
                    sim.violate('closed', detail='a closed split file can still be used')
                except ValueError:
                    pass
            if not fh.closed:
                sim.violate('closed', detail='closed is False after close()')

        for n, u in enumerate(plan['users']):
            sim.spawn(proc, lambda u=u: body(u), 'u%d' % n)
        proc.faultable = True
        sim.run()
        for t in sim.tasks:
            if t.exc is not None:
                if isinstance(t.exc, OSError) and t.exc.errno in simfile.ERR.values() and 'SplitFileWrapper(' in t.exc_tb:
                    continue     # the first part could not be opened
                sim.violate('exception', detail='%s: %s\n%s' % (type(t.exc).__name__, t.exc, t.exc_tb[-1500:]))
        if sim.stuck:
            sim.violate('stuck', detail=sim.stuck)
        C.finish(sim, res)
        for what, kw in sim.violations:
            res.violate(what, kw.get('detail', ''))
        if len(plan['users']) == 1:
            res.sched = res.state
        res.probes['short'] = res.faults.get('read:short', 0)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res


def hash_(x, seed):
    import hashlib
    return hashlib.sha1(('%s|%s' % (x, seed)).encode()).hexdigest()


def drive(ops, fh, data, sim, plan, Saver, err):
    ev = sim.event
    total = len(data)
    bounds = set()
    s = 0
    for z in plan['sizes'][:-1]:
        s += z
        bounds.add(s)
    me = core.current().proc

    def bad(kind, text):
        sim.violate(kind, detail=text)
        return False
    pos = fh.tell()
    for op in ops:
        if op[0] == 'tell':
            t = fh.tell()
            if t != pos:
                return bad('tell', 'tell() is %r, expected %r' % (t, pos))
        elif op[0] == 'read':
            n = op[1]
            try:
                b = fh.read(n) if n is not None else fh.read()
            except OSError as e:
                if e.errno not in simfile.ERR.values():
                    raise
                ev('read-failed', e=e.errno)
                sim.probe('failed_open' if e.errno in (simfile.ERR['EMFILE'], simfile.ERR['EACCES']) else 'failed_read')
                t = fh.tell()
                if not (pos <= t <= max(pos, total)):
                    return bad('tell', 'after a failed read from %d tell() is %d' % (pos, t))
                pos, err[0] = t, True
                continue
            want = data[pos:] if n is None or n < 0 else data[pos:pos + n]
            ev('read', n=n, got=len(b))
            sim.probe('reads')
            if err[0]:
                sim.probe('after_error')
            if n is None or n < 0:
                sim.probe('read_all')
            k = sum(1 for x in bounds if pos < x < pos + len(want))
            if k:
                sim.probe('across')
            if k > 1:
                sim.probe('across_many')
            if b != want:
                return bad('wrong-data', 'read(%r) at %d of %d returned %d bytes%s, expected %d (parts of %s bytes)' % (
                    n, pos, total, len(b), '' if len(b) != len(want) else ' that differ', len(want), plan['sizes']))
            pos += len(b)
            if fh.tell() != pos:
                return bad('tell', 'tell() is %r after a read, expected %r' % (fh.tell(), pos))
        elif op[0] == 'seek':
            target = op[1] + {0: 0, 1: pos, 2: total}[op[2]]
            try:
                r = fh.seek(op[1], op[2])
            except (OSError, ValueError) as e:
                ev('seek-failed', e=getattr(e, 'errno', None))
                inj = isinstance(e, OSError) and e.errno in simfile.ERR.values()
                if target >= 0 and not inj:
                    return bad('seek', 'seek(%d, %d) at %d of %d raised %s' % (op[1], op[2], pos, total, e))
                sim.probe('seek_failed')
                if target < 0:
                    sim.probe('before_start')
                if fh.tell() != pos:
                    return bad('seek-moved', 'a seek that failed moved the file from %d to %d' % (pos, fh.tell()))
                continue
            ev('seek', to=target)
            sim.probe('seeks')
            if target < 0:
                return bad('seek', 'seek(%d, %d) at %d went to %r' % (op[1], op[2], pos, fh.tell()))
            if target > total:
                sim.probe('past_end')
            if r != target:
                return bad('seek', 'seek(%d, %d) at %d of %d returned %r' % (op[1], op[2], pos, total, r))
            pos = target
            if fh.tell() != pos:
                return bad('tell', 'tell() is %r after seek(%d, %d), expected %r' % (fh.tell(), op[1], op[2], pos))
        elif op[0] == 'save':
            me.faultable, was = me.faultable, me.faultable
            try:
                with Saver(fh):
                    if not drive(op[1], fh, data, sim, plan, Saver, err):
                        return False
                    if op[2]:
                        raise KeyError('from the block')
                    me.faultable = False
            except KeyError as e:
                sim.probe('saver_raised')
                if e.args != ('from the block',):
                    raise
            except OSError as e:
                if e.errno not in simfile.ERR.values():
                    raise
                pos = fh.tell()
                ev('save-failed')
                continue
            finally:
                me.faultable = was
            sim.probe('savers')
            ev('saved')
            if fh.tell() != pos:
                return bad('saver', 'the saved position is %d, the file is at %d' % (pos, fh.tell()))
    return True


def shrink(plan):
    if len(plan['users']) > 1:
        for i in range(len(plan['users'])):
            yield dict(plan, users=plan['users'][:i] + plan['users'][i + 1:])
    for i, u in enumerate(plan['users']):
        for j in range(len(u['ops'])):
            yield dict(plan, users=plan['users'][:i] + [dict(u, ops=u['ops'][:j] + u['ops'][j + 1:])] + plan['users'][i + 1:])
    if plan['order'] != 'sorted':
        yield dict(plan, order='sorted')
