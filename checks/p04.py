"""P04  The in-memory cache behaves as the on-disk cache does, also between threads."""
from .common import *
from .cachelib import *

ID = 'P04'
LEVEL = 'exploration'
TECH = 'deterministic simulation of threads on the in-memory cache against a sequential model, and lock-step differential runs against the on-disk cache'
NOTE = ('Real MemoryCache and FileCache; preemption at every statement and expression; seeded search, not exhaustive. '
        'Restricted to opening one name at most once at a time per thread.')
TIERS = {'quick': {'runs': 2400, 'budget': 150, 'det': 40},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded plan: either 2-4 threads on one MemoryCache, or one history applied to a MemoryCache and a '
        'FileCache in lock step; distinct non-trivial = distinct history of results')
REAL = ['lsl.misc.file_cache, lsl.misc.file_lock from /repo']
STUB = ['kernel: file system, clock, scheduler']
ASSUMPTIONS = []
REQUIRED_PROBES = {'threads': 200, 'lockstep': 200, 'missing_read': 50, 'evicted': 50}


def setup():
    setup_procsim()


def gen(rng, tier):
    names = rng.sample(['a.txt', 'b.dat', 'sub/c.txt'], rng.choice([1, 2, 2, 3]))
    ids = [0]
    if rng.random() < 0.5:
        return {'kind': 'threads', 'names': names,
                'ops': [{'ops': gen_cache_ops(rng, rng.randint(2, 6), names, ids=ids, mv=True)} for _ in range(rng.choice([2, 2, 3, 4]))],
                'swarm': dict(swarm(rng), op_gap=rng.choice([4, 10, 30, 120]))}
    limit = 0 if rng.random() < 0.6 else rng.choice([5, 12, 30, 60, 120])
    return {'kind': 'lockstep', 'names': names, 'ops': gen_lock(rng, rng.randint(4, 20), names, limit), 'limit': limit,
            'swarm': dict(swarm(rng), op_gap=0)}


def gen_lock(rng, n, names, limit=0):
    out = []
    for i in range(n):
        x = rng.random()
        name = rng.choice(names)
        if x < 0.45:
            b = rng.random() < 0.5
            m = rng.choice(['w', 'a'])
            acts = []
            for k in range(rng.randint(0, 5)):
                c = [['write', 'L%d.%d%s' % (i, k, rng.choice(['\n', '', '\nmore\n', 'yyyyyyyyyyyy']))]] * 3 + [['write', ''], ['flush'], ['tell']]
                if m == 'w':
                    c += [['clear'], ['truncate'], ['seek', 0, 0], ['seek', 0, 2]]
                acts.append(rng.choice(c))
            if limit:
                # (an append of nothing is not a modification for a file system, and is one for the MemoryCache)
                acts.append(['write', 'E%d' % i])
            out.append({'op': 'write', 'name': name, 'mode': m + ('b' if b else ''), 'acts': acts})
        elif x < 0.8:
            out.append({'op': 'read', 'name': name, 'mode': rng.choice(['r', 'rb']),
                        'acts': [rng.choice([['read', -1], ['read', 3], ['read', 0], ['readline'], ['readline', 0], ['readline', 2], ['readline', 5], ['readline', 100], ['iter'], ['closed'], ['seek', 0, 0],
                                             ['seek', 2, 0], ['seek', 0, 2], ['tell']]) for k in range(rng.randint(1, 5))]})
        elif x < 0.85:
            out.append({'op': 'remove', 'name': name})
        elif x < 0.89:
            out.append({'op': 'rename', 'name': name, 'to': rng.choice([v for v in names if '/' not in v] or ['z.txt'])})
        elif x < 0.94:
            out.append({'op': 'size', 'name': name})
        else:
            out.append({'op': 'has', 'name': name})
    return out


def apply(sim, cache, o, who):
    """One operation; returns a comparable result."""
    r = []
    try:
        if o['op'] in ('write', 'read'):
            with cache.open(o['name'], o['mode']) as fh:
                r.append(('closed', fh.closed))
                for a in o['acts']:
                    if a[0] == 'write':
                        r.append(fh.write(a[1].encode() if 'b' in o['mode'] else a[1]))
                    elif a[0] == 'flush':
                        fh.flush()
                    elif a[0] == 'tell':
                        r.append(fh.tell())
                    elif a[0] == 'read':
                        r.append(fh.read(a[1]))
                    elif a[0] == 'readline':
                        r.append(fh.readline(*a[1:]))
                    elif a[0] == 'truncate':
                        r.append(fh.truncate(*a[1:]))
                    elif a[0] == 'clear':
                        # (truncating below the position and going on there is left out: files then grow by zeros)
                        r.append(fh.truncate(0))
                        r.append(fh.seek(0))
                    elif a[0] == 'closed':
                        r.append(fh.closed)
                    elif a[0] == 'iter':
                        r.append(list(fh))
                        fh.seek(0)
                    elif a[0] == 'seek':
                        r.append(fh.seek(a[1], a[2]))
            r.append(('closed', fh.closed))
            try:
                fh.read()
                r.append('read-after-close')
            except (OSError, ValueError):
                pass
        elif o['op'] == 'remove':
            r.append(cache.remove(o['name']))
        elif o['op'] == 'rename':
            r.append(cache.rename(o['name'], o['to']))
        elif o['op'] == 'size':
            r.append(cache.getsize(o['name']))
            r.append(cache.stat(o['name']).st_size)
            r.append(cache.getmtime(o['name']) // 1 == cache.stat(o['name']).st_mtime // 1)
        elif o['op'] == 'has':
            r.append(o['name'] in cache)
    except OSError as e:
        r.append(('OSError', isinstance(e, FileNotFoundError)) if o['op'] in ('read', 'write') else 'OSError')
        if o['op'] == 'read':
            sim.probe('missing_read')
    return r


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    m = CacheModel(sim)

    def body(c, spec):
        cache_task(sim, m, c, spec['ops'])

    def main(proc):
        mod = proc.imp('lsl.misc.file_cache')
        c = mod.MemoryCache()
        if plan['kind'] == 'threads':
            sim.probe('threads')
            ths = [sim.spawn(proc, lambda s=s: body(c, s), 't%d' % (k + 1)) for k, s in enumerate(plan['ops'][1:])]
            if plan['ops']:
                body(c, plan['ops'][0])
            for th in ths:
                sim.block(lambda th=th: th.state == 'done')
            ops = []
            for n in plan['names']:
                ops += [{'op': 'has', 'name': n, 'id': 1}, {'op': 'read', 'name': n, 'mode': 'rb', 'id': 2},
                        {'op': 'size', 'name': n, 'id': 3}]
            cache_task(sim, m, c, ops)
        else:
            sim.probe('lockstep')
            lim = plan.get('limit', 0) / 1024.**2
            f = mod.FileCache('/simfs/home/cache', max_size=lim)
            c = mod.MemoryCache(max_size=lim)
            mt = {}
            for o in plan['ops']:
                t0 = int(sim.now)
                a = apply(sim, c, o, 'mem')
                t1 = sim.now
                b = apply(sim, f, o, 'file')
                sim.event('step', op=o['op'], name=o['name'], r=repr(b)[:200])
                here = [n for n in plan['names'] if n in c]
                there = [n for n in plan['names'] if n in f]
                if o['op'] == 'rename' and o['name'] in mt:
                    mt[o['to']] = mt.pop(o['name'])
                if o['op'] == 'write' and any(n != o['name'] and n not in there for n in mt):
                    sim.probe('evicted')
                if a == b and here != there:
                    sim.violate('caches-differ', op=o, mem='holds %r' % here, file='holds %r' % there)
                    break
                for n in list(mt):
                    if n not in there:
                        del mt[n]
                sim.sleep(1)
                if a != b:
                    sim.violate('caches-differ', op=o, mem=repr(a)[:300], file=repr(b)[:300])
                    break
                if o['op'] == 'write':
                    mt[o['name']] = (t0, t1)
                elif o['op'] == 'remove':
                    mt.pop(o['name'], None)
                if o['name'] in mt:
                    got = c.getmtime(o['name'])
                    lo, hi = mt[o['name']]
                    if not (lo <= got <= hi):
                        sim.violate('wrong-mtime', got=got, expected=mt[o['name']], op=o)
                        break

    sim.start(sim.new_proc('p'), main)
    sim.run()
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        for t in p.tasks:
            if t.exc is not None:
                sim.violate('unexpected-exception', exc=repr(t.exc), tb=t.exc_tb[-600:])
        if p.data.get('exc') is not None:
            sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-600:])
    for w, d in sim.violations:
        res.violate(w, d)
    return finish(sim, res)
