"""P02  The on-disk cache is safe to share between threads and processes."""
from .common import *
from .cachelib import *

ID = 'P02'
LEVEL = 'exploration'
TECH = 'deterministic simulation of processes and threads sharing an on-disk cache with crashes and disk faults, against a sequential reference model'
NOTE = ('Real FileCache/FileLock code over a simulated kernel; seeded search, not exhaustive. Assumes local-file-system '
        'flock semantics and kill -9 (not power-loss) crashes.')
TIERS = {'quick': {'runs': 2000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded plan of 1-3 processes x 1-2 threads doing writes, appends, reads, removes and queries on '
        '1-3 cached files with a seeded schedule, crashes and injected disk errors; distinct non-trivial = distinct '
        'history of results')
REAL = ['lsl.misc.file_cache.FileCache and lsl.misc.file_lock from /repo', 'Python io stack above the raw file']
STUB = ['kernel: file system, flock, clock, scheduler, process death']
ASSUMPTIONS = ['flock(2) semantics of a local Linux file system', 'kill -9 crash model (no power loss)']
REQUIRED_PROBES = {'runs_contended': 50, 'crash_in_op': 3}


def setup():
    setup_procsim()


def gen(rng, tier):
    names = rng.sample(['a.txt', 'b.dat', 'sub/c.txt'], rng.choice([1, 2, 2, 3]))
    ids = [0]
    procs = []
    for p in range(rng.choice([1, 2, 2, 3])):
        procs.append({'share': rng.random() < 0.6,
                      'ops': [{'ops': gen_cache_ops(rng, rng.randint(2, 6), names, ids=ids, mv=True)}
                              for _ in range(rng.choice([1, 1, 2]))]})
    return {'ops': procs, 'names': names, 'mkdir': rng.random() < 0.5,
            'swarm': swarm(rng, crash=0.002, fault=0.006, jump=0.001,
                           kinds=['EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'ENOLCK', 'SHORT'])}


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    if plan['mkdir']:
        sim.vfs.mkdirs('/home/cache')
    m = CacheModel(sim)
    old_kill = sim.kill

    def kill(proc, why='kill'):
        if any(t.proc is proc and ops for t, ops in m.inflight.items()):
            sim.probe('crash_in_op')
        m.killed(proc)
        old_kill(proc, why)
    sim.kill = kill

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def body(proc, spec, shared, mod):
        c = shared
        if c is None:
            f0 = nf(current())
            try:
                c = mod.FileCache('/simfs/home/cache')
            except OSError as e:
                sim.event('ctor-exc', exc=repr(e))
                if nf(current()) == f0:
                    sim.violate('constructor-raised', exc=repr(e))
                return
        if any(x.proc.alive and x is not current() for x in m.bodies):
            sim.probe('runs_contended')
        cache_task(sim, m, c, spec['ops'])

    def main(proc, spec):
        mod = proc.imp('lsl.misc.file_cache')
        shared = None
        if spec['share'] or not spec['ops']:
            f0 = nf(current())
            try:
                shared = mod.FileCache('/simfs/home/cache')
            except OSError as e:
                sim.event('ctor-exc', exc=repr(e))
                if nf(current()) == f0:
                    sim.violate('constructor-raised', exc=repr(e))
                return
        ths = [sim.spawn(proc, lambda s=s: body(proc, s, shared, mod), 't%d' % (k + 1))
               for k, s in enumerate(spec['ops'][1:])]
        if spec['ops']:
            body(proc, spec['ops'][0], shared, mod)
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')
        left = sorted(str(f.path) for f in proc.fds.values())
        if left:
            sim.violate('file-handle-leaked', files=left)

    for i, spec in enumerate(plan['ops']):
        sim.start(sim.new_proc('p%d' % i, crashable=True, faultable=True), main, spec)
    sim.run()
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    else:
        sim.faults_on = False

        def fresh(proc):
            mod = proc.imp('lsl.misc.file_cache')
            c = mod.FileCache('/simfs/home/cache')
            ops = []
            for n in plan['names']:
                ops += [{'op': 'has', 'name': n, 'id': 1}, {'op': 'read', 'name': n, 'mode': 'rb', 'id': 2},
                        {'op': 'size', 'name': n, 'id': 3}]
            t0 = sim.mono
            cache_task(sim, m, c, ops)
            if sim.mono - t0 > 5:
                sim.violate('lock-not-released', waited=sim.mono - t0)
        sim.start(sim.new_proc('fresh'), fresh)
        sim.run()
        if sim.stuck or sim.deadlock:
            sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
        known = set('/home/cache/' + n for n in list(plan['names']) + ['cache_access.lock', 'sub/'])
        other = sorted(k for k in sim.vfs.tree('/home/cache') if k not in known and not k.startswith('/home/cache/own-'))
        if other and not sim.fault_counts:
            sim.violate('unknown-files-in-the-cache', files=other[:5])
    for p in sim.procs:
        for t in p.tasks:
            if t.exc is not None:
                sim.violate('unexpected-exception', exc=repr(t.exc), tb=t.exc_tb[-600:])
        if p.data.get('exc') is not None:
            sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-600:])
    for w, d in sim.violations:
        res.violate(w, d)
    return finish(sim, res)
