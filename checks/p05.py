"""P05  A data file is served complete or not at all."""
from .datalib import *

ID = 'P05'
LEVEL = 'exploration'
TECH = 'deterministic simulation of processes and threads fetching data files over a faulty network and disk, with crashes and restarts; invariant on every served byte string'
NOTE = ('Real data access, cache, lock and urllib/http.client parsing code over a simulated network, disk and clock. A '
        'server that declares no length and closes early cannot be told apart from a complete reply and is modelled as one that must not be served.')
TIERS = {'quick': {'runs': 2200, 'budget': 170, 'det': 32},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded history of 1-3 processes opening/refreshing/removing data files with scripted servers, '
        'network and disk faults, crashes and restarts; distinct non-trivial = distinct history of outcomes')
REAL = ['lsl.common.data_access, lsl.misc.file_cache, lsl.misc.file_lock, lsl.config, lsl.logger from /repo',
        'http.client, zlib, io']
STUB = ['sockets and servers', 'kernel: file system, flock, clock, scheduler, process death', 'installed data directory (simulated tree)']
ASSUMPTIONS = ['kill -9 crash model (no power loss)', 'servers declare a correct Content-Length']
REQUIRED_PROBES = {'served': 300, 'refused': 50, 'concurrent': 30, 'after_crash': 10}


def setup():
    setup_procsim()


def gen(rng, tier):
    files = rng.sample(FILES, rng.choice([1, 1, 2]))
    srcs = []
    for n in files:
        for s in ('local', 'primary', 'backup'):
            if rng.random() < {'local': 0.35, 'primary': 0.85, 'backup': 0.7}[s]:
                srcs.append([s, n, rng.choice([30, 300, 9000, 20000, 40000]), rng.choice([-100, -20, -1]) * 86400])
    def ops(k):
        out = []
        for _ in range(k):
            x = rng.random()
            n = rng.choice(files)
            if x < 0.66:
                out.append({'op': 'open', 'name': n, 'mode': rng.choice(['rb', 'r'])})
            elif x < 0.72:
                out.append({'op': 'remove', 'name': n})
            elif x < 0.78:
                out.append({'op': 'size', 'name': n})
            elif x < 0.9:
                out.append({'op': 'sleep', 't': rng.choice([0.01, 1, 15 * 86400])})
            else:
                out.append({'op': 'publish', 'src': rng.choice(['local', 'primary', 'backup']), 'name': n,
                            'size': rng.choice([30, 9000, 40000])})
        return out
    procs = [{'ops': [{'ops': ops(rng.randint(1, 5))} for _ in range(rng.choice([1, 1, 2]))],
              'again': rng.randint(0, 2)} for _ in range(rng.choice([1, 1, 2, 3]))]
    return {'ops': procs, 'files': files, 'srcs': srcs, 'p_net': rng.choice([0.0, 0.2, 0.4, 0.7]),
            'kinds': rng.sample(OUT, rng.randint(2, len(OUT))), 'ro': rng.random() < 0.08, 'stdin': stdin_kind(rng),
            'swarm': dict(swarm(rng, crash=0.0015, fault=0.004, kinds=['ENOSPC', 'EIO', 'SHORT', 'EACCES']),
                          op_gap=rng.choice([0, 0, 0, 60, 300]))}


def run(plan, devs=None):
    with Stdin(plan.get('stdin')):
        return run1(plan, devs)


def run1(plan, devs):
    res = Result()
    sim = mk(plan, devs, max_steps=3000000, max_ops=20000000)
    w = World(sim, plan['files'])
    w.p_net, w.kinds = plan['p_net'], plan['kinds']
    for i, (s, n, size, age) in enumerate(plan['srcs']):
        w.publish(s, n, content(n, s, i, size), int(sim.now + age))
    if plan['ro']:
        sim.vfs.ro_prefix.append('/home')
    ver = [100]
    busy = {}
    removes = sum(len(p['ops']) for p in plan['ops']) > 1 and any(
        o['op'] == 'remove' for p in plan['ops'] for t in p['ops'] for o in t['ops'])
    fa = [0]

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def body(proc, DA, ops):
        t = current()
        for o in ops:
            if o['op'] == 'sleep':
                sim.sleep(o['t'])
            elif o['op'] == 'publish':
                ver[0] += 1
                w.publish(o['src'], o['name'], content(o['name'], o['src'], ver[0], o['size']), int(sim.now))
            elif o['op'] == 'remove':
                f0, t0 = nf(t), sim.mono
                try:
                    DA.remove(o['name'])
                except OSError as e:
                    if nf(t) == f0:
                        sim.violate('remove-raised', exc=repr(e))
                except AssertionError as e:
                    if sim.mono - t0 < 119:
                        sim.violate('remove-raised', exc=repr(e))
            elif o['op'] == 'size':
                f0 = nf(t)
                try:
                    n = DA.getsize(o['name'])
                    if n not in [len(c) for c in w.ever[o['name']]]:
                        sim.violate('partial-file-in-cache', name=o['name'], size=n)
                except OSError:
                    pass
                except AssertionError:
                    pass
            else:
                f0, t0 = nf(t), sim.mono
                if any(busy.values()):
                    sim.probe('concurrent')
                busy[t] = 1
                try:
                    with DA.open(o['name'], o['mode']) as fh:
                        c = fh.read()
                        own = getattr(fh, 'name', o['name'])
                    if not str(own).endswith(o['name'].rsplit('/', 1)[-1]):
                        # users tell the kind of a file by the name of its handle
                        sim.violate('served-under-another-name', name=o['name'], own=own)
                    c = c if isinstance(c, bytes) else c.encode()
                    sim.event('served', name=o['name'], n=len(c), head=c[:24])
                    sim.probe('served')
                    if any(p.crashed for p in sim.procs):
                        sim.probe('after_crash')
                    if nf(t) == f0 and c not in w.ever[o['name']]:
                        sim.violate('served-incomplete-file', name=o['name'], n=len(c), head=c[:60], tail=c[-30:],
                                    complete=sorted(len(x) for x in w.ever[o['name']]))
                except RuntimeError as e:
                    sim.event('not-available', name=o['name'])
                    sim.probe('refused')
                except OSError as e:
                    sim.event('os-error', name=o['name'], exc=type(e).__name__)
                    if nf(t) == f0 and not removes:
                        sim.violate('open-raised', exc=repr(e))
                except AssertionError as e:
                    sim.event('lock-timeout')
                    if sim.mono - t0 < 119:
                        sim.violate('open-raised', exc=repr(e))
                busy[t] = 0

    def main(proc, spec):
        f0 = nf(current())
        t0 = sim.mono
        try:
            mod = proc.imp('lsl.common.data_access')
        except RuntimeError as e:
            # the cache lock is held by a process whose download has stalled
            if sim.mono - t0 < 119:
                raise
            sim.event('lock-timeout')
            return
        DA = mod.DataAccess
        ths = [sim.spawn(proc, lambda s=s: body(proc, DA, s['ops']), 't%d' % (k + 1))
               for k, s in enumerate(spec['ops'][1:])]
        if spec['ops']:
            body(proc, DA, spec['ops'][0]['ops'])
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')

    def go(procs, suffix=''):
        for i, spec in enumerate(procs):
            sim.start(sim.new_proc('p%d%s' % (i, suffix), crashable=True, faultable=True), main, spec)
        sim.run()

    go(plan['ops'])
    # restart: what a crash left behind is picked up by new processes
    if not (sim.stuck or sim.deadlock):
        go([s for s in plan['ops'] if s['again']], 'b')
    if not (sim.stuck or sim.deadlock):
        sim.faults_on = False
        go([{'ops': [{'ops': [{'op': 'open', 'name': n, 'mode': 'rb'} for n in plan['files']]}]}], 'z')
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        excs = [(t.exc, t.exc_tb) for t in p.tasks if t.exc is not None]
        if p.data.get('exc') is not None:
            excs.append((p.data['exc'], p.data['exc_tb']))
        for e, tb in excs:
            hit = any(h[3] == 'fault' and h[2].startswith(p.name + '.') for h in sim.history)
            if hit and isinstance(e, OSError):
                continue
            sim.violate('unexpected-exception', exc=repr(e), tb=tb[-700:])
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
