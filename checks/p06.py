"""P06  Source order, refresh and fallback of data files."""
from .datalib import *

ID = 'P06'
LEVEL = 'exploration'
TECH = 'deterministic simulation of successive sessions with scripted servers, network faults and advancing clocks, compared step by step with a reference model'
NOTE = ('Real data access code over a simulated network, disk and clock; sequential sessions, every request outcome chosen by the seed; '
        'replies without a declared length may be accepted or refused.')
TIERS = {'quick': {'runs': 2200, 'budget': 150, 'det': 32},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded sequence of sessions (open, publish, withdraw, outage, days passing, read-only home) with '
        'scripted network outcomes; distinct non-trivial = distinct history of outcomes')
REAL = ['lsl.common.data_access, lsl.misc.file_cache, lsl.misc.file_lock, lsl.config from /repo', 'http.client, zlib, io']
STUB = ['sockets and servers', 'kernel: file system, flock, clock', 'installed data directory (simulated tree)']
ASSUMPTIONS = ['refresh age is the documented download.refresh_age in days']
REQUIRED_PROBES = {'from_local': 100, 'from_primary': 100, 'from_backup': 30, 'from_cache': 100, 'refreshed': 30,
                   'refresh_failed_kept': 10, 'all_failed': 30, 'memory_cache': 20, 'disk_failed': 20, 'disk_failed_refresh': 3}


def setup():
    setup_procsim()


def gen(rng, tier):
    files = rng.sample(FILES, rng.choice([1, 1, 2]))
    srcs = []
    for n in files:
        for s in ('local', 'primary', 'backup'):
            if rng.random() < {'local': 0.3, 'primary': 0.85, 'backup': 0.7}[s]:
                srcs.append([s, n, rng.choice([30, 300, 9000, 20000]), rng.choice([-100, -20, -1]) * 86400])
    ops = []
    for _ in range(rng.randint(2, 12)):
        x = rng.random()
        n = rng.choice(files)
        if x < 0.5:
            ops.append({'op': 'open', 'name': n})
        elif x < 0.68:
            ops.append({'op': 'sleep', 't': rng.choice([60, 86400, 13.9 * 86400, 14.1 * 86400, 30 * 86400])})
        elif x < 0.8:
            ops.append({'op': 'publish', 'src': rng.choice(['local', 'primary', 'primary', 'backup']), 'name': n,
                        'size': rng.choice([30, 9000])})
        elif x < 0.85:
            ops.append({'op': 'withdraw', 'src': rng.choice(['local', 'primary', 'backup']), 'name': n})
        elif x < 0.92:
            ops.append({'op': 'down', 'srcs': rng.sample(['primary', 'backup'], rng.randint(0, 2))})
        elif x < 0.96:
            ops.append({'op': 'remove', 'name': n})
        else:
            ops.append({'op': 'restart'})
    if rng.random() < 0.6:
        # an aged copy with something newer available
        n = files[0]
        k = rng.randint(0, len(ops))
        ops[k:k] = [{'op': 'down', 'srcs': []}, {'op': 'open', 'name': n}, {'op': 'sleep', 't': rng.choice([14.1, 20, 200]) * 86400},
                    {'op': 'publish', 'src': rng.choice(['primary', 'primary', 'backup', 'local']), 'name': n, 'size': 9000},
                    {'op': 'open', 'name': n}, {'op': 'open', 'name': n}]
    return {'ops': ops, 'files': files, 'srcs': srcs, 'p_net': rng.choice([0.0, 0.1, 0.3, 0.6]),
            'kinds': rng.sample(OUT, rng.randint(2, len(OUT))), 'ro': rng.random() < 0.15, 'stdin': stdin_kind(rng),
            'swarm': dict(swarm(rng, ops=False, fault=rng.choice([0, 0, 0.05]), kinds=['ENOSPC', 'EIO']), p_switch=0)}


def run(plan, devs=None):
    with Stdin(plan.get('stdin')):
        return run1(plan, devs)


def run1(plan, devs):
    res = Result()
    sim = mk(plan, devs, max_steps=200000, max_ops=6000000)
    w = World(sim, plan['files'])
    w.p_net, w.kinds, w.down = plan['p_net'], plan['kinds'], ()
    ver = [0]
    for i, (s, n, size, age) in enumerate(plan['srcs']):
        ver[0] += 1
        w.publish(s, n, content(n, s, ver[0], size), int(sim.now + age))
    if plan['ro']:
        sim.vfs.ro_prefix.append('/home')
    # full or failing disk while a copy is written
    sim.vfs.fault_filter = lambda k, p: '/data_cache/' in p and not p.endswith('.lock') and (k in ('write', 'open.w'))
    cached = {}           # name -> (bytes, lo, hi) model of the cache
    AGE = 14 * 86400.0

    def fetch(o, reqs, expect_first):
        """Interpret the GET requests of this open: which content should have been obtained?"""
        name = o['name']
        loc = w.src['local'].get(name)
        gets = [r for r in reqs if r[1] == 'GET']
        if loc is not None and len(loc[0]) >= 3:
            if gets:
                sim.violate('network-used-although-installed', name=name, requests=len(gets))
            return 'local', [loc[0]]
        want = ['primary', 'backup']
        seq = [r[2] for r in gets]
        if seq != want[:len(seq)] or not seq:
            sim.violate('wrong-source-order', got=seq)
            return None, []
        for k, r in enumerate(gets):
            if r[4] is not False:
                if k != len(gets) - 1 and r[4]:
                    sim.violate('good-source-not-used', src=r[2])
                d = w.src[r[2]].get(name)
                if r[4] is None:
                    # undeclared length: may be accepted, or treated as a failure
                    if k == len(gets) - 1 and len(gets) == 2:
                        return 'maybe', [d[0]]
                    if k == len(gets) - 1:
                        return r[2], [d[0]]
                    continue
                return r[2], [d[0]]
        if len(gets) < 2:
            sim.violate('backup-not-tried', got=seq)
        return 'failed', []

    def files():
        return set(k for k in sim.vfs.tree('/home/.lsl/data_cache') if not k.endswith(('.lock', '/')))

    def step(DA, o):
        name = o['name']
        n0 = len(w.outcomes)
        f0 = sum(sim.fault_counts.get(k, 0) for k in sim.fault_counts if k.startswith('fs.'))
        t0 = sim.now
        c = exc = None
        had = files()
        me = current().proc
        me.faultable = True
        try:
            with DA.open(name, 'rb') as fh:
                c = fh.read()
        except RuntimeError as e:
            exc = e
        except OSError as e:
            if sum(sim.fault_counts.get(k, 0) for k in sim.fault_counts if k.startswith('fs.')) == f0:
                raise
            exc = e
        finally:
            me.faultable = False
        disk = sum(sim.fault_counts.get(k, 0) for k in sim.fault_counts if k.startswith('fs.')) != f0
        reqs = w.outcomes[n0:]
        heads = [r for r in reqs if r[1] == 'HEAD']
        gets = [r for r in reqs if r[1] == 'GET']
        sim.event('open', name=name, got=None if c is None else c[:30], n=None if c is None else len(c),
                  reqs=[(r[1], r[2], r[4]) for r in reqs])
        prev = cached.get(name)
        if c is not None and (DA.getsize(name) != len(c) or DA.stat(name).st_size != len(c)):
            sim.violate('wrong-size', size=DA.getsize(name), stat=DA.stat(name).st_size, n=len(c))
        if disk:
            # what could not be written may be missing, but what was there stays and is served
            sim.probe('disk_failed')
            if prev is not None:
                sim.probe('disk_failed_refresh')
                if exc is not None:
                    sim.violate('cached-copy-lost', exc=repr(exc), why='the disk failed')
                elif c != prev[0] and c not in w.ever[name]:
                    sim.violate('wrong-content', head=c[:40])
                else:
                    cached[name] = (c, prev[1], sim.now)
            elif c is not None:
                if c not in w.ever[name]:
                    sim.violate('wrong-content', head=c[:40])
                cached[name] = (c, t0, sim.now)
            else:
                left = sim.vfs.get('/home/.lsl/data_cache/' + name)
                if left is not None:
                    # (complete, but the note about its origin could not be written)
                    if left not in w.ever[name]:
                        sim.violate('half-a-file-left', name=name)
                    cached[name] = (left, t0, sim.now)
            return
        if exc is not None and files() - had:
            sim.violate('failed-sources-left-files', files=sorted(files() - had))
        if c is not None:
            mt = DA.getmtime(name)
            if mt > sim.now + 1 or (name not in cached and mt < t0 - 1):
                sim.violate('wrong-mtime', got=mt, now=sim.now)
        if prev is None:
            src, ok = fetch(o, reqs, True)
            if src == 'failed':
                sim.probe('all_failed')
                if exc is None:
                    sim.violate('served-although-no-source-worked', head=c[:40])
            elif src == 'maybe':
                if exc is None and c not in ok:
                    sim.violate('wrong-content', head=c[:40])
            elif src:
                sim.probe('from_' + src)
                if exc is not None:
                    sim.violate('not-served-although-source-worked', src=src, exc=repr(exc))
                elif c not in ok:
                    sim.violate('wrong-content', head=c[:40], src=src)
            if c is not None:
                cached[name] = (c, t0, sim.now)
            return
        # there is a cached copy
        if exc is not None:
            sim.violate('cached-copy-lost', exc=repr(exc), reqs=[(r[1], r[2], r[4]) for r in reqs])
            cached.pop(name, None)
            return
        old, lo, hi = prev
        if sim.now - lo < AGE:
            sim.probe('from_cache')
            if reqs:
                sim.violate('network-used-for-fresh-copy', age=sim.now - lo)
            if c != old:
                sim.violate('fresh-copy-changed')
            return
        if t0 - hi <= AGE:
            if c != old and c not in w.ever[name]:
                sim.violate('wrong-content', head=c[:40])
            cached[name] = (c, lo, sim.now if reqs else hi)
            return                          # right at the boundary, or age unknown
        # old enough to be looked at again
        newest, sure = 0, True
        loc = w.src['local'].get(name)
        hs = [r[2] for r in heads]
        if hs[:1] != ['primary']:
            sim.violate('no-refresh-check', age=t0 - hi, requests=[(r[1], r[2]) for r in reqs])
            return
        rm = 0
        for r in heads:
            if r[4] is True:
                rm = w.src[r[2]][name][1]
                break
            if r[4] is None:
                sure = False
        else:
            if sure and hs != ['primary', 'backup']:
                sim.violate('backup-not-asked', got=hs)
        if not sure:
            if c != old and c not in w.ever[name]:
                sim.violate('wrong-content', head=c[:40])
            cached[name] = (c, lo, sim.now) if (gets or c != old or loc) else prev
            return
        newest = max(rm, loc[1] if loc else 0)
        if newest <= lo:
            if gets or c != old:
                sim.violate('refetched-although-not-newer', newest=newest, cached=lo)
                cached[name] = (c, t0, sim.now)
            return
        if newest <= hi:
            cached[name] = (c, lo, sim.now)
            return
        src, ok = fetch(o, reqs, False)
        if src == 'failed':
            sim.probe('refresh_failed_kept')
            if c != old:
                sim.violate('refresh-failed-but-content-changed', head=c[:40])
        elif src == 'maybe':
            if c != old and c not in ok:
                sim.violate('wrong-content', head=c[:40])
            cached[name] = (c, lo, sim.now)
        elif src:
            sim.probe('refreshed')
            if c not in ok:
                sim.violate('refresh-not-used', head=c[:40], src=src)
            cached[name] = (c, t0, sim.now)

    def session(proc, ops):
        DA = proc.imp('lsl.common.data_access').DataAccess
        if plan['ro']:
            sim.probe('memory_cache')
            cached.clear()
        for o in ops:
            if o['op'] == 'sleep':
                sim.sleep(o['t'])
            elif o['op'] == 'publish':
                ver[0] += 1
                w.publish(o['src'], o['name'], content(o['name'], o['src'], ver[0], o['size']), int(sim.now))
                sim.sleep(2)
            elif o['op'] == 'withdraw':
                w.withdraw(o['src'], o['name'])
            elif o['op'] == 'down':
                w.down = o['srcs']
                sim.count_fault('outage')
            elif o['op'] == 'remove':
                DA.remove(o['name'])
                cached.pop(o['name'], None)
            elif o['op'] == 'open':
                step(DA, o)

    groups, cur = [], []
    for o in plan['ops']:
        if o['op'] == 'restart':
            groups.append(cur)
            cur = []
        else:
            cur.append(o)
    groups.append(cur)
    for i, g in enumerate(groups):
        p = sim.new_proc('s%d' % i)
        sim.start(p, session, g)
        sim.run()
        if sim.stuck or sim.deadlock:
            sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
            break
        if p.data.get('exc') is not None:
            sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-700:])
            break
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
