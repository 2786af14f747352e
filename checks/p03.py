"""P03  Cache size limit and eviction order."""
from .common import *

ID = 'P03'
LEVEL = 'exploration'
TECH = 'deterministic simulation of cache histories (several processes, disk faults, coarse/jumping clocks) against an eviction reference model'
NOTE = ('Real FileCache and MemoryCache over a simulated kernel and clock; seeded search over histories, not exhaustive.')
TIERS = {'quick': {'runs': 3000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 80000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded history of writes/appends/touches/removals over up to 8 cached files with a seeded size '
        'limit, on-disk or in-memory; distinct non-trivial = distinct history of sizes and evictions')
REAL = ['lsl.misc.file_cache (FileCache, MemoryCache), lsl.misc.file_lock from /repo']
STUB = ['kernel: file system, flock, clock, scheduler']
ASSUMPTIONS = ['file age is the modification time of the (simulated) file system']
REQUIRED_PROBES = {'evicted': 200, 'evicted_several': 50, 'within_limit': 200, 'unlink_failed': 5, 'nested_dir': 50, 'zero': 50}


def setup():
    setup_procsim()


def gen(rng, tier):
    kind = rng.choice(['file', 'file', 'mem'])
    names = ['f%d' % i for i in range(rng.randint(2, 6))] + rng.sample(['sub/g0', 'sub/g1', 'deep/er/h', '.hid'], rng.randint(0, 2))
    names = [n for n in names if n != '.hid']
    limit = rng.choice([0, 64, 200, 1000, 1000, 5000, 100000])
    ops = []
    for i in range(rng.randint(4, 24)):
        x = rng.random()
        n = rng.choice(names)
        if x < 0.7:
            ops.append({'op': 'w', 'name': n, 'mode': rng.choice(['w', 'wb', 'a', 'ab']),
                        'n': rng.choice([0, 10, 50, 199, 200, 201, 400, 1000, 1024, 3000, 20000]),
                        'proc': rng.randint(0, 1), 'dt': rng.choice([0, 0, 0.01, 1.5, 100])})
        elif x < 0.8:
            ops.append({'op': 'r', 'name': n, 'proc': rng.randint(0, 1)})
        elif x < 0.86:
            ops.append({'op': 'rm', 'name': n, 'proc': rng.randint(0, 1)})
        elif x < 0.93:
            ops.append({'op': 'limit', 'v': rng.choice([0, 64, 200, 1000, 5000])})
        else:
            ops.append({'op': 'age', 'name': n, 'by': rng.choice([-1000, -5, 5])})
    return {'kind': kind, 'ops': ops, 'names': names, 'limit': limit, 'callable': rng.random() < 0.4,
            'swarm': dict(swarm(rng, fault=0.02, jump=0.003 if kind == 'file' else 0, ops=False, kinds=['EACCES', 'EIO']),
                          p_switch=0)}


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    kind = plan['kind']
    # only the eviction's own unlink fails: everything else is judged elsewhere
    sim.vfs.fault_filter = lambda k, p: k == 'unlink' and not p.endswith('write.test')
    limit = [plan['limit']]
    mem = {}          # in-memory model: name -> [size, mtime_lo, mtime_hi]
    caches = {}

    def snap():
        """(sizes, mtime intervals) of every cached file"""
        if kind == 'mem':
            return dict((n, tuple(v)) for n, v in mem.items())
        out = {}

        def walk(node, pre):
            for k, v in node.kids.items():
                if v.kind == 'd':
                    walk(v, pre + k + '/')
                elif k != 'cache_access.lock':
                    out[pre + k] = (len(v.data), v.mtime, v.mtime)
        walk(sim.vfs.lookup('/home/cache'), '')
        return out

    def nf():
        return sum(1 for e in sim.history if e[3] == 'fault')

    def present():
        c = caches[0]
        if kind == 'mem':
            return set(n for n in plan['names'] if n in c)
        return set(snap())

    def judge(o, before, failed):
        """before: snapshot as of the moment the file has been opened/truncated"""
        act = o['name']
        lim = limit[0] / 1024.**2
        after = present()
        ev = [n for n in before if n not in after]
        keep = [n for n in before if n in after and n != act]
        sim.event('evict', act=act, ev=sorted(ev), lim=limit[0], sizes=sorted((n, before[n][0]) for n in before))
        if act not in after:
            sim.violate('active-file-evicted', name=act)
        if limit[0] <= 0:
            sim.probe('zero')
            if ev:
                sim.violate('evicted-without-a-limit', evicted=ev)
            return
        tot = lambda ns: sum(before[n][0] / 1024.**2 for n in ns)
        total = tot(before)
        eps = 1e-9
        if '/' in act or any('/' in n for n in before):
            sim.probe('nested_dir')
        if ev:
            sim.probe('evicted')
            if len(ev) > 1:
                sim.probe('evicted_several')
            if total <= lim + eps and not failed:
                sim.violate('evicted-within-limit', evicted=ev, total=total, limit=lim)
            newest_ev = max(before[n][1] for n in ev)
            for n in keep:
                if before[n][2] < newest_ev and not (failed or before[n][0] == 0 and False):
                    if not failed:
                        sim.violate('newer-evicted-before-older', kept=n, evicted=ev)
            if not failed:
                x = max(ev, key=lambda n: before[n][2])
                cands = [n for n in ev if before[n][2] >= newest_ev]
                # at least one of the newest evicted files must have been necessary
                rest = [n for n in before if n in after]
                if all(tot(rest + [n]) <= lim + eps for n in cands):
                    sim.violate('evicted-more-than-needed', evicted=ev, limit=lim)
        else:
            sim.probe('within_limit')
        if keep and tot([n for n in before if n in after]) > lim + eps:
            if failed:
                sim.probe('unlink_failed')
            else:
                sim.violate('limit-not-enforced', total=tot([n for n in before if n in after]), limit=lim, kept=keep)

    def main(proc):
        mod = proc.imp('lsl.misc.file_cache')
        ms = (lambda: limit[0] / 1024.**2) if plan['callable'] else None
        if kind == 'mem':
            caches[0] = mod.MemoryCache(max_size=ms if ms else limit[0] / 1024.**2)
            caches[1] = caches[0]
        else:
            caches[0] = mod.FileCache('/simfs/home/cache', max_size=ms if ms else limit[0] / 1024.**2)
            caches[1] = mod.FileCache('/simfs/home/cache', max_size=ms if ms else limit[0] / 1024.**2)
        for o in plan['ops']:
            c = caches[o.get('proc', 0)]
            if o['op'] == 'w':
                if o['dt']:
                    sim.sleep(o['dt'])
                f0 = nf()
                before = snap()
                old = before.get(o['name'], (0, 0, 0))
                before[o['name']] = (0 if o['mode'][0] == 'w' else old[0], 1e12, 1e12)
                with c.open(o['name'], o['mode']) as fh:
                    judge(o, before, nf() != f0)
                    d = 'x' * o['n']
                    fh.write(d.encode() if 'b' in o['mode'] else d)
                    t0 = sim.now
                if kind == 'mem':
                    for n in list(mem):
                        if n not in c:
                            del mem[n]
                    mem[o['name']] = [(0 if o['mode'][0] == 'w' else old[0]) + o['n'], t0, sim.now]
                if c.getsize(o['name']) != (0 if o['mode'][0] == 'w' else old[0]) + o['n']:
                    sim.violate('wrong-size-after-write', name=o['name'], got=c.getsize(o['name']))
            elif o['op'] == 'r':
                b = present()
                try:
                    with c.open(o['name'], 'rb') as fh:
                        fh.read()
                except FileNotFoundError:
                    pass
                if present() != b:
                    sim.violate('read-changed-the-cache', before=sorted(b), after=sorted(present()))
            elif o['op'] == 'rm':
                f0 = nf()
                b = present()
                c.remove(o['name'])
                if nf() == f0 and present() != b - {o['name']}:
                    sim.violate('remove-changed-other-files', before=sorted(b), after=sorted(present()))
                if nf() == f0:
                    mem.pop(o['name'], None)
            elif o['op'] == 'limit':
                limit[0] = o['v']
                if not plan['callable']:
                    for x in caches.values():
                        x.max_size = o['v'] / 1024.**2
            elif o['op'] == 'age' and kind == 'file':
                try:
                    n = sim.vfs.lookup('/home/cache/' + o['name'])
                    n.mtime += o['by']
                except OSError:
                    pass

    sim.start(sim.new_proc('p', faultable=True), main)
    sim.run()
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    p = sim.procs[0]
    if p.data.get('exc') is not None:
        sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-600:])
    for w, d in sim.violations:
        res.violate(w, d)
    return finish(sim, res)
