"""P01  Lock mutual exclusion, crash release, bounded waiting."""
from .common import *

ID = 'P01'
LEVEL = 'exploration'
TECH = 'deterministic simulation of processes and threads contending for a lock, with crashes, clock jumps and lock-file faults; invariants checked at every step'
NOTE = ('Real lock code over a simulated kernel, clock and scheduler with preemption between statements; seeded search, not '
        'exhaustive. Assumes local-file-system flock semantics and kill -9 crashes.')
TIERS = {'quick': {'runs': 2400, 'budget': 150, 'det': 48},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded plan of 1-4 processes x 1-3 threads contending for one lock with a seeded schedule, '
        'crashes, clock jumps, lock-file removal and injected open/flock/write errors; non-trivial and distinct = '
        'distinct history of acquire/hold/release/fault events')
REAL = ['lsl.misc.file_lock (FileLock, MemoryLock) unmodified, executed from /repo', 'Python io stack above the raw file']
STUB = ['kernel: file system, flock, clock, sleep, threads scheduler, process death (simulated)']
ASSUMPTIONS = ['flock(2) semantics of a local Linux file system', 'kill -9 crash model (no power loss)']
REQUIRED_PROBES = {'contended': 50, 'shared_object_contended': 5, 'timeout_seen': 5, 'crash_while_held': 3, 'nested': 20, 'stray_release': 20}
LP = '/home/.lsl/thing.lock'


def setup():
    setup_procsim()


def gen(rng, tier):
    kind = rng.choice(['file'] * 5 + ['mem'])
    nproc = 1 if kind == 'mem' else rng.choice([1, 2, 2, 3, 4])
    procs = []
    for p in range(nproc):
        share = rng.random() < 0.5
        ths = []
        for t in range(rng.choice([1, 1, 2, 3]) if nproc > 1 else rng.choice([2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                x = rng.random()
                if x < 0.75:
                    ops.append({'op': 'cs', 'blocking': rng.random() < 0.75,
                                'timeout': rng.choice([0.05, 0.2, 0.6, 120, 120]),
                                'hold': rng.choice([0.0, 0.01, 0.05, 0.3]),
                                'nest': rng.choice([0, 0, 0, 1, 2]),
                                'with': rng.random() < 0.4,
                                'raise': rng.random() < 0.2})
                elif x < 0.9:
                    ops.append({'op': 'sleep', 't': rng.choice([0.0, 0.005, 0.02, 0.1])})
                elif x < 0.95:
                    ops.append({'op': 'rm'})
                else:
                    ops.append({'op': 'stray'})
            ths.append({'obj': 'shared' if share else 'own', 'ops': ops})
        procs.append({'ops': ths})
    return {'kind': kind, 'ops': procs, 'late': rng.random() < 0.5,
            'swarm': swarm(rng, crash=0.004, fault=0.01, jump=0.002,
                           kinds=['EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'ENOLCK', 'SHORT'])}


class Boom(Exception):
    pass


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    sim.vfs.mkdirs('/home/.lsl')
    holders = {}        # task -> depth
    sleeps = {}
    busy = {}           # task -> inside acquire() or release()
    free = [sim.mono]   # when the lock was last given back
    has_rm = any(o['op'] == 'rm' for p in plan['ops'] for t in p['ops'] for o in t['ops'])
    kind = plan['kind']

    ops = {}
    due, late = {}, {}  # task -> when its timeout runs out; calls it made after that

    def hook(k, d):
        t = current()
        if k == 'sleep':
            sleeps.setdefault(t.name, []).append(sim.mono)
        else:
            ops[t.name] = ops.get(t.name, 0) + 1
            if t is not None and t in due and sim.mono > due[t] + 0.02:
                late[t] = late.get(t, 0) + 1
    sim.hooks.append(hook)

    def alive_holders(me):
        return [h for h in holders if h is not me and h.proc.alive]

    def nfaults(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def enter(t):
        oth = alive_holders(t)
        if oth:
            sim.violate('two-holders', who=t.name, other=[o.name for o in oth])
        holders[t] = holders.get(t, 0) + 1
        sim.event('enter', depth=holders[t])

    def leave(t):
        holders[t] -= 1
        if not holders[t]:
            del holders[t]
        sim.event('leave')

    def acquire(lock, o, t):
        busy[t] = True
        try:
            return acquire_(lock, o, t)
        finally:
            busy.pop(t, None)
            due.pop(t, None)
            if late.pop(t, 0) > 40:
                sim.violate('kept-trying-past-timeout', who=t.name)

    def acquire_(lock, o, t):
        n0 = ops.get(t.name, 0)
        f0, s0, t0 = nfaults(t), len(sleeps.get(t.name, [])), sim.mono
        w0, j0 = sim.now, sim.jumps
        first = alive_holders(t)
        contended = bool(first)
        if contended:
            sim.probe('contended')
        try:
            if o.get('with'):
                lock.__enter__()
                ok = lock.locked()
                to, bl = 120, True
            else:
                if o['blocking']:
                    due[t] = t0 + o['timeout']
                ok = lock.acquire(blocking=o['blocking'], timeout=o['timeout'])
                to, bl = o['timeout'], o['blocking']
        except OSError as e:
            sim.event('acq-exc', exc=repr(e))
            if nfaults(t) == f0 and not (has_rm and e.errno == 2):
                sim.violate('acquire-raised', exc=repr(e))
            if lock.locked() and t not in holders and len(t.proc.tasks) == 1:
                sim.violate('locked-after-failed-acquire', who=t.name)
            return False
        sim.event('acquired' if ok else 'gave-up')
        dur = sim.mono - t0
        if ok:
            enter(t)
            if not lock.locked():
                sim.violate('held-but-not-locked', who=t.name)
        else:
            if t in holders:
                sim.violate('nested-acquire-failed', who=t.name)
            sl = sleeps.get(t.name, [])[s0:]
            if bl:
                sim.probe('timeout_seen')
                if dur < to - 1e-6:
                    sim.violate('gave-up-early', waited=dur, timeout=to)
                if len([x for x in sl if x > t0 + to + 0.02]) > 3:
                    sim.violate('waited-past-timeout', waited=dur, timeout=to)
                if not alive_holders(t) and sim.mono - free[0] > 0.2 and dur > 0.2 and not [b for b in busy if b is not t and b.proc.alive]:
                    sim.violate('gave-up-on-free-lock', who=t.name, waited=dur, free_for=sim.mono - free[0])
            else:
                if not contended and not alive_holders(t) and len(sim.tasks) == 1:
                    sim.violate('non-blocking-failed-on-free-lock', who=t.name)
        if not bl and len(sleeps.get(t.name, [])) > s0:
            sim.violate('non-blocking-slept', who=t.name)
        if not bl and ops.get(t.name, 0) - n0 > 40:
            sim.violate('non-blocking-kept-trying', who=t.name)
        return ok

    def release(lock, o, t):
        busy[t] = True
        try:
            release_(lock, o, t)
        finally:
            busy.pop(t, None)
            free[0] = sim.mono

    def release_(lock, o, t):
        leave(t)
        try:
            if o.get('with'):
                if o.get('raise'):
                    lock.__exit__(Boom, Boom(), None)
                else:
                    lock.__exit__(None, None, None)
            else:
                lock.release()
        except OSError as e:
            sim.event('rel-exc', exc=repr(e))
            sim.violate('release-raised', exc=repr(e))
        if t in holders and not lock.locked():
            sim.violate('inner-release-dropped-outer', who=t.name)
        if t not in holders and lock.locked():
            sim.violate('still-locked-after-release', who=t.name)

    def thread_body(proc, spec, shared, mod):
        t = current()
        if spec['obj'] == 'shared' or kind == 'mem':
            lock = shared
        else:
            lock = mod.FileLock('/simfs/home/.lsl/thing')
        for o in spec['ops']:
            if o['op'] == 'sleep':
                sim.sleep(o['t'])
            elif o['op'] == 'stray':
                # a release by a thread that does not hold the lock takes it from nobody
                sim.probe('stray_release')
                sim.event('stray')
                try:
                    lock.release()
                except RuntimeError:
                    pass
            elif o['op'] == 'rm':
                n = sim.vfs.lookup('/home/.lsl').kids
                ino = n.get('thing.lock')
                if ino is not None and ino.lock_ex is None and not any(h.proc.alive for h in holders):
                    del n['thing.lock']
                    sim.count_fault('lock-file-removed')
                    sim.event('rm')
            else:
                if spec['obj'] == 'shared' and alive_holders(t) and any(h.proc is t.proc for h in holders):
                    sim.probe('shared_object_contended')
                if not acquire(lock, o, t):
                    if o.get('with'):
                        lock.__exit__(None, None, None)
                    continue
                sim.sleep(o['hold'])
                for k in range(o['nest']):
                    sim.probe('nested')
                    if acquire(lock, dict(o, blocking=True, timeout=0.5, **{'with': False}), t):
                        sim.sleep(0.001)
                        release(lock, dict(o, **{'with': False}), t)
                if o['hold'] > 0.04:
                    sim.sleep(0.01)
                release(lock, o, t)

    def main(proc, spec):
        mod = proc.imp('lsl.misc.file_lock')
        if kind == 'mem':
            shared = mod.MemoryLock('x')
        else:
            shared = mod.FileLock('/simfs/home/.lsl/thing')
        ths = []
        shared_used = plan.get('late') and (kind == 'mem' or any(s['obj'] == 'shared' for s in spec['ops']))
        for k, s in enumerate(spec['ops'][1:]):
            ths.append(sim.spawn(proc, lambda s=s: thread_body(proc, s, shared, mod), 't%d' % (k + 1)))
        thread_body(proc, spec['ops'][0], shared, mod) if spec['ops'] else None
        for th in ths:
            sim.block(lambda th=th: th.state == 'done')
        if shared_used:
            # everybody in this process is done: another thread can have the lock, at the latest when the other processes are
            def late():
                t = current()
                ok = False
                for k in range(40):
                    if not alive_holders(t):
                        ok = acquire(shared, {'blocking': True, 'timeout': 5}, t)
                        if ok:
                            release(shared, {}, t)
                            break
                    sim.sleep(1)
                sim.event('late', ok=bool(ok))
            th = sim.spawn(proc, late, 'late')
            sim.block(lambda: th.state == 'done')
        left = [f.path for f in proc.fds.values() if str(f.path).endswith('thing.lock')]
        if left:
            sim.violate('lock-file-handle-leaked', n=len(left), proc=proc.name)
        sim.event('proc-end', proc=proc.name)

    def on_crash(k, d):
        pass

    old_kill = sim.kill

    def kill(proc, why='kill'):
        if any(h.proc is proc for h in holders):
            sim.probe('crash_while_held')
        for h in [h for h in holders if h.proc is proc]:
            del holders[h]
            free[0] = sim.mono
        for b in [b for b in due if b.proc is proc]:
            del due[b]
            late.pop(b, None)
        for b in [b for b in busy if b.proc is proc]:
            del busy[b]
        old_kill(proc, why)
    sim.kill = kill

    for i, spec in enumerate(plan['ops']):
        p = sim.new_proc('p%d' % i, crashable=True, faultable=True)
        sim.start(p, main, spec)
    sim.run()
    stuck = sim.stuck or (sim.deadlock and 'deadlock %s' % sim.deadlock)
    if stuck:
        sim.violate('no-progress', what=str(stuck))
    else:
        # liveness after the faults stop: nobody alive holds the lock, so it must be free
        sim.faults_on = False
        if kind == 'file':
            fp = sim.new_proc('fresh')

            def fresh(proc):
                mod = proc.imp('lsl.misc.file_lock')
                lk = mod.FileLock('/simfs/home/.lsl/thing')
                t = sim.mono
                ok = lk.acquire(blocking=True, timeout=5)
                sim.event('fresh', ok=ok)
                if not ok:
                    sim.violate('lock-stranded', waited=sim.mono - t)
                else:
                    lk.release()
            sim.start(fp, fresh)
            sim.run()
            if sim.stuck or sim.deadlock:
                sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        for t in p.tasks:
            if t.exc is not None:
                sim.violate('unexpected-exception', exc=repr(t.exc))
        if p.data.get('exc') is not None:
            sim.violate('unexpected-exception', exc=repr(p.data['exc']))
    for w, d in sim.violations:
        res.violate(w, d)
    return finish(sim, res)
