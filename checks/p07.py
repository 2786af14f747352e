"""P07  The stored configuration survives crashes, disk errors and concurrent sessions."""
from .configlib import *

ID = 'P07'
LEVEL = 'exploration'
TECH = 'deterministic simulation of concurrent sessions starting, saving and dying at any system call, with disk errors; every session start is compared with the set of committed configurations'
NOTE = ('Real configuration and lock code over a simulated disk, clock and scheduler; seeded search, not exhaustive; kill -9 crash '
        'model (bytes handed to the kernel survive).')
TIERS = {'quick': {'runs': 3000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 80000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded set of 1-4 overlapping sessions that load, change and save the configuration, with crashes, '
        'disk errors and restarts; distinct non-trivial = distinct history of loaded and saved values')
REAL = ['lsl.config, lsl.misc.file_lock from /repo']
STUB = ['kernel: file system, flock, clock, scheduler, process death', 'interpreter exit (atexit)']
ASSUMPTIONS = ['kill -9 crash model (no power loss)']
REQUIRED_PROBES = {'loaded': 500, 'saved': 200, 'crash_in_save': 10, 'start_during_save': 5, 'save_failed': 5}


def setup():
    setup_procsim()


def gen(rng, tier):
    def sess():
        return {'sets': [[n, rng.choice(PARAMS[n])] for n in rng.sample(sorted(PARAMS), rng.randint(0, 3))],
                'delay': rng.choice([0, 0, 0.001, 0.01, 0.05]), 'hold': rng.choice([0, 0.002, 0.02]),
                'mid': rng.random() < 0.3}
    return {'ops': [{'ops': [sess() for _ in range(rng.choice([1, 1, 2, 3, 4]))]} for _ in range(rng.choice([1, 2, 3]))],
            'init': rng.random() < 0.5, 'oldver': rng.random() < 0.3, 'mkhome': rng.random() < 0.6,
            'swarm': dict(swarm(rng, crash=0.01, fault=0.01, kinds=['ENOSPC', 'EIO', 'SHORT', 'EACCES', 'EMFILE']),
                          op_gap=rng.choice([0, 0, 30, 200]))}


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    good = []               # every configuration that was ever completely in force (as value maps)
    saving = {}
    state = {'defaults': None}

    def nf(t):
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def fresh_session(proc, s):
        t = current()
        if s['delay']:
            sim.sleep(s['delay'])
        f0 = nf(t)
        if any(saving.values()):
            sim.probe('start_during_save')
        mod = proc.imp('lsl.config')
        cfg = mod.LSL_CONFIG
        if state['defaults'] is None:
            state['defaults'] = defaults_of(mod)
            if plan['init']:
                good.append(dict(state['defaults'], **state['init']))
            else:
                good.append(state['defaults'])
        ALLNAMES[0] = sorted(state['defaults'])
        now = {n: cfg.get(n) for n in ALLNAMES[0]}
        sim.event('loaded', diff=sorted((k, repr(v)) for k, v in now.items() if v != state['defaults'][k]))
        sim.probe('loaded')
        clean = nf(t) == f0
        if clean:
            if now not in good:
                sim.violate('loaded-configuration-never-saved',
                            got=sorted((k, repr(v)) for k, v in now.items() if v != state['defaults'][k]),
                            raw=(sim.vfs.get(CF) or b'')[-200:])
            ro = [w for w in proc.warnings if 'Cannot create or write' in w[1]]
            if ro:
                sim.violate('session-became-read-only')
            bad = [w for w in proc.warnings if 'malformed' in w[1]]
            if bad:
                sim.violate('torn-configuration-file', warning=bad[0][1][:200])
        new = dict(now)
        for n, v in s['sets']:
            cfg.set(n, v)
            new[n] = v
        if s['hold']:
            sim.sleep(s['hold'])
        # from here on the new configuration may be committed
        if now in good:
            good.append(new)
        saving[t] = True

        hs = exit_handlers(proc)
        if not hs:
            sim.violate('nothing-saved-at-exit')
            return
        handler = hs[0][0]

        def save():
            f1 = nf(t)
            try:
                handler()
                sim.probe('saved')
            except OSError as e:
                sim.event('save-failed', exc=repr(e))
                if nf(t) == f1:
                    sim.violate('save-raised', exc=repr(e))
                else:
                    sim.probe('save_failed')
        if s['mid']:
            save()
        # interpreter exit runs the registered handler
        proc.atexit[proc.atexit.index(hs[0])] = (save, (), {})

    def ended(proc):
        for t in proc.tasks:
            saving.pop(t, None)

    old_kill = sim.kill

    def kill(proc, why='kill'):
        if any(t.proc is proc for t in saving):
            sim.probe('crash_in_save')
        ended(proc)
        old_kill(proc, why)
    sim.kill = kill
    old_exit = sim.exit_proc

    def exit_proc(proc):
        old_exit(proc)
        ended(proc)
    sim.exit_proc = exit_proc

    if plan['mkhome'] or plan['init']:
        sim.vfs.mkdirs('/home/.lsl')
    if plan['init']:
        ver = '0.0.old' if plan['oldver'] else '0.0.sim'
        sim.vfs.put(CF, '# LSL Configuration File\n# LSL Version: %s\n\n[ download ]\n# download timeout\ntimeout = 77\n\n'
                        '[ observing ]\nobserver_name = Init\n' % ver)
        state['init'] = {'download.timeout': 77, 'observing.observer_name': 'Init'}

    for r, rnd in enumerate(plan['ops']):
        for i, s in enumerate(rnd['ops']):
            sim.start(sim.new_proc('r%ds%d' % (r, i), crashable=True, faultable=True), fresh_session, s)
        sim.run()
        if sim.stuck or sim.deadlock:
            break
    if not (sim.stuck or sim.deadlock):
        sim.faults_on = False
        sim.start(sim.new_proc('last'), fresh_session, {'sets': [], 'delay': 0, 'hold': 0, 'mid': False})
        sim.run()
        raw = sim.vfs.get(CF)
        if raw is None:
            sim.violate('no-configuration-file-at-the-end')
        left = [k for k in sim.vfs.tree('/home/.lsl') if k.endswith('write.test')]
        if left and not any(p.crashed for p in sim.procs) and not sim.fault_counts:
            sim.violate('test-file-left-behind', files=left)
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    for p in sim.procs:
        if p.data.get('exc') is not None:
            hit = any(h[3] == 'fault' and h[2].startswith(p.name + '.') for h in sim.history)
            if hit and isinstance(p.data['exc'], OSError):
                continue
            sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-700:])
        for x in p.data.get('atexit_exc', []):
            sim.violate('exception-at-exit', exc=x)
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
