"""P10  Telemetry opt-out and non-interference."""
import sys as _sys
from .telelib import *

ID = 'P10'
LEVEL = 'exploration'
TECH = 'deterministic simulation of session histories with opt-out operations, threads, disk and network faults and crashes, against a model of what may be recorded'
NOTE = 'Real telemetry client and sender over a simulated kernel, clock, network and scheduler; seeded search. Opt-out is checked from the return of the call on; a crash of the session that opts out may lose the setting.'
TIERS = {'quick': {'runs': 2400, 'budget': 150, 'det': 40},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded history of sessions that use tracked functions, opt in and out (also through the command line) '
        'and exit; distinct non-trivial = distinct history')
REAL = ['lsl.misc.telemetry (and its command line), lsl.misc._telemetry_send, lsl.config, lsl.misc.file_lock, lsl.logger from /repo']
STUB = ['kernel: file system, flock, clock, scheduler, process start and death', 'sockets and the telemetry server', 'interpreter exit (atexit)']
ASSUMPTIONS = ['kill -9 crash model (no power loss)']
REQUIRED_PROBES = {'off_use': 300, 'off_session': 100, 'reenabled': 50, 'ignored': 50, 'cli': 50, 'faulty_use': 20, 'unwritable': 30,
                   'on_reported': 100, 'no_stdin': 60, 'foreign_use': 60}


def setup():
    setup_procsim()


def gen(rng, tier):
    ss = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.2:
            ss.append({'cli': rng.choice(['--disable', '--enable', '--key', None, '-d', '-e']), 'wait': rng.choice([0, 8 * 86400])})
            continue
        ops = []
        for _ in range(rng.randint(1, 12)):
            x = rng.random()
            if x < 0.12:
                ops.append({'op': 'disable'})
            elif x < 0.22:
                ops.append({'op': 'ignore'})
            elif x < 0.36:
                ops.append({'op': 'enable'})
            elif x < 0.4:
                ops.append({'op': 'threads', 'n': rng.randint(2, 3), 'k': [rng.choice(KINDS) for _ in range(3)]})
            else:
                ops.append({'op': 'use', 'k': rng.choice(KINDS), 'fail': rng.random() < 0.25, 'dt': rng.choice([0.25, 1.0])})
        ss.append({'ops': ops, 'wait': rng.choice([0, 86400, 8 * 86400, 8 * 86400])})
    return {'ops': ss, 'max': rng.choice([1, 3, 100]), 'p_net': rng.choice([0, 0.4]),
            'disk': rng.choice(['ok', 'ok', 'ok', 'ok', 'ro', 'badkey', 'dirfile', 'cache-ro']),
            'stdin': rng.choice(['ok', 'ok', 'ok', 'closed', 'none', 'tty']), 'foreign': rng.random() < 0.2,
            'swarm': swarm(rng, crash=0.001, fault=0.01, jump=0.002, kinds=['ENOSPC', 'EIO', 'SHORT', 'EACCES'])}


def run(plan, devs=None):
    with Stdin(plan.get('stdin')):
        return run1(plan, devs)


def run1(plan, devs):
    res = Result()
    sim = mk(plan, devs)
    srv = Server(sim, plan['p_net'])
    started, memo, everseen = [], {}, {}
    spawn_sender(sim, started, True, True)
    sim.vfs.mkdirs('/home/.lsl')
    sim.vfs.put('/home/.lsl/lsl.cfg', '# LSL Configuration File\n# LSL Version: 0.0.sim\n[ telemetry ]\nenabled = True\nmax_entries = %d\ntimeout = 30\n' % plan['max'])
    if plan['disk'] == 'ro':
        sim.vfs.ro_prefix.append('/home')
    elif plan['disk'] == 'badkey':
        sim.vfs.mkdirs(TC)
        sim.vfs.put(TC + '/install.key', b'\xff\xfe\x80')
    elif plan['disk'] == 'dirfile':
        sim.vfs.put(TC, b'not a directory')
    elif plan['disk'] == 'cache-ro':
        sim.vfs.mkdirs(TC)
        sim.vfs.put(TC + '/install.key', '1234-5678')
        sim.vfs.ro_prefix.append(TC)
    if plan['disk'] != 'ok':
        sim.probe('unwritable')
    if plan.get('stdin', 'ok') in ('closed', 'none'):
        sim.probe('no_stdin')

    state = {'pref': True, 'certain': True, 'quiet': None}     # stored preference
    offnames, onnames = set(), set()

    def watch(kind, detail):
        for n, c in reports_on_disk(sim, memo).items():
            if c not in everseen:
                everseen[c] = n
                t = current()
                q = state['quiet']
                if q is not None and t is not None and t.proc is q:
                    sim.violate('report-written-while-disabled', report=c[:200])
    sim.hooks.append(watch)

    def nf(proc):
        return sum(1 for e in sim.history if e[2].startswith(proc.name + '.') and e[3] == 'fault')

    def session(proc, spec, idx):
        tele = proc.imp('lsl.misc.telemetry')
        usable = plan['disk'] == 'ok'
        active = tele.is_active()
        f0 = nf(proc)
        if state['certain'] and not f0:
            want = state['pref'] and plan['disk'] in ('ok', 'cache-ro')
            if active != want:
                sim.violate('preference-not-honoured-at-start', active=active, want=want)
        if not active:
            sim.probe('off_session')
        if not active and started.count(proc):
            sim.violate('sender-started-while-disabled')
        state['quiet'] = None if active else proc
        pref = state['pref']
        changed = False
        readonly = not active and state['pref']          # no cache: never active in this session
        k = 0
        for o in spec['ops']:
            f1 = nf(proc)
            foreign = plan.get('foreign') and o['op'] == 'use' and k % 2 == 1 and o['k'] not in ('script',)
            mod = user_module(proc, ('other.sim_%d_%d' if foreign else 'lsl.sim_%d_%d') % (idx, k))
            k += 1
            if o['op'] == 'use':
                names, _ = use(sim, mod, o['k'], o['fail'], o['dt'])
                (onnames if active and not foreign else offnames).update(names)
                if foreign:
                    sim.probe('foreign_use')
                if not active:
                    sim.probe('off_use')
                if nf(proc) > f1:
                    sim.probe('faulty_use')
                sim.event('use', k=o['k'], active=active)
            elif o['op'] == 'threads':
                ths = []
                for i in range(o['n']):
                    def work():
                        for kk in o['k']:
                            names, _ = use(sim, mod, kk, False, 0.1)
                            (onnames if active else offnames).update(names)
                    ths.append(sim.spawn(proc, work))
                for t in ths:
                    sim.block(lambda t=t: t.state == 'done')
                if not active:
                    sim.probe('off_use')
            else:
                try:
                    getattr(tele, o['op'])()
                except Exception as e:
                    sim.violate('opt-out-call-failed', call=o['op'], exc=repr(e))
                    return
                got = tele.is_active()
                if o['op'] == 'enable':
                    if not active and got:
                        sim.probe('reenabled')
                    pref = True
                    if got and readonly:
                        sim.violate('active-without-cache')
                    if not got and plan['disk'] == 'ok' and not nf(proc):
                        sim.violate('enable-had-no-effect')
                    active = got
                else:
                    if got:
                        sim.violate('still-active', call=o['op'])
                        return
                    active = False
                    if o['op'] == 'disable':
                        pref = False
                    else:
                        sim.probe('ignored')
                state['quiet'] = None if active else proc
                sim.event(o['op'], active=active)
        proc.data['pref'] = pref

    def cli(proc, arg):
        sim.probe('cli')
        argv = _sys.argv
        _sys.argv = ['lsl.misc.telemetry'] + ([arg] if arg else [])
        try:
            proc.imp('lsl.misc.telemetry.__main__')
        finally:
            _sys.argv = argv
        if arg in ('--disable', '-d'):
            proc.data['pref'] = False
        elif arg in ('--enable', '-e'):
            proc.data['pref'] = True
        else:
            proc.data['pref'] = state['pref']
        out = ''.join(x[2] for x in proc.stdout if x[0] == 'out')
        if not nf(proc) and state['certain']:
            want = 'active' if proc.data['pref'] and plan['disk'] in ('ok', 'cache-ro') else 'in-active'
            if 'LSL Telemetry is %s\n' % want not in out:
                sim.violate('command-line-status-wrong', out=out, want=want)

    for i, spec in enumerate(plan['ops']):
        fz = 'cli' not in spec
        p = sim.new_proc('s%d' % i, crashable=fz, faultable=fz)
        n0 = len(srv.posts)
        if 'cli' in spec:
            sim.start(p, cli, spec['cli'])
        else:
            sim.start(p, session, spec, i)
        sim.run()
        if sim.stuck or sim.deadlock:
            break
        state['quiet'] = None
        if plan['disk'] in ('ro',):
            pass                                   # nothing can be stored
        elif p.crashed or nf(p) or p.data.get('exc') is not None:
            if p.data.get('pref', None) != state['pref'] or p.crashed:
                state['certain'] = state['certain'] and False
        elif 'pref' not in p.data:
            if not sim.violations:
                sim.violate('session-did-not-finish', proc=p.name)
            break
        else:
            state['pref'] = p.data['pref']
            if p.warnings and any('abandon' in w[1] for w in p.warnings):
                sim.violate('preference-abandoned')
        sim.mono += spec['wait']
        sim.now += spec['wait']
        if not state['certain']:
            # re-synchronise with what is stored
            raw = (sim.vfs.get('/home/.lsl/lsl.cfg') or b'').decode()
            state['pref'] = 'enabled = False' not in raw
            state['certain'] = True
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    # nothing used while off may ever be reported or uploaded
    blob = list(everseen) + [c for c, _, _ in srv.acked] + [canon(r) for _, rs in srv.posts for r in rs]
    for c in blob:
        calls = json.loads(c)['calls']
        for n in calls:
            if n in offnames and n not in onnames:
                sim.violate('use-recorded-while-disabled', name=n)
            if n in onnames:
                sim.probe('on_reported')
    for p in sim.procs:
        if p.data.get('exc') is not None:
            sim.violate('unexpected-exception', proc=p.name, exc=repr(p.data['exc']), tb=p.data['exc_tb'][-900:])
        for t in p.tasks:
            if t.exc is not None:
                sim.violate('unexpected-exception', proc=p.name, exc=repr(t.exc), tb=t.exc_tb[-700:])
        for x in p.data.get('atexit_exc', []):
            if not nf(p):
                sim.violate('exception-at-exit', exc=x)
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
