"""P09  Telemetry accounting."""
from .telelib import *

ID = 'P09'
LEVEL = 'exploration'
TECH = 'deterministic simulation of sessions, threads and upload processes over a faulty disk and network with crashes; conservation of counts over the recorded history'
NOTE = 'Real telemetry client and sender over a simulated kernel, clock, network and scheduler; seeded search. A crash may lose what was not yet written; an upload whose acknowledgement is lost may be repeated.'
TIERS = {'quick': {'runs': 2400, 'budget': 150, 'det': 40},
         'thorough': {'runs': 60000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded history of up to 5 sessions with 1-3 threads using tracked functions, their upload processes, '
        'faults, crashes and elapsed days; distinct non-trivial = distinct history')
REAL = ['lsl.misc.telemetry, lsl.misc._telemetry_send, lsl.config, lsl.misc.file_lock, lsl.logger from /repo', 'http.client']
STUB = ['kernel: file system, flock, clock, scheduler, process start and death', 'sockets and the telemetry server', 'interpreter exit (atexit)']
ASSUMPTIONS = ['kill -9 crash model (no power loss)']
REQUIRED_PROBES = {'sessions': 500, 'reports': 300, 'uploads': 100, 'multi_report_session': 50, 'crash_session': 30,
                   'concurrent_start': 60, 'delivered_all': 100, 'faulty_session_with_calm_end': 50}


def setup():
    setup_procsim()


def gen(rng, tier):
    rounds = []
    for r in range(rng.randint(1, 3)):
        ss = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ths = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                ths.append({'ops': [{'k': rng.choice(KINDS), 'fail': rng.random() < 0.15,
                                     'dt': rng.choice([0.25, 0.5, 2.0]), 'nap': rng.choice([0, 0, 0, 0.4, 2])}
                                    for _ in range(rng.randint(0, 7))]})
            ss.append({'ops': ths, 'delay': rng.choice([0, 0, 0, 0.001, 0.05])})
        rounds.append({'ops': ss, 'wait': rng.choice([0, 3600, 3 * 86400, 6.99 * 86400, 8 * 86400, 8 * 86400])})
    return {'ops': rounds, 'max': rng.choice([1, 2, 3, 100]), 'p_net': rng.choice([0, 0.2, 0.5]),
            'late': rng.choice([60, 7200, 2 * 86400]), 'flush': rng.random() < 0.25, 'oldkey': rng.random() < 0.3, 'emptykey': rng.random() < 0.1, 'damaged': rng.random() < 0.15, 'calm_end': rng.random() < 0.6, 'hit_reports': rng.random() < 0.35,
            'swarm': swarm(rng, crash=0.002, fault=0.006, jump=0.002, kinds=['ENOSPC', 'EIO', 'SHORT', 'EACCES'])}


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    srv = Server(sim, plan['p_net'])
    if plan.get('hit_reports') and plan['swarm'].get('p_fault'):
        # a disk that often fails while reports are written
        sim.swarm['p_fault'] = 0.08
        sim.vfs.fault_filter = lambda kind, path: '/telemetry_cache/telemetry_' in path
    started, memo, seen = [], {}, {}
    spawn_sender(sim, started, True, True)
    sim.vfs.mkdirs(TC)
    key0 = '11111111-2222-3333-4444-555555555555'
    if plan['oldkey']:
        sim.vfs.put(TC + '/install.key', key0)
    elif plan['emptykey']:
        sim.vfs.put(TC + '/install.key', '')
    if plan['damaged']:
        sim.vfs.put(TC + '/telemetry_123_45.log', b'{"timestamp": 12', mtime=sim.now - 20 * 86400)
    sim.vfs.put('/home/.lsl/lsl.cfg', '# LSL Configuration File\n# LSL Version: 0.0.sim\n[ telemetry ]\nenabled = True\nmax_entries = %d\ntimeout = 30\n' % plan['max'])
    sessions = []

    def watch(kind, detail):
        if kind.startswith('fs') or kind in ('net.connect', 'exit', 'close', 'rename', 'unlink'):
            for n, c in reports_on_disk(sim, memo).items():
                if c not in seen:
                    seen[c] = n
                    if not json.loads(c).get('calls'):
                        sim.violate('empty-report', report=c[:200])
                    sim.probe('reports')
    sim.hooks.append(watch)

    class S(object):
        pass

    def nf(proc):
        return sum(1 for e in sim.history if e[2].startswith(proc.name + '.') and e[3] == 'fault')

    def body(s, mod, ops):
        for o in ops:
            if o['nap']:
                sim.sleep(o['nap'])
            key = (current().name, len(s.started))
            n = names_of(mod, o['k'])
            if n:
                s.started[n] = s.started.get(n, 0) + 1
            names, secs = use(sim, mod, o['k'], o['fail'], o['dt'])
            for n in names:
                s.counts[n] = s.counts.get(n, 0) + 1
                if secs is not None:
                    s.times[n] = s.times.get(n, 0.0) + secs
                    s.ntimed[n] = s.ntimed.get(n, 0) + 1
        s.tracked = True

    def session(proc, s, spec):
        if spec['delay']:
            sim.sleep(spec['delay'])
        if any(x is not s and x.phase == 'import' for x in sessions):
            sim.probe('concurrent_start')
        s.phase = 'import'
        tele = proc.imp('lsl.misc.telemetry')
        s.phase = 'run'
        sim.probe('sessions')
        s.active = tele.is_active()
        mod = user_module(proc, 'lsl.sim_%s' % s.name)
        ths = [sim.spawn(proc, lambda q=q: body(s, mod, q['ops']), 't%d' % (k + 1)) for k, q in enumerate(spec['ops'][1:])]
        if plan.get('flush') and ths:
            # another thread asks for a report while the others work
            def flush():
                w = getattr(getattr(tele, '_telemetry_client', None), 'write', None)
                for _ in range(3):
                    sim.sleep(0.3)
                    if w is not None:
                        w()
                        sim.probe('flushes')
            ths.append(sim.spawn(proc, flush, 'flush'))
        if spec['ops']:
            body(s, mod, spec['ops'][0]['ops'])
        for t in ths:
            sim.block(lambda t=t: t.state == 'done')
        s.phase = 'end'
        if plan.get('calm_end'):
            proc.faultable = False
            s.calm = True

    def go(r, specs, fault=True):
        for i, spec in enumerate(specs):
            s = S()
            s.name = 'r%ds%d' % (r, i)
            s.counts, s.started, s.times, s.ntimed = {}, {}, {}, {}
            s.phase, s.active, s.tracked, s.calm = 'new', None, False, False
            s.proc = sim.new_proc(s.name, crashable=fault, faultable=fault)
            sessions.append(s)
            sim.start(s.proc, session, s, spec)
        sim.run()

    def wait(dt):
        sim.mono += dt
        sim.now += dt

    for r, rnd in enumerate(plan['ops']):
        go(r, rnd['ops'])
        if sim.stuck or sim.deadlock:
            break
        wait(rnd['wait'])
    if not (sim.stuck or sim.deadlock):
        # liveness: once faults stop, one session a week later delivers everything
        sim.faults_on = False
        had = bool(reports_on_disk(sim, memo))
        wait(7 * 86400 + plan.get('late', 7200))
        if sim.fault_counts.get('clock-jump'):
            wait(30 * 86400)
        go(90, [{'ops': [], 'delay': 0}])
        if not (sim.stuck or sim.deadlock):
            left = reports_on_disk(sim, memo)
            if left:
                sim.violate('reports-never-delivered', files=sorted(left)[:4])
            elif had:
                sim.probe('delivered_all')
            tmp = [k for k in sim.vfs.tree(TC) if k.endswith('.tmp')]
            if tmp and not sim.crashes and not sim.fault_counts:
                sim.violate('temporary-file-left-behind', files=tmp)
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    sim.probe('uploads', len(srv.posts))

    # ---- conservation --------------------------------------------------
    ondisk = set(reports_on_disk(sim, memo).values())
    acked = {}
    for c, p, clean in srv.acked:
        acked.setdefault(c, []).append((p, clean))
    for c in acked:
        if c not in seen:
            sim.violate('uploaded-report-never-written', report=c[:200])
    keys = set()
    for c in seen:
        if c not in ondisk and c not in acked:
            sim.violate('report-lost', report=c[:300], file=seen[c])
        r = json.loads(c)
        keys.add(r.get('install_key'))
    if plan['oldkey'] and keys - {key0}:
        sim.violate('installation-key-changed', keys=sorted(map(str, keys)))
    elif len(keys) > 1 or '' in keys or None in keys:
        sim.violate('more-than-one-installation-key', keys=sorted(map(str, keys)))
    for c, l in acked.items():
        for i, (p, clean) in enumerate(l[:-1]):
            if clean and not p.crashed and not nf(p) and p.exited:
                sim.violate('report-uploaded-twice', report=c[:200])
    # counts per session
    for s in sessions:
        got, gt, gn, nrep = {}, {}, {}, 0
        for c in seen:
            r = json.loads(c)
            mine = False
            for n, v in r['calls'].items():
                if 'sim_%s' % s.name in n:
                    mine = True
                    got[n] = got.get(n, 0) + v['total_count']
                    gt[n] = gt.get(n, 0.0) + v['total_time']
                    gn[n] = gn.get(n, 0) + v['timed_count']
            nrep += mine
        if nrep > 1:
            sim.probe('multi_report_session')
        if s.proc.crashed:
            sim.probe('crash_session')
        for n in got:
            if got[n] > s.started.get(n, 0):
                sim.violate('use-counted-more-than-once', name=n, counted=got[n], used=s.started.get(n, 0))
        if s.calm and nf(s.proc):
            sim.probe('faulty_session_with_calm_end')
        clean = s.active and s.proc.exited and not s.proc.crashed and (s.calm or not nf(s.proc)) and s.proc.data.get('exc') is None
        if clean:
            for n in sorted(set(s.counts) | set(got)):
                if got.get(n, 0) != s.counts.get(n, 0):
                    sim.violate('uses-not-conserved', name=n, counted=got.get(n, 0), used=s.counts.get(n, 0))
                    break
                if gn.get(n, 0) != s.ntimed.get(n, 0):
                    sim.violate('timed-uses-not-conserved', name=n, counted=gn.get(n, 0), used=s.ntimed.get(n, 0))
                    break
                t = s.times.get(n, 0.0)
                if gt.get(n, 0.0) < t - 1e-3 or (n not in s.times and gt.get(n, 0.0) != 0):
                    sim.violate('time-not-conserved', name=n, counted=gt.get(n, 0.0), slept=t)
                    break
                if len(s.proc.tasks) == 1 and len(sim.procs) == 2 and n in s.times and gt[n] > t + 1.0:
                    sim.violate('time-not-conserved', name=n, counted=gt.get(n, 0.0), slept=t)
                    break
    for p in sim.procs:
        if p.data.get('exc') is not None:
            sim.violate('unexpected-exception', proc=p.name, exc=repr(p.data['exc']), tb=p.data['exc_tb'][-700:])
        for t in p.tasks:
            if t.exc is not None:
                sim.violate('unexpected-exception', proc=p.name, exc=repr(t.exc), tb=t.exc_tb[-700:])
        for x in p.data.get('atexit_exc', []):
            if not nf(p):
                sim.violate('exception-at-exit', exc=x)
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
