"""P08  Configuration semantics across sessions."""
from .configlib import *

ID = 'P08'
LEVEL = 'exploration'
TECH = 'deterministic simulation of overlapping sessions, external edits and advancing (also coarse) clocks, compared with an executable model of the stored configuration'
NOTE = ('Real configuration code over a simulated disk and clock. Values are restricted to those whose text form identifies '
        'them (text that reads as a number or boolean, or has line breaks or outer blanks, is out of scope).')
TIERS = {'quick': {'runs': 4000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 100000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded interleaving of up to 4 sessions performing get/set/temporary set/save/exit with external '
        'edits and deletions; distinct non-trivial = distinct history')
REAL = ['lsl.config, lsl.misc.file_lock from /repo']
STUB = ['kernel: file system, flock, clock', 'interpreter exit (atexit)']
ASSUMPTIONS = []
REQUIRED_PROBES = {'persisted': 200, 'conflict': 100, 'temp': 200, 'temp_at_exit': 20, 'edit': 50, 'noop_exit': 100,
                   'second_save': 30, 'read_only': 20, 'version': 50}


def setup():
    setup_procsim()


def gen(rng, tier):
    ops = []
    live = []
    n = 0
    few = rng.sample(sorted(PARAMS), rng.choice([1, 2, 4, len(PARAMS), len(PARAMS)]))
    for _ in range(rng.randint(4, 26)):
        x = rng.random()
        if not live or (x < 0.15 and n < 5):
            ops.append({'op': 'start', 's': n})
            live.append(n)
            n += 1
            continue
        s = rng.choice(live)
        p = rng.choice(few)
        if x < 0.5:
            ops.append({'op': 'set', 's': s, 'p': p, 'v': rng.choice(PARAMS[p]), 'view': rng.choice([0, 0, 1, 2])})
        elif x < 0.6:
            ops.append({'op': 'temp', 's': s, 'p': p, 'v': rng.choice(PARAMS[p]), 'view': rng.choice([0, 0, 1, 2]),
                        'how': rng.choice(['plain', 'raise', 'exit', 'set-other', 'nest', 'save'])})
            if ops[-1]['how'] == 'exit':
                live.remove(s)
        elif x < 0.66:
            ops.append({'op': 'bad', 's': s, 'p': p, 'kind': rng.choice(['type', 'type-temp', 'unknown', 'unknown-temp'])})
        elif x < 0.74:
            ops.append({'op': 'save', 's': s})
        elif x < 0.88:
            ops.append({'op': 'exit', 's': s})
            live.remove(s)
        elif x < 0.96:
            ops.append({'op': 'edit', 'p': p, 'v': rng.choice(PARAMS[p]), 'inplace': rng.random() < 0.5})
        else:
            ops.append({'op': 'delete'})
        if rng.random() < 0.5:
            ops[-1]['dt'] = rng.choice([0.0, 0.001, 0.3, 5, 4000])
    return {'ops': ops, 'init': rng.random() < 0.5, 'oldver': rng.random() < 0.3, 'ro': rng.random() < 0.08,
            'swarm': {'p_switch': 0, 'op_gap': 0, 'gran': rng.choice([0, 0, 0.004])}}


class Leave(Exception):
    pass


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)
    sess = {}
    mb = {}
    model = {'disk': None, 'version': 0, 'ver': None}     # disk: value map or None
    D = {}

    def bump():
        model['version'] += 1

    if plan['init']:
        ver = '0.0.old' if plan['oldver'] else '0.0.sim'
        init = {'download.timeout': 77, 'observing.observer_name': 'Init', 'custom.extra': 5, 'telemetry.timeout': 9}
        sim.vfs.mkdirs('/home/.lsl')
        sim.vfs.put(CF, '# LSL Configuration File\n# LSL Version: %s\n\n[ download ]\n# download timeout\ntimeout = 77\n\n'
                        '[ observing ]\nobserver_name = Init\n\n[ custom ]\nextra=5\n[telemetry]\n timeout =  9 \n' % ver)
        model['disk'], model['ver'] = init, ver
        bump()
    if plan['ro']:
        sim.vfs.mkdirs('/home/.lsl')
        sim.vfs.ro_prefix.append('/home/.lsl')

    def full(d):
        x = dict(D)
        if d:
            x.update(d)
        return x

    class S(object):
        pass

    def check_values(s, where):
        for n in sorted(D):
            want = s.vals[n]
            got = s.cfg.get(n)
            if got != want or type(got) != type(want):
                sim.violate('wrong-value', where=where, param=n, got=repr(got), want=repr(want))
                return
            if '.' in n:
                sec, item = n.split('.', 1)
                if sec in s.mod.DEFAULTS_ALL:
                    got = [s.cfg.view(sec).get(item), s.cfg.view('download').get(n)]
                    if got != [want, want]:
                        sim.violate('wrong-value-in-view', where=where, param=n, got=repr(got), want=repr(want))
                        return
        try:
            s.cfg.view('download').get('nosuch')
            sim.violate('unknown-parameter-accepted')
        except ValueError:
            pass

    def check_disk(where):
        raw = sim.vfs.get(CF)
        if (raw is None) != (model['disk'] is None):
            sim.violate('file-existence', where=where, exists=raw is not None)
            return
        if raw is None:
            return
        got = dict(D)
        got.update(parse(raw.decode()))
        want = full(model['disk'])
        if got != want:
            diff = sorted((k, repr(got.get(k, '<none>')), repr(want.get(k, '<none>'))) for k in set(got) | set(want)
                          if got.get(k, '<none>') != want.get(k, '<none>'))
            sim.violate('stored-configuration-differs', where=where, got_want=diff[:6])
            model['disk'] = got

    def identity():
        try:
            n = sim.vfs.lookup(CF)
            return (n.ino, n.mtime, bytes(n.data))
        except OSError:
            return None

    def do_save(s, act):
        """act() runs the real save; the model says what must be on disk afterwards."""
        w0 = len(s.proc.warnings)
        n_changed = {k: v for k, v in s.perm.items() if v != s.loaded.get(k, D.get(k))}
        # values changed relative to what this session loaded or last saved
        want_write = bool(n_changed) or s.need_version
        before = identity()
        act()
        if not want_write and identity() != before:
            sim.violate('file-written-without-changes')
        warned = [x[1] for x in s.proc.warnings[w0:]]
        sim.event('saved', s=s.id, changed=sorted(n_changed), version=s.need_version, conflict=s.seen_version != model['version'])
        if plan['ro']:
            sim.probe('read_only')
            check_disk('save-read-only')
            return
        if want_write:
            conflict = model['disk'] is not None and s.seen_version != model['version']
            if conflict:
                sim.probe('conflict')
                if n_changed:
                    if not any('abandoning' in x for x in warned):
                        sim.violate('changes-dropped-without-warning', changed=sorted(n_changed))
                    for k in n_changed:
                        if not any(k in x for x in warned):
                            sim.violate('dropped-change-not-named', param=k)
                if s.need_version and model['ver'] != '0.0.sim':
                    model['ver'] = '0.0.sim'
                    bump()
                s.fuzzy = True
            else:
                sim.probe('persisted' if n_changed else 'version')
                if warned:
                    sim.violate('unexpected-warning', warning=warned[0][:200])
                base = dict(s.loaded)
                base.update(s.perm)
                model['disk'] = base
                model['ver'] = '0.0.sim'
                bump()
                s.seen_version = model['version']
                s.loaded = dict(base)
                s.perm = {}
                s.need_version = False
        else:
            sim.probe('noop_exit')
        check_disk('save')
        raw = sim.vfs.get(CF)
        if want_write and raw is not None and b'LSL Version: 0.0.sim' not in raw and model['ver'] == '0.0.sim':
            sim.violate('version-not-updated')

    def view_set(s, o):
        if o['view'] == 0:
            s.cfg.set(o['p'], o['v'])
        else:
            sec, item = o['p'].split('.', 1)
            if o['view'] == 1:
                s.cfg.view(sec).set(item, o['v'])
            else:
                s.cfg.view('download').set(o['p'], o['v'])

    def view_temp(s, o):
        if o['view'] == 0:
            return s.cfg.set_temp(o['p'], o['v'])
        sec, item = o['p'].split('.', 1)
        if o['view'] == 1:
            return s.cfg.view(sec).set_temp(item, o['v'])
        return s.cfg.view('download').set_temp(o['p'], o['v'])

    def type_ok(s, p, v):
        return type(v) == type(s.vals[p]) or s.mod.DEFAULTS_ALL[p.split('.')[0]][p.split('.', 1)[1]]['is_optional']

    def handle(s, o):
        if o['op'] == 'set':
            if not type_ok(s, o['p'], o['v']):
                return
            view_set(s, o)
            s.vals[o['p']] = o['v']
            s.perm[o['p']] = o['v']
            check_values(s, 'set')
        elif o['op'] == 'bad':
            try:
                if o['kind'] in ('type', 'type-temp'):
                    opt = s.mod.DEFAULTS_ALL[o['p'].split('.')[0]][o['p'].split('.', 1)[1]]['is_optional']
                    if opt:
                        return
                    if o['kind'] == 'type':
                        s.cfg.set(o['p'], ['list'])
                    else:
                        with s.cfg.set_temp(o['p'], ['list']):
                            pass
                    sim.violate('wrong-type-accepted', param=o['p'])
                elif o['kind'] == 'unknown':
                    s.cfg.set('download.nosuch', 1)
                    sim.violate('unknown-parameter-accepted')
                else:
                    with s.cfg.view('download').set_temp('nosuch', 1):
                        sim.violate('unknown-parameter-accepted')
            except (TypeError, ValueError):
                pass
            check_values(s, 'bad')
        elif o['op'] == 'temp':
            sim.probe('temp')
            if not type_ok(s, o['p'], o['v']):
                if o['how'] == 'exit':
                    raise Leave()
                return
            old = s.vals[o['p']]
            if o['how'] == 'exit':
                sim.probe('temp_at_exit')
                s.cm = view_temp(s, o)
                s.cm.__enter__()
                s.vals[o['p']] = o['v']
                check_values(s, 'temp-exit')
                raise Leave()
            try:
                with view_temp(s, o):
                    s.vals[o['p']] = o['v']
                    check_values(s, 'in-temp')
                    if o['how'] == 'raise':
                        raise KeyError('body')
                    if o['how'] == 'set-other':
                        q = 'download.block_size' if o['p'] != 'download.block_size' else 'download.timeout'
                        s.cfg.set(q, 4242)
                        s.vals[q] = s.perm[q] = 4242
                    if o['how'] == 'nest':
                        with view_temp(s, o):
                            check_values(s, 'in-temp2')
                        check_values(s, 'after-inner-temp')
                    if o['how'] == 'save':
                        do_save(s, exit_handler(s.proc))
            except KeyError as e:
                if o['how'] != 'raise' or e.args != ('body',):
                    raise
            except ValueError as e:
                if o['how'] == 'raise':
                    sim.violate('exception-in-block-replaced', exc=repr(e))
                else:
                    raise
            s.vals[o['p']] = old
            check_values(s, 'after-temp')
        elif o['op'] == 'save':
            if s.saves:
                sim.probe('second_save')
            s.saves += 1
            do_save(s, exit_handler(s.proc))
            check_values(s, 'after-save')
        elif o['op'] == 'exit':
            raise Leave()

    def session(proc, s):
        s.mod = proc.imp('lsl.config')
        s.cfg = s.mod.LSL_CONFIG
        if not D:
            D.update(defaults_of(s.mod))
        s.loaded = full(model['disk'])
        s.vals = dict(s.loaded)
        s.perm = {}
        s.fuzzy = False
        s.saves = 0
        s.cm = None
        s.need_version = model['ver'] != '0.0.sim'
        s.seen_version = model['version']
        check_values(s, 'start')
        mb[s.id] = 'ready'
        try:
            while True:
                sim.block(lambda: isinstance(mb[s.id], dict))
                o = mb[s.id]
                if s.fuzzy and o['op'] not in ('exit',) and not (o['op'] == 'temp' and o['how'] == 'exit'):
                    mb[s.id] = 'ready'
                    continue
                handle(s, o)
                mb[s.id] = 'ready'
        except Leave:
            pass
        finally:
            if not proc.alive:
                mb[s.id] = 'gone'
        h = exit_handlers(proc)
        if not h:
            sim.violate('nothing-saved-at-exit')
        else:
            fn = h[0][0]
            proc.atexit[proc.atexit.index(h[0])] = ((lambda: do_save(s, fn)) if not s.fuzzy else fn, (), {})

    for o in plan['ops']:
        if sim.violations:
            break
        if o.get('dt'):
            sim.mono += o['dt']
            sim.now += o['dt']
        if o['op'] == 'start':
            s = S()
            s.id = o['s']
            s.proc = sim.new_proc('s%d' % s.id)
            sess[s.id] = s
            sim.start(s.proc, session, s)
            sim.run()
        elif o['op'] in ('edit', 'delete'):
            if plan['ro']:
                continue
            if o['op'] == 'delete':
                par = sim.vfs.mkdirs('/home/.lsl')
                if par.kids.pop('lsl.cfg', None) is not None:
                    model['disk'], model['ver'] = None, None
                    bump()
            elif model['disk'] is not None:
                sim.probe('edit')
                d = dict(model['disk'])
                d[o['p']] = o['v']
                text = '# LSL Configuration File\n# LSL Version: %s\n' % model['ver']
                for k in sorted(d):
                    text += '[ %s ]\n%s = %s\n' % (k.split('.')[0], k.split('.', 1)[1], '' if d[k] is None else d[k])
                sim.now += 0.01
                node = sim.vfs.lookup(CF)
                if o['inplace']:
                    node.data = bytearray(text.encode())
                    node.mtime = sim.vfs.stamp()
                else:
                    sim.vfs.put(CF, text)
                model['disk'] = d
                bump()
        else:
            s = sess.get(o['s'])
            if s is None or not s.proc.alive:
                continue
            mb[s.id] = o
            sim.run()
        if sim.stuck:
            sim.violate('no-progress', what=str(sim.stuck))
        for p in sim.procs:
            if p.data.get('exc') is not None:
                sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-700:])
            for x in p.data.get('atexit_exc', []):
                sim.violate('exception-at-exit', exc=x)
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
