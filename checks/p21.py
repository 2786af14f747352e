"""P21  Log delivery."""
import re
import warnings
from .common import *

ID = 'P21'
LEVEL = 'exploration'
TECH = 'deterministic simulation of threads that log while handlers, levels and log files change, with disk faults and crashes; delivery checked against interval bounds from the recorded history'
NOTE = 'Real lsl.logger and standard logging over simulated threads and files; a message concurrent with the change of a level, filter or handler may go either way (standard logging does not synchronise them).'
TIERS = {'quick': {'runs': 4000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 100000, 'budget': 800, 'det': 200}}
RULE = ('a case is one seeded interleaving of 1-3 logging threads with a controlling thread; distinct non-trivial = distinct history')
REAL = ['lsl.logger, lsl.common.color from /repo', 'logging, queue']
STUB = ['kernel: file system, clock, scheduler, process death', 'standard error stream']
ASSUMPTIONS = ['kill -9 crash model (no power loss)']
REQUIRED_PROBES = {'must_file': 500, 'must_queue': 200, 'mustnot': 500, 'crash': 50, 'enable_failed': 50, 'switch': 200, 'restored': 20, 'console': 100, 'warned': 100}
LEVELS = {'debug': 10, 'info': 20, 'note': 25, 'warning': 30, 'error': 40}


def setup():
    setup_procsim()


def gen(rng, tier):
    ctl = []
    for _ in range(rng.randint(1, 9)):
        x = rng.random()
        if x < 0.4:
            ctl.append({'op': 'file', 'f': rng.choice(['a.log', 'b.log', 'c.log']), 'level': rng.choice([None, None, 10, 30]),
                        'mode': rng.choice(['a', 'a', 'w']), 'bad': rng.random() < 0.2})
        elif x < 0.52:
            ctl.append({'op': 'nofile'})
        elif x < 0.64:
            ctl.append({'op': 'level', 'l': rng.choice([10, 20, 25, 30])})
        elif x < 0.74:
            ctl.append({'op': 'queue', 'on': rng.random() < 0.6})
        elif x < 0.84:
            ctl.append({'op': 'console', 'on': rng.random() < 0.7, 'level': rng.choice([None, 30]), 'same': rng.random() < 0.5})
        elif x < 0.91:
            ctl.append({'op': 'filter', 'p': rng.choice(['lsl_logger', 'lsl*', 'other.*']), 'on': rng.random() < 0.5})
        elif x < 0.93:
            ctl.append({'op': 'clear'})
        elif x < 0.96:
            ctl.append({'op': 'capture', 'on': rng.random() < 0.7})
        else:
            ctl.append({'op': 'sleep'})
    ths = [{'ops': [{'l': rng.choice(sorted(LEVELS)), 'args': rng.random() < 0.3, 'big': rng.random() < 0.1,
                     'nap': rng.choice([0, 0, 0.01])} for _ in range(rng.randint(1, 8))]} for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.12:
        # filters come and go several times
        p = rng.choice(['lsl_logger', 'other.*'])
        ctl = [rng.choice([{'op': 'filter', 'p': p, 'on': True}, {'op': 'filter', 'p': p, 'on': True}, {'op': 'filter', 'p': p, 'on': False},
                           {'op': 'clear'}, {'op': 'clear'}, {'op': 'sleep'}, {'op': 'sleep'}]) for _ in range(rng.randint(4, 12))]
        for t in ths:
            for o in t['ops']:
                o['nap'] = rng.choice([0.01, 0.03])
    if rng.random() < 0.2:
        for t in ths:
            for o in t['ops']:
                if rng.random() < 0.4:
                    o['l'] = 'warn'
        ctl.insert(0, {'op': 'capture', 'on': True})
    return {'ctl': ctl, 'userfmt': rng.choice([True, False, None]), 'ops': ths, 'crash': rng.random() < 0.3,
            'swarm': swarm(rng, crash=0.01, fault=0.01, kinds=['ENOSPC', 'EIO'])}


def run(plan, devs=None):
    keep = warnings.showwarning
    try:
        return run1(plan, devs)
    finally:
        warnings.showwarning = keep


LINE = r'(?P<pre>\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[(?:DEBUG|INFO|NOTE|WARNING|ERROR) *\] )id=(?P<id>m\d+-\d+)( x+)? (plain|arg);'
WARN = r'(?P<pre>\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[WARNING *\] )<sim>:1: UserWarning: id=(?P<id>m\d+-\d+)( x+)? (careful);'
OWN = r'.* RuntimeWarning: Closing existing log file .*'


def badlines(text):
    """lines that do not have the layout of the log"""
    return [x for x in text.split('\n') if x and not re.fullmatch(LINE, x) and not re.fullmatch(WARN, x) and not re.fullmatch(OWN, x)]


def run1(plan, devs):
    res = Result()
    if not plan['crash']:
        plan = dict(plan, swarm=dict(plan['swarm'], p_crash=0.0))
    sim = mk(plan, devs)
    clk = [0]

    def tick():
        clk[0] += 1
        return clk[0]
    INF = 10 ** 9
    msgs = []               # dicts
    sinks = []              # {'kind','path','lv','on':(lo,hi),'off':(lo,hi)}
    levels = [((0, 0), 20)]
    filters = []            # (pattern, on(lo,hi), off(lo,hi))
    captures = []           # {'on', 'off'}
    plain0 = warnings.showwarning
    changes = []            # handler and filter changes: standard logging may skip handlers meanwhile
    st = {'file': None, 'queue': None, 'console': None, 'records': []}

    def main(proc):
        L = proc.imp('lsl.logger')
        con = []

        class Stream(object):
            def write(self, s):
                sim.op('console')
                self.lst.append(s)

            def flush(self):
                pass
        st['con'] = con
        default = {'kind': 'default', 'lv': 0, 'on': (0, 0), 'off': (INF, INF)}
        sinks.append(default)
        active_f = {}

        def log(tid, k, o):
            m = {'id': 'm%d-%d' % (tid, k), 'lv': LEVELS.get(o['l'], 30), 't0': tick(), 't1': INF, 'tid': tid, 'warn': o['l'] == 'warn'}
            msgs.append(m)
            text = 'id=%s' % m['id'] + (' ' + 'x' * 9000 if o['big'] else '')
            f0 = sum(1 for e in sim.history if e[2] == current().name and e[3] == 'fault')
            try:
                a = (text + ' %s;', 'arg') if o['args'] else (text + ' plain;',)
                if o['l'] == 'warn':
                    warnings.warn(text + ' \x1b[31mcareful\x1b[0m;', UserWarning)
                    sim.probe('warned')
                elif o['l'] == 'note':
                    L.make_note(*a)
                else:
                    getattr(L.LSL_LOGGER, o['l'])(*a)
            except Exception as e:
                if not (isinstance(e, OSError) and sum(1 for x in sim.history if x[2] == current().name and x[3] == 'fault') > f0):
                    sim.violate('logging-raised', exc=repr(e))
            m['t1'] = tick()
            sim.event('logged', id=m['id'], lv=m['lv'])

        def worker(tid, ops):
            for k, o in enumerate(ops):
                if o['nap']:
                    sim.sleep(o['nap'])
                log(tid, k, o)

        def show(*a):
            if warnings.showwarning is not plain0:
                warnings.showwarning(*a)
        proc.data['showwarning'] = show
        th = [sim.spawn(proc, lambda i=i, q=q: worker(i, q['ops']), 'w%d' % i) for i, q in enumerate(plan['ops'])]
        qh = L.ThreadedHandler()
        cap = None
        # a handler of the user's, with the default format, its own or none
        import logging as lg
        lg = proc.imp('logging') if hasattr(L, 'logging') else lg
        user = Stream()
        user.lst = []
        uh = lg.StreamHandler(user)
        if plan.get('userfmt') is None:
            L.add_handler(uh)
        elif plan['userfmt']:
            L.add_handler(uh, formatter=lg.Formatter('U:%(message)s'))
        else:
            uh.setFormatter(lg.Formatter('V:%(message)s'))
            L.add_handler(uh, formatter=None)
        st['user'] = user.lst
        t = tick()
        sinks.append({'kind': 'user', 'lv': 0, 'on': (0, t), 'off': (INF, INF)})
        for o in plan['ctl']:
            t0 = tick()
            sim.event('control', **{k: v for k, v in o.items()})
            if o['op'] not in ('level', 'sleep'):
                changes.append((t0, INF))
            try:
                if o['op'] == 'file':
                    old = st['file']
                    path = '/nodir/x.log' if o['bad'] else '/cwd/' + o['f']
                    f0 = sum(1 for e in sim.history if e[2] == current().name and e[3] == 'fault')
                    # a file that is already in use is truncated under the writer: out of scope
                    new = {'kind': 'file', 'path': path, 'lv': o['level'] or 0, 'on': (t0, INF), 'off': (INF, INF), 'mode': o['mode']}
                    sinks.append(new)
                    try:
                        L.enable_file_logging(('/simfs' + path), level=o['level'], mode=o['mode'])
                        new['on'] = (t0, tick())
                        st['file'] = new
                        if old is not None:
                            old['off'] = (t0, clk[0])
                            sim.probe('switch')
                    except OSError as e:
                        new['on'] = (INF, INF)
                        sim.probe('enable_failed')
                        if old is not None:
                            sim.probe('restored')
                        if not o['bad'] and old is not None:
                            old['off'] = (t0, INF)       # an injected fault may hit between the probe and the switch
                        if not o['bad'] and sum(1 for e in sim.history if e[2] == current().name and e[3] == 'fault') == f0:
                            sim.violate('enable-file-logging-raised', exc=repr(e))
                elif o['op'] == 'nofile':
                    if st['file'] is not None:
                        st['file']['off'] = (t0, INF)
                    L.disable_file_logging()
                    if st['file'] is not None:
                        st['file']['off'] = (t0, tick())
                    st['file'] = None
                elif o['op'] == 'level':
                    levels.append([(t0, INF), o['l']])
                    L.set_log_level(o['l'])
                    levels[-1] = ((t0, tick()), o['l'])
                    if L.get_log_level() != o['l']:
                        sim.violate('level-not-set')
                elif o['op'] == 'queue':
                    if o['on'] and st['queue'] is None:
                        s = {'kind': 'queue', 'lv': 0, 'on': (t0, INF), 'off': (INF, INF)}
                        sinks.append(s)
                        L.add_handler(qh)
                        s['on'] = (t0, tick())
                        st['queue'] = s
                    elif not o['on'] and st['queue'] is not None:
                        st['queue']['off'] = (t0, INF)
                        L.remove_handler(qh)
                        st['queue']['off'] = (t0, tick())
                        st['queue'] = None
                elif o['op'] == 'console':
                    old = st['console']
                    if o['on']:
                        if old is not None:
                            old['off'] = (t0, INF)
                        if o.get('same') and st.get('stream') is not None:
                            stream = st['stream']         # the same stream again
                        else:
                            stream = st['stream'] = Stream()
                            stream.lst = []
                        lst = stream.lst
                        s = {'kind': 'console', 'lv': o['level'] or 0, 'on': (t0, INF), 'off': (INF, INF), 'buf': lst}
                        sinks.append(s)
                        sim.probe('console')
                        L.enable_console_logging(level=o['level'], stream=stream)
                        s['on'] = (t0, tick())
                        if old is not None:
                            old['off'] = (t0, clk[0])
                        st['console'] = s
                    else:
                        if old is not None:
                            old['off'] = (t0, INF)
                        L.disable_console_logging()
                        if old is not None:
                            old['off'] = (t0, tick())
                        st['console'] = None
                elif o['op'] == 'capture':
                    if o['on'] and cap is None:
                        cap = {'on': (t0, INF), 'off': (INF, INF)}
                        captures.append(cap)
                        L.capture_warnings(True)
                        cap['on'] = (t0, tick())
                    elif not o['on']:
                        if cap is not None:
                            cap['off'] = (t0, INF)
                        L.capture_warnings(False)
                        if cap is not None:
                            cap['off'] = (t0, tick())
                        cap = None
                elif o['op'] == 'filter' and o['on'] == (o['p'] in active_f):
                    (L.add_filter if o['on'] else L.remove_filter)(o['p'])       # no change
                elif o['op'] == 'filter':
                    if o['on'] and o['p'] not in active_f:
                        f = {'p': o['p'], 'on': (t0, INF), 'off': (INF, INF)}
                        filters.append(f)
                        L.add_filter(o['p'])
                        f['on'] = (t0, tick())
                        active_f[o['p']] = f
                    elif not o['on'] and o['p'] in active_f:
                        f = active_f.pop(o['p'])
                        f['off'] = (t0, INF)
                        L.remove_filter(o['p'])
                        f['off'] = (t0, tick())
                elif o['op'] == 'clear':
                    for f in active_f.values():
                        f['off'] = (t0, INF)
                    L.clear_filters()
                    for f in active_f.values():
                        f['off'] = (t0, tick())
                    active_f.clear()
                else:
                    sim.sleep(0.03)
            except Exception as e:
                sim.violate('control-call-raised', op=o['op'], exc=repr(e))
            if o['op'] not in ('level', 'sleep'):
                changes[-1] = (t0, tick())
        for t in th:
            sim.block(lambda t=t: t.state == 'done')
        if not sim.fault_counts:
            n = sum(1 for f in proc.fds.values() if f.path.endswith('.log'))
            if n != (st['file'] is not None):
                sim.violate('log-file-left-open', open=n, used=st['file'] is not None)
        while not L.LSL_LOG_QUEUE.empty():
            st['records'].append(L.LSL_LOG_QUEUE.get_nowait())
        st['drained'] = True

    p = sim.new_proc('p', crashable=True, faultable=True)
    sim.vfs.fault_filter = lambda kind, path: path.endswith('.log')
    sim.start(p, main)
    sim.run()
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    if p.data.get('exc') is not None:
        sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-700:])
    for t in p.tasks:
        if t.exc is not None:
            sim.violate('unexpected-exception', exc=repr(t.exc), tb=t.exc_tb[-700:])
    if p.crashed:
        sim.probe('crash')

    # ---- delivery --------------------------------------------------------
    def overlap(m, lo, hi):
        return m['t0'] <= hi and m['t1'] >= lo

    def level_state(m):
        poss = set()
        for i, ((lo, hi), v) in enumerate(levels):
            nxt = levels[i + 1][0] if i + 1 < len(levels) else (INF, INF)
            if m['t1'] >= lo and m['t0'] <= nxt[1]:
                poss.add(m['lv'] >= v)
        return poss

    def filter_state(m):
        may, must = True, True
        if m['warn']:
            # captured warnings only
            must = any(m['t0'] > c['on'][1] and m['t1'] < c['off'][0] for c in captures)
            may = any(m['t1'] >= c['on'][0] and m['t0'] <= c['off'][1] for c in captures)
        for f in filters:
            if f['p'] in ('lsl_logger', 'lsl*') and not m['warn']:
                continue
            if m['t0'] > f['on'][1] and m['t1'] < f['off'][0]:
                may = must = False
            elif m['t1'] >= f['on'][0] and m['t0'] <= f['off'][1]:
                must = False
        return may, must

    for m in msgs:
        m['racy'] = any(m['t0'] <= b and m['t1'] >= a for a, b in changes)
    fault_paths = set(e[4]['detail'].replace('/simfs', '', 1) for e in sim.history if e[3] == 'fault')
    text = {}
    for s in sinks:
        if s['kind'] == 'file':
            text[s['path']] = (sim.vfs.get(s['path']) or b'').decode('utf-8', 'replace')
    ids = {}
    for path, tx in text.items():
        got = {}
        for line in tx.split('\n'):
            if not line:
                continue
            mm = re.fullmatch(LINE, line) or re.fullmatch(WARN, line)
            if mm is None and re.fullmatch(OWN, line):
                continue
            if mm is None:
                wipe = sum(1 for s in sinks if s.get('path') == path) > 1 and any(s.get('path') == path and s['mode'] == 'w' for s in sinks)
                if path not in fault_paths and not p.crashed and not wipe:
                    sim.violate('damaged-log-line', path=path, line=line[:120])
                continue
            got[mm.group('id')] = got.get(mm.group('id'), 0) + 1
        ids[path] = got
        order = [x for x in got]
        for tid in range(len(plan['ops'])):
            seq = [int(x.split('-')[1]) for x in order if x.startswith('m%d-' % tid)]
            if seq != sorted(seq):
                sim.violate('log-order', path=path, thread=tid)
    stderr = ''.join(x[2] for x in p.stdout if x[0] == 'err')
    qids = {}
    for r in st['records']:
        mm = re.search(r'id=(m\d+-\d+)', r.getMessage())
        if mm is None and 'Closing existing log file' in r.getMessage():
            continue
        qids[mm.group(1)] = qids.get(mm.group(1), 0) + 1
    groups = {}
    for s in sinks:
        groups.setdefault(s.get('path') or s['kind'], []).append(s)
    for g, ss in groups.items():
        if ss[0]['kind'] == 'console':
            bufs = {}
            for s in ss:
                bufs.setdefault(id(s['buf']), []).append(s)
            for grp in bufs.values():
                got = {}
                for x in re.findall(r'id=(m\d+-\d+)', ''.join(grp[0]['buf'])):
                    got[x] = got.get(x, 0) + 1
                if not p.crashed and badlines(''.join(grp[0]['buf'])):
                    sim.violate('console-line-layout', lines=badlines(''.join(grp[0]['buf']))[:2])
                check_group(sim, p, 'console', grp, got, msgs, level_state, filter_state, INF, False)
            continue
        if ss[0]['kind'] == 'default':
            got = {}
            for x in re.findall(r'id=(m\d+-\d+)', stderr.split('--- Logging error')[0] if '--- Logging error' in stderr else stderr):
                got[x] = got.get(x, 0) + 1
            if '--- Logging error' not in stderr:
                if not p.crashed and badlines(stderr):
                    sim.violate('standard-error-line-layout', lines=badlines(stderr)[:2])
                check_group(sim, p, 'default', ss, got, msgs, level_state, filter_state, INF, False)
        elif ss[0]['kind'] == 'user':
            tx = ''.join(st['user'])
            got = {}
            for x in re.findall(r'id=(m\d+-\d+)', tx):
                got[x] = got.get(x, 0) + 1
            if plan.get('userfmt') is None:
                bad = badlines(tx)
            else:
                bad = [x for x in tx.split('\n') if x and not x.startswith('U:' if plan['userfmt'] else 'V:')]
            if bad and not p.crashed:
                sim.violate('handler-line-layout', lines=bad[:2])
            check_group(sim, p, 'user', ss, got, msgs, level_state, filter_state, INF, False)
        elif ss[0]['kind'] == 'queue':
            if st.get('drained'):
                check_group(sim, p, 'queue', ss, qids, msgs, level_state, filter_state, INF, False)
        else:
            wiped = [s for s in ss if s.get('mode') == 'w' and s['on'][0] < INF]
            # truncation: only what came after the last overwrite is required
            after = max([s['on'][0] for s in wiped] or [0])
            check_group(sim, p, g, ss, ids[g], msgs, level_state, filter_state, INF, g in fault_paths, after)
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)


def check_group(sim, p, name, ss, got, msgs, level_state, filter_state, INF, faulty, after=0):
    for m in msgs:
        ls = level_state(m)
        fmay, fmust = filter_state(m)
        sure, may = 0, 0
        for s in ss:
            if m['lv'] < s['lv']:
                continue
            on, off = s['on'], s['off']
            if m['t0'] > on[1] and m['t1'] < off[0] and m['t0'] > after:
                sure += 1
            if m['t1'] >= on[0] and m['t0'] <= off[1]:
                may += 1
        must = sure > 0 and not m['racy'] and ls == {True} and fmust and m['t1'] < INF
        allowed = may if (True in ls and fmay) else 0
        n = got.get(m['id'], 0)
        if must and not faulty:
            sim.probe('must_file' if name.startswith('/') else 'must_queue' if name == 'queue' else 'must_other')
            if n < 1:
                sim.violate('message-lost', sink=name, msg=m['id'], level=m['lv'], crashed=p.crashed)
                return
        if allowed == 0:
            sim.probe('mustnot')
        if faulty and n > 1:
            continue
        if n > allowed or (n > 1 and sum(1 for s in ss) == 1):
            sim.violate('message-delivered-%s' % ('unwanted' if allowed == 0 else 'twice'), sink=name, msg=m['id'], n=n)
            return
