"""
Check driver: seeded search, violation grouping, minimisation, replay files,
determinism proof, evidence.
"""
import gc
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Result(object):
    """Outcome of one simulated run."""

    def __init__(self):
        self.violations = []      # [{'kind':..., 'sig':..., 'detail':...}]
        self.error = None
        self.devs = {}
        self.digest = ''
        self.sched = ''
        self.state = ''
        self.stats = {}
        self.faults = {}
        self.probes = {}
        self.trace = []
        self.skipped = False
        self.hang = False

    def violate(self, kind, detail='', sig=None):
        self.violations.append({'kind': kind, 'sig': sig or kind, 'detail': str(detail)[:2000]})

    def from_sim(self, sim):
        self.devs = dict(sim.devs) if sim.replay is None else dict(sim.replay)
        self.digest = sim.digest()
        self.sched = sim.schedule_hash()
        for k, v in sim.fault_counts.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in sim.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        st = self.stats
        for k, v in (('steps', sim.steps), ('opcodes', sim.ops), ('switches', sim.nswitch),
                     ('preemptions', sim.preempts), ('crashes', sim.crashes),
                     ('sim_seconds', sim.mono - 1000.0), ('events', len(sim.history))):
            st[k] = st.get(k, 0) + v
        self.trace = sim.log[-400:]


def load_check(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + pid.lower())


def seed_for(base, i):
    return base * 1000003 + i


def plan_for(chk, seed, tier):
    rng = random.Random('%s|%s' % (chk.ID, seed))
    plan = chk.gen(rng, tier)
    plan.setdefault('seed', seed)
    return plan


def run_plan(chk, plan, devs=None):
    gc.collect(0)
    gc.disable()
    try:
        random.seed(plan['seed'])
        r = chk.run(plan, devs)
    finally:
        gc.enable()
    return r


class Hang(BaseException):
    pass


def watched_run(chk, plan, devs=None):
    """run_plan() with a bound on the CPU time of one run (a run takes a fraction of a second)"""
    lim = getattr(chk, 'HANG_CPU', 60)

    def fire(*_):
        raise Hang()
    old = signal.signal(signal.SIGVTALRM, fire)
    signal.setitimer(signal.ITIMER_VIRTUAL, lim, 1)
    try:
        return run_plan(chk, plan, devs)
    except Hang:
        r = Result()
        r.hang = True
        r.violate('hang', 'the run did not end within %d seconds of processor time' % lim)
        return r
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def from_repo(e):
    """An exception that the code under test let out where the check expects none."""
    for f in traceback.extract_tb(e.__traceback__):
        if '/lsl/' in f.filename and not f.filename.startswith(VERIF):
            r = Result()
            r.violate('escaped-exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            r.digest = r.sched = r.state = 'escaped'
            return r
    return None


def safe_run(chk, plan, devs=None):
    try:
        return run_plan(chk, plan, devs)
    except Exception as e:
        r = from_repo(e)
        if r is None:
            r = Result()
            r.error = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
        return r


# ---------------------------------------------------------------- known findings
def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == pid and d.get('status', 'open') == 'open':
                out.append(d)
    return out


def match_known(known, v):
    for k in known:
        if v['sig'] == k['sig']:
            return k
    return None


# ---------------------------------------------------------------- worker
def worker_main(pid, base, tier, lo, hi, stride, outfile, deadline):
    chk = load_check(pid)
    if hasattr(chk, 'setup'):
        chk.setup()
    known = load_known(pid)
    out = open(outfile, 'a', buffering=1)
    agg = new_agg()
    nviol = 0
    t0 = time.time()
    i = lo
    while i < hi:
        if time.time() > deadline:
            agg['truncated'] = True
            break
        seed = seed_for(base, i)
        out.write(json.dumps({'begin': i}) + '\n')
        try:
            plan = plan_for(chk, seed, tier)
            try:
                r = watched_run(chk, plan)
            except Exception as e:
                r = from_repo(e)
                if r is None:
                    raise
        except Exception as e:
            out.write(json.dumps({'error': '%s: %s' % (type(e).__name__, e), 'i': i,
                                  'tb': traceback.format_exc()}) + '\n')
            agg['errors'] += 1
            i += stride
            if agg['errors'] > 3:
                break
            continue
        add_agg(agg, r, i)
        for v in r.violations:
            k = match_known(known, v)
            if k is not None:
                agg['known'][k['sig']] = agg['known'].get(k['sig'], 0) + 1
        unknown = [v for v in r.violations if match_known(known, v) is None]
        if unknown:
            nviol += 1
            out.write(json.dumps({'violation': unknown, 'i': i, 'plan': plan, 'devs': r.devs,
                                  'digest': r.digest, 'hang': r.hang,
                                  'before': [base, tier, lo, i, stride]}) + '\n')
            if nviol >= 3 or r.hang:
                break
        i += stride
    agg['sched'] = sorted(agg['sched'])
    agg['state'] = sorted(agg['state'])
    agg['wall'] = time.time() - t0
    out.write(json.dumps({'done': agg}) + '\n')
    out.close()


def new_agg():
    return {'runs': 0, 'sched': set(), 'state': set(), 'stats': {}, 'faults': {}, 'probes': {},
            'known': {}, 'errors': 0, 'skipped': 0, 'truncated': False, 'samples': [],
            'faultruns': 0, 'digests': []}


def add_agg(agg, r, i):
    agg['runs'] += 1
    if r.skipped:
        agg['skipped'] += 1
    agg['sched'].add(r.sched[:12])
    agg['state'].add(r.state[:12] if r.state else r.digest[:12])
    for k, v in r.stats.items():
        agg['stats'][k] = agg['stats'].get(k, 0) + v
    for k, v in r.faults.items():
        agg['faults'][k] = agg['faults'].get(k, 0) + v
    if r.faults:
        agg['faultruns'] += 1
    for k, v in r.probes.items():
        agg['probes'][k] = agg['probes'].get(k, 0) + v
    agg['digests'].append((i, r.digest[:16]))


def merge_agg(a, b):
    for k in ('runs', 'errors', 'skipped', 'faultruns'):
        a[k] += b[k]
    a['truncated'] = a['truncated'] or b['truncated']
    for k in ('sched', 'state'):
        a[k] |= set(b[k])
    for k in ('stats', 'faults', 'probes', 'known'):
        for kk, v in b[k].items():
            a[k][kk] = a[k].get(kk, 0) + v
    a['digests'] += b['digests']


# ---------------------------------------------------------------- search
def _spawn(args, scratch, env=None):
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault('PYTHONHASHSEED', '0')
    return subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'run.py')] + [str(a) for a in args],
                            stdin=subprocess.DEVNULL, env=e, cwd=VERIF,
                            stdout=open(os.path.join(scratch, 'worker.log'), 'a'), stderr=subprocess.STDOUT)


def worker_env(chk):
    f = getattr(chk, 'worker_env', None)
    return dict(f()) if f else {}


def search(chk, base, tier, nruns, jobs, scratch, budget, hashseed='0', tag='w', lo=0):
    """Run nruns seeds over `jobs` worker processes; returns (agg, violations, errors)."""
    agg = new_agg()
    viols, errors = [], []
    deadline = time.time() + budget
    pending = []
    for w in range(jobs):
        pending.append((lo + w, w))
    procs = {}
    n = 0
    while pending or procs:
        while pending:
            start, w = pending.pop()
            n += 1
            of = os.path.join(scratch, '%s-%d-%d.jsonl' % (tag, w, n))
            p = _spawn(['--worker', chk.ID, base, tier, start, lo + nruns, jobs, of, deadline], scratch,
                       dict(worker_env(chk), PYTHONHASHSEED=str(hashseed)))
            procs[p] = (of, w)
        time.sleep(0.05)
        for p in list(procs):
            rc = p.poll()
            if rc is None:
                if time.time() > deadline + 180:
                    p.kill()
                    p.wait()
                    of, w = procs.pop(p)
                    last = None
                    for line in open(of) if os.path.exists(of) else []:
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        last = d.get('begin', last)
                    errors.append('worker %d did not finish (seed index %s)' % (w, last))
                continue
            of, w = procs.pop(p)
            first, last, done = None, None, False
            lines = open(of).read().splitlines() if os.path.exists(of) else []
            for line in lines:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if 'begin' in d:
                    last = d['begin']
                    first = last if first is None else first
                elif 'violation' in d:
                    viols.append(d)
                elif 'error' in d:
                    errors.append('seed index %s: %s\n%s' % (d['i'], d['error'], d['tb']))
                elif 'done' in d:
                    merge_agg(agg, d['done'])
                    done = True
            if not done:
                if rc < 0 and getattr(chk, 'CRASH_IS_VIOLATION', False) and last is not None:
                    seed = seed_for(base, last)
                    plan = plan_for(chk, seed, tier)
                    viols.append({'violation': [{'kind': 'interpreter-crash', 'sig': 'interpreter-crash',
                                                 'detail': 'worker died with signal %d' % -rc}],
                                  'i': last, 'plan': plan, 'devs': {}, 'digest': '', 'crash': -rc,
                                  'before': [base, tier, first, last, jobs]})
                    if len(viols) < 4 and time.time() < deadline and last + jobs < lo + nruns:
                        pending.append((last + jobs, w))
                else:
                    errors.append('worker %d ended with rc=%s at seed index %s: see log\n%s' % (
                        w, rc, last, open(os.path.join(scratch, 'worker.log')).read()[-3000:]))
    return agg, viols, errors


# ---------------------------------------------------------------- minimise / replay
def _fails(chk, plan, devs, kind):
    r = safe_run(chk, plan, devs)
    if r.error:
        return None
    for v in r.violations:
        if v['kind'] == kind:
            return r
    return None


def ddmin(items, test, deadline):
    """items: list; test(list)->bool.  Returns a smaller failing list."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        step = max(1, len(items) // n)
        changed = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + step:]
            if test(cand):
                items = cand
                changed = True
            else:
                i += step
        if not changed:
            if step == 1:
                break
            n = min(len(items), n * 2)
    return items


def shrink_plan(plan):
    """Default plan shrinker: every list under plan['ops'] (nested lists allowed) loses elements."""
    ops = plan.get('ops')
    if not isinstance(ops, list):
        return
    for i in range(len(ops)):
        c = dict(plan)
        c['ops'] = ops[:i] + ops[i + 1:]
        yield c
    for i, o in enumerate(ops):
        if isinstance(o, dict) and isinstance(o.get('ops'), list):
            for j in range(len(o['ops'])):
                c = dict(plan)
                oo = dict(o)
                oo['ops'] = o['ops'][:j] + o['ops'][j + 1:]
                c['ops'] = ops[:i] + [oo] + ops[i + 1:]
                yield c
        elif isinstance(o, list):
            for j in range(len(o)):
                c = dict(plan)
                c['ops'] = ops[:i] + [o[:j] + o[j + 1:]] + ops[i + 1:]
                yield c


def minimise(chk, plan, devs, kind, budget=60):
    deadline = time.time() + budget
    best = _fails(chk, plan, devs, kind)
    if best is None:
        return None
    shr = getattr(chk, 'shrink', shrink_plan)
    # 1. smaller operation sequences, same deviations or a few fresh schedules
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for cand in shr(plan):
            if time.time() > deadline:
                break
            got = _fails(chk, cand, devs, kind)
            if got is None:
                for k in range(3):
                    c2 = dict(cand)
                    c2['seed'] = cand['seed'] + 7919 * (k + 1)
                    got = _fails(chk, c2, None, kind)
                    if got is not None:
                        cand = c2
                        break
            if got is not None:
                plan, devs = cand, got.devs
                progress = True
                break
    # 2. fewer schedule/fault deviations
    items = sorted(devs.items())

    def test(it):
        return _fails(chk, plan, dict(it), kind) is not None
    if test(items):
        items = ddmin(items, test, deadline + 20)
    devs = dict(items)
    r = _fails(chk, plan, devs, kind)
    if r is None:
        return None
    return plan, devs, r


def minimise_main(pid, infile, outfile):
    chk = load_check(pid)
    if hasattr(chk, 'setup'):
        chk.setup()
    d = json.load(open(infile))
    m = minimise(chk, d['plan'], d['devs'], d['kind'], d.get('budget', 60))
    if m is None:
        json.dump({'ok': False}, open(outfile, 'w'))
        return
    plan, devs, r = m
    json.dump({'ok': True, 'plan': plan, 'devs': devs, 'digest': r.digest, 'violations': r.violations,
               'trace': r.trace, 'faults': r.faults}, open(outfile, 'w'))


def replay_main(path):
    if os.environ.get('SIM_SCRATCH'):
        return _replay_main(path)
    scratch = os.environ['SIM_SCRATCH'] = tempfile.mkdtemp(prefix='lslsim-replay-')
    try:
        return _replay_main(path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _replay_main(path):
    d = json.load(open(path))
    chk = load_check(d['property'])
    if d.get('crash'):
        # re-execute in a child: the violation is the death of the interpreter
        if os.environ.get('SIM_REPLAY_CHILD') != '1':
            if hasattr(chk, 'prepare'):
                chk.prepare(os.environ['SIM_SCRATCH'])
            e = dict(os.environ, SIM_REPLAY_CHILD='1', **worker_env(chk))
            rc = subprocess.call([PY, '-W', 'ignore', os.path.join(VERIF, 'run.py'), '--replay', path], env=e)
            if rc < 0:
                print('REPRODUCED interpreter death by signal %d' % -rc)
                print('VIOLATION property=%s replay=%s' % (d['property'], path))
                return 1
            print('NOT REPRODUCED')
            return 0
    env = worker_env(chk)
    if env and os.environ.get('SIM_REPLAY_CHILD') != '1':
        if hasattr(chk, 'prepare'):
            chk.prepare(os.environ['SIM_SCRATCH'])
        return subprocess.call([PY, '-W', 'ignore', os.path.join(VERIF, 'run.py'), '--replay', path],
                               env=dict(os.environ, SIM_REPLAY_CHILD='1', **env))
    if hasattr(chk, 'setup'):
        chk.setup()
    for p in d.get('earlier_runs', []):
        # the violation needs state which earlier runs in the same process left behind
        safe_run(chk, p)
    if d.get('hang'):
        r = watched_run(chk, d['plan'])
    else:
        r = safe_run(chk, d['plan'], d['devs'] if d.get('devs') is not None else None)
    if r.error:
        print('HARNESS ERROR', r.error)
        return 3
    for l in r.trace[-80:]:
        print('  ' + l)
    same = (r.digest == d['digest'])
    for v in r.violations:
        print('violation %s: %s' % (v['kind'], v['detail']))
    print('digest %s recorded %s %s' % (r.digest, d['digest'], 'IDENTICAL' if same else 'DIFFERENT'))
    if any(v['kind'] == d['kind'] for v in r.violations):
        print('REPRODUCED')
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('NOT REPRODUCED')
    return 0


def make_replay(chk, viol, scratch, idx, budget, give_up):
    """Minimise one violation in a fresh process, write the replay file, confirm it in another."""
    v0 = viol['violation'][0]
    os.makedirs(REPLAYS, exist_ok=True)
    name = '%s-%s-%d.json' % (chk.ID, ''.join(c if c.isalnum() else '_' for c in v0['kind'])[:40], idx)
    path = os.path.join(REPLAYS, name)
    rec = {'property': chk.ID, 'kind': v0['kind'], 'detail': v0['detail'], 'plan': viol['plan'],
           'devs': viol['devs'], 'digest': viol['digest'], 'minimised': False, 'seed': viol['plan']['seed']}
    if viol.get('crash'):
        rec['crash'] = viol['crash']
        rec['devs'] = None
    elif viol.get('hang'):
        rec['hang'] = True
        rec['devs'] = None
    else:
        fi, fo = os.path.join(scratch, 'min%d.in' % idx), os.path.join(scratch, 'min%d.out' % idx)
        json.dump({'plan': viol['plan'], 'devs': viol['devs'], 'kind': v0['kind'], 'budget': budget}, open(fi, 'w'))
        p = _spawn(['--minimise', chk.ID, fi, fo], scratch, dict(worker_env(chk), PYTHONHASHSEED='0'))
        try:
            p.wait(budget + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(fo):
            try:
                m = json.load(open(fo))
            except ValueError:
                m = {'ok': False}
            if m.get('ok'):
                vv = [v for v in m['violations'] if v['kind'] == v0['kind']]
                rec.update(plan=m['plan'], devs=m['devs'], digest=m['digest'], minimised=True,
                           detail=vv[0]['detail'] if vv else v0['detail'], trace=m['trace'], faults=m['faults'])
    rec['replay_confirmed'] = _confirm(path, rec)
    if not rec['replay_confirmed'] and viol.get('before') and time.time() < give_up:
        # Not from a fresh process: state that earlier runs of the same process left behind.  The replay file then
        # carries those runs; the shortest suffix (by doubling) that reproduces it.
        rec.update(plan=viol['plan'], devs=None, digest=viol['digest'], minimised=False, detail=v0['detail'])
        rec.pop('trace', None)
        base, tier, first, i, stride = viol['before']
        seeds = list(range(first, i, stride))
        n = 1
        while seeds and time.time() < give_up:
            rec['earlier_runs'] = [plan_for(chk, seed_for(base, k), tier) for k in seeds[-n:]]
            rec['replay_confirmed'] = _confirm(path, rec)
            if rec['replay_confirmed'] or n >= len(seeds):
                break
            n *= 4
        if rec['replay_confirmed']:
            def test(ps):
                return _confirm(path, dict(rec, earlier_runs=ps))
            rec['earlier_runs'] = ddmin(rec['earlier_runs'], test, min(give_up, time.time() + budget))
    json.dump(rec, open(path, 'w'), indent=1)
    return path, rec


def _confirm(path, rec):
    json.dump(rec, open(path, 'w'), indent=1)
    rc = subprocess.call([PY, '-W', 'ignore', os.path.join(VERIF, 'run.py'), '--replay', path],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         env=dict(os.environ, PYTHONHASHSEED='0'))
    return rc == 1


# ---------------------------------------------------------------- main
def check_main(pid, tier):
    t0 = time.time()
    chk = load_check(pid)
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    conf = chk.TIERS[tier]
    jobs = int(os.environ.get('SIM_JOBS', '8'))
    scratch = tempfile.mkdtemp(prefix='lslsim-%s-' % pid)
    os.environ['SIM_SCRATCH'] = scratch
    rc = 3
    try:
        rc = _check_main(chk, pid, tier, base, conf, jobs, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _check_main(chk, pid, tier, base, conf, jobs, scratch, t0):
    if hasattr(chk, 'prepare'):
        try:
            chk.prepare(scratch)
        except BuildFailure as e:
            print('ERROR property=%s cannot build the code under test: %s' % (pid, e))
            return 2
    known = load_known(pid)
    nruns, budget = conf['runs'], conf['budget']
    agg, viols, errors = search(chk, base, tier, nruns, jobs, scratch, budget)
    # determinism proof: a sample of seeds again, other worker count and hash seed
    nd = conf.get('det', 24)
    det = {'compared': 0, 'mismatched': 0}
    if not viols and not errors and nd:
        agg2, v2, e2 = search(chk, base, tier, min(nd, nruns), 3, scratch, 120, hashseed='4242', tag='d')
        d1 = dict((a, b) for a, b in agg['digests'])
        for i, dg in agg2['digests']:
            if i in d1:
                det['compared'] += 1
                if d1[i] != dg:
                    det['mismatched'] += 1
                    det.setdefault('seeds', []).append(i)
        errors += e2
        if det['mismatched']:
            errors.append('nondeterminism: seeds %s differ between two executions' % det['seeds'][:10])
    viol_rows = []
    kinds = {}
    for d in viols:
        kinds.setdefault(d['violation'][0]['kind'], []).append(d)
    lines = []
    for n, (kind, ds) in enumerate(sorted(kinds.items(), key=lambda kv: kv[0])[:4]):
        ds.sort(key=lambda d: (len(json.dumps(d['plan'])), d['i']))
        for d in ds[:3]:
            path, rec = make_replay(chk, d, scratch, n, conf.get('min_budget', 40),
                                    0 if lines else t0 + conf['budget'] + 400)
            if rec['replay_confirmed'] or time.time() > t0 + conf['budget'] + 300:
                break
        viol_rows.append({'kind': kind, 'detail': rec['detail'][:600], 'replay': path, 'seed': rec['seed'],
                          'minimised': rec['minimised'], 'replay_confirmed': rec['replay_confirmed']})
        if rec['replay_confirmed']:
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            print('violation kind=%s seed=%s: %s' % (kind, rec['seed'], rec['detail'][:600]))
        else:
            errors.append('violation %s (seed %s) did not reproduce from its replay file %s' % (kind, rec['seed'], path))
    wall = time.time() - t0
    write_evidence(chk, pid, tier, base, agg, viol_rows, det, wall, known, errors, nruns, jobs)
    for k in known:
        c = agg['known'].get(k['sig'], 0)
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (pid, k['what'], c))
    print('%s %s: runs=%d distinct_schedules=%d distinct_histories=%d faults=%s wall=%.1fs' % (
        pid, tier, agg['runs'], len(agg['sched']), len(agg['state']), sum(agg['faults'].values()), wall))
    if lines:
        for l in lines:
            print(l)
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR ' + e)
        return 3
    if agg['truncated'] and agg['runs'] < conf.get('min_runs', max(1, nruns // 20)):
        print('ERROR only %d of %d runs finished within the budget' % (agg['runs'], nruns))
        return 3
    for p, mn in getattr(chk, 'REQUIRED_PROBES', {}).items():
        if agg['runs'] >= nruns // 2 and agg['probes'].get(p, 0) < mn:
            print('ERROR probe %s fired %d times (expected >= %d): the search does not reach what it claims' % (
                p, agg['probes'].get(p, 0), mn))
            return 3
    return 0


class BuildFailure(Exception):
    pass


def write_evidence(chk, pid, tier, base, agg, viols, det, wall, known, errors, nruns, jobs):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    st = agg['stats']
    runs = agg['runs']
    samples = []
    try:
        for i in range(0, min(3, max(1, runs))):
            p = plan_for(chk, seed_for(base, i), tier)
            s = json.dumps(p)
            samples.append('seed %d: %s' % (p['seed'], s[:500]))
    except Exception:
        samples = ['(none)']
    ev = {
        'property': pid, 'tier': tier, 'seed': base, 'level': chk.LEVEL,
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(agg['state']),
            'rule': chk.RULE,
            'samples': samples,
            'requested_runs': nruns,
            'runs_per_hour': int(runs * 3600 / max(wall, 1e-6)),
            'seeds_per_hour': int(runs * 3600 / max(wall, 1e-6)),
            'simulated_seconds': round(st.get('sim_seconds', 0.0), 3),
            'distinct_interleavings': len(agg['sched']),
            'distinct_histories': len(agg['state']),
            'interleaving_measure': getattr(chk, 'MEASURE', 'SHA-1 of the sequence (step, task switched to) of the run'),
            'faults_injected': agg['faults'],
            'runs_with_faults': agg['faultruns'],
            'probes': agg['probes'],
            'totals': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in st.items()},
            'determinism': det,
            'components_real': chk.REAL,
            'components_stub': chk.STUB,
            'known_findings_seen': agg['known'],
            'harness_errors': len(errors),
            'workers': jobs,
        },
        'wall_s': round(wall, 2),
        'assumptions': chk.ASSUMPTIONS,
        'violations': len(viols),
        'violation_details': viols,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
