"""P22  Busy indicator life cycle."""
import re
from .common import *

ID = 'P22'
LEVEL = 'exploration'
TECH = 'deterministic simulation of the indicator thread against its controlling thread with seeded preemption and clock jumps; checks over the recorded terminal output'
NOTE = 'Real lsl.common.busy over simulated threads, clock and terminal; one thread controls an indicator at a time.'
TIERS = {'quick': {'runs': 3000, 'budget': 150, 'det': 40},
         'thorough': {'runs': 80000, 'budget': 800, 'det': 200}}
RULE = 'a case is one seeded interleaving of start/work/stop/context-manager sequences with the drawing thread; distinct non-trivial = distinct history'
REAL = ['lsl.common.busy, lsl.common.color from /repo']
STUB = ['clock, scheduler, terminal']
ASSUMPTIONS = []
REQUIRED_PROBES = {'cycles': 1000, 'restart': 100, 'stop_idle': 100, 'raised': 100, 'jump': 50, 'frames': 3000}


def setup():
    setup_procsim()


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append({'op': rng.choice(['cycle', 'cycle', 'with', 'with-raise', 'restart', 'stop', 'fail', 'work']),
                    'work': rng.choice([0, 0.01, 0.3, 1.0, 2.5, 7.0, 70.0, 130.0])})
    plus = rng.random() < 0.6
    interval = rng.choice([0.1, 0.5])
    for o in ops:
        if o['work'] > 60:
            o['work'] = rng.choice([60.6, 70.0]) if interval < 0.2 else rng.choice([70.0, 130.0])
            if rng.random() < 0.6:
                o['work'] = 0.7
    return {'ops': ops, 'plus': plus, 'style': rng.choice(['boomerang', 'pingpong', 'flow']),
            'color': rng.choice([None, 'red', 'green']), 'interval': interval, 'dots': rng.choice([1, 3, 5]),
            'width': rng.choice([5, 10, 14]), 'msg': rng.choice(['Busy', 'Working on it', '']),
            'swarm': swarm(rng, jump=0.01)}


def strip(s):
    return re.sub('\x1b\\[[0-9;]*m', '', s)


def run(plan, devs=None):
    res = Result()
    sim = mk(plan, devs)

    def main(proc):
        B = proc.imp('lsl.common.busy')
        if plan['plus']:
            bi = B.BusyIndicatorPlus(plan['msg'], interval=plan['interval'], width=plan['width'], style=plan['style'], color=plan['color'])
        else:
            bi = B.BusyIndicator(plan['msg'], interval=plan['interval'], dots=plan['dots'], color=plan['color'])
        out = proc.stdout
        first = {}

        def check(n0, t0, word, running_from):
            """output since n0 must be frames and then one final line"""
            fr = [x for x in out[n0:] if x[0] == 'out']
            txt = [strip(x[2]) for x in fr]
            sim.probe('cycles')
            if not txt or not txt[-1].endswith('\n') or not txt[-1].startswith(plan['msg']):
                sim.violate('no-final-line', out=txt[-2:])
                return
            if word not in txt[-1] or ({'Done': 'Failed', 'Failed': 'Done'}[word] in txt[-1]):
                sim.violate('wrong-final-line', line=txt[-1], want=word)
            if sum(1 for x in txt if x.endswith('\n')) != 1:
                sim.violate('more-than-one-final-line', out=txt[-4:])
            n = 0
            for x in txt[:-1]:
                n += 1
                sim.probe('frames')
                if not x.endswith('\r') or not x.startswith(plan['msg']):
                    sim.violate('bad-frame', frame=x)
                    return
                body = x[len(plan['msg']):-1]
                want = plan['width'] + 6 if plan['plus'] else plan['dots']
                if len(body) != want:
                    sim.violate('frame-width', frame=x, want=want)
                    return
            anim = [x[len(plan['msg']):(len(plan['msg']) + plan['width'] if plan['plus'] else -1)] for x in txt[:-1]]
            for a, b, c in zip(anim, anim[1:], anim[2:]):
                if a == b == c:
                    sim.violate('indicator-does-not-move', frame=a)
                    return
            if anim and first.setdefault('frame', anim[0]) != anim[0]:
                sim.violate('restart-does-not-start-over', frame=anim[0], first=first['frame'])
            work = sim.mono - t0
            lo = int(work / (plan['interval'] + 0.05)) - 2
            if n < lo and plan['swarm'].get('p_switch'):
                sim.violate('indicator-stalled', frames=n, want=lo)
            if n > work / plan['interval'] + 3:
                sim.violate('indicator-too-fast', frames=n, seconds=work)

        def clockcheck(n0, t0):
            """the elapsed time on display follows the elapsed time"""
            if not plan['plus']:
                return
            fr = [strip(x[2]) for x in out[n0:] if x[0] == 'out' and x[2].endswith('\r')]
            if not fr:
                return
            s = fr[-1][len(plan['msg']) + plan['width']:-1].strip()
            m = re.fullmatch(r'(?:(\d+)m)?(\d+)s', s)
            if m is None:
                sim.violate('elapsed-time-format', text=s)
                return
            v = int(m.group(1) or 0) * 60 + int(m.group(2))
            real = sim.mono - t0
            if sim.jumps:
                sim.probe('jump')
            if not real - plan['interval'] - 1.5 <= v <= real + 0.5:
                sim.violate('elapsed-time-wrong', shown=s, elapsed=real)

        def quiet(n1):
            sim.sleep(3 * plan['interval'])
            if len(out) != n1:
                sim.violate('output-after-stop', out=[x[2] for x in out[n1:n1 + 3]])
            if any(t.state != 'done' and not t.killed for t in proc.tasks if t is not current()):
                sim.violate('thread-left-running')

        class Oops(Exception):
            pass

        for o in plan['ops']:
            n0, t0 = len(out), sim.mono
            sim.event(o['op'])
            try:
                if o['op'] in ('cycle', 'fail', 'restart'):
                    bi.start()
                    sim.sleep(o['work'])
                    clockcheck(n0, t0)
                    if o['op'] == 'restart':
                        sim.probe('restart')
                        n1 = len(out)
                        bi.start()
                        # the final line of the first run precedes the frames of the second
                        k = [i for i, x in enumerate(out) if i >= n0 and x[2].endswith('\n')]
                        if len(k) != 1:
                            sim.violate('restart-final-line', n=len(k))
                            break
                        n0, t0 = k[0] + 1, sim.mono
                        sim.sleep(o['work'])
                        clockcheck(n0, t0)
                    r = bi.stop(success=o['op'] != 'fail')
                    check(n0, t0, 'Failed' if o['op'] == 'fail' else 'Done', t0)
                    quiet(len(out))
                elif o['op'] in ('with', 'with-raise'):
                    try:
                        with bi as b2:
                            if b2 is not bi:
                                sim.violate('context-manager-value')
                            sim.sleep(o['work'])
                            clockcheck(n0, t0)
                            if o['op'] == 'with-raise':
                                raise Oops()
                        if o['op'] == 'with-raise':
                            sim.violate('exception-swallowed')
                    except Oops:
                        sim.probe('raised')
                    check(n0, t0, 'Failed' if o['op'] == 'with-raise' else 'Done', t0)
                    quiet(len(out))
                elif o['op'] == 'stop':
                    sim.probe('stop_idle')
                    bi.stop()
                    if len(out) != n0:
                        sim.violate('output-from-idle-stop', out=[x[2] for x in out[n0:]])
                else:
                    sim.sleep(o['work'])
                    if len(out) != n0:
                        sim.violate('output-while-idle')
            except Oops:
                raise
            except Exception as e:
                import traceback
                sim.violate('call-raised', op=o['op'], exc=repr(e), tb=traceback.format_exc()[-500:])
                return
            if sim.violations:
                return

    p = sim.new_proc('p')
    sim.start(p, main)
    sim.run()
    if sim.stuck or sim.deadlock:
        sim.violate('no-progress', what=str(sim.stuck or sim.deadlock))
    if p.data.get('exc') is not None:
        sim.violate('unexpected-exception', exc=repr(p.data['exc']), tb=p.data['exc_tb'][-700:])
    for x in p.data.get('thread_exc', []):
        sim.violate('indicator-thread-died', exc=x)
    for k, d in sim.violations:
        res.violate(k, d)
    return finish(sim, res)
