"""
Deterministic simulator: scheduler, simulated processes, clock, choices.

One `Sim` is one run.  Every simulated process is a set of real Python threads of
which exactly one holds the baton at any time; every source of nondeterminism
(scheduling, clock, file system, network, pids, idents, randomness, crashes,
faults) is decided by `Sim.choose`, either from a seeded PRNG (search) or from a
recorded set of deviations (replay).  A *deviation* is any decision that differs
from the default "keep running the current task, no fault"; the sparse map of
deviations together with the plan is the complete replay file.
"""
import _thread
import builtins
import errno
import gc
import hashlib
import os
import random
import sys
import traceback
import types

REPO = os.environ.get('LSL_SIM_REPO', '/repo')
EPOCH = 1760000000.0

_real_get_ident = _thread.get_ident
_TASKS = {}          # real thread ident -> Task


def current():
    return _TASKS.get(_real_get_ident())


class SimKill(BaseException):
    """The simulated process of this task has been killed."""


class SimStuck(BaseException):
    """The run exceeded its step bound."""


class HarnessError(Exception):
    """The simulator itself went wrong (never a violation)."""


class Task(object):
    def __init__(self, sim, proc, name, fn, daemon=True):
        self.sim, self.proc, self.name, self.fn = sim, proc, name, fn
        self.daemon = daemon
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = 'ready'            # ready | blocked | done
        self.wake = None                # absolute mono time to wake at
        self.cond = None                # callable -> bool, wakes the task
        self.exc = None
        self.result = None
        self.nchoice = {}
        self.nops = 0                   # traced opcodes in this task
        self.next_preempt = None
        self.killed = False
        self.started = False
        self.ident = None               # simulated ident
        self.unwinding = False

    def __repr__(self):
        return '<Task %s %s>' % (self.name, self.state)

    def _boot(self):
        self.baton.acquire()
        _TASKS[_real_get_ident()] = self
        try:
            if not self.killed:
                self.result = self.fn()
        except SimKill:
            self.exc = None
            self.killed = True
        except SimStuck:
            self.killed = True
        except BaseException as e:
            if self.killed or not self.proc.alive:
                self.killed = True
            else:
                self.exc = e
                self.exc_tb = traceback.format_exc()
        finally:
            self.state = 'done'
            self.fn = None
            _TASKS.pop(_real_get_ident(), None)
            try:
                self.sim._task_done(self)
            except BaseException as e:
                self.sim._fatal(e)


class Proc(object):
    def __init__(self, sim, name, pid):
        self.sim, self.name, self.pid = sim, name, pid
        self.alive = True
        self.crashed = False
        self.exited = False
        self.tasks = []
        self.fds = {}               # fd -> OpenFile
        self.atexit = []
        self.warnings = []
        self.stdout = []
        self.crashable = False
        self.faultable = False
        self.loader = None
        self.main_ident = None
        self.nthread = 0
        self.env = {}
        self.data = {}              # scenario scratch

    def check(self):
        if not self.alive:
            raise SimKill()

    def imp(self, name):
        from . import loader
        if self.loader is None:
            self.loader = loader.ProcLoader(self)
        return self.loader.load(name)


class Sim(object):
    def __init__(self, seed, swarm=None, devs=None, max_steps=60000, max_ops=1500000):
        self.seed = seed
        self.rng = random.Random('sim|%s' % seed)
        self.replay = devs
        self.devs = {}
        self.swarm = {'p_switch': 0.1, 'op_gap': 0, 'p_crash': 0.0, 'p_fault': 0.0,
                      'fault_kinds': None, 'p_jump': 0.0, 'gran': 0.0, 'same_ident': False}
        if swarm:
            self.swarm.update(swarm)
        self.now = EPOCH
        self.mono = 1000.0
        self.tick = 0.0004
        self.procs, self.tasks = [], []
        self.steps = 0
        self.ops = 0
        self.max_steps, self.max_ops = max_steps, max_ops
        self.faults_on = True
        self.over = False
        self.stuck = None
        self.deadlock = None
        self.cur = None
        self.main_baton = _thread.allocate_lock()
        self.main_baton.acquire()
        self.fatal = None
        self.log = []
        self.history = []
        self.fault_counts = {}
        self.nswitch = 0
        self.preempts = 0
        self.jumps = 0
        self.crashes = 0
        self._next_pid = 4000
        self._switch_hash = hashlib.sha1()
        self.hooks = []            # callables run after every op (invariants)
        self.violations = []
        self.probes = {}
        from .vfs import VFS
        self.vfs = VFS(self)
        from .net import Net
        self.net = Net(self)
        self._urand = random.Random('urand|%s' % (seed if devs is None else 'r'))
        self.atexit_runner = None
        self.spawner = None        # subprocess handler

    # ---- logging --------------------------------------------------------
    def event(self, kind, /, **kw):
        t = current()
        rec = (self.steps, round(self.mono, 6), t.name if t else '-', kind, kw)
        self.history.append(rec)
        self.log.append('%d %.6f %s %s %s' % (rec[0], rec[1], rec[2], kind,
                                             ' '.join('%s=%r' % (k, kw[k]) for k in sorted(kw))))
        return rec

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, what, /, **kw):
        self.violations.append((what, dict(kw)))
        self.event('VIOLATION', **dict(kw, violated=what))

    def digest(self):
        h = hashlib.sha1()
        for l in self.log:
            h.update(l.encode('utf-8', 'replace'))
            h.update(b'\n')
        h.update(self._switch_hash.digest())
        return h.hexdigest()

    def schedule_hash(self):
        return self._switch_hash.hexdigest()

    # ---- choices --------------------------------------------------------
    def choose(self, kind, p, pick, task=None):
        """Return None (default) or a deviation value.  `pick(rng)` produces one."""
        t = task or current()
        tn = t.name if t else '-'
        d = t.nchoice if t else self.__dict__.setdefault('_mainchoice', {})
        n = d.get(kind, 0)
        d[kind] = n + 1
        key = '%s|%s|%d' % (kind, tn, n)
        if self.replay is not None:
            return self.replay.get(key)
        if p <= 0.0 or self.rng.random() >= p:
            return None
        v = pick(self.rng)
        if v is not None:
            self.devs[key] = v
        return v

    # ---- processes ------------------------------------------------------
    def new_proc(self, name, crashable=False, faultable=False, same_ident=None):
        pid = self._next_pid
        self._next_pid += 1
        p = Proc(self, name, pid)
        p.crashable, p.faultable = crashable, faultable
        if same_ident is None:
            same_ident = self.swarm.get('same_ident')
        # forked children share the pthread address of their main thread
        p.main_ident = 140000000000000 if same_ident else 140000000000000 + 4096 * pid
        self.procs.append(p)
        return p

    def spawn(self, proc, fn, name=None, daemon=True, ident=None):
        n = proc.nthread
        proc.nthread += 1
        t = Task(self, proc, '%s.%s' % (proc.name, name if name else n), fn, daemon)
        if any(x.name == t.name for x in self.tasks):
            t.name += '#%d' % n
        t.ident = ident if ident is not None else proc.main_ident + 512 * n
        proc.tasks.append(t)
        self.tasks.append(t)
        _thread.start_new_thread(t._boot, ())
        return t

    def start(self, proc, fn, *args):
        """Start a simulated process whose main thread runs fn(proc,*args) and then exits cleanly."""
        def main():
            try:
                r = fn(proc, *args)
            except BaseException as e:
                if isinstance(e, (SimKill, SimStuck)):
                    raise
                if not proc.alive:
                    raise SimKill()
                proc.data['exc'] = e
                proc.data['exc_tb'] = traceback.format_exc()
                r = None
            self.exit_proc(proc)
            return r
        return self.spawn(proc, main, 'm')

    def exit_proc(self, proc):
        """Clean interpreter exit: run atexit handlers, close files."""
        if not proc.alive:
            raise SimKill()
        for t in list(proc.tasks):
            if t is not current() and not t.daemon and t.state != 'done':
                self.block(lambda t=t: t.state == 'done')
        for fn, a, k in reversed(proc.atexit):
            try:
                fn(*a, **k)
            except Exception as e:
                if not proc.alive:
                    raise SimKill()
                proc.data.setdefault('atexit_exc', []).append(repr(e))
                self.event('atexit-exception', proc=proc.name, exc=repr(e))
        self.op('exit', proc.name, yields=False, crash=True)
        proc.exited = True
        self._reap(proc, flush=True)
        self.event('exit', proc=proc.name)

    def _reap(self, proc, flush):
        if flush:
            # interpreter shutdown flushes the remaining Python file objects
            for f in list(proc.fds.values()):
                top = f.top() if f.top else None
                if top is not None:
                    try:
                        top.flush()
                    except Exception:
                        pass
        proc.alive = False
        self.vfs.close_all(proc)
        for t in proc.tasks:
            if t is not current() and t.state != 'done':
                t.killed = True
        proc.atexit = []

    def kill(self, proc, why='kill'):
        """kill -9: nothing of the process runs any more; only what reached the (simulated) kernel survives."""
        if not proc.alive:
            return
        proc.crashed = True
        self.crashes += 1
        self.count_fault('crash')
        self._reap(proc, flush=False)
        self.event('crash', proc=proc.name, why=why)
        t = current()
        if t is not None and t.proc is proc:
            t.killed = True
            raise SimKill()

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # ---- scheduling -----------------------------------------------------
    def _live(self, t):
        return t.state != 'done' and not t.killed

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == 'done' or t.killed:
                continue
            if t.state == 'ready':
                out.append(t)
            elif t.cond is not None and t.cond():
                out.append(t)
            elif t.wake is not None and t.wake <= self.mono:
                out.append(t)
        return out

    def _pick_next(self, me, kind, must=False):
        """Return the task to run next (None: nothing left to run)."""
        while True:
            run = self._runnable()
            if run:
                break
            wakes = [t.wake for t in self.tasks if self._live(t) and t.wake is not None]
            if not wakes:
                return None
            dt = min(wakes) - self.mono
            if dt > 0:
                self.mono += dt
                self.now += dt
            if self.mono - 1000.0 > self.swarm.get('max_time', 4000 * 86400):
                self.stuck = 'simulated time limit'
                return None
        if len(run) == 1:
            return run[0]
        # default successor: round robin after me
        idx = self.tasks.index(me) if me in self.tasks else -1
        order = sorted(run, key=lambda t: (self.tasks.index(t) - idx - 1) % len(self.tasks))
        default = order[0]
        v = self.choose(kind, 0.7 if must else 1.0, lambda r: r.choice(order).name, task=me)
        if v is not None:
            for t in order:
                if t.name == v:
                    return t
        return default

    def _switch_to(self, me, nxt):
        if nxt is me:
            return
        self.nswitch += 1
        self._switch_hash.update(('%d>%s;' % (self.steps, nxt.name)).encode())
        self.cur = nxt
        nxt.state = 'ready'
        nxt.cond = None
        nxt.wake = None
        nxt.baton.release()
        if me is not None and me.state != 'done':
            me.baton.acquire()
            self._after_wake(me)

    def _after_wake(self, me):
        if me.killed:
            raise SimKill()
        if self.stuck or self.over:
            raise SimStuck()

    def _bound(self, me):
        if self.stuck:
            raise SimStuck()
        if self.steps > self.max_steps or self.ops > self.max_ops:
            f = sys._getframe(1)
            where = []
            while f is not None and len(where) < 6:
                if f.f_code.co_filename.startswith(REPO):
                    where.append('%s:%s' % (os.path.relpath(f.f_code.co_filename, REPO), f.f_code.co_name))
                f = f.f_back
            self.stuck = 'step bound exceeded in %s (%s)' % (me.name, ' < '.join(where))
            self.event('stuck', where=self.stuck)
            raise SimStuck()

    def op(self, kind, detail='', yields=True, crash=False, cost=None):
        """A simulated system call by the current task."""
        me = current()
        if me is None:
            return None
        if me.killed or not me.proc.alive:
            raise SimKill()
        self.steps += 1
        self._bound(me)
        c = self.tick if cost is None else cost
        self.mono += c
        self.now += c
        for h in self.hooks:
            h(kind, detail)
        if me.proc.crashable and self.faults_on:
            v = self.choose('crash', self.swarm['p_crash'], lambda r: 1)
            if v is not None:
                self.kill(me.proc, '%s %s' % (kind, detail))
        if self.swarm['p_jump'] and self.faults_on:
            v = self.choose('jump', self.swarm['p_jump'],
                            lambda r: r.choice([-3600.0, -5.0, -0.5, 0.5, 30.0, 3600.0]))
            if v is not None:
                self.now += v
                self.jumps += 1
                self.count_fault('clock-jump')
                self.event('clock-jump', by=v)
        if yields:
            self.maybe_yield()
        return me

    def fault(self, kind, options, detail=''):
        """Ask whether to inject a fault here; returns an option or None."""
        me = current()
        if me is None or not self.faults_on or not me.proc.faultable:
            return None
        fk = self.swarm['fault_kinds']
        opts = [o for o in options if fk is None or o in fk]
        if not opts:
            return None
        v = self.choose('fault.' + kind, self.swarm['p_fault'], lambda r: r.choice(opts))
        if v is not None:
            if v not in options:
                return None
            self.count_fault('%s:%s' % (kind, v))
            self.event('fault', op=kind, what=v, detail=str(detail))
        return v

    def maybe_yield(self, p=None):
        me = current()
        if me is None:
            return
        p = self.swarm['p_switch'] if p is None else p
        if len(self.tasks) < 2:
            return
        others = None

        def pick(r):
            nonlocal others
            others = [t for t in self._runnable() if t is not me]
            return r.choice(others).name if others else None
        v = self.choose('sw', p, pick)
        if v is None:
            return
        for t in self._runnable():
            if t.name == v and t is not me:
                self.preempts += 1
                self._switch_to(me, t)
                return

    def block(self, cond=None, timeout=None):
        """Block the current task until cond() or timeout (monotonic, simulated). Returns cond's truth."""
        me = current()
        if me.killed or not me.proc.alive:
            raise SimKill()
        self.steps += 1
        self._bound(me)
        deadline = None if timeout is None else self.mono + max(0.0, timeout)
        while True:
            if cond is not None and cond():
                return True
            if deadline is not None and self.mono >= deadline:
                return False
            me.state = 'blocked'
            me.cond = cond
            me.wake = deadline
            nxt = self._pick_next(me, 'blk', must=True)
            if nxt is None:
                # nothing can ever run again: deadlock -> hand back to the driver
                self._to_main(me)
                continue
            if nxt is me:
                me.state = 'ready'
                me.cond = None
                me.wake = None
                continue
            self._switch_to(me, nxt)

    def sleep(self, d):
        self.op('sleep', '%.4f' % d, yields=False)
        me = current()
        end = self.mono + max(0.0, d)
        self.block(lambda: self.mono >= end, timeout=max(0.0, d))

    def _to_main(self, me):
        self.cur = None
        self.main_baton.release()
        me.baton.acquire()
        self._after_wake(me)

    def _task_done(self, me):
        if self.over:
            self.main_baton.release()
            return
        if self.stuck:
            self.main_baton.release()
            return
        nxt = self._pick_next(me, 'end', must=True)
        if nxt is None:
            self.cur = None
            self.main_baton.release()
            return
        self._switch_to(me, nxt)

    def _fatal(self, e):
        self.fatal = HarnessError('scheduler: %r\n%s' % (e, traceback.format_exc()))
        self.over = True
        try:
            self.main_baton.release()
        except RuntimeError:
            pass

    def run(self, until=None):
        """Run until no task can make progress.  Call from the driver (non-task) thread."""
        assert current() is None
        if self.fatal:
            raise self.fatal
        nxt = self._pick_next(None, 'main', must=True)
        if nxt is None:
            self._check_deadlock()
            return
        nxt.state = 'ready'
        nxt.cond = None
        nxt.wake = None
        self.cur = nxt
        self._switch_hash.update(('m>%s;' % nxt.name).encode())
        nxt.baton.release()
        if not self.main_baton.acquire(True, self.swarm.get('wall', 120)):
            raise HarnessError('baton lost: current=%r tasks=%r' % (self.cur, [(t.name, t.state) for t in self.tasks]))
        if self.fatal:
            raise self.fatal
        self._check_deadlock()

    def _check_deadlock(self):
        blocked = [t.name for t in self.tasks if self._live(t) and t.state == 'blocked']
        if blocked and not self.stuck:
            self.deadlock = blocked
            self.event('deadlock', tasks=blocked)

    def finish(self):
        """Unwind everything that is still parked."""
        self.over = True
        for t in self.tasks:
            if t.state != 'done':
                t.killed = True
                for p in self.procs:
                    p.alive = False
                t.baton.release()
                if not self.main_baton.acquire(True, 20):
                    raise HarnessError('could not unwind %r' % t)
        self.vfs.over = True

    # ---- statement/expression level preemption ----------------------------
    def _point(self, t):
        t.nops += 1
        self.ops += 1
        if t.killed or not t.proc.alive:
            raise SimKill()
        if self.ops > self.max_ops:
            self._bound(t)
        if self.replay is not None:
            v = self.replay.get('op|%s|%d' % (t.name, t.nops))
            if v is not None:
                self._op_switch(t, v)
            return
        gap = self.swarm['op_gap']
        if not gap:
            return
        if t.next_preempt is None:
            t.next_preempt = t.nops + 1 + int(self.rng.expovariate(1.0 / gap))
        if t.nops >= t.next_preempt:
            t.next_preempt = t.nops + 1 + int(self.rng.expovariate(1.0 / gap))
            others = [x for x in self._runnable() if x is not t]
            if others:
                v = self.rng.choice(others).name
                self.devs['op|%s|%d' % (t.name, t.nops)] = v
                self._op_switch(t, v)

    def _op_switch(self, t, v):
        for x in self._runnable():
            if x.name == v and x is not t:
                self.preempts += 1
                self._switch_to(t, x)
                return


# ------------------------------------------------------------------ locks
class SimLock(object):
    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1:
            if not blocking:
                raise ValueError("can't specify a timeout for a non-blocking call")
            if timeout < 0:
                raise ValueError("timeout value must be a non-negative number")
        t = current()
        if t is None:
            if self._owner not in (None, 'main') :
                raise HarnessError('driver thread needs a lock held by %r' % self._owner)
            self._owner = 'main'
            self._count += 1
            return True
        s = t.sim
        if self._re and self._owner is t:
            self._count += 1
            return True
        s.op('lock.acquire', yields=True)
        if self._owner is None:
            self._owner = t
            self._count = 1
            return True
        if not blocking:
            return False
        ok = s.block(lambda: self._owner is None, None if timeout < 0 else timeout)
        if ok:
            self._owner = t
            self._count = 1
        return ok

    def release(self):
        t = current()
        if t is None:
            self._count -= 1
            if self._count <= 0:
                self._owner = None
                self._count = 0
            return
        if t.killed or not t.proc.alive:
            if self._owner is t:
                self._owner, self._count = None, 0
            raise SimKill()
        if self._owner is None:
            raise RuntimeError('release unlocked lock' if not self._re else 'cannot release un-acquired lock')
        if self._re and self._owner is not t:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count <= 0 or not self._re:
            self._owner = None
            self._count = 0
            if not t.killed and t.proc.alive:
                t.sim.op('lock.release')

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner is current()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimLock(True)
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        t = current()
        w = [False]
        self._waiters.append(w)
        cnt = self._lock._count
        self._lock._count = 0
        self._lock._owner = None
        ok = t.sim.block(lambda: w[0], timeout)
        if w in self._waiters:
            self._waiters.remove(w)
        t.sim.block(lambda: self._lock._owner is None)
        self._lock._owner = t
        self._lock._count = cnt
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))


class SimEvent(object):
    def __init__(self):
        self._f = False

    def is_set(self):
        t = current()
        if t is not None:
            t.sim.op('event.is_set')
        return self._f

    def set(self):
        t = current()
        if t is not None:
            t.sim.op('event.set')
        self._f = True

    def clear(self):
        t = current()
        if t is not None:
            t.sim.op('event.clear')
        self._f = False

    def wait(self, timeout=None):
        t = current()
        t.sim.op('event.wait')
        return t.sim.block(lambda: self._f, timeout)


class SimSemaphore(object):
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        t = current()
        t.sim.op('sem.acquire')
        if self._v <= 0:
            if not blocking or not t.sim.block(lambda: self._v > 0, timeout):
                return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimThread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or 'Thread'
        self.daemon = bool(daemon)
        self._task = None
        self._proc = current().proc

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        t = current()
        t.sim.op('thread.start', self.name)

        def boot():
            try:
                self.run()
            except (SimKill, SimStuck):
                raise
            except BaseException as e:
                if not self._proc.alive:
                    raise SimKill()
                self._proc.data.setdefault('thread_exc', []).append(repr(e))
                t.sim.event('thread-exception', exc=repr(e))
        self._task = t.sim.spawn(self._proc, boot, 't%d' % self._proc.nthread, daemon=bool(self.daemon))
        t.sim.maybe_yield(0.3)

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        t = current()
        t.sim.op('thread.join', self.name)
        t.sim.block(lambda: self._task.state == 'done', timeout)

    def is_alive(self):
        return self._task is not None and self._task.state != 'done'

    isAlive = is_alive

    def setDaemon(self, v):
        self.daemon = v

    @property
    def ident(self):
        return self._task.ident if self._task else None


class _CurThread(object):
    def __init__(self, task):
        self.ident = task.ident
        self.native_id = task.ident
        self.name = 'MainThread' if task is task.proc.tasks[0] else task.name
        self.daemon = task.daemon


def make_threading_facade():
    import threading as real
    m = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.Lock = lambda: SimLock(False)
    m.RLock = lambda: SimLock(True)
    m.Condition = SimCondition
    m.Event = SimEvent
    m.Semaphore = SimSemaphore
    m.BoundedSemaphore = SimSemaphore
    m.Thread = SimThread

    def current_thread():
        t = current()
        return _CurThread(t) if t is not None else real.current_thread()

    def get_ident():
        t = current()
        return t.ident if t is not None else real.get_ident()
    m.current_thread = m.currentThread = current_thread
    m.get_ident = m.get_native_id = get_ident
    m.main_thread = lambda: _CurThread(current().proc.tasks[0]) if current() else real.main_thread()
    return m
