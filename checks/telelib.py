"""Simulated sessions that use tracked functions, and the telemetry server, for P09/P10."""
import hashlib
import json
import types
import urllib.parse

from .common import *

TC = '/home/.lsl/telemetry_cache'
URL = 'https://fornax.phys.unm.edu/telemetry/log.php'

USER = '''
from lsl.misc import telemetry
import time

@telemetry.track_function
def plain(tag, fail=None):
    "doc of plain"
    if fail is not None:
        raise fail
    return ('plain', tag)

@telemetry.track_function_timed
def timed(tag, fail=None, dt=0.25):
    "doc of timed"
    time.sleep(dt)
    if fail is not None:
        raise fail
    return ('timed', tag)

@telemetry.track_class
class Thing(object):
    def __init__(self, tag, fail=None):
        self.tag = tag
        if fail is not None:
            raise fail

    @telemetry.track_method
    def method(self, tag, fail=None):
        "doc of method"
        if fail is not None:
            raise fail
        return ('method', tag)

    @telemetry.track_method_timed
    def tmethod(self, tag, fail=None, dt=0.25):
        "doc of tmethod"
        time.sleep(dt)
        if fail is not None:
            raise fail
        return ('tmethod', tag)

class Sub(Thing):
    pass

def script():
    telemetry.track_script()

def module():
    telemetry.track_module()
'''
KINDS = ['plain', 'timed', 'class', 'sub', 'method', 'tmethod', 'script', 'module']


class Boom(Exception):
    pass


def user_module(proc, name):
    m = types.ModuleType(name)
    m.__file__ = '/somewhere/%s.py' % name.replace('.', '_')
    m.__package__ = name.rpartition('.')[0]
    proc.imp('lsl.misc.telemetry')
    m.__dict__['__builtins__'] = proc.loader.builtins
    exec(compile(USER, '/somewhere/user.py', 'exec'), m.__dict__)
    return m


def names_of(mod, kind):
    n = mod.__name__
    return {'plain': n + '.plain()', 'timed': n + '.timed()', 'class': n + '.Thing', 'sub': None,
            'method': n + '.Thing.method()', 'tmethod': n + '.Thing.tmethod()',
            'script': 'lsl.scripts.' + mod.__file__.rsplit('/', 1)[1], 'module': n}[kind]


def use(sim, mod, kind, fail, dt):
    """Perform one tracked use.  Returns (counted names, seconds timed or None)."""
    tag = object()
    exc = Boom('x') if fail else None
    n = names_of(mod, kind)
    cnt, secs = [], None
    try:
        if kind == 'plain':
            r = mod.plain(tag, fail=exc)
            want = ('plain', tag)
            cnt = [n]
        elif kind == 'timed':
            r = mod.timed(tag, exc, dt=dt)
            want = ('timed', tag)
            cnt, secs = [n], dt
        elif kind in ('class', 'sub'):
            if kind == 'class':
                cnt = [n]                 # counted when construction starts
            r = (mod.Thing if kind == 'class' else mod.Sub)(tag, fail=exc).tag
            want = tag
        elif kind in ('method', 'tmethod'):
            o = object.__new__(mod.Thing)
            if kind == 'method':
                r = o.method(tag, exc)
                want = ('method', tag)
            else:
                r = o.tmethod(tag, exc, dt=dt)
                want = ('tmethod', tag)
                secs = dt
            cnt = [n]
        else:
            getattr(mod, kind)()
            r = want = None
            cnt = [n]
            exc = None
        if exc is not None:
            sim.violate('exception-swallowed', kind=kind)
        elif r != want:
            sim.violate('result-changed', kind=kind, got=repr(r))
    except Boom as e:
        if e is not exc:
            sim.violate('exception-replaced', kind=kind, exc=repr(e))
    except Exception as e:
        sim.violate('tracked-use-failed', kind=kind, exc=repr(e))
        return [], None
    return cnt, secs


class Server(object):
    def __init__(self, sim, p_net=0.0):
        self.sim = sim
        self.p_net = p_net
        self.acked = []         # (canonical report, sender task, clean)
        self.posts = []
        self.up = True
        sim.net.handler = self.handle

    def handle(self, method, url, headers, body):
        sim = self.sim
        if url != URL:
            return {'error': 'refused'}
        t = current()
        if method != 'POST':
            sim.violate('unexpected-request', method=method, url=url)
            return {'error': 'refused'}
        try:
            q = urllib.parse.parse_qs((body or b'').decode(), strict_parsing=True)
            reports = json.loads(q['payload'][0])
        except Exception as e:
            sim.violate('malformed-upload', exc=repr(e), body=repr(body)[:200])
            return {'status': 400}
        self.posts.append((t.proc, reports))
        if not self.up:
            return {'error': 'refused'}
        v = None
        if sim.faults_on:
            v = sim.choose('net', self.p_net, lambda r: r.choice(
                ['refused', 'timeout', 'reset', '500', 'errtext', 'ack-lost', 'ack-cut', 'ack-timeout']))
        ok = [(canon(r), t.proc) for r in reports]
        if v is None:
            for c, p in ok:
                self.acked.append((c, p, True))
            return {'status': 200, 'body': b''}
        sim.count_fault('net:' + v)
        if v in ('refused', 'timeout', 'reset'):
            return {'error': v}
        if v == '500':
            return {'status': 500, 'body': b'oops'}
        if v == 'errtext':
            return {'status': 200, 'body': b'database is locked'}
        # received and stored by the server but the client cannot know
        for c, p in ok:
            self.acked.append((c, p, False))
        if v == 'ack-lost':
            return {'error': 'disconnect'}
        return {'status': 200, 'body': b'0123456789', 'cut': 3 if v == 'ack-cut' else 0,
                'end': 'reset' if v == 'ack-cut' else 'timeout'}


def canon(r):
    return json.dumps(r, sort_keys=True)


def spawn_sender(sim, started, crashable, faultable):
    def spawner(args, kw):
        t = current()
        started.append(t.proc)
        n = len(started)
        p = sim.new_proc('send%d' % n, crashable=crashable, faultable=faultable)

        def main(proc, argv):
            m = proc.imp('lsl.misc._telemetry_send')
            m.main(argv[0], int(argv[1]))
        if '-m' not in args or 'lsl.misc._telemetry_send' not in args:
            sim.violate('unexpected-subprocess', args=repr(args)[:200])
            return (0, b'', b'')
        sim.event('sender-started', by=t.proc.name)
        sim.start(p, main, list(args[args.index('lsl.misc._telemetry_send') + 1:]))
        return (0, b'', b'')
    sim.spawner = spawner


def reports_on_disk(sim, memo):
    """{path: canonical report} of every complete report waiting on the simulated disk."""
    out = {}
    try:
        d = sim.vfs.lookup(TC)
    except OSError:
        return out
    for name, node in (d.kids or {}).items():
        if node.kind != 'f' or not name.endswith('.log'):
            continue
        key = (node.ino, len(node.data), node.mtime)
        c = memo.get(key)
        if c is None:
            try:
                c = canon(json.loads(bytes(node.data).decode()))
            except ValueError:
                c = ''
            memo[key] = c
        if c:
            out[name] = c
    return out
