"""Reference model and drivers shared by the cache checks (P02, P04)."""
from .common import *


class CacheModel(object):
    """Sequential model of a cache: name -> set of possible contents.

    Entries: ('is', bytes|None)            the content is exactly this
             ('pre', base, tail)           base plus any prefix of tail (interrupted write)
             ('pend', op)                  op's data is being handed over (between body end and return)
    """

    def __init__(self, sim):
        self.sim = sim
        self.state = {}
        self.bodies = []            # tasks currently inside a body
        self.version = {}           # name -> number of modifications that began or ended
        self.removing = {}          # name -> removes in flight
        self.moving = {}            # name -> contents of the files that are being renamed to it
        self.inflight = {}          # task -> list of in-progress write/remove ops

    def get(self, name):
        st = self.state.setdefault(name, [('is', None)])
        if self.removing.get(name) and ('is', None) not in st:
            st = st + [('is', None)]
        if self.moving.get(name):
            st = st + [('is', d) for d in self.moving[name]]
        return st

    def bump(self, name):
        self.version[name] = self.version.get(name, 0) + 1

    def ver(self, name):
        return self.version.get(name, 0)

    def killed(self, proc):
        for t, ops in self.inflight.items():
            if t.proc is proc:
                for op in ops:
                    self.bump(op['name'])
                    if op['mode'] == 'rm':
                        self.removing[op['name']] -= 1
                        self.state.setdefault(op['name'], [('is', None)]).append(('is', None))
                    elif op['mode'] == 'mv':
                        self.moving[op['name']].remove(op['data'])
                        self.state.setdefault(op['name'], [('is', None)]).append(('is', op['data']))
                    elif ('pend', op) in self.state.get(op['name'], []):
                        self.settle(op, False)
                    else:
                        self.interrupted(op)
                del ops[:]

    def may_be_absent(self, name):
        return any(e == ('is', None) for e in self.get(name))

    def may_exist(self, name):
        return any(e != ('is', None) for e in self.get(name))

    def match(self, name, c):
        """c: bytes or None.  Returns list of ops that must turn out to have failed, or None when impossible."""
        weak = None
        for e in self.get(name):
            if e[0] == 'is' and e[1] == c:
                return []
            if c is None:
                continue
            if e[0] == 'pre' and c.startswith(e[1]) and e[2].startswith(c[len(e[1]):]):
                return []
            if e[0] == 'pend':
                for b in e[1]['bases']:
                    if c == b + e[1]['data']:
                        return []
                    if c.startswith(b) and e[1]['data'].startswith(c[len(b):]):
                        weak = [e[1]]
        return weak

    def sizes_ok(self, name, n):
        for e in self.get(name):
            if e[0] == 'is' and e[1] is not None and len(e[1]) == n:
                return True
            if e[0] == 'pre' and len(e[1]) <= n <= len(e[1]) + len(e[2]):
                return True
            if e[0] == 'pend' and any(len(b) <= n <= len(b) + len(e[1]['data']) for b in e[1]['bases']):
                return True
        return False

    def concrete(self, name):
        """Possible existing contents as exact bases (prefix entries kept as maximal/minimal witnesses)."""
        return list(self.get(name))

    def interrupted(self, op):
        """op (write) was cut off at an unknown point."""
        self.bump(op['name'])
        st = self.state.setdefault(op['name'], [('is', None)])
        if op['mode'].startswith('w'):
            st.append(('is', b''))
            st.append(('pre', b'', op['data']))
        else:
            new = []
            for e in st:
                if e[0] == 'is':
                    new.append(('pre', e[1] or b'', op['data']))
                elif e[0] == 'pre':
                    new.append(('any',))
                elif e[0] == 'pend':
                    new.append(('any',))
            st.extend(new)

    def done_write(self, op):
        """The body of op ended normally; its data is on its way."""
        self.bump(op['name'])
        st = self.get(op['name'])
        if op['mode'].startswith('w'):
            op['bases'] = [b'']
        else:
            bases = []
            for e in st:
                if e[0] == 'is':
                    bases.append(e[1] or b'')
                else:
                    op['fuzzy'] = True
            op['bases'] = bases or [b'']
        if op.get('fuzzy'):
            self.state[op['name']] = [('any',)]
        else:
            self.state[op['name']] = [('pend', op)]

    def settle(self, op, ok):
        st = self.state[op['name']]
        if op.get('must_fail') and ok:
            self.sim.violate('reader-saw-incomplete-write', name=op['name'], op=op['id'])
        if ('pend', op) in st:
            st = [e for e in st if e != ('pend', op)]
            if ok:
                st += [('is', b + op['data']) for b in op['bases']]
            else:
                st += [('pre', b, op['data']) for b in op['bases']]
            self.state[op['name']] = st


def any_ok(model, name):
    return any(e == ('any',) for e in model.get(name))


def cache_task(sim, m, cache, ops, nested_ok=True, tag='t', exempt=None):
    """Execute ops on cache from the current task, checking every result against model m."""
    t = current()

    def nf():
        return sum(1 for e in sim.history if e[2] == t.name and e[3] == 'fault')

    def enter():
        oth = [x for x in m.bodies if x is not t and x.proc.alive]
        if oth:
            sim.violate('two-openers-at-once', who=t.name, other=[o.name for o in oth])
        m.bodies.append(t)

    def leave():
        m.bodies.remove(t)

    def bad(what, o, **kw):
        sim.violate(what, op=o['op'], name=o.get('name'), **kw)

    def do(o, depth=0):
        f0 = nf()
        name = o.get('name')
        k = o['op']
        if k == 'sleep':
            sim.sleep(o['t'])
            return
        if k == 'write':
            op = {'id': '%s.%s' % (t.name, o['id']), 'name': name, 'mode': o['mode'],
                  'data': ''.join(o['chunks']).encode()}
            m.inflight.setdefault(t, []).append(op)
            entered = ended = False
            try:
                with cache.open(name, o['mode']) as fh:
                    enter()
                    entered = True
                    if nf() == f0 and name not in cache and nf() == f0:
                        bad('written-file-missing-while-open', o)
                    try:
                        for c in o['chunks']:
                            fh.write(c.encode() if 'b' in o['mode'] else c)
                            if o.get('pause'):
                                sim.sleep(o['pause'])
                        if o.get('inner') and depth == 0:
                            do(o['inner'], 1)
                        if o.get('raise'):
                            op['boom'] = True
                            m.done_write(op)
                            raise KeyboardInterrupt('body')
                    finally:
                        leave()
                    m.done_write(op)
                    ended = True
                m.settle(op, True)
                sim.event('wrote', name=name, n=len(op['data']))
            except KeyboardInterrupt:
                m.settle(op, True)          # closing flushes what the body wrote
                if nf() != f0:
                    m.state[name].append(('any',))
                sim.event('body-raised', name=name)
            except OSError as e:
                sim.event('write-exc', name=name, exc=type(e).__name__)
                # an injected write error: what the io stack left behind is unspecified
                m.bump(name)
                m.state.setdefault(name, []).append(('any',))
                if nf() == f0:
                    bad('write-raised', o, exc=repr(e))
            finally:
                if op in m.inflight.get(t, []):
                    m.inflight[t].remove(op)
        elif k == 'read':
            mode = o['mode']
            v0, absent0 = m.ver(name), m.may_be_absent(name)
            try:
                with cache.open(name, mode) as fh:
                    enter()
                    try:
                        if o.get('how') == 'lines':
                            c = list(fh)
                            c = (b'' if 'b' in mode else '').join(c)
                        elif o.get('how') == 'readline':
                            c = b'' if 'b' in mode else ''
                            while True:
                                l = fh.readline()
                                if not l:
                                    break
                                c += l
                        elif o.get('how') == 'pieces':
                            c = b'' if 'b' in mode else ''
                            while True:
                                l = fh.read(7)
                                if not l:
                                    break
                                c += l
                        else:
                            c = fh.read()
                        if o.get('pause'):
                            sim.sleep(o['pause'])
                            fh.seek(0)
                            if fh.read() != c and nf() == f0:
                                bad('changed-while-open', o)
                        if o.get('inner') and depth == 0:
                            do(o['inner'], 1)
                    finally:
                        leave()
                    cb = c if isinstance(c, bytes) else c.encode()
                    if isinstance(c, bytes) != ('b' in mode):
                        bad('wrong-content-type', o)
                    sim.event('read', name=name, c=cb[:40])
                    if nf() == f0 and not any_ok(m, name):
                        w = m.match(name, cb)
                        if w is None:
                            bad('read-wrong-content', o, got=cb[:200], allowed=str(m.get(name))[:300])
                        else:
                            for op in w:
                                op['must_fail'] = True
                            if not w:
                                m.state[name] = [('is', cb)]
                    elif nf() == f0:
                        m.state[name] = [('is', cb)]
            except FileNotFoundError:
                sim.event('read-missing', name=name)
                if not absent0 and m.ver(name) == v0 and not m.may_be_absent(name) and not any_ok(m, name) and nf() == f0:
                    bad('file-lost', o, allowed=str(m.get(name))[:300])
            except OSError as e:
                sim.event('read-exc', name=name, exc=type(e).__name__)
                if nf() == f0:
                    bad('read-raised', o, exc=repr(e))
        elif k == 'remove':
            op = {'id': o['id'], 'name': name, 'mode': 'rm', 'data': b''}
            m.inflight.setdefault(t, []).append(op)
            m.removing[name] = m.removing.get(name, 0) + 1
            v0 = m.ver(name)
            try:
                cache.remove(name)
                ok = nf() == f0
            except OSError as e:
                ok = False
                if nf() == f0:
                    bad('remove-raised', o, exc=repr(e))
            m.inflight[t].remove(op)
            m.removing[name] -= 1
            st = m.state.setdefault(name, [('is', None)])
            if ok and m.ver(name) == v0:
                m.state[name] = [('is', None)]
            else:
                st.append(('is', None))
            m.bump(name)
            sim.event('removed', name=name, ok=ok)
        elif k == 'mv':
            # a file of this task's own, written and then renamed
            tmp = 'own-%s-%s' % (t.name, o['id'])
            data = o['data'].encode()
            try:
                with cache.open(tmp, 'wb') as fh:
                    fh.write(data)
            except OSError as e:
                sim.event('write-exc', name=tmp, exc=type(e).__name__)
                if nf() == f0:
                    bad('write-raised', o, exc=repr(e))
                return
            op = {'id': o['id'], 'name': name, 'mode': 'mv', 'data': data}
            m.inflight.setdefault(t, []).append(op)
            m.moving.setdefault(name, []).append(data)
            v0 = m.ver(name)
            try:
                cache.rename(tmp, name)
                ok = True
            except OSError as e:
                ok = False
                sim.event('mv-exc', name=name, exc=type(e).__name__)
                if nf() == f0:
                    bad('rename-raised', o, exc=repr(e))
            m.inflight[t].remove(op)
            m.moving[name].remove(data)
            st = m.state.setdefault(name, [('is', None)])
            if ok and m.ver(name) == v0 and nf() == f0:
                m.state[name] = [('is', data)]
            else:
                st.append(('is', data))
            m.bump(name)
            if ok and nf() == f0 and tmp in cache:
                bad('renamed-file-still-there', o)
            sim.event('renamed', name=name, ok=ok)
        elif k == 'size':
            v0 = m.vstr(name)
            try:
                n = cache.getsize(name)
                sim.event('size', name=name, n=n)
                if v0 == m.vstr(name) and not m.sizes_ok(name, n) and not any_ok(m, name) and nf() == f0:
                    bad('wrong-size', o, got=n, allowed=v0[:300])
                st = cache.stat(name)
                if v0 == m.vstr(name) and not m.sizes_ok(name, st.st_size) and not any_ok(m, name) and nf() == f0:
                    bad('wrong-stat-size', o, got=st.st_size, allowed=v0[:300])
                mt = cache.getmtime(name)
                if not (mt > 1.7e9):
                    bad('wrong-mtime', o, got=mt)
            except OSError as e:
                sim.event('size-exc', name=name)
                if nf() == f0 and v0 == m.vstr(name) and not m.may_be_absent(name) and not any_ok(m, name):
                    bad('size-raised', o, exc=repr(e))
        elif k == 'has':
            v0 = m.vstr(name)
            r = name in cache
            sim.event('has', name=name, r=r)
            if not m.inflight_on(name) and v0 == m.vstr(name) and not any_ok(m, name):
                if r and not m.may_exist(name):
                    bad('has-but-absent', o)
                if not r and not m.may_be_absent(name):
                    bad('present-but-not-listed', o)

    for o in ops:
        do(o)


def _vstr(self, name):
    return '%d %s' % (self.ver(name), [(e[0],) + ((e[1], ) if e[0] == 'is' else ()) for e in self.get(name)])


def _inflight_on(self, name):
    return any(op['name'] == name for ops in self.inflight.values() for op in ops)


CacheModel.inflight_on = _inflight_on
CacheModel.vstr = _vstr


def gen_cache_ops(rng, n, names, depth=0, ids=None, pause=True, mv=False):
    ids = ids if ids is not None else [0]
    out = []
    for _ in range(n):
        ids[0] += 1
        i = ids[0]
        x = rng.random()
        name = rng.choice(names)
        if x < 0.42:
            o = {'op': 'write', 'id': i, 'name': name, 'mode': rng.choice(['w', 'wb', 'w', 'a', 'ab']),
                 'chunks': ['%s%04d.%d%s\n' % (rng.choice('abc'), i, k, 'x' * rng.choice([0, 3, 30, 9000]))
                            for k in range(rng.randint(0, 3))],
                 'pause': rng.choice([0, 0, 0.01, 0.05]) if pause else 0,
                 'raise': rng.random() < 0.12}
            if rng.random() < 0.12 and depth == 0 and len(names) > 1:
                o['inner'] = gen_cache_ops(rng, 1, [x for x in names if x != name], 1, ids, pause)[0]
        elif x < 0.75:
            o = {'op': 'read', 'id': i, 'name': name, 'mode': rng.choice(['r', 'rb']),
                 'how': rng.choice(['all', 'all', 'lines', 'readline', 'pieces']),
                 'pause': rng.choice([0, 0, 0.01]) if pause else 0}
            if rng.random() < 0.12 and depth == 0 and len(names) > 1:
                o['inner'] = gen_cache_ops(rng, 1, [x for x in names if x != name], 1, ids, pause)[0]
        elif mv and x < 0.79 and depth == 0 and '/' not in name:
            o = {'op': 'mv', 'id': i, 'name': name, 'data': 'm%04d\n' % i * rng.choice([1, 3, 2000])}
        elif x < 0.83:
            o = {'op': 'remove', 'id': i, 'name': name}
        elif x < 0.91:
            o = {'op': 'size', 'id': i, 'name': name}
        elif x < 0.96:
            o = {'op': 'has', 'id': i, 'name': name}
        else:
            o = {'op': 'sleep', 'id': i, 't': rng.choice([0.001, 0.02])}
        out.append(o)
    return out
