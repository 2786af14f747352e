"""Simulated data servers and drivers shared by P05 and P06."""
import gzip
import urllib.parse

from .common import *

PRIMARY = 'https://fornax.phys.unm.edu/lwa/data/lsl/'
BACKUP = 'https://leo.phys.unm.edu/data/lsl/'
FILES = ['lwa1-ssmif.txt', 'arx/board.npz', 'note.txt', 'table.txt.gz']
OUT = ['refused', 'dns', 'timeout', 'timeout-raw', 'reset', 'disconnect', '404', '500',
       'cut-eof', 'cut-reset', 'cut-timeout', 'badgzip', 'nolength', 'chunked', 'empty', 'tiny', 'no-mtime']


def content(name, src, ver, size):
    head = ('%s|%s|v%d|' % (name, src, ver)).encode()
    body = (head * (size // len(head) + 1))[:size]
    return (head + body + b'|END%d\n' % size) if size >= 0 else b''


class World(object):
    def __init__(self, sim, files):
        self.sim = sim
        self.src = {'local': {}, 'primary': {}, 'backup': {}}    # name -> (bytes, mtime)
        self.ever = {n: set() for n in files}
        self.p_net = 0.0
        self.kinds = OUT
        self.outcomes = []            # (task, method, src, name, ok)
        sim.vfs.mounts[core.REPO + '/lsl/data'] = sim.vfs.mounts['/repo/lsl/data'] = '/data'
        sim.vfs.mkdirs('/data')
        sim.net.handler = self.handle

    def publish(self, src, name, data, mtime):
        self.src[src][name] = (data, mtime)
        self.ever[name].add(data)
        if src == 'local':
            self.sim.vfs.put('/data/' + name, data, mtime=mtime)

    def withdraw(self, src, name):
        self.src[src].pop(name, None)
        if src == 'local':
            try:
                par, n = self.sim.vfs.lookup('/data/' + name, parent=True)
                par.kids.pop(n, None)
            except OSError:
                pass

    def handle(self, method, url, headers, body):
        sim = self.sim
        for src, base in (('primary', PRIMARY), ('backup', BACKUP)):
            if url.startswith(base):
                name = url[len(base):]
                break
        else:
            return {'error': 'refused'}
        t = current()
        d = self.src[src].get(name)
        if src in getattr(self, 'down', ()):
            self.outcomes.append((t.name, method, src, name, False))
            return {'error': 'refused'}
        if d is None:
            self.outcomes.append((t.name, method, src, name, False))
            return {'status': 404, 'body': b'not here, sorry'}
        data, mtime = d
        r = {'status': 200, 'body': data, 'mtime': mtime}
        gz_ok = 'gzip' in headers.get('accept-encoding', '')
        if gz_ok and sim.choose('netgz', 0.4, lambda q: 1) is not None:
            r['gzip'] = True
        v = None
        if sim.faults_on:
            v = sim.choose('net', self.p_net, lambda q: [q.choice(self.kinds), q.random()])
        if v is not None:
            k, x = v
            sim.count_fault('net:' + k)
            ok = False
            if k in ('refused', 'dns', 'timeout', 'timeout-raw', 'reset', 'disconnect'):
                r = {'error': k}
            elif k in ('404', '500'):
                r = {'status': int(k), 'body': b'some error page that is long enough'}
            elif k.startswith('cut-'):
                n = len(gzip.compress(data, mtime=0)) if r.get('gzip') else len(data)
                r['cut'] = int(x * n)
                r['end'] = k[4:]
                ok = method == 'HEAD'
            elif k == 'badgzip':
                if gz_ok:
                    raw = bytearray(gzip.compress(data, mtime=0))
                    if len(raw) > 22:
                        i = 12 + int(x * (len(raw) - 20))
                        raw[i] ^= 0x41
                        raw[-6] ^= 0xff
                    r = {'status': 200, 'body': bytes(raw), 'mtime': mtime, 'headers': {'Content-Encoding': 'gzip'}}
                    ok = method == 'HEAD'
                else:
                    ok = True
            elif k == 'no-mtime':
                r.pop('mtime')
                ok = True if method == 'GET' else None
            elif k == 'nolength':
                r['no_length'] = True
                ok = None
            elif k == 'chunked':
                r['chunked'] = True
                ok = None
            elif k == 'empty':
                r = {'status': 200, 'body': b'', 'mtime': mtime}
                ok = method == 'HEAD'
            elif k == 'tiny':
                r = {'status': 200, 'body': b'x', 'mtime': mtime}
                ok = method == 'HEAD'
            self.outcomes.append((t.name, method, src, name, ok))
            return r
        self.outcomes.append((t.name, method, src, name, True))
        return r
