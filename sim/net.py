"""
Simulated network: urlopen against scripted servers.  The HTTP exchange is parsed
by the real http.client.HTTPResponse over a simulated socket, so truncation,
chunking, resets and timeouts have the standard library's own semantics.
"""
import email.utils
import errno
import gzip
import io
import http.client
import socket
import urllib.error
import urllib.request

from .core import current


class FakeSock(object):
    def __init__(self, net, data, url, end, timeout):
        self.net, self.data, self.url, self.end, self.timeout = net, data, url, end, timeout

    def makefile(self, mode, *a, **k):
        return io.BufferedReader(FakeStream(self), 8192)

    def close(self):
        pass


class FakeStream(io.RawIOBase):
    """end: 'eof' (orderly close), 'reset', 'timeout'"""

    def __init__(self, sock):
        self.s = sock
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        n = self.s.net.sim
        t = current()
        if t is not None:
            n.op('net.recv', self.s.url)
        d = self.s.data[self.pos:self.pos + min(len(b), 1500)]
        if not d:
            if self.s.end == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer (injected)')
            if self.s.end == 'timeout':
                n.sleep(self.s.timeout if self.s.timeout else 120)
                raise socket.timeout('The read operation timed out')
            return 0
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


class Net(object):
    def __init__(self, sim):
        self.sim = sim
        self.handler = None     # handler(method, url, headers, body) -> dict or raises
        self.requests = []

    def urlopen(self, url, data=None, timeout=None, context=None, **kw):
        s = self.sim
        if isinstance(url, urllib.request.Request):
            req = url
        else:
            req = urllib.request.Request(url, data)
        if data is not None:
            req.data = data
        full = req.full_url
        method = req.get_method()
        s.op('net.connect', '%s %s' % (method, full))
        hdrs = {k.lower(): v for k, v in req.header_items()}
        r = self.handler(method, full, hdrs, req.data) if self.handler else {'error': 'refused'}
        self.requests.append((method, full, {k: r[k] for k in r if k in ('error', 'status', 'cut', 'end')}))
        s.event('http', method=method, url=full, outcome=r.get('error') or r.get('status', 200),
                cut=r.get('cut'), end=r.get('end'))
        err = r.get('error')
        if err:
            if err == 'refused':
                raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused (injected)'))
            if err == 'dns':
                raise urllib.error.URLError(socket.gaierror(-3, 'Temporary failure in name resolution'))
            if err == 'timeout':
                s.sleep(timeout if isinstance(timeout, (int, float)) else 120)
                raise urllib.error.URLError(socket.timeout('timed out'))
            if err == 'timeout-raw':
                s.sleep(timeout if isinstance(timeout, (int, float)) else 120)
                raise socket.timeout('timed out')
            if err == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer (injected)')
            if err == 'disconnect':
                raise http.client.RemoteDisconnected('Remote end closed connection without response')
            raise ValueError(err)
        status = r.get('status', 200)
        body = r.get('body', b'')
        out = ['HTTP/1.1 %d X' % status]
        h = dict(r.get('headers', {}))
        if r.get('mtime') is not None:
            h['Last-Modified'] = email.utils.formatdate(r['mtime'], usegmt=True)
        if r.get('gzip'):
            h['Content-Encoding'] = 'gzip'
            body = gzip.compress(body, mtime=0)
        if r.get('chunked'):
            h['Transfer-Encoding'] = 'chunked'
            b2 = b''
            for i in range(0, len(body), 1000):
                c = body[i:i + 1000]
                b2 += b'%x\r\n' % len(c) + c + b'\r\n'
            wire = b2 + b'0\r\n\r\n'
        else:
            if not r.get('no_length'):
                h['Content-Length'] = str(len(body))
            wire = body
        if r.get('cut') is not None:
            wire = wire[:r['cut']]
        if method == 'HEAD':
            wire = b''
        for k, v in h.items():
            out.append('%s: %s' % (k, v))
        head = ('\r\n'.join(out) + '\r\n\r\n').encode('latin-1')
        sock = FakeSock(self, head + wire, full, r.get('end', 'eof'),
                        timeout if isinstance(timeout, (int, float)) else 120)
        resp = http.client.HTTPResponse(sock, method=method, url=full)
        resp.begin()
        resp.url = full
        resp.msg = resp.reason
        if not 200 <= status < 300:
            raise urllib.error.HTTPError(full, status, 'X', resp.headers, resp)
        return resp
