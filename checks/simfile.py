"""
Files whose reads are system calls of the simulated task that makes them: preemption points and injected faults.
The bytes are those of real files in the scratch directory.
"""
import errno
import io
import os

from sim import core

ERR = {'EIO': errno.EIO, 'ESTALE': errno.ESTALE, 'EMFILE': errno.EMFILE, 'EACCES': errno.EACCES, 'ENOENT': errno.ENOENT}

RAW_SHORT = False      # short reads also without buffering


def _point(kind, detail):
    t = core.current()
    if t is not None:
        t.sim.op(kind, detail)


def _fault(kind, options, detail):
    t = core.current()
    if t is None:
        return None
    v = t.sim.fault(kind, options, detail)
    if v is not None:
        t.sim.probe('fault_' + kind)
        t.sim.__dict__.setdefault('injected', []).append((kind, v))
    return v


class Raw(io.FileIO):
    def __init__(self, path):
        v = _fault('open', ['EMFILE', 'EACCES', 'EIO'], os.path.basename(path))
        if v is not None:
            raise OSError(ERR[v], os.strerror(ERR[v]), path)
        io.FileIO.__init__(self, path, 'rb')
        self.short = RAW_SHORT

    def _io(self, n):
        v = _fault('read', ['EIO', 'ESTALE', 'short'], os.path.basename(str(self.name)))
        if v in ('EIO', 'ESTALE'):
            raise OSError(ERR[v], os.strerror(ERR[v]))
        if v == 'short' and self.short and n > 1:
            return max(1, n // 3)
        return n

    def readinto(self, b):
        m = memoryview(b)
        return io.FileIO.readinto(self, m[:self._io(len(m))])

    def read(self, size=-1):
        _point('read', '')
        if size is None or size < 0:
            self._io(1)
            return io.FileIO.read(self, size)
        return io.FileIO.read(self, self._io(size))

    def readall(self):
        self._io(1)
        return io.FileIO.readall(self)


class Buffered(io.BufferedReader):
    def read(self, size=-1):
        _point('read', '')
        d = io.BufferedReader.read(self, size)
        _point('read-done', '')
        return d

    def seek(self, *a):
        _point('seek', '')
        return io.BufferedReader.seek(self, *a)

    def __getattr__(self, k):
        raise AttributeError(k)


def opener(path, mode='r', buffering=-1, *a, **kw):
    if mode != 'rb' or core.current() is None:
        return io.open(path, mode, buffering, *a, **kw)
    raw = Raw(path)
    if buffering == 0:
        return raw
    raw.short = True
    return Buffered(raw, io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering)


def install(*modules):
    for m in modules:
        m.open = opener
