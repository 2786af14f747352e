"""
In-memory simulated file system with POSIX semantics (inodes, open file
descriptions, flock/lockf, unlink-while-open), seeded faults and kill -9
semantics: bytes handed to write(2) survive a process crash, bytes still in
user-space buffers do not.
"""
import errno
import io
import os
import stat as _stat
import weakref

from .core import current, SimKill

PREFIX = '/simfs'
FDBASE = 1 << 20


class Inode(object):
    __slots__ = ('ino', 'kind', 'data', 'kids', 'mode', 'mtime', 'ctime', 'atime', 'nlink',
                 'lock_ex', 'lock_sh', 'plock', 'target')

    def __init__(self, ino, kind, mode, now):
        self.ino, self.kind, self.mode = ino, kind, mode
        self.data = bytearray() if kind == 'f' else None
        self.kids = {} if kind == 'd' else None
        self.mtime = self.ctime = self.atime = now
        self.nlink = 1
        self.lock_ex = None     # OpenFile
        self.lock_sh = set()
        self.plock = None       # (proc) for lockf


class OpenFile(object):
    __slots__ = ('fd', 'inode', 'proc', 'pos', 'flags', 'path', 'closed', 'top')

    def __init__(self, fd, inode, proc, flags, path):
        self.fd, self.inode, self.proc, self.flags, self.path = fd, inode, proc, flags, path
        self.pos = 0
        self.closed = False
        self.top = None


class VFS(object):
    def __init__(self, sim):
        self.sim = sim
        self.real_prefix = ()
        self.over = False
        self._ino = 100
        self._fd = FDBASE
        self.fds = {}
        self.mounts = {}        # real prefix -> sim path
        self.root = self._new('d', 0o755)
        self.ro_prefix = []     # paths that behave as a read-only file system
        self.no_perm = []       # path prefixes that deny everything
        self.fault_filter = None
        self.written = 0
        self.nocrash_ops = ()

    # --- helpers ---------------------------------------------------------
    def _new(self, kind, mode):
        self._ino += 1
        return Inode(self._ino, kind, mode, self.stamp())

    def stamp(self):
        g = self.sim.swarm.get('gran') or 0.0
        t = self.sim.now
        if g:
            t = int(t / g) * g
        return t

    def claims(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str):
            return None
        if path == PREFIX or path.startswith(PREFIX + '/'):
            return path[len(PREFIX):] or '/'
        if not path.startswith('/'):
            return '/cwd/' + path
        for k, v in self.mounts.items():
            if path == k or path.startswith(k + '/'):
                return v + path[len(k):]
        return None

    @staticmethod
    def _split(path):
        out = []
        for c in path.split('/'):
            if c in ('', '.'):
                continue
            if c == '..':
                if out:
                    out.pop()
                continue
            out.append(c)
        return out

    def lookup(self, path, parent=False):
        parts = self._split(path)
        if parent:
            if not parts:
                raise OSError(errno.EBUSY, os.strerror(errno.EBUSY), path)
            last = parts.pop()
        node = self.root
        for c in parts:
            if node.kind != 'd':
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), PREFIX + path)
            if c not in node.kids:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), PREFIX + path)
            node = node.kids[c]
        if parent:
            if node.kind != 'd':
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), PREFIX + path)
            return node, last
        return node

    def _perm(self, path, write):
        full = '/' + '/'.join(self._split(path))
        for p in self.no_perm:
            if full == p or full.startswith(p + '/'):
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), PREFIX + path)
        if write:
            for p in self.ro_prefix:
                if full == p or full.startswith(p + '/'):
                    raise OSError(errno.EROFS, os.strerror(errno.EROFS), PREFIX + path)

    def _fault(self, kind, options, path):
        if self.fault_filter is not None and not self.fault_filter(kind, path):
            return
        v = self.sim.fault('fs.' + kind, options, path)
        if v is not None:
            e = getattr(errno, v)
            raise OSError(e, os.strerror(e) + ' (injected)', PREFIX + path)

    # --- driver-side API (no scheduling, no faults) -----------------------
    def mkdirs(self, path):
        node = self.root
        for c in self._split(path):
            if c not in node.kids:
                node.kids[c] = self._new('d', 0o755)
            node = node.kids[c]
        return node

    def put(self, path, data, mtime=None):
        if isinstance(data, str):
            data = data.encode()
        d, name = os.path.split(path)
        par = self.mkdirs(d)
        n = self._new('f', 0o644)
        n.data = bytearray(data)
        if mtime is not None:
            n.mtime = mtime
        par.kids[name] = n
        return n

    def get(self, path):
        try:
            n = self.lookup(path)
        except OSError:
            return None
        return bytes(n.data) if n.kind == 'f' else None

    def tree(self, path='/'):
        out = {}

        def walk(n, p):
            for k in sorted(n.kids):
                c = n.kids[k]
                q = p.rstrip('/') + '/' + k
                if c.kind == 'd':
                    out[q + '/'] = None
                    walk(c, q)
                else:
                    out[q] = bytes(c.data)
        try:
            walk(self.lookup(path), path)
        except OSError:
            pass
        return out

    def close_all(self, proc):
        for f in list(proc.fds.values()):
            self._close(f)

    # --- kernel ------------------------------------------------------------
    def _close(self, f):
        if f.closed:
            return
        f.closed = True
        i = f.inode
        if i.lock_ex is f:
            i.lock_ex = None
        i.lock_sh.discard(f)
        if i.plock is f.proc:
            i.plock = None
        self.fds.pop(f.fd, None)
        if f.proc is not None:
            f.proc.fds.pop(f.fd, None)

    def sys_open(self, path, flags, mode=0o666):
        s = self.sim
        p = self.claims(path)
        s.op('open', p)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        write = acc != os.O_RDONLY
        if write:
            self._fault('open.w', ('EACCES', 'ENOSPC', 'EMFILE', 'EIO'), p)
        else:
            self._fault('open.r', ('EACCES', 'EMFILE', 'EIO'), p)
        par, name = (None, None)
        try:
            node = self.lookup(p)
        except FileNotFoundError:
            node = None
        self._perm(p, write)
        if node is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            par, name = self.lookup(p, parent=True)
            node = self._new('f', mode)
            par.kids[name] = node
            par.mtime = self.stamp()
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
            if node.kind == 'd' and write:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            if flags & getattr(os, 'O_DIRECTORY', 0) and node.kind != 'd':
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            if flags & os.O_TRUNC and node.kind == 'f':
                del node.data[:]
                node.mtime = self.stamp()
        self._fd += 1
        t = current()
        f = OpenFile(self._fd, node, t.proc if t else None, flags, path)
        self.fds[f.fd] = f
        if t:
            t.proc.fds[f.fd] = f
        return f

    def sys_write(self, f, b):
        s = self.sim
        if f.closed or self.over or (f.proc is not None and not f.proc.alive):
            if f.proc is not None and (not f.proc.alive or self.over):
                return len(b)         # a dead process writes nothing; swallow late flushes
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        s.op('write', '%s %d' % (f.path, len(b)))
        n = len(b)
        v = None
        if self.fault_filter is None or self.fault_filter('write', self.claims(f.path) or ''):
            v = s.fault('fs.write', ('ENOSPC', 'EIO', 'SHORT'), f.path)
        if v == 'SHORT' and n > 1:
            n = max(1, n // 2)
        elif v in ('ENOSPC', 'EIO'):
            # a full disk takes what still fits
            if v == 'ENOSPC' and n > 1:
                self._put(f, bytes(b[:n // 2]))
            e = getattr(errno, v)
            raise OSError(e, os.strerror(e) + ' (injected)')
        self._put(f, bytes(b[:n]))
        s.op('write.done', f.path, yields=False)
        return n

    def _put(self, f, b):
        d = f.inode.data
        if f.flags & os.O_APPEND:
            f.pos = len(d)
        if f.pos > len(d):
            d.extend(b'\0' * (f.pos - len(d)))
        d[f.pos:f.pos + len(b)] = b
        f.pos += len(b)
        f.inode.mtime = self.stamp()
        self.written += len(b)

    def sys_read(self, f, n):
        if f.closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if f.inode.kind == 'd':
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR))
        s = self.sim
        s.op('read', '%s %d' % (f.path, n))
        p = self.claims(f.path) or ''
        self._fault('read', ('EIO',), p)
        d = f.inode.data
        b = bytes(d[f.pos:f.pos + n])
        f.pos += len(b)
        return b

    def sys_truncate(self, f, n):
        if f.closed or self.over or (f.proc is not None and not f.proc.alive):
            return n
        self.sim.op('ftruncate', f.path)
        d = f.inode.data
        if n < len(d):
            del d[n:]
        else:
            d.extend(b'\0' * (n - len(d)))
        f.inode.mtime = self.stamp()
        return n

    def mkstat(self, node):
        mode = node.mode | (_stat.S_IFDIR if node.kind == 'd' else _stat.S_IFREG)
        size = len(node.data) if node.kind == 'f' else 4096
        ns = lambda t: int(round(t * 1e9))
        return os.stat_result((mode, node.ino, 77, node.nlink, 0, 0, size,
                               int(node.atime), int(node.mtime), int(node.ctime),
                               node.atime, node.mtime, node.ctime,
                               ns(node.atime), ns(node.mtime), ns(node.ctime)))

    def sys_stat(self, path, lstat=False):
        p = self.claims(path)
        self.sim.op('stat', p)
        self._perm(os.path.dirname(p), False)
        return self.mkstat(self.lookup(p))

    def sys_unlink(self, path):
        p = self.claims(path)
        self.sim.op('unlink', p)
        self._fault('unlink', ('EACCES', 'EIO'), p)
        par, name = self.lookup(p, parent=True)
        if name not in par.kids:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if par.kids[name].kind == 'd':
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        self._perm(p, True)
        n = par.kids.pop(name)
        n.nlink -= 1
        par.mtime = self.stamp()

    def sys_rename(self, src, dst):
        a, b = self.claims(src), self.claims(dst)
        if a is None or b is None:
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src)
        self.sim.op('rename', '%s %s' % (a, b))
        self._fault('rename', ('EACCES', 'EIO', 'ENOSPC'), b)
        pa, na = self.lookup(a, parent=True)
        pb, nb = self.lookup(b, parent=True)
        if na not in pa.kids:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src)
        self._perm(a, True)
        self._perm(b, True)
        n = pa.kids[na]
        old = pb.kids.get(nb)
        if old is n:
            return
        if old is not None:
            if old.kind == 'd' and n.kind != 'd':
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), dst)
            if old.kind == 'd' and old.kids:
                raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), dst)
            old.nlink -= 1
        del pa.kids[na]
        pb.kids[nb] = n
        pa.mtime = pb.mtime = self.stamp()
        self.sim.op('rename.done', b, yields=False)

    def sys_link(self, src, dst):
        a, b = self.claims(src), self.claims(dst)
        self.sim.op('link', '%s %s' % (a, b))
        n = self.lookup(a)
        pb, nb = self.lookup(b, parent=True)
        if nb in pb.kids:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), dst)
        pb.kids[nb] = n
        n.nlink += 1

    def sys_mkdir(self, path, mode=0o777):
        p = self.claims(path)
        self.sim.op('mkdir', p)
        self._fault('mkdir', ('EACCES', 'ENOSPC'), p)
        par, name = self.lookup(p, parent=True)
        if name in par.kids:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        self._perm(p, True)
        par.kids[name] = self._new('d', mode)
        par.mtime = self.stamp()

    def sys_rmdir(self, path):
        p = self.claims(path)
        self.sim.op('rmdir', p)
        par, name = self.lookup(p, parent=True)
        if name not in par.kids:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        n = par.kids[name]
        if n.kind != 'd':
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        if n.kids:
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), path)
        del par.kids[name]

    def sys_listdir(self, path):
        p = self.claims(path)
        self.sim.op('listdir', p)
        n = self.lookup(p)
        if n.kind != 'd':
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        # directory order is not defined: derived from the inode number
        return [k for k, c in sorted(n.kids.items(), key=lambda kc: (kc[1].ino * 2654435761) & 0xffff)]

    def sys_utime(self, path, times=None, ns=None):
        p = self.claims(path)
        self.sim.op('utime', p)
        n = self.lookup(p)
        if ns is not None:
            n.atime, n.mtime = ns[0] / 1e9, ns[1] / 1e9
        elif times is not None:
            n.atime, n.mtime = times
        else:
            n.atime = n.mtime = self.stamp()

    # --- locks -------------------------------------------------------------
    def sys_flock(self, f, op):
        import fcntl
        s = self.sim
        if f.closed:
            if f.proc is not None and not f.proc.alive:
                return
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        s.op('flock', '%s %d' % (f.path, op))
        i = f.inode
        if op & fcntl.LOCK_UN:
            if i.lock_ex is f:
                i.lock_ex = None
            i.lock_sh.discard(f)
            s.op('flock.done', f.path)
            return
        self._fault('flock', ('ENOLCK',), self.claims(f.path) or '')
        if op & fcntl.LOCK_EX:
            free = lambda: (i.lock_ex in (None, f)) and not (i.lock_sh - {f})
        else:
            free = lambda: i.lock_ex in (None, f)
        if not free():
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            s.block(free)
        if op & fcntl.LOCK_EX:
            i.lock_sh.discard(f)
            i.lock_ex = f
        else:
            if i.lock_ex is f:
                i.lock_ex = None
            i.lock_sh.add(f)
        s.op('flock.done', f.path)

    def sys_lockf(self, f, op):
        import fcntl
        s = self.sim
        s.op('lockf', '%s %d' % (f.path, op))
        i = f.inode
        if op & fcntl.LOCK_UN:
            if i.plock is f.proc:
                i.plock = None
            return
        free = lambda: i.plock in (None, f.proc)
        if not free():
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            s.block(free)
        i.plock = f.proc


class SimRaw(io.RawIOBase):
    """Raw file object on a simulated open file description."""

    def __init__(self, vfs, f, name, mode):
        self._vfs, self._f = vfs, f
        self.name = name
        self.mode = mode
        self._closefd = True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._f.fd

    def isatty(self):
        return False

    def readable(self):
        return (self._f.flags & 3) in (os.O_RDONLY, os.O_RDWR)

    def writable(self):
        return (self._f.flags & 3) in (os.O_WRONLY, os.O_RDWR)

    def seekable(self):
        return True

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation('File not open for reading')
        d = self._vfs.sys_read(self._f, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        # as FileIO.readall: one large read (regular files)
        out = b''
        while True:
            d = self._vfs.sys_read(self._f, max(65536, len(self._f.inode.data) + 1))
            if not d:
                return out
            out += d
            if self._f.pos >= len(self._f.inode.data):
                return out

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation('File not open for writing')
        return self._vfs.sys_write(self._f, memoryview(b).cast('B'))

    def seek(self, pos, whence=0):
        f = self._f
        if whence == 0:
            if pos < 0:
                raise OSError(errno.EINVAL, 'Invalid argument')
            f.pos = pos
        elif whence == 1:
            f.pos += pos
        else:
            f.pos = len(f.inode.data) + pos if f.inode.kind == 'f' else 0
        return f.pos

    def tell(self):
        return self._f.pos

    def truncate(self, size=None):
        if size is None:
            size = self._f.pos
        return self._vfs.sys_truncate(self._f, size)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and not self._vfs.over:
                    self._vfs._close(self._f)


def sim_open(vfs, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    modes = set(mode)
    if modes - set('axrwb+tU') or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = ('x' in modes), ('r' in modes), ('w' in modes), ('a' in modes)
    updating, text, binary = ('+' in modes), ('t' in modes), ('b' in modes)
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if updating:
        flags = os.O_RDWR
    elif reading:
        flags = os.O_RDONLY
    else:
        flags = os.O_WRONLY
    if creating:
        flags |= os.O_CREAT | os.O_EXCL
    elif writing:
        flags |= os.O_CREAT | os.O_TRUNC
    elif appending:
        flags |= os.O_CREAT | os.O_APPEND
    if isinstance(file, int):
        f = vfs.fds.get(file)
        if f is None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
    elif opener is not None:
        fd = opener(file, flags)
        f = vfs.fds.get(fd)
        if f is None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
    else:
        f = vfs.sys_open(file, flags)
        if f.inode.kind == 'd':
            vfs._close(f)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    if appending:
        f.pos = len(f.inode.data)
    rmode = ('xb' if creating else 'ab' if appending else 'wb' if writing and not updating else 'rb')
    if updating:
        rmode = 'xb+' if creating else 'ab+' if appending else 'rb+'
    raw = SimRaw(vfs, f, file, rmode)
    raw._closefd = closefd
    line_buffering = False
    if buffering == 1:
        buffering, line_buffering = -1, not binary
    if buffering < 0:
        buffering = 8192
    if buffering == 0:
        if binary:
            f.top = weakref.ref(raw)
            return raw
        raise ValueError("can't have unbuffered text I/O")
    if updating:
        buf = io.BufferedRandom(raw, buffering)
    elif writing or appending or creating:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        f.top = weakref.ref(buf)
        return buf
    if encoding is None or encoding == 'locale':
        encoding = 'utf-8'
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    t.mode = mode
    f.top = weakref.ref(t)
    return t
