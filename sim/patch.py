"""
Global seams.  Installed once per worker, before any lsl code is loaded; every
wrapper dispatches to the simulation only when the calling thread is a simulated
task and to the real function otherwise.
"""
import atexit
import builtins
import fcntl
import io
import os
import shutil
import subprocess
import sys
import tempfile
import time
import urllib.request
import warnings

from . import core, vfs as V, loader
from .core import current

_installed = False
REAL = {}


class Escape(core.HarnessError):
    pass


def _vfs():
    return current().sim.vfs


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real = REAL

    def save(mod, name):
        real[mod.__name__ + '.' + name] = getattr(mod, name)
        return getattr(mod, name)

    # ---- open ----------------------------------------------------------
    ropen = save(builtins, 'open')
    loader.core_open = ropen

    def sopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        t = current()
        if t is not None:
            v = t.sim.vfs
            if isinstance(file, int):
                if file >= V.FDBASE:
                    return V.sim_open(v, file, mode, buffering, encoding, errors, newline, closefd, opener)
            elif v.claims(file) is not None:
                return V.sim_open(v, file, mode, buffering, encoding, errors, newline, closefd, opener)
            elif any(c in mode for c in 'wax+') and not _real(t, file):
                raise PermissionError(13, 'simulated process may not write outside the simulated file system', file)
        return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = sopen
    io.open = sopen
    import tarfile
    tarfile.bltn_open = sopen

    # the C buffer of a GzipFile is guarded by a real lock that a preempted task would
    # keep; the pure Python twin takes a simulated one
    import _pyio
    import gzip
    from .core import SimLock

    class SimBuffered(_pyio.BufferedReader):
        def __init__(self, raw, buffer_size=io.DEFAULT_BUFFER_SIZE):
            _pyio.BufferedReader.__init__(self, raw, buffer_size)
            self._read_lock = SimLock(False)

    class GzipIO(object):
        def __getattr__(self, n):
            return getattr(io, n)

        def BufferedReader(self, raw, *a, **k):
            return (SimBuffered if current() is not None else io.BufferedReader)(raw, *a, **k)
    gzip.io = GzipIO()

    # ---- os ------------------------------------------------------------
    def _real(t, path, dir_fd=None):
        """a scratch directory of the check that compiled code writes to by itself"""
        r = t.sim.vfs.real_prefix
        if not r:
            return False
        if dir_fd is not None:
            return dir_fd < V.FDBASE
        return isinstance(path, str) and path.startswith(r)

    def wrap_path(name, sysname, write=False):
        rf = save(os, name)

        def f(path, *a, **k):
            t = current()
            if t is not None and not isinstance(path, int):
                if _real(t, path, k.get('dir_fd')):
                    return rf(path, *a, **k)
                if t.sim.vfs.claims(path) is not None:
                    k.pop('dir_fd', None)
                    k.pop('follow_symlinks', None)
                    return getattr(t.sim.vfs, sysname)(path, *a, **k)
                if write:
                    raise PermissionError(13, 'outside the simulated file system', path)
            elif t is not None and path >= V.FDBASE:
                return getattr(t.sim.vfs, sysname + '_fd')(path, *a, **k)
            return rf(path, *a, **k)
        f.__name__ = name
        setattr(os, name, f)

    V.VFS.sys_stat_fd = lambda self, fd: self.mkstat(self.fds[fd].inode)
    V.VFS.sys_lstat = lambda self, p: self.sys_stat(p)
    V.VFS.sys_listdir_fd = lambda self, fd: self.sys_listdir(self.fds[fd].path)
    wrap_path('stat', 'sys_stat')
    wrap_path('lstat', 'sys_lstat')
    wrap_path('unlink', 'sys_unlink', True)
    wrap_path('remove', 'sys_unlink', True)
    wrap_path('mkdir', 'sys_mkdir', True)
    wrap_path('rmdir', 'sys_rmdir', True)
    wrap_path('utime', 'sys_utime', True)

    V.VFS.sys_chmod = lambda self, p, mode, **k: setattr(self.lookup(self.claims(p)), 'mode', mode)
    V.VFS.sys_chmod_fd = lambda self, fd, mode, **k: None
    wrap_path('chmod', 'sys_chmod', True)
    V.VFS.sys_chown = lambda self, p, *a, **k: self.lookup(self.claims(p)) and None
    wrap_path('chown', 'sys_chown', True)
    wrap_path('lchown', 'sys_chown', True)

    def _access(self, p, mode, **k):
        try:
            pp = self.claims(p)
            self.lookup(pp)
            self._perm(pp, bool(mode & os.W_OK))
            return True
        except OSError:
            return False
    V.VFS.sys_access = _access
    wrap_path('access', 'sys_access')

    def _trunc(self, p, n):
        f = self.sys_open(p, os.O_WRONLY)
        try:
            self.sys_truncate(f, n)
        finally:
            self._close(f)
    V.VFS.sys_trunc = _trunc
    V.VFS.sys_trunc_fd = lambda self, fd, n: self.sys_truncate(self.fds[fd], n)
    wrap_path('truncate', 'sys_trunc', True)

    def wrap2(name, sysname):
        rf = save(os, name)

        def f(a, b, *x, **k):
            t = current()
            if t is not None:
                v = t.sim.vfs
                if v.claims(a) is not None or v.claims(b) is not None:
                    return getattr(v, sysname)(a, b)
                raise PermissionError(13, 'outside the simulated file system', a)
            return rf(a, b, *x, **k)
        setattr(os, name, f)
    wrap2('rename', 'sys_rename')
    wrap2('replace', 'sys_rename')
    wrap2('link', 'sys_link')

    rlistdir = save(os, 'listdir')

    def listdir(path='.'):
        t = current()
        if t is not None and not isinstance(path, int) and t.sim.vfs.claims(path) is not None:
            return t.sim.vfs.sys_listdir(path)
        return rlistdir(path)
    os.listdir = listdir

    class DirEntry(object):
        def __init__(self, v, d, name):
            self._v = v
            self.name = name
            self.path = os.path.join(d, name)

        def _node(self):
            return self._v.lookup(self._v.claims(self.path))

        def is_dir(self, follow_symlinks=True):
            try:
                return self._node().kind == 'd'
            except OSError:
                return False

        def is_file(self, follow_symlinks=True):
            try:
                return self._node().kind == 'f'
            except OSError:
                return False

        def is_symlink(self):
            return False

        def is_junction(self):
            return False

        def inode(self):
            return self._node().ino

        def stat(self, follow_symlinks=True):
            return os.stat(self.path)

        def __fspath__(self):
            return self.path

    class Scan(object):
        def __init__(self, items):
            self._it = iter(items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass
    rscandir = save(os, 'scandir')

    def scandir(path='.'):
        t = current()
        if t is not None and not isinstance(path, int) and t.sim.vfs.claims(path) is not None:
            v = t.sim.vfs
            return Scan([DirEntry(v, path, n) for n in v.sys_listdir(path)])
        return rscandir(path)
    os.scandir = scandir

    ros_open = save(os, 'open')

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        t = current()
        if t is not None and not _real(t, path, dir_fd):
            if t.sim.vfs.claims(path) is not None:
                return t.sim.vfs.sys_open(path, flags, mode).fd
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                raise PermissionError(13, 'outside the simulated file system', path)
        return ros_open(path, flags, mode, dir_fd=dir_fd)
    os.open = os_open

    def wrapfd(name, fn):
        rf = save(os, name)

        def f(fd, *a, **k):
            t = current()
            if isinstance(fd, int) and fd >= V.FDBASE:
                if t is None:
                    return None
                of = t.sim.vfs.fds.get(fd)
                if of is None:
                    import errno
                    raise OSError(errno.EBADF, os.strerror(errno.EBADF))
                return fn(t.sim.vfs, of, *a, **k)
            return rf(fd, *a, **k)
        setattr(os, name, f)
    wrapfd('close', lambda v, f: v._close(f))
    wrapfd('read', lambda v, f, n: v.sys_read(f, n))
    wrapfd('write', lambda v, f, b: v.sys_write(f, memoryview(b).cast('B')))
    wrapfd('fstat', lambda v, f: v.mkstat(f.inode))
    wrapfd('fsync', lambda v, f: v.sim.op('fsync', f.path) and None)
    wrapfd('fdatasync', lambda v, f: v.sim.op('fsync', f.path) and None)
    wrapfd('ftruncate', lambda v, f, n: v.sys_truncate(f, n) and None)
    wrapfd('isatty', lambda v, f: False)
    wrapfd('fchmod', lambda v, f, m: None)

    def _lseek(v, f, pos, how):
        if how == 0:
            f.pos = pos
        elif how == 1:
            f.pos += pos
        else:
            f.pos = len(f.inode.data) + pos
        return f.pos
    wrapfd('lseek', _lseek)

    rpid = save(os, 'getpid')
    os.getpid = lambda: current().proc.pid if current() is not None else rpid()
    rcwd = save(os, 'getcwd')
    os.getcwd = lambda: V.PREFIX + '/cwd' if current() is not None else rcwd()
    rur = save(os, 'urandom')
    os.urandom = lambda n: current().sim._urand.randbytes(n) if current() is not None else rur(n)

    # ---- fcntl ---------------------------------------------------------
    rflock, rlockf = save(fcntl, 'flock'), save(fcntl, 'lockf')

    def _of(fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        return current().sim.vfs.fds.get(fd) if fd >= V.FDBASE else None

    def flock(fd, op):
        t = current()
        if t is not None:
            f = _of(fd)
            if f is not None:
                return t.sim.vfs.sys_flock(f, op)
            if t.killed or not t.proc.alive:
                raise core.SimKill()
        elif (fd if isinstance(fd, int) else fd.fileno()) >= V.FDBASE:
            return
        return rflock(fd, op)

    def lockf(fd, op, *a):
        t = current()
        if t is not None:
            f = _of(fd)
            if f is not None:
                return t.sim.vfs.sys_lockf(f, op)
        return rlockf(fd, op, *a)
    fcntl.flock, fcntl.lockf = flock, lockf

    # ---- clock ---------------------------------------------------------
    def clk(name, fn):
        rf = save(time, name)

        def f(*a):
            t = current()
            if t is not None:
                return fn(t.sim, *a)
            return rf(*a)
        setattr(time, name, f)

    def _tick(s):
        s.op('clock', '', yields=True, cost=1e-5)
        return s
    clk('time', lambda s: _tick(s).now)
    clk('time_ns', lambda s: int(_tick(s).now * 1e9))
    clk('monotonic', lambda s: _tick(s).mono)
    clk('perf_counter', lambda s: _tick(s).mono)
    clk('monotonic_ns', lambda s: int(_tick(s).mono * 1e9))
    clk('perf_counter_ns', lambda s: int(_tick(s).mono * 1e9))
    clk('process_time', lambda s: _tick(s).mono)
    clk('sleep', lambda s, d: s.sleep(d))

    # ---- network / processes / exit / warnings ------------------------------
    ruo = save(urllib.request, 'urlopen')

    def urlopen(url, data=None, timeout=None, **k):
        t = current()
        if t is not None:
            return t.sim.net.urlopen(url, data, timeout, **k)
        raise Escape('urlopen outside the simulation')
    urllib.request.urlopen = urlopen

    import socket as _socket
    rcc = save(_socket, 'create_connection')

    def create_connection(*a, **k):
        t = current()
        if t is not None:
            t.sim.op('net.connect', repr(a[:1]))
            raise ConnectionRefusedError(111, 'Connection refused (no such simulated host)')
        return rcc(*a, **k)
    _socket.create_connection = create_connection

    rpopen = save(subprocess, 'Popen')

    class SimPopen(object):
        def __init__(self, sim, args, **k):
            self.args = args
            self.returncode = None
            self._r = sim.spawner(args, k) if sim.spawner else (127, b'', b'')
            self.pid = 99
            self.stdin = self.stdout = self.stderr = None

        def poll(self):
            return 0

        def wait(self, timeout=None):
            return 0

        def communicate(self, *a, **k):
            return (b'', b'')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def Popen(args, *a, **k):
        t = current()
        if t is not None:
            t.sim.op('spawn', ' '.join(map(str, args)) if not isinstance(args, str) else args)
            f = t.sim.fault('spawn', ('EAGAIN', 'ENOMEM'), args)
            if f:
                import errno
                raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)) + ' (injected)')
            return SimPopen(t.sim, args, **k)
        return rpopen(args, *a, **k)
    subprocess.Popen = Popen

    def run_sub(name):
        rf = save(subprocess, name)

        def f(*a, **k):
            t = current()
            if t is None:
                return rf(*a, **k)
            args = a[0] if a else k['args']
            t.sim.op('spawn', ' '.join(map(str, args)))
            rc, out, err = t.sim.spawner(args, k) if t.sim.spawner else (127, b'', b'')
            if name == 'call':
                return rc
            if name == 'run':
                if k.get('check') and rc:
                    raise subprocess.CalledProcessError(rc, args, out, err)
                return subprocess.CompletedProcess(args, rc, out, err)
            if rc:
                raise subprocess.CalledProcessError(rc, args, out, err)
            return out if name == 'check_output' else 0
        setattr(subprocess, name, f)
    for n in ('check_output', 'check_call', 'call', 'run'):
        run_sub(n)

    rreg, runreg = save(atexit, 'register'), save(atexit, 'unregister')

    def register(fn, *a, **k):
        t = current()
        if t is not None:
            t.proc.atexit.append((fn, a, k))
            return fn
        return rreg(fn, *a, **k)

    def unregister(fn):
        t = current()
        if t is not None:
            t.proc.atexit = [x for x in t.proc.atexit if x[0] != fn]
            return
        return runreg(fn)
    atexit.register, atexit.unregister = register, unregister

    rwarn = save(warnings, 'warn')

    def warn(message, category=None, stacklevel=1, *a, **k):
        t = current()
        if t is not None:
            t.proc.warnings.append((getattr(category, '__name__', 'UserWarning'), str(message)))
            sw = t.proc.data.get('showwarning')
            if sw is not None:
                sw(message, category or UserWarning, '<sim>', 1)
            return
        return rwarn(message, category, stacklevel + 1, *a, **k)
    warnings.warn = warn

    # ---- stdout ----------------------------------------------------------
    class Out(object):
        def __init__(self, realf, name):
            self._r, self._n = realf, name

        def write(self, s):
            t = current()
            if t is not None:
                if t.killed or not t.proc.alive:
                    raise core.SimKill()
                t.sim.op('stdout', repr(s) if t.proc.data.get('log_out') else '')
                t.proc.stdout.append((self._n, t.name, s))
                return len(s)
            return self._r.write(s)

        def flush(self):
            t = current()
            if t is not None:
                t.sim.op('stdout.flush')
                return
            return self._r.flush()

        def isatty(self):
            return False

        def __getattr__(self, n):
            return getattr(self._r, n)
    sys.stdout = Out(sys.stdout, 'out')
    sys.stderr = Out(sys.stderr, 'err')
    try:
        sys.__stdin__.isatty()
    except Exception:
        pass
    sys.__stdin__ = Out(sys.__stdin__, 'in')

    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_rmtree_unsafe'):
        try:
            shutil.rmtree.avoids_symlink_attacks = False
        except Exception:
            pass

    # NamedTemporaryFile names
    class Names(object):
        def __iter__(self):
            return self

        def __next__(self):
            t = current()
            if t is not None:
                s = t.sim
                s._tmpn = getattr(s, '_tmpn', 0) + 1
                return 'sim%05d' % s._tmpn
            import random
            return ''.join(random.choices('abcdefgh0123456789', k=8))
    tempfile._name_sequence = Names()
    rgt = save(tempfile, 'gettempdir')

    def gettempdir():
        if current() is not None:
            return V.PREFIX + '/tmp'
        return rgt()
    tempfile.gettempdir = gettempdir
    # tempfile's own helpers call _gettempdir
    if hasattr(tempfile, '_gettempdir'):
        rg2 = tempfile._gettempdir

        def _gettempdir():
            if current() is not None:
                return V.PREFIX + '/tmp'
            return rg2()
        tempfile._gettempdir = _gettempdir

    os.environ['LSLCONFIGDIR'] = V.PREFIX + '/home/.lsl'
    os.environ['HOME'] = V.PREFIX + '/home'
