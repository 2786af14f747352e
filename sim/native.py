"""
Code under test that runs for real (compiled extensions, numpy pipelines).

build()      compiles extensions of /repo's working tree, out of tree, through /repo/setup.py itself.
activate()   makes `import lsl...` in this process use /repo's Python sources and those extensions,
             with a scratch configuration directory and telemetry off.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types

from . import core

DRIVER = r'''
import os, runpy, sys, setuptools
names = set(sys.argv[1].split(','))
dest, temp = sys.argv[2], sys.argv[3]
xc = os.environ.get('SIM_XCFLAGS', '').split()
xl = os.environ.get('SIM_XLDFLAGS', '').split()
real = setuptools.setup
def setup(**kw):
    ext = [e for e in kw.get('ext_modules', []) if e.name in names or e.name.split('.')[-1] in names]
    missing = names - set(e.name for e in ext) - set(e.name.split('.')[-1] for e in ext)
    if missing:
        raise SystemExit('extensions not found in setup.py: %s' % sorted(missing))
    for e in ext:
        e.extra_compile_args = list(e.extra_compile_args) + xc
        e.extra_link_args = list(e.extra_link_args) + xl
    kw['ext_modules'] = ext
    kw['packages'] = []
    kw['scripts'] = []
    return real(**kw)
setuptools.setup = setup
sys.argv = ['setup.py', '-q', 'build_ext', '--force', '-j8', '--build-lib', dest, '--build-temp', temp]
sys.path.insert(0, os.getcwd())
runpy.run_path('setup.py', run_name='__main__')
'''


class BuildError(Exception):
    pass


def build(names, dest, cflags='', ldflags='', env=None):
    """Compile the named extensions (e.g. ['reader._gofast']) into dest."""
    os.makedirs(dest, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='lslsim-build-')
    try:
        drv = os.path.join(tmp, 'driver.py')
        with open(drv, 'w') as fh:
            fh.write(DRIVER)
        e = {k: v for k, v in os.environ.items() if k not in ('CCACHE_DIR', 'LD_PRELOAD', 'PYTHONMALLOC')}
        e.update(SIM_XCFLAGS=cflags, SIM_XLDFLAGS=ldflags, PYTHONDONTWRITEBYTECODE='1', HOME=tmp)
        e.update(env or {})
        p = subprocess.run([sys.executable, '-W', 'ignore', drv, ','.join(names), dest, os.path.join(tmp, 't')],
                           cwd=core.REPO, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError(p.stdout.decode('utf-8', 'replace')[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, libdir, points=()):
        self.libdir = libdir
        self.points = tuple(points)

    def find_spec(self, name, path=None, target=None):
        if name == 'lsl.version':
            return importlib.util.spec_from_loader(name, _Version())
        if not name.startswith('lsl.'):
            return None
        parts = name.split('.')
        if name.startswith(self.points) and self.points:
            for p, pkg in ((os.path.join(core.REPO, *parts) + '.py', None),
                           (os.path.join(core.REPO, *parts, '__init__.py'), [os.path.join(core.REPO, *parts)])):
                if os.path.isfile(p):
                    return importlib.util.spec_from_file_location(name, p, loader=_Instrumented(name, p),
                                                                  submodule_search_locations=pkg)
        if name.rsplit('.', 1)[1].startswith('_'):
            d = os.path.join(self.libdir, *parts[:-1])
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.split('.')[0] == parts[-1] and f.endswith('.so'):
                        p = os.path.join(d, f)
                        return importlib.util.spec_from_file_location(
                            name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


class _Instrumented(importlib.machinery.SourceFileLoader):
    """modules of /repo with the preemption points of the process simulator"""

    def get_code(self, fullname):
        from . import loader
        return loader._code_for(self.path)

    def exec_module(self, module):
        # no preemption while the import lock is held
        me = core._real_get_ident()
        t = core._TASKS.pop(me, None)
        try:
            importlib.machinery.SourceFileLoader.exec_module(self, module)
        finally:
            if t is not None:
                core._TASKS[me] = t


class _Version(importlib.abc.Loader):
    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, m):
        m.version = m.full_version = m.short_version = '0.0.sim'


_ACTIVE = []


def activate(libdir, points=()):
    """Real imports of lsl from /repo in this process; modules under the `points` prefixes get preemption points."""
    if _ACTIVE:
        return
    if points:
        import builtins
        from . import loader
        builtins.__sim_s__, builtins.__sim_y__ = loader._sim_s, loader._sim_y
    d = tempfile.mkdtemp(prefix='lslsim-cfg-', dir=os.environ.get('SIM_SCRATCH') or None)
    with open(os.path.join(d, 'lsl.cfg'), 'w') as fh:
        fh.write('# LSL Configuration File\n# LSL Version: 0.0.sim\n[ telemetry ]\nenabled = False\n')
    os.environ['LSLCONFIGDIR'] = d
    os.environ['HOME'] = d
    _ACTIVE.append(d)
    import atexit
    atexit.register(shutil.rmtree, d, True)
    sys.meta_path.insert(0, _Finder(libdir, points))
    sys.path.insert(0, core.REPO)
    import logging
    from lsl.logger import LSL_LOGGER
    LSL_LOGGER.setLevel(logging.CRITICAL + 1)


def libdir_for(key, names, cflags='', ldflags='', env=None):
    """Build directory shared by the worker processes of one check run."""
    root = os.environ.get('SIM_LIB_' + key)
    if root and os.path.isdir(root):
        return root
    base = os.environ.get('SIM_SCRATCH') or tempfile.mkdtemp(prefix='lslsim-lib-')
    root = os.path.join(base, 'lib-' + key)
    build(names, root, cflags, ldflags, env)
    os.environ['SIM_LIB_' + key] = root
    return root


def gil_object(base):
    """the object file that turns the GIL handling of an extension into preemption points, and the link flags for it"""
    import sysconfig
    o = os.path.join(base, 'simgil.o')
    if not os.path.exists(o):
        p = subprocess.run(['gcc', '-O1', '-fPIC', '-I', sysconfig.get_paths()['include'], '-c',
                            os.path.join(os.path.dirname(os.path.abspath(__file__)), 'simgil.c'), '-o', o + '.tmp'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError(p.stdout.decode('utf-8', 'replace'))
        os.rename(o + '.tmp', o)
    return '%s -Wl,--wrap=PyEval_SaveThread -Wl,--wrap=PyEval_RestoreThread' % o


def gil_hook(module, fn):
    import ctypes
    lib = ctypes.PyDLL(module.__file__)
    lib.simgil_set.argtypes = [ctypes.py_object]
    lib.simgil_set.restype = None
    lib.simgil_set(fn)
