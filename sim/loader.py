"""
Per-process module loader: every simulated process gets its own copy of the lsl
modules (executed straight from /repo's working tree) and of the few stdlib
modules that hold per-process mutable state or locks.
"""
import ast
import builtins
import importlib
import importlib.util
import os
import sys
import types

from . import core

_CODE = {}
FRESH = {'queue', 'logging', 'logging.handlers'}
_THREADING = core.make_threading_facade()
PLAIN = set()          # files of /repo that get no preemption points (no I/O, threads or shared state)


SHARED = set()         # of those, the ones that all processes can share
_SHARED = {}


def plain(*names, shared=()):
    SHARED.update(shared)
    for n in names + tuple(shared):
        PLAIN.add(os.path.join(core.REPO, *n.split('.')) + '.py')


def _code_for(path):
    c = _CODE.get(path)
    if c is None:
        with core_open(path, 'rb') as fh:
            src = fh.read()
        if path.startswith(core.REPO) and path not in PLAIN:
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(_Instrument().visit(tree))
            c = compile(tree, path, 'exec', dont_inherit=True)
        else:
            c = compile(src, path, 'exec', dont_inherit=True)
        _CODE[path] = c
    return c


class _Instrument(ast.NodeTransformer):
    """Adds a preemption point before every statement and after every attribute load,
    subscript and call (so also between the read and the write of `a.b += v`).
    The points are behaviour-neutral: `__sim_y__(x)` returns x."""

    def _point(self, node):
        return ast.copy_location(ast.Expr(ast.Call(ast.Name('__sim_s__', ast.Load()), [], [])), node)

    def _body(self, stmts, doc=False):
        out = []
        for k, s in enumerate(stmts):
            s2 = self.visit(s)
            if doc and k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if isinstance(s, ast.ImportFrom) and s.module == '__future__':
                out.append(s)
                continue
            out.append(self._point(s))
            out.append(s2)
        return out

    def generic_visit(self, node):
        for name, val in ast.iter_fields(node):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                doc = isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))
                setattr(node, name, self._body(val, doc))
            elif isinstance(val, list):
                setattr(node, name, [self.visit(v) if isinstance(v, ast.AST) else v for v in val])
            elif isinstance(val, ast.AST):
                setattr(node, name, self.visit(val))
        return node

    def _wrap(self, node):
        return ast.copy_location(ast.Call(ast.Name('__sim_y__', ast.Load()), [node], []), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            node.func.value = self.visit(node.func.value)
        elif not isinstance(node.func, ast.Name):
            node.func = self.visit(node.func)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return self._wrap(node)

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        return self._wrap(node) if isinstance(node.ctx, ast.Load) else node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return self._wrap(node) if isinstance(node.ctx, ast.Load) else node

    def visit_AugAssign(self, node):
        # yield between the read of the target and the write of the result
        node.value = self._wrap(self.visit(node.value))
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node

    def visit_MatchClass(self, node):
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit_arguments(node.args)
        node.body = self._body(node.body, True)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


def _sim_s():
    t = core._TASKS.get(core._real_get_ident())
    if t is not None:
        t.sim._point(t)


def _sim_y(x):
    t = core._TASKS.get(core._real_get_ident())
    if t is not None:
        t.sim._point(t)
    return x


core_open = open


class ProcLoader(object):
    def __init__(self, proc, root=None):
        self.proc = proc
        self.root = root or core.REPO
        self.mods = {}
        self.pre = {}             # name -> callable(module) run before exec
        self.post = {}
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['__sim_s__'] = _sim_s
        b['__sim_y__'] = _sim_y
        self.builtins = b
        self.facades = {'threading': _THREADING}

    def _find(self, name):
        if name.split('.')[0] == 'lsl':
            if name == 'lsl.version':
                return None, 'version'
            base = os.path.join(self.root, *name.split('.'))
            if _real_isfile(base + '/__init__.py'):
                return base + '/__init__.py', True
            if _real_isfile(base + '.py'):
                return base + '.py', False
            return None, False
        spec = importlib.util.find_spec(name)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return None, False
        return spec.origin, bool(spec.submodule_search_locations)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        if name in self.mods:
            return self.mods[name]
        if name in _SHARED:
            m = self.mods[name] = _SHARED[name]
            setattr(parent, name.rsplit('.', 1)[1], m)
            return m
        path, pkg = self._find(name)
        if path is None:
            if pkg == 'version':
                m = types.ModuleType(name)
                m.version = m.full_version = m.short_version = '0.0.sim'
                self.mods[name] = m
                if parent is not None:
                    setattr(parent, name.rsplit('.', 1)[1], m)
                return m
            if name.split('.')[0] == 'lsl':
                # compiled extension: shared, loaded for real
                m = importlib.import_module(name) if name in sys.modules or name in EXT else None
                if m is None:
                    raise ModuleNotFoundError("No module named %r" % name, name=name)
                self.mods[name] = m
                if parent is not None:
                    setattr(parent, name.rsplit('.', 1)[1], m)
                return m
            return importlib.import_module(name)
        m = types.ModuleType(name)
        m.__file__ = path
        bare = name == 'lsl' and getattr(self.proc, 'bare', True)
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if name in self.pre:
            self.pre[name](m)
        try:
            if not bare:
                exec(_code_for(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if name in SHARED:
            _SHARED[name] = m
        if name in self.post:
            self.post[name](m)
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _mine(self, name):
        top = name.split('.')[0]
        return top == 'lsl' or name in FRESH or top in FRESH

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name in self.facades:
            return self.facades[name]
        if not self._mine(name):
            return _real_import(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.load(name + '.' + f)
                    except ModuleNotFoundError as e:
                        if e.name != name + '.' + f:
                            raise
            return m
        return self.load(name.split('.')[0])


_real_import = builtins.__import__
_real_isfile = os.path.isfile
EXT = set()
