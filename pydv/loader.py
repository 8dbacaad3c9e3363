"""Mechanical extraction: every module of the package is parsed from the working tree's current
source and executed as is, with its imports of numerical libraries bound to their contracts."""
import ast
import os
import sys
import types
from . import models

REPO = os.environ.get('VERIF_REPO', '/repo')


class Quotients(ast.NodeTransformer):
    """x / y becomes a call, so that quotients of plain numbers can be kept exact."""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__vdiv__', ast.Load()), n), [n.left, n.right], []), n)
        return n


class Reports(ast.NodeTransformer):
    """A loop whose body only prints is skipped when the collection is symbolic."""

    def visit_For(self, n):
        self.generic_visit(n)
        if not n.orelse and all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
                                and s.value.func.id == 'print' for s in n.body):
            n.iter = ast.copy_location(ast.Call(ast.copy_location(ast.Name('__vreport__', ast.Load()), n), [n.iter], []), n)
        return n


class Loader:
    def __init__(self, repo=None, overrides=None, extra_models=None, transforms=None, safe=()):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = overrides or {}      # {module: {name: replacement}} contracts replacing callees
        self.models = dict(models.MODELS)
        self.models.update(extra_models or {})
        self.transforms = transforms or {}
        self.builtins = models.make_builtins(self._import)

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        if os.path.basename(path) == '__init__.py':
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if '.' in name:
            self.load(name.rpartition('.')[0])
        if not os.path.exists(path):
            del self.mods[name]
            raise ModuleNotFoundError(name)
        src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            tr = self.transforms.get(name)
            if tr is not None:
                tree = ast.fix_missing_locations(tr(tree))
            tree = ast.fix_missing_locations(Reports().visit(Quotients().visit(tree)))
            code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        for k, v in self.overrides.get(name, {}).items():
            if k in m.__dict__:
                m.__dict__[k] = v(m.__dict__[k]) if getattr(v, '__wrap_contract__', False) else v
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__', '')
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'metcalcpy' or name.startswith('metcalcpy.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load('metcalcpy')
        if name in self.models:
            return self.models[name]
        root = name.split('.')[0]
        if root in self.models and not fromlist:
            return self.models[root]
        m = __import__(name, globals, locals, fromlist, 0)
        if root in ('scipy', 'xarray', 'metpy', 'statsmodels', 'pint'):
            return models.Guard(m, root if not fromlist else name)
        return m
