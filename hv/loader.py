"""Loads hyvr from a working tree (REPO, default /repo) for concrete execution.

`import hyvr` itself does not work at the pinned commit (the compiled trough/channel
extensions are missing), so `hyvr` is a bare namespace pointing at the tree; .py modules
load as they are, and modules that only exist as .pyx load through hv.decython."""
import ast
import importlib.abc
import importlib.util
import math
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('HV_REPO', '/repo')


def _cdiv(a, b):
    """division with C semantics (cdivision(True)): no exception for zero"""
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)


def _coerce(f, names, cdiv):
    """variables of C floating point type hold C doubles (Python floats), not numpy scalars"""
    call = lambda v: ast.Call(ast.Name('float', ast.Load()), [v], [])

    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            self.generic_visit(n)
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
                n.value = call(n.value)
            return n

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and n.target.id in names:
                n.value = call(n.value)
            return n
    T().visit(f)
    if cdiv:
        class V(ast.NodeTransformer):
            def visit_BinOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Div):
                    return ast.copy_location(ast.Call(ast.Name('_hv_cdiv', ast.Load()), [n.left, n.right], []), n)
                return n
        V().visit(f)
    pre = [ast.Assign([ast.Name(a.arg, ast.Store())], call(ast.Name(a.arg, ast.Load())))
           for a in f.args.args if a.arg in names]
    k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    f.body[k:k] = pre


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if not name.startswith('hyvr.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) or os.path.exists(base + '.py'):
            return None
        if os.path.exists(base + '.pyx'):
            return importlib.util.spec_from_loader(name, self, origin=base + '.pyx')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from hv.decython import decython
        fn = module.__spec__.origin
        ct = {'cdivision': set()}
        src, _ = decython(open(fn).read(), ct)
        module.__file__ = fn
        tree = ast.parse(src)
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef) and ct.get(f.lineno) is not None:
                _coerce(f, ct[f.lineno], f.name in ct['cdivision'])
        module.__dict__['_hv_cdiv'] = _cdiv
        exec(compile(ast.fix_missing_locations(tree), fn, 'exec'), module.__dict__)


def install():
    if 'hyvr' in sys.modules:
        return sys.modules['hyvr']
    m = types.ModuleType('hyvr')
    m.__path__ = [os.path.join(REPO, 'hyvr')]
    sys.modules['hyvr'] = m
    sys.meta_path.insert(0, _Finder())
    return m


def load(name):
    install()
    import importlib
    return importlib.import_module(name)
