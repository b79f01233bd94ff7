"""Stand-ins of contracts take their arguments the way the real functions do.

A stand-in written `lambda mag, z: ...` for a method `f(self, mag, zbin=None)` must not care whether the code calls
f(m, zbin=3), f(mag=m, zbin=3) or f(m, 3).  The contract modules are loaded with every stand-in function wrapped: a call
that does not fit the stand-in's own parameters is rebound through the signature the real function of that name has in
the current source.  A call that fits neither is outside the contract (never a violation)."""
import ast
import glob
import importlib.abc
import importlib.machinery
import inspect
import os
import sys
import types

_SIGS = None
NOVAL = object()


def sigs():
    """name -> list of parameter lists [(name, default or NOVAL)] in the current source"""
    global _SIGS
    if _SIGS is None:
        _SIGS = {}
        root = os.environ.get('RMV_REPO') or os.environ.get('RMV_SCRATCH') or '/repo'
        for f in sorted(glob.glob(os.path.join(root, 'redmapper', '**', '*.py'), recursive=True)):
            try:
                t = ast.parse(open(f).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef) and m.name == '__init__':
                            _add(n.name, m)
                if isinstance(n, ast.FunctionDef):
                    _add(n.name, n)
    return _SIGS


def _add(name, n):
    a = n.args
    if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs:
        return
    d = [NOVAL] * (len(a.args) - len(a.defaults))
    for x in a.defaults:
        try:
            d.append(ast.literal_eval(x))
        except ValueError:
            d.append(NOVAL)
    p = [(x.arg, v) for x, v in zip(a.args, d)]
    if p and p[0][0] in ('self', 'cls'):
        p = p[1:]
    if p not in _SIGS.setdefault(name, []):
        _SIGS[name].append(p)


def rebind(name, sg, skip, a, k):
    """arguments of a call rebound through the real signature so that they fit the stand-in, or None"""
    first, rest = a[:skip], a[skip:]
    for ps in sigs().get(name, []):
        names = [p for p, _ in ps]
        if len(rest) > len(ps) or any(x not in names for x in k) or any(x in names[:len(rest)] for x in k):
            continue
        vals = dict(zip(names, rest))
        vals.update(k)
        last = max([names.index(x) for x in vals] or [-1])
        full = []
        for p, d in ps[:last + 1]:
            v = vals.get(p, d)
            if v is NOVAL:
                full = None
                break
            full.append((p, v))
        if full is None:
            continue
        for npos in range(len(full) + 1):
            pos = [v for _, v in full[:npos]]
            kw = {p: v for p, v in full[npos:] if p in vals}
            try:
                sg.bind(*(tuple(first) + tuple(pos)), **kw)
            except TypeError:
                continue
            return tuple(first) + tuple(pos), kw
    return None


def adapt(name, fn, method=False):
    if isinstance(fn, types.MethodType) and isinstance(fn.__func__, types.FunctionType) and fn.__func__.__module__.startswith('contracts'):
        f0, obj = getattr(fn.__func__, '_adapted', fn.__func__), fn.__self__
        w = adapt(name, f0, True)
        return types.MethodType(w, obj)
    if not isinstance(fn, types.FunctionType) or not fn.__module__.startswith('contracts') or name.startswith('__') and name != '__init__':
        return fn
    if getattr(fn, '_adapted', None):
        fn = fn._adapted
    sg = inspect.signature(fn)
    skip = 1 if method or next(iter(sg.parameters), None) in ('self', 'cls') else 0

    def w(*a, **k):
        try:
            sg.bind(*a, **k)
        except TypeError as e:
            r = rebind(name, sg, skip, a, k)
            if r is None:
                from . import core
                from .run import StubMissing
                if core.CTX is not None:
                    raise core.Unsupported('call of %s: %s' % (name, e))
                raise StubMissing('call of %s: %s' % (name, e))
            a, k = r
        return fn(*a, **k)
    w._adapted = fn
    w.__name__ = fn.__name__
    w.__qualname__ = fn.__qualname__
    w.__module__ = fn.__module__
    w.__doc__ = fn.__doc__
    return w


class _T(ast.NodeTransformer):
    def _w(self, name, v):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('classmethod', 'staticmethod') and len(v.args) == 1:
            deco = ast.Call(func=ast.Name(id='_adaptm_' if v.func.id == 'classmethod' else '_adapts_', ctx=ast.Load()), args=[ast.Constant(value=name)], keywords=[])
            v.args[0] = ast.Call(func=deco, args=[v.args[0]], keywords=[])
            return v
        if isinstance(v, (ast.Lambda, ast.Name, ast.Attribute)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'written':
            return ast.copy_location(ast.Call(func=ast.Name(id='_adapt_', ctx=ast.Load()), args=[ast.Constant(value=name), v], keywords=[]), v)
        return v

    def visit_Call(self, n):
        self.generic_visit(n)
        for k in n.keywords:
            if k.arg:
                k.value = self._w(k.arg, k.value)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'patch' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            n.args[2] = self._w(n.args[1].value, n.args[2])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        n.values = [self._w(k.value, v) if isinstance(k, ast.Constant) and isinstance(k.value, str) else v for k, v in zip(n.keys, n.values)]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if isinstance(t, ast.Attribute):
            n.value = self._w(t.attr, n.value)
        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) and ast.unparse(t.value).endswith('__dict__'):
            n.value = self._w(t.slice.value, n.value)
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        for m in n.body:
            if isinstance(m, ast.FunctionDef) and not m.decorator_list and not m.name.startswith('__'):
                m.decorator_list.append(ast.copy_location(ast.Call(func=ast.Name(id='_adaptm_', ctx=ast.Load()), args=[ast.Constant(value=m.name)], keywords=[]), m))
            elif isinstance(m, ast.FunctionDef) and [ast.unparse(d) for d in m.decorator_list] == ['staticmethod']:
                m.decorator_list.append(ast.copy_location(ast.Call(func=ast.Name(id='_adapts_', ctx=ast.Load()), args=[ast.Constant(value=m.name)], keywords=[]), m))
            elif isinstance(m, ast.FunctionDef) and [ast.unparse(d) for d in m.decorator_list] == ['classmethod']:
                m.decorator_list.append(ast.copy_location(ast.Call(func=ast.Name(id='_adaptm_', ctx=ast.Load()), args=[ast.Constant(value=m.name)], keywords=[]), m))
        return n


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        t = _T().visit(ast.parse(data, path))
        ast.fix_missing_locations(t)
        return compile(t, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):      # never from or to a bytecode cache
        return self.source_to_code(self.get_data(self.path), self.path)

    def exec_module(self, module):
        module._adapt_ = adapt
        module._adaptm_ = lambda name: (lambda f: adapt(name, f, True))
        module._adapts_ = lambda name: (lambda f: adapt(name, f, False))
        importlib.machinery.SourceFileLoader.exec_module(self, module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not fullname.startswith('contracts.'):
            return None
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', fullname.split('.', 1)[1] + '.py')
        if not os.path.isfile(f):
            return None
        import importlib.util
        return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))


def install():
    if not any(isinstance(x, _Finder) for x in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
