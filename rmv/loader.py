"""Loads the real source files of /repo/redmapper into private modules whose
imports of numpy & co. resolve to the verifier's shims.  The text executed is
the text in the repository; nothing is rewritten except what `transform` of a
contract asks for (recorded in the evidence)."""
import builtins
import os
import types
import z3
from . import core, arr, npshim
from .core import SInt, SFloat, SBool, SVal, Unsupported, mki, mkb, fl, zi, isint, ite
from .arr import SArr, SRec, SRow

REPO = os.environ.get('RMV_REPO', '/repo')

_real_isinstance = builtins.isinstance


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return _real_isinstance(o, (builtins.int, SInt))

    def __call__(cls, x=0, *a):
        if _real_isinstance(x, SArr):
            x = x.item()
        if _real_isinstance(x, SVal):
            if _real_isinstance(x, SFloat) and not (x.fin() is True):
                if core.CTX.decide(x.nan):
                    raise ValueError('cannot convert float NaN to integer')
                if core.CTX.decide(core.Or(x.pinf, x.ninf)):
                    raise OverflowError('cannot convert float infinity to integer')
            return core.trunc_int(x)
        return builtins.int(x, *a)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(o, builtins.int)


class SymInt(metaclass=_IntMeta):
    __name__ = 'int'


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return _real_isinstance(o, (builtins.float, SFloat))

    def __call__(cls, x=0.0):
        if _real_isinstance(x, SArr):
            x = x.item()
        if _real_isinstance(x, SVal):
            return fl(x)
        return builtins.float(x)


class SymFloat(metaclass=_FloatMeta):
    __name__ = 'float'


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return _real_isinstance(o, (builtins.bool, SBool))

    def __call__(cls, x=False):
        if _real_isinstance(x, SBool):
            return x
        if _real_isinstance(x, SVal):
            return mkb(x != 0)
        return builtins.bool(x)


class SymBool(metaclass=_BoolMeta):
    __name__ = 'bool'


def sym_len(x):
    f = getattr(type(x), 'symlen', None)
    if f is not None:
        return f(x)
    if hasattr(type(x), '__len__') and not _real_isinstance(x, (list, tuple, dict, str, set)):
        return type(x).__len__.__get__(x)() if True else None
    return builtins.len(x)


def sym_range(*a):
    a = [x.item() if _real_isinstance(x, SArr) else x for x in a]
    if all(_real_isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    h = getattr(core.CTX, 'range_hook', None)
    if h is not None:
        return h(*a)
    return SymRange(*a)


class SymRange(object):
    def __init__(self, *a):
        if len(a) == 1:
            self.lo, self.hi, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.lo, self.hi, self.step = a[0], a[1], 1
        else:
            self.lo, self.hi, self.step = a
        if not _real_isinstance(self.step, int) or self.step <= 0:
            raise Unsupported('range step')

    def __iter__(self):
        """unrolls while the bound is not reached (forks on each test)"""
        i = self.lo
        k = 0
        while True:
            if not bool(mkb(i < self.hi) if not _real_isinstance(i < self.hi, bool) else i < self.hi):
                return
            yield i
            i = i + self.step
            k += 1
            if k > 24:
                raise Unsupported('loop over a symbolic range without an invariant')


def sym_abs(x):
    return x.__abs__() if _real_isinstance(x, (SVal, SArr)) else builtins.abs(x)


def _m(which):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(_real_isinstance(x, SVal) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = (x > r) if which == 'max' else (x < r)
                r = ite(core.zb(c if _real_isinstance(c, SBool) else mkb(c)), x, r)
            return r
        return getattr(builtins, which)(*a, **k)
    return f


def sym_sum(xs, start=0):
    if _real_isinstance(xs, SArr):
        return arr.red_sum(xs)
    r = start
    for x in xs:
        r = r + x
    return r


def sym_round(x, *a):
    if _real_isinstance(x, SVal):
        return core.trunc_int(core.f_round(x))
    return builtins.round(x, *a)


def sym_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


def sym_print(*a, **k):
    pass


def sym_isinstance(o, t):
    if _real_isinstance(t, tuple):
        return any(sym_isinstance(o, x) for x in t)
    if t is builtins.int:
        t = SymInt
    if t is builtins.float:
        t = SymFloat
    return _real_isinstance(o, t)


class StubMod(types.ModuleType):
    """an external module: calling into it is outside the subset unless the
    contract supplies a specification for the function"""
    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return npshim._Missing(self.__name__ + '.' + n)


EXTERNAL = {'fitsio', 'esutil', 'healsparse', 'hpgeom', 'scipy', 'matplotlib', 'astropy', 'parsl',
            'multiprocessing', 'healpy', 'yaml', 'emcee', 'pylab', 'skyproj', 'logging', 'glob', 'tempfile',
            'pkg_resources', 'subprocess', 'shutil', 'resource', 'gc'}
PASS = {'os', 'sys', 're', 'copy', 'time', 'types', 'copyreg', 'math', 'itertools', 'collections', 'functools',
        'abc', 'operator', 'string', 'datetime', 'enum', 'typing', 'contextlib', '__future__', 'argparse', 'errno', 'warnings'}

_code_cache = {}


class _ModProxy(object):
    """os/time/... with replaceable attributes"""
    def __init__(self, mod, over):
        self.__dict__['_m'] = mod
        self.__dict__['_o'] = over

    def __getattr__(self, n):
        o = self.__dict__['_o']
        if n in o:
            return o[n]
        return getattr(self.__dict__['_m'], n)


class Loader(object):
    """private import system for one path"""
    def __init__(self, repo=None, overrides=None, transform=None):
        self.repo = repo or REPO
        self.mods = {}
        self.over = dict(overrides or {})    # full dotted module name -> object
        self.transform = transform or {}
        self.used = {}
        b = dict(builtins.__dict__)
        b.update({'__import__': self._import, 'len': sym_len, 'range': sym_range, 'abs': sym_abs,
                  'int': SymInt, 'float': SymFloat, 'bool': SymBool, 'isinstance': sym_isinstance,
                  'max': _m('max'), 'min': _m('min'), 'sum': sym_sum, 'round': sym_round, 'print': sym_print})
        self.builtins = b

    def external(self, name):
        if name in self.over:
            return self.over[name]
        top = name.split('.')[0]
        if top in ('copy_reg', 'cPickle', 'ConfigParser'):
            raise ImportError(name)
        if top == 'copyreg':
            m = StubMod(name)
            object.__setattr__(m, 'pickle', lambda *a, **k: None)
            return m
        if top == 'numpy':
            if name == 'numpy':
                return npshim.np
            return npshim._Missing(name)
        if top in PASS:
            m = __import__(name)
            if name != top and '.' in name:
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            return m
        key = 'ext:' + name
        if key not in self.mods:
            self.mods[key] = StubMod(name)
            if '.' in name:
                par = self.external(name.rsplit('.', 1)[0])
                try:
                    object.__setattr__(par, name.rsplit('.', 1)[1], self.mods[key])
                except Exception:
                    pass
        return self.mods[key]

    def path_of(self, dotted):
        p = os.path.join(self.repo, *dotted.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, dotted):
        if dotted in self.over:
            return self.over[dotted]
        if dotted in self.mods:
            return self.mods[dotted]
        path, ispkg = self.path_of(dotted)
        if path is None and dotted == 'redmapper._version':     # written by the build, not part of the source
            m = self.mods[dotted] = types.ModuleType(dotted)
            m.__version__ = '0.0.0'
            return m
        if path is None:
            raise ImportError('No module named %s' % dotted)
        par = dotted.rsplit('.', 1)[0]
        if par != dotted and par != 'redmapper' and par not in self.mods:
            self.load(par)
            if dotted in self.mods:
                return self.mods[dotted]
        m = types.ModuleType(dotted)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__file__'] = path
        m.__dict__['__package__'] = dotted if ispkg else dotted.rsplit('.', 1)[0]
        if ispkg:
            m.__dict__['__path__'] = [os.path.dirname(path)]
        self.mods[dotted] = m
        if dotted == 'redmapper':
            return m          # the namespace package only; submodules on demand
        tr = self.transform.get(dotted)
        ck = (path, id(tr) if tr else None)
        if ck not in _code_cache:
            src = open(path).read()
            if tr:
                src = tr(src)
            _code_cache[ck] = compile(src, path, 'exec', dont_inherit=True)
        self.used[dotted] = path
        exec(_code_cache[ck], m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            full = base + ('.' + name if name else '')
            return self._from(full, fromlist, name)
        if name.split('.')[0] == 'redmapper':
            if fromlist:
                return self._from(name, fromlist, name)
            self.load(name)
            return self.load('redmapper')
        if fromlist:
            m = self.external(name)
            for f in fromlist:
                if isinstance(m, StubMod) and (name + '.' + f) in self.over:
                    object.__setattr__(m, f, self.over[name + '.' + f])
            return m
        m = self.external(name)
        if '.' in name:
            return self.external(name.split('.')[0])
        return m

    def _from(self, full, fromlist, name):
        m = self.load(full)
        for f in fromlist or ():
            if f == '*':
                continue
            if not hasattr(m, f):
                sub = full + '.' + f
                if sub in self.over:
                    setattr(m, f, self.over[sub])
                elif self.path_of(sub)[0] is not None:
                    setattr(m, f, self.load(sub))
                elif f.endswith('_pywrap'):
                    setattr(m, f, StubMod(sub))       # compiled extension modules
        return m
