"""numpy as the verifier sees it: every function here is an assumed contract
on the dependency (listed in the evidence)."""
import math
import z3
from . import core, arr
from .core import (SVal, SBool, SInt, SFloat, Unsupported, And, Or, Not, Implies, ite, mkb, mki, zi, zb, fl, isint)
from .arr import SArr, SRec, SRow, DT, asarr, ew1, ew2, ix, zx, inrange


class _Dt(object):
    """np.float64 and friends: dtype names that also convert"""
    def __init__(self, name, k):
        self.__name__ = name
        self.k = k

    def __call__(self, x=0):
        if isinstance(x, SArr) and x.ndim > 0:
            return x.astype(self)
        return core.cast(x, self)

    def __eq__(self, o):
        return isinstance(o, _Dt) and o.__name__ == self.__name__

    def __hash__(self):
        return hash(self.__name__)

    def __instancecheck__(self, o):
        return False


class _DtMeta(type):
    def __instancecheck__(cls, o):
        if cls.k == 'f':
            return isinstance(o, (SFloat, float))
        if cls.k == 'i':
            return isinstance(o, SInt)
        if cls.k == 'b':
            return isinstance(o, SBool)
        return False

    def __subclasscheck__(cls, o):
        return cls is o or (cls.__name__ in ('floating', 'integer', 'float_number') and getattr(o, 'k', None) in ('f', cls.k if cls.__name__ != 'float_number' else 'i')
                            and (cls.__name__ != 'integer' or o.k == 'i'))

    def __call__(cls, x=0):
        if isinstance(x, SArr) and x.ndim > 0:
            return x.astype(cls)
        if isinstance(x, (list, tuple)):
            return asarr(x, cls)
        return core.cast(x, cls)


def _mkdt(name, k):
    return _DtMeta(name, (object,), {'k': k})


class _NDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SArr, SRec))


class ndarray(metaclass=_NDMeta):
    @staticmethod
    def item(a, *k):
        return a.item(*k)


class _recmeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, SRec)


class recarray(metaclass=_recmeta):
    pass


class _voidmeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, SRow)


class void(metaclass=_voidmeta):
    pass


class NP(object):
    __name__ = 'numpy'
    pi = math.pi
    e = math.e
    inf = math.inf
    Inf = math.inf
    nan = math.nan
    NaN = math.nan
    newaxis = None
    ndarray = ndarray
    recarray = recarray
    void = void
    __version__ = '1.26.4'

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Missing('numpy.' + name)


class _Missing(object):
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __call__(self, *a, **k):
        raise Unsupported(self._n)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return _Missing(self._n + '.' + a)


for _n in ('float64', 'float32', 'float16', 'float_', 'floating', 'double'):
    setattr(NP, _n, _mkdt(_n, 'f'))
for _n in ('int64', 'int32', 'int16', 'int8', 'uint64', 'uint32', 'uint16', 'uint8', 'int_', 'integer', 'intp', 'long'):
    setattr(NP, _n, _mkdt(_n, 'i'))
arr.TYPES = {'f8': NP.float64, 'f4': NP.float32, 'i8': NP.int64, 'i4': NP.int32, 'i2': NP.int16}
NP.bool_ = _mkdt('bool_', 'b')
NP.number = _mkdt('float_number', 'f')


def _reg(*names):
    def d(f):
        for n in names or (f.__name__.rstrip('_'),):
            setattr(NP, n, staticmethod(f))
        return f
    return d


def _isrecdt(dt):
    return isinstance(dt, list) or (isinstance(dt, DT) and dt.kind == 'V')


@_reg('dtype')
def dtype_(x, **k):
    return DT(x)


def _fill(shape, v, dtype):
    if dtype is None:
        dtype = 'f8'
    if _isrecdt(dtype):
        sh = arr.shape_of(shape)
        if len(sh) != 1:
            raise Unsupported('n-d records')
        return SRec(sh[0], DT(dtype))
    k = arr.kind(dtype)
    if k == 'b':
        v = bool(v)
    elif k == 'f':
        v = v if isinstance(v, SVal) else float(v)
    elif k in 'US':
        v = ''
    sh = arr.shape_of(shape)
    return SArr(sh, lambda idx: v, dtype)


@_reg()
def zeros(shape, dtype=None, **k):
    return _fill(shape, 0, dtype)


@_reg()
def ones(shape, dtype=None, **k):
    return _fill(shape, 1, dtype)


@_reg()
def empty(shape, dtype=None, **k):
    # contents unspecified
    if dtype is not None and _isrecdt(dtype):
        return _fill(shape, 0, dtype)
    c = core.CTX
    sh = arr.shape_of(shape)
    F = z3.Function(c.fresh_name('empty'), *([z3.IntSort()] * len(sh) + [z3.RealSort()]))
    kk = arr.kind(dtype or 'f8')
    return SArr(sh, lambda idx: core.cast(SFloat(F(*[zx(i) for i in idx])), dtype or 'f8'), dtype or 'f8')


@_reg()
def full(shape, v, dtype=None, **k):
    if isinstance(v, SArr) and v.ndim == 0:
        v = v.at(())
    if isinstance(v, SArr):
        sh = arr.shape_of(shape)
        out = SArr(sh, lambda idx: 0, dtype or v.dt)
        out[...] = v
        return out
    if dtype is None:
        dtype = {'b': '?', 'i': 'i8', 'f': 'f8', 'U': 'U'}[arr._rk(v)]
    v = core.cast(v, dtype) if not isinstance(v, str) else v
    return SArr(arr.shape_of(shape), lambda idx: v, dtype)


def _shp(a):
    return a._shape if isinstance(a, SArr) else ()


@_reg()
def zeros_like(a, dtype=None, **k):
    if isinstance(a, SRec):
        return SRec(a.n, DT(a.dt))
    if not isinstance(a, SArr):
        a = asarr(a)
    return _fill(a._shape, 0, dtype or a.dt)


@_reg()
def ones_like(a, dtype=None, **k):
    if not isinstance(a, SArr):
        a = asarr(a)
    return _fill(a._shape, 1, dtype or a.dt)


@_reg()
def full_like(a, v, dtype=None, **k):
    if not isinstance(a, SArr):
        a = asarr(a)
    return full(a._shape, v, dtype or a.dt)


@_reg()
def empty_like(a, dtype=None, **k):
    return empty(a._shape, dtype or a.dt)


@_reg()
def arange(*a, dtype=None, **k):
    a = [x.at(()) if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], 1
    else:
        lo, hi, step = a[:3]
    c = core.CTX
    if all(isint(x) for x in (lo, hi, step)):
        if all(isinstance(x, int) for x in (lo, hi, step)):
            r = arr.from_list(list(range(lo, hi, step)), 'i8') if len(range(lo, hi, step)) < 500 else \
                SArr((len(range(lo, hi, step)),), lambda idx: mki(zx(arr.ixadd(lo, arr.ixmul(step, idx[0])))), 'i8')
            n = len(range(lo, hi, step))
        else:
            if not isinstance(step, int) or step <= 0:
                raise Unsupported('arange step')
            d = zi(hi) - zi(lo)
            m = d if step == 1 else (d + (step - 1)) / z3.IntVal(step)
            if not c.known(m >= 0):
                m = z3.If(m < 0, z3.IntVal(0), m)
            n = mki(z3.simplify(m))
            r = SArr((n,), lambda idx: mki(zx(arr.ixadd(ix(zi(lo)), arr.ixmul(step, idx[0])))), 'i8')
        if step == 1:
            zlo = ix(zi(lo))
            r.iset = arr.ISet(lambda i: inrange(arr.ixsub(i, zlo), n), lambda i: arr.ixsub(i, zlo))
        if dtype is not None and arr.kind(dtype) == 'f':
            return r.astype(dtype)
        return r
    lo, hi, step = fl(lo), fl(hi), fl(step)
    n = core.trunc_int(core.f_ceil(core.f_div(core.f_sub(hi, lo), step)))
    if not isinstance(n, int):
        if not c.known(zi(n) >= 0):
            n = mki(z3.If(zi(n) < 0, z3.IntVal(0), zi(n)))
    else:
        n = max(n, 0)
    return SArr((n,), lambda idx: lo + mki(zx(idx[0])) * step, 'f8')


@_reg()
def linspace(a, b, num=50, **k):
    d = (fl(b) - fl(a)) / (num - 1)
    return SArr((num,), lambda idx: fl(a) + mki(zx(idx[0])) * d, 'f8')


@_reg('array')
def array_(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr):
        return x.copy() if dtype is None else x.astype(dtype)
    if isinstance(x, (SRec, SRow)):
        return x.copy()
    return asarr(x, dtype)


@_reg('asarray', 'asanyarray', 'ascontiguousarray')
def asarray_(x, dtype=None, **k):
    return asarr(x, dtype)


@_reg()
def polyval(p, x):
    p = asarr(p)
    if p.ndim != 1 or not isinstance(p._shape[0], int):
        raise Unsupported('polyval of symbolic degree')
    r = 0.0
    for k in range(p._shape[0]):
        r = r * x + p[k]
    return r


@_reg('copy')
def copy_(x, **k):
    return x.copy()


@_reg()
def atleast_1d(x):
    if isinstance(x, SRec):
        return x
    if isinstance(x, SRow):
        i = x.i
        fs = {}
        for nm, a in x.rec.f.items():
            s = a.snap()
            fs[nm] = SArr((1,) + a._shape[1:], lambda idx, s=s: s((i,) + tuple(idx[1:])), a.dt)
        return SRec(1, DT(x.rec.dt), fs)
    a = asarr(x)
    if a.ndim == 0:
        v = a.at(())
        return SArr((1,), lambda idx: v, a.dt)
    return a


@_reg()
def atleast_2d(x):
    a = asarr(x)
    if a.ndim >= 2:
        return a
    return a[None, :] if a.ndim == 1 else a.reshape((1, 1))


@_reg()
def squeeze(a, **k):
    if not isinstance(a, SArr):
        return a
    keep = [d for d, s in enumerate(a._shape) if not (isinstance(s, int) and s == 1)]
    s = a.snap()
    nd = a.ndim

    def f(idx):
        full_ = [0] * nd
        for p, d in enumerate(keep):
            full_[d] = idx[p]
        return s(tuple(full_))
    return SArr([a._shape[d] for d in keep], f, a.dt)


@_reg('where')
def where_(cond, x=None, y=None):
    if x is None and y is None:
        cond = asarr(cond)
        if cond.ndim == 0:
            cond = atleast_1d(cond)
        return (arr.where1(cond),)
    r = ew2(cond, x, lambda a, b: (a, b)) if False else None
    cond, x, y = [asarr(v) if isinstance(v, (list, tuple)) else v for v in (cond, x, y)]
    sh = ()
    for v in (cond, x, y):
        if isinstance(v, SArr):
            sh = arr.bcast_shape(sh, v._shape)

    def get(v):
        if isinstance(v, SArr):
            s, vs = v.snap(), v._shape
            return lambda idx: s(arr.bidx(idx, vs, sh))
        return lambda idx: v
    gc, gx, gy = get(cond), get(x), get(y)
    ks = {arr._rk(x), arr._rk(y)}
    dt = 'f8' if 'f' in ks else ('i8' if 'i' in ks else '?')

    def f(idx):
        b = gc(idx)
        b = zb(b) if isinstance(b, (bool, SBool)) else zb(mkb(b != 0))
        return ite(b, gx(idx), gy(idx))
    if not sh:
        return f(())
    return SArr(sh, f, dt)


@_reg('flatnonzero')
def flatnonzero(a):
    return nonzero(a)[0]


@_reg('nonzero')
def nonzero(a):
    a = asarr(a)
    if a.ndim == 0:
        a = atleast_1d(a)
    return (arr.where1(a),)


@_reg('sum', 'nansum')
def sum_(a, axis=None, dtype=None, **k):
    return arr.red_sum(a, axis)


@_reg('prod', 'product')
def prod_(a, axis=None, **k):
    return arr.red_prod(a, axis)


@_reg()
def cumsum(a, axis=None, dtype=None):
    c = core.CTX
    n = a._shape[0]
    src = a.snap()
    if a.ndim != 1:
        raise Unsupported('cumsum n-d')
    if isinstance(n, int) and n <= 60:
        out = []
        r = 0
        for k in range(n):
            r = r + src((k,))
            out.append(r)
        return arr.from_list(out, a.dt if a.dt.kind != 'b' else 'i8')
    isI = a.dt.kind in 'iub'
    F = z3.Function(c.fresh_name('cumsum'), z3.IntSort(), z3.IntSort() if isI else z3.RealSort())
    seen = {}

    def f(idx):
        k = idx[0]
        t = F(zx(k))
        val = (lambda v: zi(v)) if isI else (lambda v: fl(v).v)
        c.fact(Implies(inrange(k, n), t == z3.If(zx(k) == 0, z3.RealVal(0) if not isI else z3.IntVal(0), F(zx(k) - 1)) + val(src((k,)))))
        if nonneg:
            c.fact(Implies(inrange(k, n), t >= 0))
            for (k2, t2) in list(seen.values())[:10]:
                c.fact(Implies(And(inrange(k, n), inrange(k2, n)),
                               And(Implies(zx(k2) <= zx(k), t2 <= t), Implies(zx(k) <= zx(k2), t <= t2))))
            seen[str(k)] = (k, t)
        return mki(t) if isI else SFloat(t)
    nonneg = arr.all_known(a, lambda v: zb(mkb(v >= 0)) if not isinstance(v, (bool, SBool)) else True)
    return SArr((n,), f, 'i8' if isI else 'f8')


def _ext(which):
    def f(a, axis=None, **k):
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        if not isinstance(a, SArr):
            return a
        return arr.red_ext(a, which, axis)
    return f


NP.max = NP.amax = NP.nanmax = staticmethod(_ext('max'))
NP.min = NP.amin = NP.nanmin = staticmethod(_ext('min'))
NP.any = staticmethod(lambda a, axis=None, **k: arr.red_any(a, axis))
NP.all = staticmethod(lambda a, axis=None, **k: arr.red_all(a, axis))
NP.argmin = staticmethod(lambda a, **k: arr.argext(asarr(a), 'min'))
NP.argmax = staticmethod(lambda a, **k: arr.argext(asarr(a), 'max'))
NP.argsort = staticmethod(lambda a, **k: arr.argsort(a))
NP.clip = staticmethod(lambda a, a_min=None, a_max=None, **k: arr.clip(a, a_min, a_max))
NP.searchsorted = staticmethod(lambda b, v, side='left', **k: arr.searchsorted(asarr(b), v, side))


@_reg('sort')
def sort_(a, **k):
    a = asarr(a)
    return a[arr.argsort(a)]


@_reg()
def mean(a, axis=None, **k):
    a = asarr(a)
    s = arr.red_sum(a, axis)
    n = a.size if axis is None else a._shape[axis]
    return ew2(s, n, arr.e_div) if isinstance(s, SArr) else core.f_div(fl(s), fl(n))


NP.nanmean = staticmethod(mean)


@_reg()
def median(a, axis=None, **k):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('median axis')
    c = core.CTX
    key = ('median', id(a.snap()))
    if key in c.memo:
        return c.memo[key][1]
    mx, mn = fl(arr.red_ext(a, 'max')), fl(arr.red_ext(a, 'min'))
    n = a.size
    if isinstance(n, int) and 1 <= n <= 3:      # the median of up to three elements, exactly
        r = a.ravel()
        x = [fl(r[i]) for i in range(n)]
        if all(e.nan is False and e.pinf is False and e.ninf is False for e in x):
            v = [e.v for e in x]
            if n == 1:
                return x[0]
            if n == 2:
                return SFloat((v[0] + v[1]) / 2)
            mn2, mx2 = z3.If(v[0] <= v[1], v[0], v[1]), z3.If(v[0] <= v[1], v[1], v[0])
            return SFloat(z3.If(v[2] <= mn2, mn2, z3.If(v[2] >= mx2, mx2, v[2])))
    t = c.fresh_real('median')
    c.fact(Implies(And(mx.fin(), mn.fin()), z3.And(mn.v <= t, t <= mx.v)))
    out = SFloat(t, Or(mx.nan, mn.nan))
    c.memo[key] = (a.snap(), out)
    return out


def _un(name, f, rdt='f8'):
    def g(a, *args, **k):
        return ew1(a, f, rdt)
    setattr(NP, name, staticmethod(g))
    return g


_un('exp', core.f_exp)
_un('log', core.f_log)
_un('log10', lambda a: core.f_log(a, 'log10'))
_un('sqrt', core.f_sqrt)
_un('cos', lambda a: core.f_trig('cos', a))
_un('sin', lambda a: core.f_trig('sin', a))
_un('tan', lambda a: core.f_trig('tan', a))
_un('floor', core.f_floor)
_un('ceil', core.f_ceil)


def _round(a, decimals=0, **k):
    if decimals != 0:
        raise Unsupported('round decimals')
    if isinstance(a, SArr):
        return ew1(a, lambda v: v if isint(v) else core.f_round(v))
    return a if isint(a) else core.f_round(a)


NP.round = NP.around = NP.rint = NP.round_ = staticmethod(_round)
_un('arcsinh', lambda a: core.f_unary('arcsinh', a, math.asinh, lambda x, t: [z3.Implies(x >= 0, t >= 0), z3.Implies(x <= 0, t <= 0)]))


def _atan(a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(math.atan(float(n)))
    t = core.ruf('arctan', a.v)
    CT = core.CTX
    CT.fact(z3.And(t < core.rv(1.5707964), t > core.rv(-1.5707964)))
    CT.fact(z3.Implies(a.v > 0, t > 0))
    CT.fact(z3.Implies(a.v < 0, t < 0))
    CT.fact(z3.Implies(a.v == 0, t == 0))
    return SFloat(core.r_ite(a.pinf, core.rv(math.pi / 2), core.r_ite(a.ninf, core.rv(-math.pi / 2), t)), a.nan)


_un('arctan', _atan)


def _mul_const(name, k):
    def g(a, *args):
        return ew1(a, lambda v: fl(v) * k, 'f8')
    setattr(NP, name, staticmethod(g))


_mul_const('radians', math.pi / 180.)
_mul_const('deg2rad', math.pi / 180.)
_mul_const('degrees', 180. / math.pi)
_mul_const('rad2deg', 180. / math.pi)


def _absf(a, **k):
    return ew1(a, lambda v: abs(v))


NP.abs = NP.absolute = NP.fabs = staticmethod(_absf)


@_reg()
def isfinite(a):
    return ew1(a, lambda v: True if isint(v) else mkb(fl(v).fin()), '?')


@_reg()
def isnan(a):
    return ew1(a, lambda v: False if isint(v) else mkb(fl(v).nan), '?')


@_reg()
def isinf(a):
    return ew1(a, lambda v: False if isint(v) else mkb(Or(fl(v).pinf, fl(v).ninf)), '?')


@_reg()
def nan_to_num(a, nan=0.0, posinf=None, neginf=None, **k):
    def f(v):
        v = fl(v)
        r = core.f_ite(v.nan, fl(nan), v)
        r = core.f_ite(v.pinf, fl(1.7976931348623157e308 if posinf is None else posinf), r)
        return core.f_ite(v.ninf, fl(-1.7976931348623157e308 if neginf is None else neginf), r)
    return ew1(a, f)


NP.maximum = staticmethod(lambda a, b, **k: ew2(a, b, core.f_max2))
NP.minimum = staticmethod(lambda a, b, **k: ew2(a, b, core.f_min2))
NP.logical_and = staticmethod(lambda a, b, **k: ew2(a, b, lambda x, y: mkb(And(arr._tb(x), arr._tb(y))), '?'))
NP.logical_or = staticmethod(lambda a, b, **k: ew2(a, b, lambda x, y: mkb(Or(arr._tb(x), arr._tb(y))), '?'))
NP.logical_not = staticmethod(lambda a, **k: ew1(a, lambda x: mkb(Not(arr._tb(x))), '?'))
NP.invert = NP.logical_not
NP.add = staticmethod(lambda a, b, **k: ew2(a, b, lambda x, y: x + y))
NP.subtract = staticmethod(lambda a, b, **k: ew2(a, b, lambda x, y: x - y))
NP.multiply = staticmethod(lambda a, b, **k: ew2(a, b, lambda x, y: x * y))
NP.divide = NP.true_divide = staticmethod(lambda a, b, **k: ew2(a, b, arr.e_div, rdt='f8'))
NP.power = staticmethod(lambda a, b, **k: ew2(a, b, arr.e_pow))
NP.square = staticmethod(lambda a, **k: ew1(a, lambda v: v * v))
NP.less = staticmethod(lambda a, b: ew2(a, b, lambda x, y: x < y, '?'))
NP.less_equal = staticmethod(lambda a, b: ew2(a, b, lambda x, y: x <= y, '?'))
NP.greater = staticmethod(lambda a, b: ew2(a, b, lambda x, y: x > y, '?'))
NP.greater_equal = staticmethod(lambda a, b: ew2(a, b, lambda x, y: x >= y, '?'))
NP.equal = staticmethod(lambda a, b: ew2(a, b, lambda x, y: x == y, '?'))
NP.not_equal = staticmethod(lambda a, b: ew2(a, b, lambda x, y: x != y, '?'))
NP.ndim = staticmethod(lambda a: asarr(a).ndim)
NP.shape = staticmethod(lambda a: asarr(a).shape)
NP.size = staticmethod(lambda a: asarr(a).size)
NP.isscalar = staticmethod(lambda a: arr.is_scalar(a))
NP.count_nonzero = staticmethod(lambda a, **k: arr.where1(a)._shape[0])
NP.ravel = staticmethod(lambda a, **k: asarr(a).ravel())
NP.reshape = staticmethod(lambda a, s, **k: a.reshape(s))
NP.transpose = staticmethod(lambda a, *k: a.transpose(*k))
NP.seterr = staticmethod(lambda **k: {})


class _errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


NP.errstate = _errstate


@_reg()
def append(a, b, axis=None):
    return concatenate((a, b))


@_reg('concatenate', 'hstack')
def concatenate(xs, axis=0, **k):
    xs = [x if isinstance(x, (SRec,)) else (atleast_1d(x)) for x in xs]
    if any(isinstance(x, SRec) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            if not isinstance(x, SRec):
                raise TypeError('invalid type promotion with structured or void datatype(s).')
            if list(x.dt.names) != list(r.dt.names) or len(x.dt.fields_) != len(r.dt.fields_):
                raise TypeError('invalid type promotion with structured or void datatype(s).')
            fs = {}
            for nm in r.f:
                fs[nm] = _cat2(r.f[nm], x.f[nm])
            r = SRec(_add(r.n, x.n), DT(r.dt), fs)
        return r if len(xs) > 1 else r.copy()
    r = xs[0]
    for x in xs[1:]:
        r = _cat2(r, x)
    return r


def _add(a, b):
    return a + b


def _cat2(a, b):
    if a.ndim != b.ndim:
        raise ValueError('all the input array dimensions must match')
    n, m = a._shape[0], b._shape[0]
    sh = (n + m,) + tuple(arr.bcast_dim(x, y) for x, y in zip(a._shape[1:], b._shape[1:]))
    s, t = a.snap(), b.snap()
    zn = ix(n)

    def f(idx):
        i = idx[0]
        lt = arr._lt(i, n)
        if lt is True:
            return s(idx)
        if lt is False:
            return t((arr.ixsub(i, zn),) + tuple(idx[1:]))
        return ite(lt, s(idx), t((arr.ixsub(i, zn),) + tuple(idx[1:])))
    ks = (a.dt.kind, b.dt.kind)
    dt = a.dt if ks[0] == ks[1] or ks[0] == 'f' else b.dt
    return SArr(sh, f, dt)


@_reg()
def interp(x, xp, fp, left=None, right=None, **k):
    """piecewise-linear, constant outside (xp increasing)"""
    xp, fp = asarr(xp), asarr(fp)
    c = core.CTX
    n = xp._shape[0]
    arr.bcast_dim(n, fp._shape[0])
    sx, sf = xp.snap(), fp.snap()

    def one(v):
        v = fl(v)
        j = arr.searchsorted(xp, v, 'right')
        zj = zi(j)
        x0, x1 = fl(sx((ix(zj - 1),))), fl(sx((ix(zj),)))
        y0, y1 = fl(sf((ix(zj - 1),))), fl(sf((ix(zj),)))
        lo = fl(sf((0,))) if left is None else fl(left)
        hi = fl(sf((ix(zi(n) - 1),))) if right is None else fl(right)
        lastx = fl(sx((ix(zi(n) - 1),)))
        slope = core.SFloat(core.r_div(core.r_sub(y1.v, y0.v), core.r_sub(x1.v, x0.v)))
        mid = core.f_add(y0, core.f_mul(slope, core.f_sub(v, x0)))
        # a convex combination stays between its end points
        inside = And(zj >= 1, zj < zi(n))
        c.fact(Implies(And(inside, y0.fin(), y1.fin(), v.fin()),
                       Or(And(y0.v <= mid.v, mid.v <= y1.v), And(y1.v <= mid.v, mid.v <= y0.v))))
        r = core.f_ite(zj == 0, lo, core.f_ite(zj >= zi(n), core.f_ite(core.f_eq(v, lastx), fl(sf((ix(zi(n) - 1),))), hi),
                                               SFloat(mid.v)))
        return SFloat(r.v, Or(v.nan, r.nan), r.pinf, r.ninf)
    return ew1(x, one, 'f8')


@_reg()
def diff(a, **k):
    s = a.snap()
    return SArr((a._shape[0] - 1,), lambda idx: s((arr.ixadd(idx[0], 1),)) - s(idx), a.dt)


@_reg('dot', 'matmul')
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return arr.red_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return arr.red_sum(a * b[None, :], 1)
    raise Unsupported('dot')


@_reg()
def outer(a, b):
    s, t = a.snap(), b.snap()
    return SArr((a._shape[0], b._shape[0]), lambda idx: s((idx[0],)) * t((idx[1],)), 'f8')


@_reg('isin', 'in1d')
def isin(a, b, **k):
    b = asarr(b)
    n = b._shape[0]
    sb = b.snap()
    c = core.CTX
    if isinstance(n, int) and n <= 40:
        return ew1(a, lambda v: mkb(Or(*[arr._tb(v == sb((k,))) for k in range(n)])), '?')

    def one(v):
        B = c.fresh_bool('isin')
        w = ix(c.fresh_int('kisin'))
        c.fact(Implies(B, And(inrange(w, n), arr._tb(sb((w,)) == v))))
        sb.add_watch(lambda idx, u: c.fact(Implies(And(inrange(idx[0], n), arr._tb(u == v)), B)))
        return SBool(B)
    return ew1(a, one, '?')


@_reg()
def unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    """sorted distinct values"""
    c = core.CTX
    a = asarr(a)
    if a.ndim > 1:
        a = a.ravel()
    n = a._shape[0]
    src = a.snap()
    if return_inverse or return_counts:
        raise Unsupported('unique with extra outputs')
    name = c.fresh_name('uniq')
    m = z3.Int(name + '_n')
    c.fact(z3.And(m >= 0, m <= zi(n), z3.Implies(zi(n) > 0, m > 0)))
    IDX = z3.Function(name + '_i', z3.IntSort(), z3.IntSort())   # first occurrence
    RNK = z3.Function(name + '_r', z3.IntSort(), z3.IntSort())   # position of element i
    ats = {}

    def first(idx):
        k = idx[0]
        s = IDX(zx(k))
        c.fact(Implies(inrange(k, mki(m)), And(inrange(ix(s), n), RNK(s) == zx(k))))
        v = src((ix(s),))
        kk = k if isinstance(k, int) else k.get_id()
        if kk not in ats:
            for (k2, v2) in list(ats.values())[:10]:
                c.fact(Implies(And(inrange(k, mki(m)), inrange(k2, mki(m))),
                               And(Implies(zx(k2) < zx(k), arr._tb(v2 < v)), Implies(zx(k) < zx(k2), arr._tb(v < v2)))))
            ats[kk] = (k, v)
        return mki(s)

    def watch(idx, v):
        i = idx[0]
        r = ix(RNK(zx(i)))
        f = IDX(zx(r))
        key = ('uw', name, i if isinstance(i, int) else i.get_id())
        if key in c.memo:
            return
        c.memo[key] = i
        # the representative of i has the same value and is not later
        c.fact(Implies(inrange(i, n), And(inrange(r, mki(m)), inrange(ix(f), n), f <= zx(i))))
        if not z3.eq(z3.simplify(f), zx(i)) and str(f).count('_i(') < 2:
            u = src((ix(f),))
            c.fact(Implies(inrange(i, n), arr._tb(u == v)))
    src.add_watch(watch)
    vals = SArr((mki(m),), lambda idx: src((ix(zi(first(idx))),)), a.dt)
    if return_index:
        return vals, SArr((mki(m),), first, 'i8')
    return vals


class _LinAlg(object):
    def __getattr__(self, n):
        return _Missing('numpy.linalg.' + n)


NP.linalg = _LinAlg()
NP.random = _Missing('numpy.random')
NP.lib = _Missing('numpy.lib')

np = NP()
