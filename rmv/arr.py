"""Symbolic n-d arrays: a shape of (possibly symbolic) integers and a function
from index tuples to scalars, updated functionally by in-place writes."""
import z3
from . import core
from .core import (SVal, SBool, SInt, SFloat, Unsupported, And, Or, Not, Implies, ite, mkb, mki,
                   zi, zb, fl, isint, cast)


# ---------------------------------------------------------------- dtypes
def kind(dt):
    if isinstance(dt, DT):
        return dt.kind
    if isinstance(dt, str):
        s = dt.lstrip('<>=|')
        if s[0] in 'fiubSUaO':
            return {'a': 'S'}.get(s[0], s[0])
        if s.startswith('float'):
            return 'f'
        if s.startswith('int') or s.startswith('uint'):
            return 'i'
        if s.startswith('bool') or s == '?':
            return 'b'
        raise Unsupported('dtype %r' % dt)
    n = getattr(dt, '__name__', str(dt))
    n = n.rstrip('_')
    if 'float' in n or n == 'double':
        return 'f'
    if 'int' in n or n == 'long':
        return 'i'
    if 'bool' in n:
        return 'b'
    if n in ('str', 'SymStr'):
        return 'U'
    if n == 'object':
        return 'O'
    raise Unsupported('dtype %r' % (dt,))


class DT(object):
    """a numpy dtype: simple, or structured with (name, code, shape) fields"""
    def __init__(self, spec, _fields=None):
        if isinstance(spec, DT):
            self.fields_ = None if spec.fields_ is None else [list(f) for f in spec.fields_]
            self.kind = spec.kind
            self.code = spec.code
            return
        if isinstance(spec, list):
            self.kind = 'V'
            self.code = 'V'
            self.fields_ = []
            seen = set()
            for f in spec:
                shape = ()
                if len(f) > 2:
                    shape = f[2]
                    if not isinstance(shape, tuple):
                        shape = (shape,) if not isinstance(shape, list) else tuple(shape)
                    shape = tuple(_dim(s) for s in shape)
                if f[0] in seen:
                    raise ValueError("field '%s' occurs more than once" % f[0])
                seen.add(f[0])
                self.fields_.append([f[0], _code(f[1]), shape])
            return
        self.fields_ = None
        self.kind = kind(spec)
        self.code = _code(spec)

    @property
    def names(self):
        if self.fields_ is None:
            return None
        return tuple(f[0] for f in self.fields_)

    @names.setter
    def names(self, vals):
        vals = list(vals)
        if len(vals) != len(self.fields_):
            raise ValueError('must replace all names at once')
        if len(set(vals)) != len(vals):
            raise ValueError('Duplicate field names given.')
        old = [f[0] for f in self.fields_]
        for f, v in zip(self.fields_, vals):
            f[0] = v
        for o in getattr(self, 'owners', []):
            o._rename(old, vals)

    @property
    def descr(self):
        if self.fields_ is None:
            return [('', self.code)]
        return [(f[0], f[1]) if not f[2] else (f[0], f[1], f[2]) for f in self.fields_]

    @property
    def fields(self):
        return None if self.fields_ is None else {f[0]: f for f in self.fields_}

    @property
    def type(self):
        t = TYPES.get(self.code.lstrip('<>=|'))
        if t is None:
            raise Unsupported('type of dtype %s' % self.code)
        return t

    @property
    def str(self):
        return '<' + self.code

    def __eq__(self, o):
        if not isinstance(o, DT):
            try:
                o = DT(o)
            except BaseException:
                return False
        return self.descr == o.descr

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __len__(self):
        return 0 if self.fields_ is None else len(self.fields_)

    def __getitem__(self, k):
        for f in self.fields_:
            if f[0] == k:
                return DT(f[1])
        raise KeyError(k)


def _code(c):
    if isinstance(c, DT):
        return c.code
    if isinstance(c, str):
        s = c.lstrip('<>=|')
        return s
    return {'f': 'f8', 'i': 'i8', 'b': '?', 'U': 'U', 'O': 'O'}[kind(c)]


def _dim(s):
    if isinstance(s, (int, SInt)):
        return s
    if isinstance(s, SArr) and s.ndim == 0:
        return s.at(())
    if isinstance(s, SFloat):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if hasattr(s, '__index__'):
        return s.__index__()
    raise Unsupported('dimension %r' % (s,))


# ---------------------------------------------------------------- functions
def ix(e):
    """normalise an index term to python int or z3 Int"""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    if isinstance(e, SInt):
        e = e.i
    if isinstance(e, z3.ArithRef):
        if z3.is_int_value(e):
            return e.as_long()
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        return s
    return ix(zi(e))


def zx(e):
    return z3.IntVal(e) if isinstance(e, int) else e


def ixadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return ix(zx(a) + zx(b))


def ixsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return ix(zx(a) - zx(b))


def ixmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return ix(zx(a) * zx(b))


def inrange(i, n):
    if isinstance(i, int) and isinstance(n, int):
        return 0 <= i < n
    c = []
    c.append(True if isinstance(i, int) and i >= 0 else zx(i) >= 0)
    c.append(zx(i) < zi(n))
    if c[0] is True and not isinstance(i, int):
        pass
    r = And(*c)
    if isinstance(r, bool):
        return r
    return zb(z3.simplify(r))


class Fn(object):
    """memoised index->scalar function with watchers"""
    __slots__ = ('f', 'cache', 'watch', 'sel')

    def __init__(self, f):
        self.f = f
        self.sel = None     # (source Fn, rank) of a selection by an index set
        self.cache = {}
        self.watch = []

    def __call__(self, idx):
        key = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        v = self.f(idx)
        self.cache[key] = (idx, v)
        for w in list(self.watch):
            w(idx, v)
        return v

    def add_watch(self, w):
        self.watch.append(w)
        for (idx, v) in list(self.cache.values()):
            w(idx, v)

    def link(self):
        """evaluate a selection wherever its source is evaluated"""
        if self.sel is not None:
            (src, rank), self.sel = self.sel, None
            src.add_watch(lambda idx, v: self((rank(idx[0]),)))


class ISet(object):
    """inverse of an injective index array: contains(i), rank(i)"""
    def __init__(self, contains, rank):
        self.contains = contains
        self.rank = rank


def _c():
    return core.CTX


class SArr(object):
    _is_sarr = True
    __array_priority__ = 2000

    def __init__(self, shape, fn, dt='f8', iset=None):
        self._shape = tuple(shape)
        self._fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.dt = dt if isinstance(dt, DT) else DT(dt)
        self.iset = iset

    # -- basics
    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        raise Unsupported('shape assignment')

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self.dt

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = s * r
        return r

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return SArr(tuple(reversed(self._shape)), lambda idx: self.at(tuple(reversed(idx))), self.dt)

    @property
    def flags(self):
        raise Unsupported('flags')

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            return self.T
        inv = [axes.index(k) for k in range(len(axes))]
        snap = self.snap()
        return SArr(tuple(self._shape[a] for a in axes), lambda idx: snap(tuple(idx[inv[k]] for k in range(len(inv)))), self.dt)

    def snap(self):
        """the current contents as an immutable function"""
        return self._fn

    def at(self, idx):
        return self._fn(tuple(idx))

    def _put(self, fn):
        self._fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.iset = None

    def symlen(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        raise Unsupported('native len() of symbolic array')

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if isinstance(n, SInt):
            raise Unsupported('iteration over an array of symbolic length')
        for i in range(n):
            yield self[i]

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at(()))
        n = self.size
        if isinstance(n, SInt):
            if bool(n == 1):
                return bool(self.at(tuple(0 for _ in self._shape)))
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        if n == 1:
            return bool(self.at(tuple(0 for _ in self._shape)))
        if n == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        if self.ndim == 0:
            v = self.at(())
            return v.__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __float__(self):
        v = self.item()
        return float(v)

    def __int__(self):
        return int(self.item())

    def __repr__(self):
        return 'SArr%r' % (self._shape,)

    def __format__(self, spec):
        return '<symarr>'

    # -- indexing
    def _norm(self, key):
        """-> list of per-dimension specs, padded"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        out = []
        nreal = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if _is_boolarr(k):
                nreal += k.ndim
            else:
                nreal += 1
        if nreal > self.ndim:
            raise IndexError('too many indices for array')
        for k in key:
            if k is Ellipsis:
                for _ in range(self.ndim - nreal):
                    out.append(slice(None))
            elif _is_boolarr(k):
                if k.ndim != 1:
                    raise Unsupported('n-d boolean index')
                out.append(where1(k))
            elif isinstance(k, (list, tuple)):
                out.append(asarr(k))
            elif isinstance(k, SArr) and k.ndim == 0:
                out.append(k.at(()))
            elif isinstance(k, range):
                out.append(asarr(list(k)))
            elif isinstance(k, (bool, SBool)):
                raise Unsupported('boolean scalar index')
            else:
                out.append(k)
        have = sum(1 for k in out if k is not None)
        while have < self.ndim:
            out.append(slice(None))
            have += 1
        return out

    def _parse(self, key):
        specs = self._norm(key)
        plan = []    # per source dimension
        res_shape = []
        arrays = []
        d = 0
        newax = []
        for s in specs:
            if s is None:
                newax.append((d, len(plan)))
                plan.append(('new',))
                continue
            n = self._shape[d]
            if isinstance(s, slice):
                lo, m, step = slice_bounds(s, n)
                plan.append(('sl', d, lo, m, step))
            elif isinstance(s, SArr):
                if s.dt.kind not in 'iu':
                    if s.dt.kind == 'f' and s.size == 0:
                        pass
                    else:
                        raise IndexError('arrays used as indices must be of integer (or boolean) type')
                arrays.append(s)
                plan.append(('arr', d, s))
            elif isint(s):
                plan.append(('int', d, s))
            elif isinstance(s, (float, SFloat)):
                raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
            elif isinstance(s, str):
                raise IndexError('only integers, slices...')
            else:
                raise Unsupported('index %r' % (s,))
            d += 1
        return plan, arrays

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError('only integers, slices...')
        plan, arrays = self._parse(key)
        if not arrays:
            return self._basic(plan)
        return self._fancy(plan, arrays)

    def _basic(self, plan):
        shape = []
        maps = []      # per source dim: function of result idx -> base idx
        invs = []
        rd = 0
        for p in plan:
            if p[0] == 'new':
                shape.append(1)
                rd += 1
            elif p[0] == 'int':
                i = chk_index(p[2], self._shape[p[1]])
                maps.append(lambda idx, i=i: i)
                invs.append((None, i, 1))
            else:
                _, d, lo, m, step = p
                maps.append(lambda idx, lo=lo, step=step, r=rd: ixadd(lo, ixmul(step, idx[r])))
                invs.append((rd, lo, step, m))
                shape.append(m)
                rd += 1
        if not shape:
            return self.at(tuple(m(()) for m in maps))
        return View(self, shape, maps, invs, plan)

    def _fancy(self, plan, arrays):
        c = _c()
        bshape = ()
        for a in arrays:
            bshape = bcast_shape(bshape, a._shape)
        nb = len(bshape)
        # positions of advanced indices (arrays and ints)
        adv = [k for k, p in enumerate(plan) if p[0] in ('arr', 'int')]
        contiguous = all(plan[k][0] in ('arr', 'int') for k in range(adv[0], adv[-1] + 1))
        shape = []
        pos = None
        sl_at = {}
        if not contiguous:
            pos = 0
            shape.extend(bshape)
        for k, p in enumerate(plan):
            if p[0] in ('arr', 'int'):
                if contiguous and k == adv[0]:
                    pos = len(shape)
                    shape.extend(bshape)
            elif p[0] == 'new':
                shape.append(1)
            else:
                sl_at[k] = len(shape)
                shape.append(p[3])
        getters = []
        snaps = []
        for k, p in enumerate(plan):
            if p[0] == 'arr':
                getters.append(index_getter(p[2], self._shape[p[1]], bshape, pos, nb))
            elif p[0] == 'int':
                i = chk_index(p[2], self._shape[p[1]])
                getters.append(lambda idx, i=i: i)
            elif p[0] == 'new':
                continue
            else:
                lo, step, r = p[2], p[4], sl_at[k]
                getters.append(lambda idx, lo=lo, step=step, r=r: ixadd(lo, ixmul(step, idx[r])))
        src = self.snap()
        iset = None
        if len(arrays) == 1 and self.ndim == 1 and self.iset is not None and arrays[0].iset is not None:
            A, B = self.iset, arrays[0].iset
            iset = ISet(lambda i: And(A.contains(i), B.contains(A.rank(i))), lambda i: B.rank(A.rank(i)))
        res = SArr(shape, lambda idx: src(tuple(g(idx) for g in getters)), self.dt, iset=iset)
        if len(arrays) == 1 and self.ndim == 1 and arrays[0].iset is not None and not isinstance(arrays[0]._shape[0], int):
            res._fn.sel = (src, arrays[0].iset.rank)
        if iset is None and len(arrays) == 1 and self.ndim == 1 and self.dt.kind == 'i' and arrays[0].iset is not None and not isinstance(arrays[0]._shape[0], int):
            # a selection from an index array: whatever is known of the array at a selected index is known of the result at its rank
            B, rfn = arrays[0].iset, res._fn
            src.add_watch(lambda idx, v: rfn((B.rank(idx[0]),)))
        return res

    def __setitem__(self, key, val):
        if isinstance(key, SArr) and key.dt.kind == 'b' and key.ndim == self.ndim and self.ndim > 1:
            # full boolean mask assignment of a scalar
            old = self.snap()
            ks = key.snap()
            if isinstance(val, SArr) and val.ndim > 0:
                raise Unsupported('n-d mask assignment of an array')
            v = val.at(()) if isinstance(val, SArr) else val
            dt = self.dt
            self._put(lambda idx: ite(ks(idx), cast(v, dt), old(idx)))
            return
        plan, arrays = self._parse(key)
        if len(arrays) > 1:
            return self._set_multi(plan, arrays, val)
        old = self.snap()
        conds = []
        shape = []
        names = []
        arrpos = None
        # result-index builders from base index
        build = []
        advints = [k for k, p in enumerate(plan) if p[0] in ('arr', 'int')]
        for k, p in enumerate(plan):
            if p[0] == 'new':
                shape.append(1)
                build.append(lambda b: 0)
                continue
            d = p[1]
            if p[0] == 'int':
                i = chk_index(p[2], self._shape[d])
                conds.append(lambda b, d=d, i=i: ixeq(b[d], i))
            elif p[0] == 'sl':
                _, d, lo, m, step = p
                n = self._shape[d]
                if lo == 0 and step == 1 and (m is n or (isinstance(m, int) and m == n) or _same(m, n)):
                    pass
                else:
                    conds.append(lambda b, d=d, lo=lo, m=m, step=step: slice_has(b[d], lo, m, step))
                build.append(lambda b, d=d, lo=lo, step=step: ix_divexact(ixsub(b[d], lo), step))
                shape.append(m)
            else:
                a = p[2]
                if a.ndim != 1:
                    raise Unsupported('assignment through an n-d index array')
                check_index_array(a, self._shape[d])
                s = inverse_of(a, self._shape[d])
                conds.append(lambda b, d=d, s=s: s.contains(b[d]))
                build.append(lambda b, d=d, s=s: s.rank(b[d]))
                shape.append(a._shape[0])
        if len(arrays) == 1:
            contiguous = all(plan[k][0] in ('arr', 'int') for k in range(advints[0], advints[-1] + 1))
            if not contiguous:
                raise Unsupported('assignment through separated indices')
        vget = bcast_value(val, shape)
        dt = self.dt

        def new(b):
            cnd = And(*[c_(b) for c_ in conds])
            if cnd is False:
                return old(b)
            r = tuple(f(b) for f in build)
            v = cast(vget(r), dt)
            if cnd is True:
                return v
            return ite(cnd, v, old(b))
        self._put(new)

    def _set_multi(self, plan, arrays, val):
        """x[I, J, ...] = v with several index arrays of a common 1-d length"""
        old = self.snap()
        if any(p[0] in ('sl', 'new') for p in plan):
            raise Unsupported('assignment through several index arrays and slices')
        bshape = ()
        for a in arrays:
            bshape = bcast_shape(bshape, a._shape)
        if len(bshape) != 1:
            raise Unsupported('assignment through n-d index arrays')
        m = bshape[0]
        getters = []
        for p in plan:
            if p[0] == 'arr':
                getters.append(index_getter(p[2], self._shape[p[1]], bshape, 0, 1))
            else:
                i = chk_index(p[2], self._shape[p[1]])
                getters.append(lambda idx, i=i: i)
        c = _c()
        vget = bcast_value(val, [m])
        name = c.fresh_name('minv')
        nd = self.ndim
        W = z3.Function(name + '_w', *([z3.IntSort()] * nd + [z3.IntSort()]))
        H = z3.Function(name + '_h', *([z3.IntSort()] * nd + [z3.BoolSort()]))

        def hits(k):
            b = [g((k,)) for g in getters]
            c.fact(Implies(inrange(k, m), H(*[zx(x) for x in b])))
        for a in arrays:
            a._fn.add_watch(lambda idx, v: hits(idx[0]))
        dt = self.dt

        def new(b):
            zb_ = [zx(x) for x in b]
            h, w = H(*zb_), ix(W(*zb_))
            got = [g((w,)) for g in getters]
            c.fact(Implies(h, And(inrange(w, m), *[ixeq(x, y) for x, y in zip(got, b)])))
            return ite(h, cast(vget((w,)), dt), old(b))
        self._put(new)

    # -- arithmetic
    def __add__(self, o): return ew2(self, o, lambda a, b: a + b)
    def __radd__(self, o): return ew2(o, self, lambda a, b: a + b)
    def __sub__(self, o): return ew2(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return ew2(o, self, lambda a, b: a - b)
    def __mul__(self, o): return ew2(self, o, lambda a, b: a * b)
    def __rmul__(self, o): return ew2(o, self, lambda a, b: a * b)
    def __truediv__(self, o): return ew2(self, o, e_div, rdt='f8')
    def __rtruediv__(self, o): return ew2(o, self, e_div, rdt='f8')
    def __floordiv__(self, o): return ew2(self, o, lambda a, b: a // b)
    def __mod__(self, o): return ew2(self, o, lambda a, b: a % b)
    def __rmod__(self, o): return ew2(o, self, lambda a, b: a % b)
    def __pow__(self, o): return ew2(self, o, e_pow)
    def __rpow__(self, o): return ew2(o, self, e_pow)
    def __neg__(self): return ew1(self, lambda a: -a)
    def __abs__(self): return ew1(self, abs_)
    def __invert__(self): return ew1(self, lambda a: mkb(Not(a)))
    def __and__(self, o): return ew2(self, o, lambda a, b: mkb(And(a, b)), rdt='?')
    __rand__ = __and__
    def __or__(self, o): return ew2(self, o, lambda a, b: mkb(Or(a, b)), rdt='?')
    __ror__ = __or__
    def __xor__(self, o): return ew2(self, o, lambda a, b: mkb(Not(core.Iff(a, b))), rdt='?')
    def __lt__(self, o): return ew2(self, o, lambda a, b: a < b, rdt='?')
    def __le__(self, o): return ew2(self, o, lambda a, b: a <= b, rdt='?')
    def __gt__(self, o): return ew2(self, o, lambda a, b: a > b, rdt='?')
    def __ge__(self, o): return ew2(self, o, lambda a, b: a >= b, rdt='?')

    def __eq__(self, o):
        if o is None:
            return False
        return ew2(self, o, lambda a, b: a == b, rdt='?')

    def __ne__(self, o):
        if o is None:
            return True
        return ew2(self, o, lambda a, b: a != b, rdt='?')
    __hash__ = None

    def _iop(self, r):
        if isinstance(r, SArr):
            s = bcast_shape(self._shape, r._shape)
            if len(s) != len(self._shape):
                raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self

    def __iadd__(self, o): return self._iop(self + o)
    def __isub__(self, o): return self._iop(self - o)
    def __imul__(self, o): return self._iop(self * o)
    def __itruediv__(self, o): return self._iop(self / o)
    def __iand__(self, o): return self._iop(self & o)
    def __ior__(self, o): return self._iop(self | o)
    def __ipow__(self, o): return self._iop(self ** o)

    # -- methods
    def astype(self, dt, copy=True, order='K', **kw):
        dt = DT(dt)
        s = self.snap()
        k1, k2 = self.dt.kind, dt.kind
        if k1 == k2 or k2 in 'SUO':
            return SArr(self._shape, s, dt, iset=self.iset if k2 in 'iu' else None)
        return SArr(self._shape, lambda idx: cast(s(idx), dt), dt)

    def copy(self, order='C'):
        return SArr(self._shape, self.snap(), self.dt, iset=self.iset)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        n = self.size
        if isinstance(n, SInt):
            if not bool(n == 1):
                raise ValueError('can only convert an array of size 1 to a Python scalar')
        elif n != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.at(tuple(0 for _ in self._shape))

    def flatten(self):
        return self.ravel().copy()

    def ravel(self):
        if self.ndim == 1:
            return self
        if self.ndim == 0:
            return SArr((1,), lambda idx: self.at(()), self.dt)
        sh = self._shape
        if all(isinstance(x, int) for x in sh[1:]):
            s = self.snap()
            k = 1
            for x in sh[1:]:
                k *= x
            if core.CTX is not None and not isinstance(sh[0], int) and 0 < k <= 8:
                tot = self.size
                core.CTX.reg_univ(sh[0], lambda i: [core.CTX.reg_index(zi(i) * k + j if not isinstance(i, int) else i * k + j, tot) for j in range(k)])
            return SArr((self.size,), lambda idx: s(unravel(idx[0], sh)), self.dt)
        raise Unsupported('ravel of symbolic shape')

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(_dim(s) for s in shape)
        if len(shape) == len(self._shape) and all(_same(a, b) for a, b in zip(shape, self._shape)):
            return self
        n = self.size
        if any(isinstance(x, int) and x == -1 for x in shape):
            known = 1
            for x in shape:
                if not (isinstance(x, int) and x == -1):
                    known = known * x
            if isinstance(n, int) and isinstance(known, int):
                m = n // known
            elif len(shape) == 1:
                m = n
            else:
                raise Unsupported('reshape')
            shape = tuple(m if isinstance(x, int) and x == -1 else x for x in shape)
        if not all(isinstance(x, int) for x in shape[1:]) or not all(isinstance(x, int) for x in self._shape[1:]):
            if self.ndim == 1 and len(shape) == 2:
                s = self.snap()
                return SArr(shape, lambda idx: s((ixadd(ixmul(idx[0], ix(shape[1])), idx[1]),)), self.dt)
            raise Unsupported('reshape')
        tot = 1
        for x in shape:
            tot = tot * x
        if not bool(mkb(tot == n) if not isinstance(tot == n, bool) else tot == n):
            raise ValueError('cannot reshape array')
        flat = self.ravel().snap()

        def f(idx):
            k = 0
            for d, i in enumerate(idx):
                k = ixadd(ixmul(k, ix(shape[d])), i) if d else i
            return flat((k,))
        return SArr(shape, f, self.dt)

    def sum(self, axis=None, dtype=None, **kw): return red_sum(self, axis)
    def max(self, axis=None, **kw): return red_ext(self, 'max', axis)
    def min(self, axis=None, **kw): return red_ext(self, 'min', axis)
    def any(self, axis=None): return red_any(self, axis)
    def all(self, axis=None): return red_all(self, axis)
    def argmin(self): return argext(self, 'min')
    def argmax(self): return argext(self, 'max')
    def mean(self, axis=None): return red_sum(self, axis) / self.size
    def argsort(self, **kw): return argsort(self)

    def sort(self, **kw):
        p = argsort(self)
        r = self[p]
        self._put(r.snap())

    def clip(self, lo=None, hi=None, min=None, max=None):
        return clip(self, lo if lo is not None else min, hi if hi is not None else max)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def nonzero(self):
        return (where1(self),)

    def view(self, *a):
        raise Unsupported('ndarray.view')

    def round(self, *a):
        return ew1(self, core.f_round)

    def searchsorted(self, v, side='left'):
        return searchsorted(self, v, side)


class View(SArr):
    """a writable basic-indexing view"""
    def __init__(self, base, shape, maps, invs, plan):
        self.base = base
        self._shape = tuple(shape)
        self.dt = base.dt
        self.maps = maps
        self.invs = invs
        self._basefn = None
        self._myfn = None
        self.iset = None

    @property
    def _fn(self):
        b = self.base.snap()
        if b is not self._basefn:
            maps = self.maps
            self._basefn = b
            self._myfn = Fn(lambda idx: b(tuple(m(idx) for m in maps)))
        return self._myfn

    def _put(self, fn):
        fn = fn if isinstance(fn, Fn) else Fn(fn)
        old = self.base.snap()
        invs = self.invs
        nres = len(self._shape)
        # a slice of the whole axis: elements beyond the end are never read
        whole = [iv[0] is not None and iv[1] == 0 and iv[2] == 1 and _same(iv[3], n) if iv[0] is None or isinstance(iv[1], int) else False
                 for iv, n in zip(invs, self.base._shape)]

        def new(b):
            conds = []
            res = [0] * nres
            for d, iv in enumerate(invs):
                if iv[0] is None:
                    conds.append(ixeq(b[d], iv[1]))
                else:
                    rd, lo, step, m = iv
                    if not whole[d]:
                        conds.append(slice_has(b[d], lo, m, step))
                    res[rd] = ix_divexact(ixsub(b[d], lo), step)
            cnd = And(*conds)
            if cnd is False:
                return old(b)
            v = fn(tuple(res))
            return v if cnd is True else ite(cnd, v, old(b))
        self.base._put(new)


def abs_(a):
    if isinstance(a, (int, float)):
        return abs(a)
    return abs(a)


def e_div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if b == 0:
            return core.f_div(fl(a), fl(b))
        return a / b
    if isinstance(a, (bool, SBool, int)) :
        a = fl(a)
    return a / b if isinstance(a, SVal) else core.f_div(fl(a), fl(b))


def e_pow(a, b):
    if isint(a) and isinstance(b, int) and b >= 0:
        return a ** b
    return core.f_pow(fl(a), fl(b))


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    x, y = zi(a), zi(b)
    if x.eq(y):
        return True
    return _c().known(x == y)


def ixeq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = zx(a), zx(b)
    if a.eq(b):
        return True
    return zb(z3.simplify(a == b))


def ix_divexact(e, step):
    if step == 1:
        return e
    if isinstance(e, int) and isinstance(step, int):
        return e // step
    return ix(zx(e) / zx(step))


def slice_has(b, lo, m, step):
    """base index b belongs to the slice starting at lo with m elements"""
    if step == 1:
        return And(True if (isinstance(lo, int) and lo == 0) else zx(b) >= zx(lo), _lt(ixsub(b, lo), m))
    r = ixsub(b, lo)
    if isinstance(step, int) and step < 0:
        k = ix(zx(ixsub(lo, b)) / z3.IntVal(-step))
        return And(zx(b) <= zx(lo), ixeq(ixsub(lo, b), ixmul(k, -step)), _lt(k, m))
    k = ix_divexact(r, step)
    return And(_ge0(r), ixeq(ixmul(k, step), r), _lt(k, m))


def _ge0(e):
    return e >= 0 if isinstance(e, int) else zb(z3.simplify(e >= 0))


def _lt(e, m):
    m = ix(m)
    if isinstance(e, int) and isinstance(m, int):
        return e < m
    return zb(z3.simplify(zx(e) < zx(m)))


def slice_bounds(s, n):
    """-> lo, count, step (numpy semantics)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        step = _dim(step)
        if not isinstance(step, int):
            raise Unsupported('symbolic slice step')
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
        lo, hi, st = slice(s.start, s.stop, step).indices(n)
        return lo, len(range(lo, hi, st)), st
    if step < 0:
        if s.start is None and s.stop is None and step == -1:
            return ix(n - 1), n, -1
        raise Unsupported('negative slice step')
    c = _c()

    def norm(x, dflt):
        if x is None:
            return dflt
        x = _dim(x)
        z = zi(x)
        zn = zi(n)
        if isinstance(x, int) and x >= 0 or (not isinstance(x, int) and c.known(z >= 0)):
            if c.known(z <= zn):
                return ix(z)
            return ix(z3.If(z > zn, zn, z))
        if (isinstance(x, int) and x < 0) or c.known(z < 0):
            if c.known(z + zn >= 0):
                return ix(z + zn)
            return ix(z3.If(z + zn < 0, z3.IntVal(0), z + zn))
        w = z3.If(z < 0, z + zn, z)
        return ix(z3.If(w < 0, z3.IntVal(0), z3.If(w > zn, zn, w)))
    lo = norm(s.start, 0)
    hi = norm(s.stop, ix(n))
    d = ixsub(hi, lo)
    if step != 1:
        m = ix((zx(d) + (step - 1)) / z3.IntVal(step))
    else:
        m = d
    if isinstance(m, int):
        m = max(m, 0)
    elif not c.known(zx(m) >= 0):
        m = ix(z3.If(zx(m) < 0, z3.IntVal(0), zx(m)))
    return lo, mki(zx(m)), step


def chk_index(i, n):
    """scalar index with numpy bounds semantics"""
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise IndexError('index %d is out of bounds for axis of size %d' % (i, n))
        return i + n if i < 0 else i
    c = _c()
    z, zn = zi(i), zi(n)
    ok = And(z >= -zn, z < zn)
    if not c.known(ok):
        if not c.decide(ok):
            raise IndexError('index out of bounds')
    if isinstance(i, int):
        return i if i >= 0 else ix(zn + i)
    if c.known(z >= 0):
        return ix(z)
    if c.known(z < 0):
        return ix(z + zn)
    return ix(z3.If(z < 0, z + zn, z))


def check_index_array(a, n):
    """all entries of the integer array a are valid indices of an axis of
    length n; raises IndexError on the paths where one is not."""
    c = _c()
    key = ('idxok', id(a.snap()), str(n))
    if key in c.memo:
        return
    c.memo[key] = a.snap()
    if all(isinstance(s, int) for s in a._shape):
        tot = 1
        for s in a._shape:
            tot *= s
        if tot <= 64:
            for flat in range(tot):
                v = a.at(unravel(flat, a._shape))
                chk_index(v if isint(v) else core.trunc_int(v), n)
            return
    ks = tuple(ix(c.fresh_int('kchk')) for _ in a._shape)
    rng = And(*[inrange(k, m) for k, m in zip(ks, a._shape)])
    v = zi(a.at(ks))
    zn = zi(n)
    bad = And(rng, Or(v < -zn, v >= zn))
    if c.known(Not(bad)):
        # established for an arbitrary entry, hence for all
        return
    if c.decide(bad):
        raise IndexError('index out of bounds in an index array')

    def w(idx, val):
        t = zi(val)
        c.fact(Implies(And(*[inrange(k, m) for k, m in zip(idx, a._shape)]), And(t >= -zn, t < zn)))
    a._fn.add_watch(w)
    if a.ndim == 1:
        f = a._fn
        c.reg_univ(a._shape[0], lambda i: f((i,)))


def index_getter(a, n, bshape, pos, nb):
    check_index_array(a, n)
    src = a.snap()
    sh = a._shape
    off = nb - len(sh)
    c = _c()
    zn = zi(n)

    def g(idx):
        sub = []
        for d in range(len(sh)):
            k = idx[pos + off + d]
            if isinstance(sh[d], int) and sh[d] == 1 and not (isinstance(bshape[off + d], int) and bshape[off + d] == 1):
                k = 0
            sub.append(k)
        v = ix(zi(src(tuple(sub))))
        if isinstance(v, int):
            return v if v >= 0 else ix(zn + v)
        if a.iset is not None or c.known(Implies(And(*[inrange(k, m) for k, m in zip(sub, sh)]), v >= 0)):
            return v
        return ix(z3.If(v < 0, v + zn, v))
    return g


def inverse_of(a, n):
    """ISet of an integer index array (axis length n)"""
    if a.iset is not None:
        return a.iset
    c = _c()
    m = a._shape[0]
    src = a._fn
    key = ('inv', id(src))
    if key in c.memo:
        return c.memo[key][1]
    zn = zi(n)

    def norm(v):
        v = zi(v)
        if c.known(v >= 0):
            return v
        return z3.If(v < 0, v + zn, v)
    if isinstance(m, int) and m <= 64:
        vals = [norm(src((k,))) for k in range(m)]

        def contains(i):
            return Or(*[ixeq(ix(v), i) for v in vals])

        def rank(i):
            r = z3.IntVal(0)
            for k, v in enumerate(vals):     # the last write wins
                e = ixeq(ix(v), i)
                r = core.i_ite(e, z3.IntVal(k), r)
            return ix(r)
        s = ISet(contains, rank)
    else:
        name = c.fresh_name('inv')
        H = z3.Function(name + '_h', z3.IntSort(), z3.BoolSort())
        W = z3.Function(name + '_w', z3.IntSort(), z3.IntSort())

        def w(idx, v):
            c.fact(Implies(inrange(idx[0], m), H(norm(v))))
        src.add_watch(w)

        def contains(i):
            h = H(zx(i))
            k = ix(W(zx(i)))
            v = norm(src((k,)))
            c.fact(Implies(h, And(inrange(k, m), v == zx(i))))
            return h

        def rank(i):
            return ix(W(zx(i)))
        s = ISet(contains, rank)
    c.memo[key] = (src, s)
    return s


def unravel(k, shape):
    out = []
    for s in reversed(shape[1:]):
        if isinstance(k, int):
            out.append(k % s)
            k = k // s
        else:
            q, r = divmod_const(zx(k), s)
            out.append(ix(r))
            k = ix(q)
    out.append(k)
    return tuple(reversed(out))


def divmod_const(e, s):
    """e = s*q + r with the quotient resolved when every non-constant coefficient is a multiple of s"""
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    q, c = [], 0
    for t in terms:
        if z3.is_int_value(t):
            c += t.as_long()
            continue
        k, rest = 1, t
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)):
            k = t.arg(0).as_long()
            rest = z3.Product(t.children()[1:]) if t.num_args() > 2 else t.arg(1)
        if k % s:
            return e / z3.IntVal(s), e % z3.IntVal(s)
        q.append((k // s) * rest)
    return z3.simplify(z3.Sum(q + [z3.IntVal(c // s)]) if q else z3.IntVal(c // s)), z3.IntVal(c % s)


def _is_boolarr(k):
    return isinstance(k, SArr) and k.dt.kind == 'b' and k.ndim > 0


# ---------------------------------------------------------------- broadcasting
def bcast_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise ValueError('operands could not be broadcast together with shapes %r %r' % (a, b))
    if _same(a, b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    c = _c()
    if c.decide(zi(a) == zi(b)):
        return a if isinstance(a, int) else b
    if not isinstance(a, int) and c.decide(zi(a) == 1):
        return b
    if not isinstance(b, int) and c.decide(zi(b) == 1):
        return a
    raise ValueError('operands could not be broadcast together')


def bcast_shape(s, t):
    s, t = tuple(s), tuple(t)
    n = max(len(s), len(t))
    s = (1,) * (n - len(s)) + s
    t = (1,) * (n - len(t)) + t
    return tuple(bcast_dim(a, b) for a, b in zip(s, t))


def bidx(idx, shape, out):
    """index into an operand of `shape` for result index idx (shape out)"""
    off = len(out) - len(shape)
    r = []
    for d, s in enumerate(shape):
        o = out[off + d]
        if isinstance(s, int) and s == 1 and not (isinstance(o, int) and o == 1):
            r.append(0)
        elif isinstance(s, SInt) and s is not o and not _same(s, o):
            r.append(0)      # broadcast from length one on this path
        else:
            r.append(idx[off + d])
    return tuple(r)


def bcast_value(val, shape):
    """value of an assignment, as a function of the target's result index"""
    if isinstance(val, (list, tuple)):
        val = asarr(val)
    if isinstance(val, SArr) and val.ndim > 0:
        vs = val._shape
        # leading ones may be dropped
        while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
            vs = vs[1:]
        if len(vs) > len(shape):
            raise ValueError('could not broadcast input array')
        off = len(shape) - len(vs)
        src = val.snap()
        extra = val.ndim - len(vs)
        zero = []
        for d, s in enumerate(vs):
            t = shape[off + d]
            if isinstance(s, int) and isinstance(t, int):
                if s == t:
                    zero.append(False)
                elif s == 1:
                    zero.append(True)
                else:
                    raise ValueError('could not broadcast input array from shape')
            elif _same(s, t):
                zero.append(False)
            elif isinstance(s, int) and s == 1:
                zero.append(True)
            else:
                c = _c()
                if c.decide(zi(s) == zi(t)):
                    zero.append(False)
                elif not isinstance(s, int) and c.decide(zi(s) == 1):
                    zero.append(True)
                else:
                    raise ValueError('could not broadcast input array')
        return lambda r: src((0,) * extra + tuple(0 if z else r[off + d] for d, z in enumerate(zero)))
    if isinstance(val, SArr):
        val = val.at(())
    return lambda r: val


# ---------------------------------------------------------------- elementwise
def is_scalar(x):
    return isinstance(x, (int, float, bool, SVal, str)) or (hasattr(x, 'item') and not isinstance(x, SArr) and getattr(x, 'ndim', 1) == 0)


def _rk(a):
    """result kind of a scalar"""
    if isinstance(a, SArr):
        return a.dt.kind
    if isinstance(a, (bool, SBool)):
        return 'b'
    if isint(a):
        return 'i'
    if isinstance(a, str) or isinstance(a, core.SOpq):
        return 'U'
    return 'f'


def ew1(a, f, rdt=None):
    if not isinstance(a, SArr):
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        else:
            return f(a)
    if a.ndim == 0:
        return f(a.at(()))
    s = a.snap()
    return SArr(a._shape, lambda idx: f(s(idx)), rdt or a.dt)


def ew2(a, b, f, rdt=None):
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if isinstance(b, (list, tuple)):
        b = asarr(b)
    if isinstance(a, SRec) or isinstance(b, SRec):
        raise Unsupported('arithmetic on records')
    if isinstance(a, SArr) and a.ndim == 0:
        a = a.at(())
    if isinstance(b, SArr) and b.ndim == 0:
        b = b.at(())
    aa, bb = isinstance(a, SArr), isinstance(b, SArr)
    if not aa and not bb:
        return f(a, b)
    for x in (a, b):
        if not isinstance(x, SArr) and not is_scalar(x):
            if x is None:
                raise TypeError("unsupported operand type(s): 'NoneType'")
            raise Unsupported('operand %r' % (type(x),))
    if rdt is None:
        ka, kb = _rk(a), _rk(b)
        rdt = 'f8' if 'f' in (ka, kb) else ('i8' if 'i' in (ka, kb) else ('?' if ka == kb == 'b' else 'i8'))
    if aa and bb:
        sh = bcast_shape(a._shape, b._shape)
        s, t = a.snap(), b.snap()
        sa, sb = a._shape, b._shape
        if len(sa) == len(sh) and len(sb) == len(sh) and all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
                                                             for x, y in zip(sa, sh)) and \
                all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) for x, y in zip(sb, sh)):
            return SArr(sh, lambda idx: f(s(idx), t(idx)), rdt)
        return SArr(sh, lambda idx: f(s(bidx(idx, sa, sh)), t(bidx(idx, sb, sh))), rdt)
    if aa:
        s = a.snap()
        return SArr(a._shape, lambda idx: f(s(idx), b), rdt)
    t = b.snap()
    return SArr(b._shape, lambda idx: f(a, t(idx)), rdt)


def asarr(x, dt=None):
    """array from anything array-like (a copy)"""
    if isinstance(x, SArr):
        return x if dt is None else x.astype(dt)
    if isinstance(x, SRec):
        return x
    if isinstance(x, SRow):
        return x
    if isinstance(x, (list, tuple)):
        if len(x) and all(isinstance(e, (list, tuple, SArr)) and not (isinstance(e, SArr) and e.ndim == 0) for e in x):
            rows = [asarr(e) for e in x]
            sh = rows[0]._shape
            for r in rows[1:]:
                if len(r._shape) != len(sh) or not all(_same(p, q) for p, q in zip(r._shape, sh)):
                    raise Unsupported('ragged array')
            fs = [r.snap() for r in rows]

            def f(idx):
                if isinstance(idx[0], int):
                    return fs[idx[0]](idx[1:])
                v = fs[-1](idx[1:])
                for k in range(len(fs) - 2, -1, -1):
                    v = ite(ixeq(idx[0], k), fs[k](idx[1:]), v)
                return v
            r = SArr((len(rows),) + sh, f, rows[0].dt)
            return r if dt is None else r.astype(dt)
        vals = [e.at(()) if isinstance(e, SArr) else e for e in x]
        ks = set(_rk(v) for v in vals)
        k = 'f8' if ('f' in ks or not ks) else ('i8' if 'i' in ks else ('?' if ks == {'b'} else 'U'))
        r = from_list(vals, k)
        return r if dt is None else r.astype(dt)
    if is_scalar(x):
        k = {'b': '?', 'i': 'i8', 'f': 'f8', 'U': 'U'}[_rk(x)]
        r = SArr((), lambda idx: x, k)
        return r if dt is None else r.astype(dt)
    if type(x).__module__ == 'numpy':
        return from_numpy(x, dt)
    if x is None:
        raise Unsupported('array of None')
    if hasattr(x, '__iter__'):
        return asarr(list(x), dt)
    raise Unsupported('asarray(%r)' % (type(x),))


def from_list(vals, dt):
    vals = list(vals)

    def f(idx):
        i = idx[0]
        if isinstance(i, int):
            return vals[i]
        v = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            v = ite(ixeq(i, k), vals[k], v)
        return v
    return SArr((len(vals),), f, dt)


def from_numpy(x, dt=None):
    import numpy
    x = numpy.asarray(x)
    if x.dtype.names:
        raise Unsupported('concrete record array')
    if x.ndim == 0:
        return asarr(x.item(), dt)
    if x.ndim == 1:
        return from_list([v.item() for v in x], dt or x.dtype.kind + '8')
    return asarr([from_numpy(r) for r in x], dt)


def full(shape, v, dt):
    shape = shape_of(shape)
    return SArr(shape, lambda idx: v, dt)


def shape_of(shape):
    if isinstance(shape, SArr):
        if shape.ndim == 0:
            return (shape.at(()),)
        return tuple(shape)
    if isinstance(shape, (tuple, list)):
        sh = tuple(_dim(s) for s in shape)
    else:
        sh = (_dim(shape),)
    for s in sh:
        if isinstance(s, int):
            if s < 0:
                raise ValueError('negative dimensions are not allowed')
        elif not _c().known(zi(s) >= 0):
            if _c().decide(zi(s) < 0):
                raise ValueError('negative dimensions are not allowed')
    return sh


# ---------------------------------------------------------------- selection
def where1(b):
    """np.where(cond)[0] for a 1-d condition"""
    c = _c()
    if b.ndim != 1:
        raise Unsupported('where on an n-d array')
    n = b._shape[0]
    src = b.snap()
    key = ('where', id(src))
    if key in c.memo:
        return c.memo[key][1].copy()
    isb = b.dt.kind == 'b'

    def P(i):
        v = src((i,))
        return zb(v) if isinstance(v, (bool, SBool)) else zb(mkb(v != 0))
    if isinstance(n, int) and n <= 3:
        # small concrete: decide membership by forking
        sel = [k for k in range(n) if bool(mkb(P(k)))]
        r = from_list(sel, 'i8')
        c.memo[key] = (src, r)
        return r
    kc = ix(c.canon_index(n))
    pc = zb(P(kc))
    for (n2, p2, src2, r2) in c.wheres[-8:]:
        if n2 is n or (not isinstance(n, int) and not isinstance(n2, int) and zi(n2).eq(zi(n))) or (isinstance(n, int) and n2 == n):
            if _iff_known(c, inrange(kc, n), p2, pc):
                c.memo[key] = (src, r2)
                return r2.copy()
    name = c.fresh_name('sel')
    m = z3.Int(name + '_n')
    S = z3.Function(name + '_at', z3.IntSort(), z3.IntSort())
    K = z3.Function(name + '_rank', z3.IntSort(), z3.IntSort())
    c.fact(z3.And(m >= 0, m <= zi(n)))
    ranks = {}     # id of rank term -> element
    ats = {}

    def at(idx):
        k = idx[0]
        if not isinstance(k, int) and k.get_id() in ranks:
            return mki(zx(ranks[k.get_id()][1]))
        s = S(zx(k))
        e = ix(s)
        r = inrange(k, mki(m))
        ats[(k if isinstance(k, int) else k.get_id())] = (k, s)
        if len(ats) <= 4:
            c.reg_index(e, n)
        c.fact(Implies(r, And(inrange(e, n), P(e), K(s) == zx(k))))
        # order preserving
        for (k2, s2) in list(ats.values())[:12]:
            if k2 is not k:
                c.fact(Implies(And(r, inrange(k2, mki(m))),
                               And(Implies(zx(k2) < zx(k), s2 < s), Implies(zx(k) < zx(k2), s < s2))))
        return mki(s)

    def contains(i):
        p = And(inrange(i, n), P(i))
        if p is not False:
            rank(i)
        return p

    def rank(i):
        r = ix(K(zx(i)))
        ranks[r.get_id()] = (r, i)
        ins = And(inrange(i, n), P(i))
        # ranks of indices outside the selection are -1 (a free choice), so that at(rank(i)) = i whenever rank(i) is in range
        c.fact(Implies(ins, And(inrange(r, mki(m)), S(zx(r)) == zx(i))))
        c.fact(Or(ins, zx(r) == -1))
        return r
    # m > 0 has a witness; m == 0 means none: any evaluated element gets ranked
    src.add_watch(lambda idx, v: rank(idx[0]))
    r = SArr((mki(m),), at, 'i8', iset=ISet(contains, rank))
    w0 = at((0,))
    c.reg_univ(n, contains)
    c.reg_index(ix(zi(w0)), n)
    if isinstance(n, int):
        for k in range(min(n, 16)):
            src((k,))
    c.memo[key] = (src, r)
    c.wheres.append((n, pc, src, r))
    return r.copy()


def _iff_known(c, rng, a, b):
    """a and b agree at an arbitrary index, so everywhere"""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        a, b = (z3.BoolVal(a) if isinstance(a, bool) else a), (z3.BoolVal(b) if isinstance(b, bool) else b)
    if a.eq(b):
        return True
    return c.known(Implies(rng, mkb(a == b)))


# ---------------------------------------------------------------- reductions
def _skolem(n, base='k'):
    c = _c()
    k = ix(c.fresh_int(base))
    return k


def all_known(a, pred):
    """pred holds at an arbitrary in-range element (so at all)"""
    c = _c()
    k = _skolem(a._shape[0], 'kall')
    v = a.at((k,))
    return c.known(Implies(inrange(k, a._shape[0]), pred(v)))


def _axis_concrete(a, axis, f):
    """apply reduction f(list) along a concrete axis"""
    if axis < 0:
        axis += a.ndim
    n = a._shape[axis]
    if not isinstance(n, int):
        return None
    s = a.snap()
    sh = a._shape[:axis] + a._shape[axis + 1:]

    def g(idx):
        return f([s(idx[:axis] + (k,) + idx[axis:]) for k in range(n)])
    if not sh:
        return g(())
    return SArr(sh, g, a.dt if a.dt.kind != 'b' else 'i8')


def _fsum(vals):
    r = 0
    for v in vals:
        r = v + r if isinstance(v, SVal) else r + v
    return r


def red_sum(a, axis=None, **kw):
    c = _c()
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if not isinstance(a, SArr):
        return a
    if axis is not None and a.ndim > 1:
        r = _axis_concrete(a, axis, _fsum)
        if r is None:
            if axis < 0:
                axis += a.ndim
            s = a.snap()
            n = a._shape[axis]
            sh = a._shape[:axis] + a._shape[axis + 1:]

            def g(idx):
                row = SArr((n,), lambda j: s(idx[:axis] + (j[0],) + idx[axis:]), a.dt)
                return red_sum(row)
            return SArr(sh, g, a.dt)
        return r
    if a.ndim == 0:
        return a.at(())
    if a.ndim > 1:
        return red_sum(a.ravel())
    n = a._shape[0]
    if isinstance(n, int) and n <= 40:
        r = _fsum([a.at((k,)) for k in range(n)])
        return fl(r) if a.dt.kind == 'f' else r
    if a.dt.kind == 'b':
        # count of true entries
        w = where1(a)
        return w._shape[0]
    isI = a.dt.kind in 'iu'
    src = a.snap()
    key = ('sum', id(src))
    if key in c.memo:
        return c.memo[key][1]
    k = _skolem(n, 'ksum')
    v = src((k,))
    rng = inrange(k, n)
    # equal to an earlier sum?
    for (src2, n2, isI2, val) in c.sums:
        if isI2 == isI and _same(n, n2):
            w = src2((k,))
            same = (zi(v) == zi(w)) if isI else core.f_same(fl(v), fl(w))
            if c.known(Implies(rng, same)):
                c.memo[key] = (src, val)
                return val
    # a positive multiple of an earlier sum?
    t = c.fresh_int('sum') if isI else c.fresh_real('sum')
    c.fact(Implies(zi(n) == 0, t == 0))

    def val_(x):
        return zi(x) if isI else fl(x).v
    finite = True if isI else c.known(Implies(rng, fl(v).fin()))
    nonneg = c.known(Implies(rng, And(True if isI else fl(v).fin(), val_(v) >= 0)))
    if nonneg:
        c.fact(t >= 0)
        src.add_watch(lambda idx, x: c.fact(Implies(inrange(idx[0], n), t >= val_(x))))
        c.reg_univ(n, lambda i: src((i,)))
        if c.known(Implies(rng, val_(v) > 0)):
            c.fact(Implies(zi(n) > 0, t > 0))
        # zero sum <-> all zero
        wk = ix(c.fresh_int('ksumw'))
        wv = val_(src((wk,)))
        c.fact(Implies(t > 0, And(inrange(wk, n), wv > 0)))
    if c.known(Implies(rng, val_(v) == 0)) and finite:
        c.fact(t == 0)
    if nonneg and c.known(Implies(rng, val_(v) <= 1)):
        c.fact(t <= (zi(n) if isI else z3.ToReal(zi(n))))
    if isI:
        out = mki(t)
    elif finite:
        out = SFloat(t)
    else:
        out = SFloat(t, c.fresh_bool('sumnan'), c.fresh_bool('sumpinf'), c.fresh_bool('sumninf'))
        c.fact(z3.Not(z3.And(out.nan, out.pinf)))
        c.fact(z3.Not(z3.And(out.nan, out.ninf)))
        c.fact(z3.Not(z3.And(out.ninf, out.pinf)))
    c.sums.append((src, n, isI, out))
    c.memo[key] = (src, out)
    return out


def red_prod(a, axis=None):
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if axis is not None and a.ndim > 1:
        def fp(vals):
            r = 1
            for v in vals:
                r = v * r if isinstance(v, SVal) else r * v
            return r
        r = _axis_concrete(a, axis, fp)
        if r is not None:
            return r
    if a.ndim == 1 and isinstance(a._shape[0], int):
        r = 1
        for k in range(a._shape[0]):
            v = a.at((k,))
            r = v * r if isinstance(v, SVal) else r * v
        return r
    raise Unsupported('prod')


def red_ext(a, which, axis=None):
    c = _c()
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if not isinstance(a, SArr):
        return a
    if a.ndim == 0:
        return a.at(())
    better = core.f_max2 if which == 'max' else core.f_min2

    def red(vals):
        r = vals[0]
        for v in vals[1:]:
            r = better(r, v)
        return r
    if axis is not None and a.ndim > 1:
        r = _axis_concrete(a, axis, red)
        if r is None:
            raise Unsupported('%s over a symbolic axis' % which)
        return r
    if a.ndim > 1:
        a = a.ravel()
    n = a._shape[0]
    if isinstance(n, int):
        if n == 0:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % which)
        if n <= 40:
            return red([a.at((k,)) for k in range(n)])
    elif not c.known(zi(n) > 0):
        if not c.decide(zi(n) > 0):
            raise ValueError('zero-size array to reduction operation %s which has no identity' % which)
    src = a.snap()
    key = (which, id(src))
    if key in c.memo:
        return c.memo[key][1]
    if a.dt.kind == 'b':
        return red_any(a) if which == 'max' else red_all(a)
    wk = ix(c.fresh_int('k' + which))
    c.fact(inrange(wk, n))
    w = src((wk,))
    isI = a.dt.kind in 'iu'
    if isI:
        out = w

        def watch(idx, v):
            c.fact(Implies(inrange(idx[0], n), (zi(w) >= zi(v)) if which == 'max' else (zi(w) <= zi(v))))
    else:
        k = _skolem(n, 'kext')
        nonan = c.known(Implies(inrange(k, n), Not(fl(src((k,))).nan)))
        out = fl(w)
        if not nonan:
            # a NaN anywhere makes the result NaN: the witness is that entry
            def watch(idx, v):
                v = fl(v)
                c.fact(Implies(And(inrange(idx[0], n), Not(out.nan)),
                               And(Not(v.nan), core.f_le(v, out) if which == 'max' else core.f_le(out, v))))
        else:
            def watch(idx, v):
                v = fl(v)
                c.fact(Implies(inrange(idx[0], n), core.f_le(v, out) if which == 'max' else core.f_le(out, v)))
    src.add_watch(watch)
    src.link()
    c.reg_univ(n, lambda i: src((i,)))
    c.reg_index(wk, n)
    c.memo[key] = (src, out)
    return out


def red_any(a, axis=None):
    c = _c()
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if not isinstance(a, SArr):
        return mkb(a)
    if a.ndim == 0:
        return a.at(())
    if axis is not None and a.ndim > 1:
        r = _axis_concrete(a, axis, lambda vs: mkb(Or(*[_tb(v) for v in vs])))
        if r is None:
            raise Unsupported('any over a symbolic axis')
        if isinstance(r, SArr):
            r.dt = DT('?')
        return r
    n = a.size
    if isinstance(n, int) and n <= 40:
        return mkb(Or(*[_tb(a.at(unravel(k, a._shape))) for k in range(n)]))
    src = a.snap()
    key = ('any', id(src))
    if key in c.memo:
        return c.memo[key][1]
    B = c.fresh_bool('any')
    ks = tuple(ix(c.fresh_int('kany')) for _ in a._shape)
    sh = a._shape
    c.fact(Implies(B, And(*[inrange(k, m) for k, m in zip(ks, sh)], _tb(src(ks)))))
    src.add_watch(lambda idx, v: c.fact(Implies(And(*[inrange(k, m) for k, m in zip(idx, sh)], _tb(v)), B)))
    out = SBool(B)
    if len(sh) == 1:
        c.reg_univ(sh[0], lambda i: src((i,)))
        c.reg_index(ks[0], sh[0])
    c.memo[key] = (src, out)
    return out


def _tb(v):
    if isinstance(v, (bool, SBool)):
        return zb(v)
    return zb(mkb(v != 0))


def red_all(a, axis=None):
    if isinstance(a, SArr) and a.ndim > 0:
        r = red_any(ew1(a, lambda v: mkb(Not(_tb(v))), '?'), axis)
        return ~r if isinstance(r, (SArr, SBool)) else (not r)
    return mkb(a if not isinstance(a, SArr) else a.at(()))


def argext(a, which):
    c = _c()
    if a.ndim > 1:
        a = a.ravel()
    n = a._shape[0]
    if isinstance(n, int):
        if n == 0:
            raise ValueError('attempt to get arg%s of an empty sequence' % which)
    elif not c.known(zi(n) > 0):
        if not c.decide(zi(n) > 0):
            raise ValueError('attempt to get arg%s of an empty sequence' % which)
    src = a.snap()
    key = ('arg' + which, id(src))
    if key in c.memo:
        return c.memo[key][1]
    wk = c.fresh_int('karg')
    c.fact(inrange(wk, n))
    w = fl(src((ix(wk),)))

    def watch(idx, v):
        v = fl(v)
        le = core.f_le(w, v) if which == 'min' else core.f_le(v, w)
        lt = core.f_lt(w, v) if which == 'min' else core.f_lt(v, w)
        nn = And(Not(w.nan), Not(v.nan))
        c.fact(Implies(And(inrange(idx[0], n), nn), And(le, Implies(zx(idx[0]) < wk, lt))))
        # numpy: the first NaN is the extremum
        c.fact(Implies(And(inrange(idx[0], n), v.nan), And(w.nan, wk <= zx(idx[0]))))
    src.add_watch(watch)
    src.link()
    if isinstance(n, int) and n <= 40:
        for k in range(n):
            src((k,))
    c.reg_univ(n, lambda i: src((i,)))
    c.reg_index(ix(wk), n)
    out = mki(wk)
    c.memo[key] = (src, out)
    return out


def argsort(a):
    """a permutation putting a in non-decreasing order"""
    c = _c()
    if a.ndim != 1:
        raise Unsupported('argsort n-d')
    n = a._shape[0]
    src = a.snap()
    key = ('argsort', id(src))
    if key in c.memo:
        return c.memo[key][1].copy()
    name = c.fresh_name('perm')
    S = z3.Function(name, z3.IntSort(), z3.IntSort())
    K = z3.Function(name + '_inv', z3.IntSort(), z3.IntSort())
    ranks = {}
    ats = {}

    def at(idx):
        k = idx[0]
        if not isinstance(k, int) and k.get_id() in ranks:
            return mki(zx(ranks[k.get_id()][1]))
        s = S(zx(k))
        r = inrange(k, n)
        c.fact(Implies(r, And(inrange(ix(s), n), K(s) == zx(k))))
        kk = k if isinstance(k, int) else k.get_id()
        if kk not in ats:
            v = fl(src((ix(s),)))
            for (k2, v2) in list(ats.values())[:12]:
                c.fact(Implies(And(r, inrange(k2, n), Not(v.nan), Not(v2.nan)),
                               And(Implies(zx(k2) <= zx(k), core.f_le(v2, v)), Implies(zx(k) <= zx(k2), core.f_le(v, v2)))))
            ats[kk] = (k, v)
        return mki(s)

    def rank(i):
        r = ix(K(zx(i)))
        ranks[r.get_id()] = (r, i)
        c.fact(Implies(inrange(i, n), And(inrange(r, n), S(zx(r)) == zx(i))))
        kk = r if isinstance(r, int) else r.get_id()
        if kk not in ats:
            v = fl(src((i,)))
            rr = inrange(r, n)
            for (k2, v2) in list(ats.values())[:12]:
                c.fact(Implies(And(rr, inrange(k2, n), Not(v.nan), Not(v2.nan)),
                               And(Implies(zx(k2) <= zx(r), core.f_le(v2, v)), Implies(zx(r) <= zx(k2), core.f_le(v, v2)))))
            ats[kk] = (r, v)
        return r
    r = SArr((n,), at, 'i8', iset=ISet(lambda i: inrange(i, n), rank))
    c.memo[key] = (src, r)
    return r.copy()


def searchsorted(bins, v, side='left', **kw):
    c = _c()
    if isinstance(v, (list, tuple)):
        v = asarr(v)
    if isinstance(v, SArr) and v.ndim > 0:
        return ew1(v, lambda x: searchsorted(bins, x, side), 'i8')
    if isinstance(v, SArr):
        v = v.at(())
    n = bins._shape[0]
    src = bins.snap()
    isI = bins.dt.kind in 'iu' and isint(v)
    vk = zi(v) if isI else fl(v).v
    key = ('ss', id(src), vk.get_id(), side)
    if key in c.memo:
        return c.memo[key][1]
    j = c.fresh_int('ss')
    c.fact(z3.And(j >= 0, j <= zi(n)))
    nan = False if isI else fl(v).nan
    c.fact(Implies(nan, j == zi(n)))

    def watch(idx, b):
        if isI:
            lo, hi = ((zi(b) < zi(v)), (zi(b) >= zi(v))) if side == 'left' else ((zi(b) <= zi(v)), (zi(b) > zi(v)))
        else:
            fb, fv = fl(b), fl(v)
            if side == 'left':
                lo, hi = core.f_lt(fb, fv), core.f_le(fv, fb)
            else:
                lo, hi = core.f_le(fb, fv), core.f_lt(fv, fb)
        c.fact(Implies(And(inrange(idx[0], n), Not(nan)),
                       And(Implies(zx(idx[0]) < j, lo), Implies(zx(idx[0]) >= j, hi))))
    src.add_watch(watch)
    src((ix(j),))
    src((ix(j - 1),))
    out = mki(j)
    c.memo[key] = ((src, vk), out)
    return out


def clip(a, lo, hi):
    def f1(x):
        return x

    if isinstance(a, (list, tuple)):
        a = asarr(a)
    r = a
    if lo is not None:
        r = ew2(r, lo, core.f_max2) if (isinstance(r, SArr) or isinstance(lo, SArr)) else core.f_max2(r, lo)
    if hi is not None:
        r = ew2(r, hi, core.f_min2) if (isinstance(r, SArr) or isinstance(hi, SArr)) else core.f_min2(r, hi)
    return r


# ---------------------------------------------------------------- records
class SRec(object):
    """a 1-d structured array"""
    _is_srec = True

    def __init__(self, n, dt, fields=None):
        self.n = n
        self.dt = dt
        self.dt.owners = getattr(dt, 'owners', []) + [self]
        self.f = fields if fields is not None else {}
        if fields is None:
            for nm, code, sh in dt.fields_:
                k = kind(code)
                z = {'f': 0.0, 'i': 0, 'u': 0, 'b': False, 'U': '', 'S': ''}.get(k, 0)
                self.f[nm] = SArr((n,) + tuple(sh), lambda idx, z=z: z, code)

    def _rename(self, old, new):
        vals = [self.f[o] for o in old]
        self.f = dict(zip(new, vals))

    @property
    def dtype(self):
        return self.dt

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def ndim(self):
        return 1

    def symlen(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len() of symbolic record array')

    def __iter__(self):
        if not isinstance(self.n, int):
            raise Unsupported('iteration over symbolic record array')
        for i in range(self.n):
            yield self[i]

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self.f:
                return self.f[key]
            raise ValueError('no field of name %s' % key)
        if isinstance(key, (list,)) and key and all(isinstance(k, str) for k in key):
            d = DT([t for t in self.dt.descr if t[0] in key])
            return SRec(self.n, d, {k: self.f[k] for k in key})
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, SArr) and key.ndim == 0:
            key = key.at(())
        if isint(key):
            return SRow(self, chk_index(key, self.n))
        if key is Ellipsis:
            key = slice(None)
        fs = {}
        n = None
        if _is_boolarr(key):
            key = where1(key)
        if isinstance(key, (list, range)):
            key = asarr(list(key), 'i8')
        for nm in self.f:
            fs[nm] = self.f[nm][key]
            n = fs[nm]._shape[0]
        if n is None:
            raise Unsupported('empty record')
        return SRec(n, DT(self.dt), fs)

    def __setitem__(self, key, val):
        if isinstance(key, str):
            if key not in self.f:
                raise ValueError('no field of name %s' % key)
            self.f[key][...] = val
            return
        if isinstance(val, (SRec, SRow)):
            if list(val.dtype.names) != list(self.dt.names):
                if len(val.dtype.names) != len(self.dt.names):
                    raise ValueError('could not assign records')
            for a, b in zip(self.dt.names, val.dtype.names):
                self.f[a][key] = val[b]
            return
        raise Unsupported('record assignment')

    def copy(self):
        return SRec(self.n, DT(self.dt), {k: v.copy() for k, v in self.f.items()})

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __hash__(self):
        return id(self)

    def __array__(self, *a):
        raise Unsupported('np conversion of symbolic record')

    def astype(self, dt):
        dt = DT(dt)
        return SRec(self.n, dt, {k: self.f[k].astype(dt[k]) for k in dt.names})


class SRow(object):
    """one record (numpy.void): a view into its array"""
    _is_srow = True
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, rec, i):
        self.rec = rec
        self.i = i

    @property
    def dtype(self):
        return self.rec.dt

    def __getitem__(self, key):
        if isinstance(key, str):
            if key not in self.rec.f:
                raise ValueError('no field of name %s' % key)
            return self.rec.f[key][mki(zx(self.i)) if not isinstance(self.i, int) else self.i]
        if isinstance(key, tuple) and key == ():
            return self
        raise IndexError('invalid index')

    def __setitem__(self, key, val):
        if isinstance(key, str):
            if key not in self.rec.f:
                raise ValueError('no field of name %s' % key)
            self.rec.f[key][self.i if isinstance(self.i, int) else mki(self.i)] = val
            return
        raise Unsupported('row assignment')

    def copy(self):
        r = self.rec[SRowSlice(self.i)] if False else None
        fs = {}
        for nm, a in self.rec.f.items():
            s = a.snap()
            i = self.i
            fs[nm] = SArr((1,) + a._shape[1:], lambda idx, s=s: s((i,) + tuple(idx[1:])), a.dt)
        return SRow(SRec(1, DT(self.rec.dt), fs), 0)

    def __deepcopy__(self, memo):
        return self.copy()

    def __hash__(self):
        return id(self)


class SRowSlice(object):
    def __init__(self, i):
        pass
