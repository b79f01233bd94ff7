"""Paths, verification conditions and symbolic scalars."""
import sys
import time
import math
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param('smt.random_seed', 7)


class PathAbort(BaseException):
    """Stop the current path (infeasible, or finished early)."""


class Unsupported(BaseException):
    """The code left the subset the verifier models."""
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        if CTX is not None:
            CTX.unsupported = CTX.unsupported or str(msg)


class Budget(BaseException):
    pass


CTX = None   # the active symbolic context


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


# ---------------------------------------------------------------- booleans
def zb(x):
    """python bool / SBool / z3 Bool -> z3 Bool or python bool"""
    if isinstance(x, SBool):
        return x.b
    if x is True or x is False:
        return x
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return x
    if hasattr(x, 'dtype') and hasattr(x, 'item') and not isinstance(x, SVal):
        return bool(x)
    raise Unsupported('not a boolean: %r' % (type(x),))


def And(*xs):
    out = []
    for x in xs:
        x = zb(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = zb(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    x = zb(x)
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = zb(a), zb(b)
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if a.eq(b):
        return True
    return a == b


def z3b(x):
    x = zb(x)
    if x is True or x is False:
        return z3.BoolVal(x)
    return x


# ---------------------------------------------------------------- numbers
def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def rv(x):
    """number -> z3 real value"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def znum(e):
    """z3 numeral -> Fraction, or None"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def r_add(a, b):
    x, y = znum(a), znum(b)
    if x is not None and y is not None:
        return rv(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    return a + b


def r_sub(a, b):
    x, y = znum(a), znum(b)
    if x is not None and y is not None:
        return rv(x - y)
    if y == 0:
        return a
    return a - b


def r_mul(a, b):
    x, y = znum(a), znum(b)
    if x is not None and y is not None:
        return rv(x * y)
    if x == 0 or y == 0:
        return rv(0)
    if x == 1:
        return b
    if y == 1:
        return a
    return a * b


def r_div(a, b):
    x, y = znum(a), znum(b)
    if y is not None and y != 0:
        if x is not None:
            return rv(x / y)
        if y == 1:
            return a
        return a * rv(1 / y)
    if x == 0:
        return rv(0)
    return a / b


def r_ite(c, a, b):
    c = zb(c)
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def b_ite(c, a, b):
    c, a, b = zb(c), zb(a), zb(b)
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return Not(c)
    if isinstance(a, bool) and isinstance(b, bool):
        return a if a == b else (c if a else Not(c))
    return Or(And(c, a), And(Not(c), b))


class SVal(object):
    ndim = 0
    shape = ()
    __array_priority__ = 1000

    def __hash__(self):
        return id(self)

    @property
    def size(self):
        return 1

    def copy(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SBool(SVal):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CTX.decide(self.b)

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        return mkb(And(self, o))
    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        return mkb(Or(self, o))
    __ror__ = __or__

    def __invert__(self):
        return mkb(Not(self))

    def __xor__(self, o):
        return mkb(Not(Iff(self, o)))

    def __eq__(self, o):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (SInt, SFloat)) or is_num(o):
            return self._i() == o
        if isinstance(o, (bool, SBool)):
            return mkb(Iff(self, o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkb(Not(r))
    __hash__ = SVal.__hash__

    def _i(self):
        return SInt(z3.If(z3b(self), z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        if _isarr(o):
            return NotImplemented
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        if _isarr(o):
            return NotImplemented
        return self._i() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        if _isarr(o):
            return NotImplemented
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def astype(self, dt):
        return cast(self, dt)

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o


def mkb(x):
    x = zb(x)
    if x is True or x is False:
        return x
    return SBool(x)


def _isarr(o):
    return getattr(o, '_is_sarr', False)


def mki(e):
    if isinstance(e, int):
        return int(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def zi(x):
    """int-like -> z3 Int"""
    if isinstance(x, SInt):
        return x.i
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return x._i().i
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    if hasattr(x, '__index__') and not isinstance(x, SVal):
        return z3.IntVal(x.__index__())
    if _isarr(x) and x.ndim == 0:
        return zi(x.at(()))
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    raise Unsupported('not an int: %r' % (x,))


def isint(x):
    return isinstance(x, (int, SInt)) or (isinstance(x, z3.ArithRef) and x.is_int())


def _in_message():
    """is the caller formatting ('...' % x) the message of an exception it is about to raise?  Messages are not part of any contract"""
    import dis
    import sys
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == __file__:
        f = f.f_back
    it = iter(dis.get_instructions(f.f_code))
    for i in it:
        if i.offset == f.f_lasti:
            if i.opname not in ('BINARY_OP', 'BINARY_MODULO'):
                return False
            break
    for i in it:
        if i.opname == 'RAISE_VARARGS':
            return True
        if i.opname.startswith(('STORE', 'RETURN', 'POP_TOP', 'POP_JUMP', 'JUMP', 'FOR_')):
            return False
    return False


class SInt(SVal):
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __index__(self):
        n = znum(self.i)
        if n is not None:
            return int(n)
        if _in_message():
            return 0
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def _bin(self, o, f, ff):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (bool, SBool)):
            o = o._i() if isinstance(o, SBool) else int(o)
        if isint(o):
            return mki(z3.simplify(f(self.i, zi(o))))
        if isinstance(o, (float, Fraction, SFloat)):
            return ff(fl(self), fl(o))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, f_add)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, f_add)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, f_sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda a, b: f_sub(b, a))
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, f_mul)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, f_mul)

    def __truediv__(self, o):
        if _isarr(o):
            return NotImplemented
        return f_div(fl(self), fl(o))

    def __rtruediv__(self, o):
        return f_div(fl(o), fl(self))

    def __floordiv__(self, o):
        if _isarr(o):
            return NotImplemented
        if isint(o):
            n = znum(zi(o))
            if n is not None and n > 0:
                return mki(z3.simplify(self.i / zi(o)))
            return i_floordiv(self.i, zi(o))
        return f_floor(f_div(fl(self), fl(o)))

    def __rfloordiv__(self, o):
        return i_floordiv(zi(o), self.i)

    def __mod__(self, o):
        if _isarr(o):
            return NotImplemented
        if isint(o):
            n = znum(zi(o))
            if n is not None and n > 0:
                return mki(z3.simplify(self.i % zi(o)))
            return mki(self.i - zi(i_floordiv(self.i, zi(o))) * zi(o))
        raise Unsupported('int % float')

    def __rmod__(self, o):
        return mki(zi(o) - zi(i_floordiv(zi(o), self.i)) * self.i)

    def __neg__(self): return mki(z3.simplify(-self.i))
    def __pos__(self): return self
    def __abs__(self): return mki(z3.If(self.i >= 0, self.i, -self.i))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return f_pow(fl(self), fl(o))

    def __rpow__(self, o):
        return f_pow(fl(o), fl(self))

    def _cmp(self, o, f, ff):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SBool):
            o = o._i()
        if isint(o):
            return mkb(z3.simplify(f(self.i, zi(o))))
        if isinstance(o, (float, Fraction, SFloat)):
            return mkb(ff(fl(self), fl(o)))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, f_lt)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, f_le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: f_lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: f_le(b, a))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, f_eq)
        return r if r is not NotImplemented or _isarr(o) else False

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: Not(f_eq(a, b)))
        return r if r is not NotImplemented or _isarr(o) else True
    __hash__ = SVal.__hash__

    def __bool__(self):
        return CTX.decide(self.i != 0)

    def __and__(self, o): raise Unsupported('bit op')
    __rand__ = __or__ = __ror__ = __xor__ = __lshift__ = __rshift__ = __invert__ = __and__

    def astype(self, dt):
        return cast(self, dt)

    def __repr__(self):
        return 'SInt(%s)' % (self.i,)

    def __format__(self, spec):
        return '<sym>'

    def __int__(self):
        return self.__index__()

    def clip(self, lo=None, hi=None):
        return f_clip(self, lo, hi)

    @property
    def dtype(self):
        from . import arr
        return arr.DT('i8')


def i_floordiv(a, b):
    c = CTX
    if not c.known(b != 0):
        if c.decide(b == 0):
            raise ZeroDivisionError('integer division by zero')
    if c.known(b > 0):
        return mki(a / b)
    q = z3.If(b > 0, a / b, -(a / -b) - z3.If(a % (-b) == 0, 0, 1))
    # general floor for negative divisors: (-a) / (-b)
    q = z3.If(b > 0, a / b, (-a) / (-b))
    return mki(q)


class SFloat(SVal):
    """Extended real: finite value v, or NaN / +inf / -inf by flag."""
    __slots__ = ('v', 'nan', 'pinf', 'ninf')

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v = v
        self.nan = zb(nan)
        self.pinf = zb(pinf)
        self.ninf = zb(ninf)

    def const(self):
        """python float/Fraction if fully concrete else None"""
        if self.nan is True:
            return float('nan')
        if self.pinf is True:
            return float('inf')
        if self.ninf is True:
            return float('-inf')
        if self.nan is False and self.pinf is False and self.ninf is False:
            return znum(self.v)
        return None

    def fin(self):
        return And(Not(self.nan), Not(self.pinf), Not(self.ninf))

    def _b(self, o, f, swap=False):
        if _isarr(o):
            return NotImplemented
        try:
            g = fl(o)
        except TypeError:
            return NotImplemented
        return f(g, self) if swap else f(self, g)

    def __add__(self, o): return self._b(o, f_add)
    def __radd__(self, o): return self._b(o, f_add, True)
    def __sub__(self, o): return self._b(o, f_sub)
    def __rsub__(self, o): return self._b(o, f_sub, True)
    def __mul__(self, o): return self._b(o, f_mul)
    def __rmul__(self, o): return self._b(o, f_mul, True)
    def __truediv__(self, o): return self._b(o, f_div)
    def __rtruediv__(self, o): return self._b(o, f_div, True)
    def __floordiv__(self, o): return self._b(o, lambda a, b: f_floor(f_div(a, b)))

    def __pow__(self, o):
        return self._b(o, f_pow)

    def __rpow__(self, o):
        return self._b(o, f_pow, True)

    def __mod__(self, o):
        raise Unsupported('float mod')

    def __neg__(self): return f_neg(self)
    def __pos__(self): return self
    def __abs__(self): return f_abs(self)

    def _c(self, o, f):
        if _isarr(o):
            return NotImplemented
        try:
            g = fl(o)
        except TypeError:
            return NotImplemented
        return mkb(f(self, g))

    def __lt__(self, o): return self._c(o, f_lt)
    def __le__(self, o): return self._c(o, f_le)
    def __gt__(self, o): return self._c(o, lambda a, b: f_lt(b, a))
    def __ge__(self, o): return self._c(o, lambda a, b: f_le(b, a))

    def __eq__(self, o):
        r = self._c(o, f_eq)
        return r if r is not NotImplemented or _isarr(o) else False

    def __ne__(self, o):
        r = self._c(o, lambda a, b: Not(f_eq(a, b)))
        return r if r is not NotImplemented or _isarr(o) else True
    __hash__ = SVal.__hash__

    def __bool__(self):
        return CTX.decide(Not(f_eq(self, fl(0))))

    def astype(self, dt):
        return cast(self, dt)

    def __repr__(self):
        return 'SFloat(%s%s)' % (self.v, '' if self.fin() is True else ' ext')

    def __format__(self, spec):
        return '<sym>'

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported('symbolic float used where a concrete one is needed')
        return float(c)

    def clip(self, lo=None, hi=None):
        return f_clip(self, lo, hi)

    def max(self): return self
    def min(self): return self
    def sum(self): return self

    @property
    def dtype(self):
        from . import arr
        return arr.DT('f8')


def fl(x):
    """anything numeric -> SFloat"""
    if isinstance(x, SFloat):
        return x
    if isinstance(x, SInt):
        return SFloat(z3.ToReal(x.i))
    if isinstance(x, SBool):
        return SFloat(z3.If(x.b, rv(1), rv(0)))
    if isinstance(x, bool):
        return SFloat(rv(int(x)))
    if isinstance(x, (int, Fraction)):
        return SFloat(rv(x))
    if isinstance(x, float):
        if x != x:
            return SFloat(rv(0), nan=True)
        if x == math.inf:
            return SFloat(rv(0), pinf=True)
        if x == -math.inf:
            return SFloat(rv(0), ninf=True)
        return SFloat(rv(x))
    if isinstance(x, z3.ArithRef):
        return SFloat(z3.ToReal(x) if x.is_int() else x)
    if _isarr(x) and x.ndim == 0:
        return fl(x.at(()))
    if hasattr(x, 'item') and not isinstance(x, SVal) and not _isarr(x):
        return fl(x.item())
    raise TypeError('not a number: %r' % (type(x),))


def simp(f):
    return f


def f_neg(a):
    return SFloat(r_sub(rv(0), a.v), a.nan, a.ninf, a.pinf)


def _noext(a):
    return a.nan is False and a.pinf is False and a.ninf is False


def f_add(a, b):
    v = r_add(a.v, b.v)
    if _noext(a) and _noext(b):
        return SFloat(v)
    nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    return SFloat(v, nan, And(Or(a.pinf, b.pinf), Not(nan)), And(Or(a.ninf, b.ninf), Not(nan)))


def f_sub(a, b):
    if _noext(a) and _noext(b):
        return SFloat(r_sub(a.v, b.v))
    return f_add(a, f_neg(b))


def _isz(a):
    return And(a.fin(), cmp0(a.v, '=='))


def cmp0(v, op):
    n = znum(v)
    if n is not None:
        return {'==': n == 0, '>': n > 0, '<': n < 0}[op]
    z = rv(0)
    return {'==': v == z, '>': v > z, '<': v < z}[op]


def _pos(a):
    return Or(a.pinf, And(a.fin(), cmp0(a.v, '>')))


def _negv(a):
    return Or(a.ninf, And(a.fin(), cmp0(a.v, '<')))


def f_mul(a, b):
    v = r_mul(a.v, b.v)
    if _noext(a) and _noext(b):
        return SFloat(v)
    ia, ib = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    nan = Or(a.nan, b.nan, And(ia, _isz(b)), And(ib, _isz(a)))
    anyinf = And(Or(ia, ib), Not(nan))
    pos = Or(And(_pos(a), _pos(b)), And(_negv(a), _negv(b)))
    return SFloat(v, nan, And(anyinf, pos), And(anyinf, Not(pos)))


def f_div(a, b):
    n = znum(b.v)
    if _noext(b) and n is not None and n != 0:
        if _noext(a):
            return SFloat(r_div(a.v, b.v))
        return f_mul(a, SFloat(rv(1 / n)))
    if _noext(b) and CTX.known(b.v != 0):
        bz = False
    else:
        bz = _isz(b)
    if _noext(a) and _noext(b) and bz is False:
        return SFloat(r_div(a.v, b.v))
    ia, ib = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    nan = Or(a.nan, b.nan, And(ia, ib), And(_isz(a), bz))
    # zero denominators are taken as +0 (signed zeros are not modelled)
    pos = Or(And(_pos(a), Or(_pos(b), bz)), And(_negv(a), _negv(b)))
    inf = And(Or(And(ia, Not(ib)), And(bz, Not(_isz(a)))), Not(nan))
    v = r_ite(ib, rv(0), r_div(a.v, b.v))
    return SFloat(v, nan, And(inf, pos), And(inf, Not(pos)))


def f_abs(a):
    n = znum(a.v)
    v = rv(abs(n)) if n is not None else z3.If(a.v >= 0, a.v, -a.v)
    return SFloat(v, a.nan, Or(a.pinf, a.ninf), False)


def _rlt(a, b):
    x, y = znum(a), znum(b)
    if x is not None and y is not None:
        return x < y
    return a < b


def _rle(a, b):
    x, y = znum(a), znum(b)
    if x is not None and y is not None:
        return x <= y
    if a.eq(b):
        return True
    return a <= b


def _req(a, b):
    x, y = znum(a), znum(b)
    if x is not None and y is not None:
        return x == y
    if a.eq(b):
        return True
    return a == b


def f_lt(a, b):
    if _noext(a) and _noext(b):
        return _rlt(a.v, b.v)
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.fin(), b.fin(), _rlt(a.v, b.v)),
                  And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf))))


def f_le(a, b):
    if _noext(a) and _noext(b):
        return _rle(a.v, b.v)
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.fin(), b.fin(), _rle(a.v, b.v)), a.ninf, b.pinf))


def f_eq(a, b):
    if _noext(a) and _noext(b):
        return _req(a.v, b.v)
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.fin(), b.fin(), _req(a.v, b.v)),
                  And(a.pinf, b.pinf), And(a.ninf, b.ninf)))


def f_same(a, b):
    """identical extended-real values (NaN same as NaN)"""
    if _noext(a) and _noext(b):
        return _req(a.v, b.v)
    return And(Iff(a.nan, b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
               Or(Not(a.fin()), _req(a.v, b.v)))


def f_ite(c, a, b):
    c = zb(c)
    if c is True:
        return a
    if c is False:
        return b
    return SFloat(r_ite(c, a.v, b.v), b_ite(c, a.nan, b.nan), b_ite(c, a.pinf, b.pinf),
                  b_ite(c, a.ninf, b.ninf))


def ite(c, a, b):
    """typed if-then-else on scalars"""
    c = zb(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkb(b_ite(c, a, b))
    if isint(a) and isint(b):
        x, y = zi(a), zi(b)
        return mki(x if x.eq(y) else z3.If(c, x, y))
    if isinstance(a, (bool, SBool)) and isint(b):
        return ite(c, zi(a), b)
    if isinstance(b, (bool, SBool)) and isint(a):
        return ite(c, a, zi(b))
    if isinstance(a, SOpq) or isinstance(b, SOpq):
        a, b = opq(a), opq(b)
        return SOpq(z3.If(c, a.o, b.o))
    return f_ite(c, fl(a), fl(b))


def i_ite(c, a, b):
    c = zb(c)
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def f_clip(x, lo, hi):
    r = x
    if lo is not None:
        r = f_max2(r, lo)
    if hi is not None:
        r = f_min2(r, hi)
    return r


def f_max2(a, b):
    """np.maximum / np.clip semantics: NaN in `a` propagates"""
    if isint(a) and isint(b):
        return ite(mkb(a >= b), a, b)
    a, b = fl(a), fl(b)
    return f_ite(Or(a.nan, f_le(b, a)), a, b)


def f_min2(a, b):
    if isint(a) and isint(b):
        return ite(mkb(a <= b), a, b)
    a, b = fl(a), fl(b)
    return f_ite(Or(a.nan, f_le(a, b)), a, b)


# opaque values (strings and the like): only equality
OPQ = z3.DeclareSort('Opaque')
_opq_consts = {}


class SOpq(SVal):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        if _isarr(other):
            return NotImplemented
        return mkb(self.o == opq(other).o)

    def __ne__(self, other):
        if _isarr(other):
            return NotImplemented
        return mkb(self.o != opq(other).o)
    __hash__ = SVal.__hash__


def opq(x):
    if isinstance(x, SOpq):
        return x
    key = (type(x).__name__, x)
    if key not in _opq_consts:
        _opq_consts[key] = z3.Const('opq!%d' % len(_opq_consts), OPQ)
    c = _opq_consts[key]
    for k2, c2 in _opq_consts.items():
        if k2 != key and CTX is not None:
            CTX.fact(c != c2)
    return SOpq(c)


# ------------------------------------------------- uninterpreted functions
R = z3.RealSort()
I = z3.IntSort()
_UF = {}


def uf(name, *sorts):
    if (name, len(sorts)) not in _UF:
        _UF[(name, len(sorts))] = z3.Function(name, *sorts)
    return _UF[(name, len(sorts))]


def ruf(name, *args):
    """apply real-valued uninterpreted function to z3 reals"""
    return uf(name, *([a.sort() for a in args] + [R]))(*args)


def f_unary(name, a, pyf, axioms, dom=None, nanout=None):
    """an elementary function by assumed axioms"""
    a = fl(a)
    n = a.const()
    if n is not None and pyf is not None and not isinstance(n, float):
        try:
            return fl(float(pyf(float(n))))
        except (ValueError, OverflowError):
            pass
    t = ruf(name, a.v)
    for f in axioms(a.v, t):
        CTX.fact(f)
    _mono(name, a.v, t)
    return SFloat(t, a.nan, False, False)


_MONO = {'exp': 1, 'log': 1, 'sqrt': 1, 'erf': 1, 'log10': 1, 'arcsinh': 1}


def _mono(name, x, t):
    """monotonicity between applications of the same function on this path"""
    if name not in _MONO:
        return
    seen = CTX.apps.setdefault(name, {})
    k = x.get_id()
    if k in seen:
        return
    for (y, u) in seen.values():
        CTX.fact(z3.Implies(_dom(name, x, y), z3.And(z3.Implies(x < y, t < u if name != 'erf' else t <= u),
                                                     z3.Implies(y < x, u < t if name != 'erf' else u <= t))))
    seen[k] = (x, t)


def _dom(name, x, y):
    if name in ('log', 'log10'):
        return z3.And(x > 0, y > 0)
    if name == 'sqrt':
        return z3.And(x >= 0, y >= 0)
    return z3.BoolVal(True)


def f_exp(a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(math.exp(float(n)))
    t = ruf('exp', a.v)
    CTX.fact(t > 0)
    CTX.fact(z3.Implies(a.v <= 0, t <= 1))
    CTX.fact(z3.Implies(a.v >= 0, t >= 1))
    _mono('exp', a.v, t)
    # exp(-inf) = 0, exp(inf) = inf
    return SFloat(r_ite(a.ninf, rv(0), t), a.nan, a.pinf, False)


def f_log(a, name='log'):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float) and n > 0:
        return fl(math.log(float(n)) if name == 'log' else math.log10(float(n)))
    t = ruf(name, a.v)
    CTX.fact(z3.Implies(a.v > 1, t > 0))
    CTX.fact(z3.Implies(z3.And(a.v > 0, a.v < 1), t < 0))
    CTX.fact(z3.Implies(a.v == 1, t == 0))
    _mono(name, a.v, t)
    if _noext(a) and CTX.known(a.v > 0):
        return SFloat(t)
    return SFloat(t, Or(a.nan, _negv(a)), a.pinf, _isz(a))


def f_sqrt(a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float) and n >= 0:
        return fl(math.sqrt(float(n)))
    t = ruf('sqrt', a.v)
    CTX.fact(z3.Implies(a.v >= 0, z3.And(t >= 0, t * t == a.v)))
    if _noext(a) and CTX.known(a.v >= 0):
        return SFloat(t)
    return SFloat(t, Or(a.nan, _negv(a)), a.pinf, False)


def f_erf(a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(math.erf(float(n)))
    t = ruf('erf', a.v)
    CTX.fact(z3.And(t >= -1, t <= 1))
    CTX.fact(z3.Implies(a.v > 0, t > 0))
    CTX.fact(z3.Implies(a.v < 0, t < 0))
    CTX.fact(z3.Implies(a.v == 0, t == 0))
    _mono('erf', a.v, t)
    v = r_ite(a.pinf, rv(1), r_ite(a.ninf, rv(-1), t))
    return SFloat(v, a.nan)


def f_trig(name, a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(getattr(math, name)(float(n)))
    t = ruf(name, a.v)
    if name in ('sin', 'cos'):
        CTX.fact(z3.And(t >= -1, t <= 1))
    return SFloat(t, Or(a.nan, a.pinf, a.ninf))


def f_pow(a, b):
    a, b = fl(a), fl(b)
    e = b.const()
    if e is not None and not isinstance(e, float):
        if e.denominator == 1 and 0 <= e <= 6:
            if e == 0:
                return fl(1)
            r = a
            for _ in range(int(e) - 1):
                r = f_mul(r, a)
            return r
        if e.denominator == 1 and -4 <= e < 0:
            return f_div(fl(1), f_pow(a, fl(-e)))
        if e == Fraction(1, 2):
            return f_sqrt(a)
        x = a.const()
        if x is not None and not isinstance(x, float) and x > 0:
            return fl(math.pow(float(x), float(e)))
    t = ruf('pow', a.v, b.v)
    CTX.fact(z3.Implies(a.v > 0, t > 0))
    CTX.fact(z3.Implies(a.v == 1, t == 1))
    CTX.fact(z3.Implies(z3.And(a.v == 0, b.v > 0), t == 0))
    CTX.fact(z3.Implies(z3.And(a.v > 0, b.v == 0), t == 1))
    CTX.fact(z3.Implies(z3.And(a.v > 0, b.v == 1), t == a.v))
    # monotone in the base / in the exponent
    seen = CTX.apps.setdefault('pow', {})
    k = (a.v.get_id(), b.v.get_id())
    if k not in seen:
        for (x, y, u) in seen.values():
            if y.eq(b.v):
                CTX.fact(z3.Implies(z3.And(a.v > 0, x > 0, b.v > 0),
                                    z3.And(z3.Implies(a.v < x, t < u), z3.Implies(x < a.v, u < t))))
            if x.eq(a.v):
                CTX.fact(z3.Implies(a.v > 1, z3.And(z3.Implies(b.v < y, t < u), z3.Implies(y < b.v, u < t))))
        seen[k] = (a.v, b.v, t)
    if _noext(a) and _noext(b) and CTX.known(a.v > 0):
        return SFloat(t)
    # a negative base with a non-integer exponent, or zero base with negative exponent
    badneg = And(a.fin(), cmp0(a.v, '<'))
    zneg = And(_isz(a), cmp0(b.v, '<'))
    return SFloat(t, Or(a.nan, b.nan, badneg, b.pinf, b.ninf), And(Or(a.pinf, zneg), Not(Or(a.nan, b.nan))), a.ninf)


def f_floor(a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(math.floor(n))
    return SFloat(z3.ToReal(z3.ToInt(a.v)), a.nan, a.pinf, a.ninf)


def f_ceil(a):
    return f_neg(f_floor(f_neg(fl(a))))


def f_round(a):
    """nearest integer, ties left open (half-even not modelled)"""
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(round(n))
    m = CTX.memo.get(('round', a.v.get_id()))
    if m is None:
        r = CTX.fresh_int('round')
        CTX.fact(z3.And(z3.ToReal(r) - a.v <= rv(Fraction(1, 2)), a.v - z3.ToReal(r) <= rv(Fraction(1, 2))))
        m = (a.v, r)
        CTX.memo[('round', a.v.get_id())] = m
    return SFloat(z3.ToReal(m[1]), a.nan, a.pinf, a.ninf)


def int_term(v, depth=0):
    """the integer term equal to a real term built from integers, or None"""
    if depth > 12:
        return None
    if z3.is_rational_value(v):
        return z3.IntVal(v.numerator_as_long()) if v.denominator_as_long() == 1 else None
    if not z3.is_app(v):
        return None
    kd = v.decl().kind()
    if kd == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if kd == z3.Z3_OP_ITE:
        a, b = int_term(v.arg(1), depth + 1), int_term(v.arg(2), depth + 1)
        return z3.If(v.arg(0), a, b) if a is not None and b is not None else None
    if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ch = [int_term(x, depth + 1) for x in v.children()]
        if any(x is None for x in ch):
            return None
        if kd == z3.Z3_OP_UMINUS:
            return -ch[0]
        r = ch[0]
        for x in ch[1:]:
            r = r + x if kd == z3.Z3_OP_ADD else (r - x if kd == z3.Z3_OP_SUB else r * x)
        return r
    return None


def trunc_int(x):
    """float -> int, toward zero; NaN/inf unspecified"""
    if isint(x):
        return x
    if isinstance(x, (bool, SBool)):
        return mki(zi(x))
    a = fl(x)
    n = a.const()
    if n is not None:
        if isinstance(n, float):
            raise (ValueError('cannot convert float NaN to integer') if n != n else OverflowError('inf'))
        return int(n)
    v = a.v
    t = int_term(v)
    if t is not None:
        return mki(t)
    return mki(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def cast(x, dt):
    from . import arr
    k = arr.kind(dt)
    if k == 'f':
        if isinstance(x, (SFloat,)):
            return x
        if isinstance(x, float):
            return x
        return fl(x)
    if k in 'iu':
        return trunc_int(x)
    if k == 'b':
        if isinstance(x, (bool, SBool)):
            return x
        return mkb(x != 0)
    if k in 'SUO':
        return x
    raise Unsupported('cast to %r' % (dt,))


# ---------------------------------------------------------------- context
class Stats(object):
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.backends = {}


class Ctx(object):
    """One symbolic path."""
    symbolic = True

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.assumed = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        # the same facts with products and quotients as opaque constants: unsat stays valid, and quick
        self.light = None
        self.nlight = 0
        self.names = {}
        self.apps = {}
        self.memo = {}
        self.inputs = []
        self.unsupported = None
        self.factset = set()
        self.keep = []
        self.known_cache = {}
        self.abort = False
        self.sums = []
        self.skolems = []
        self.univ = []
        self.wheres = []
        self.canon = {}

    def canon_index(self, n):
        """one arbitrary index per array length, used to compare conditions pointwise"""
        k = n if isinstance(n, int) else zi(n).get_id()
        if k not in self.canon:
            self.canon[k] = self.fresh_int('kc')
            self.keep.append(n)
        return self.canon[k]

    # -- universally quantified facts and the index terms they are instantiated at
    def reg_index(self, i, n):
        k = n if isinstance(n, int) else zi(n).get_id()
        for (k2, i2) in self.skolems:
            if k2 == k and (i2 is i or (not isinstance(i, int) and not isinstance(i2, int) and i2.eq(i))):
                return
        if len(self.skolems) > 60:
            return
        self.skolems.append((k, i))
        self.keep.append((n, i))
        for (k2, cb) in list(self.univ):
            if k2 == k:
                cb(i)

    def reg_univ(self, n, cb):
        k = n if isinstance(n, int) else zi(n).get_id()
        self.univ.append((k, cb))
        self.keep.append(n if isinstance(n, int) else zi(n))
        for (k2, i) in list(self.skolems):
            if k2 == k:
                cb(i)

    # -- names
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh_int(self, base='i'):
        return z3.Int(self.fresh_name(base))

    def fresh_real(self, base='r'):
        return z3.Real(self.fresh_name(base))

    def fresh_bool(self, base='b'):
        return z3.Bool(self.fresh_name(base))

    # -- assumptions
    def fact(self, f):
        f = zb(f)
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        i = f.get_id()
        if i in self.factset:
            return
        self.factset.add(i)
        self.assumed.append(f)
        self.solver.add(f)

    def _check(self, *extra):
        t = time.time()
        if t > self.run.deadline:
            self.run.out_of_time = True
            raise Budget('time budget exhausted')
        self.run.stats.queries += 1
        r = self.solver.check(*extra)
        self.run.stats.solver_s += time.time() - t
        return r

    def lcheck(self, neg):
        """(unsat for sure, exact) by linear abstraction"""
        from . import run as R
        if self.light is None:
            self.light = z3.Solver()
            self.light.set('timeout', 500)
            self.lin = R.Linear()
            self.nl = False
        new = self.assumed[self.nlight:]
        self.nlight = len(self.assumed)
        for f in new:
            if R.nonlinear(f):
                self.nl = True
                f = self.lin.go(f)
            self.light.add(f)
        t = time.time()
        self.run.stats.queries += 1
        hard = R.nonlinear(neg)
        r = self.light.check(self.lin.go(neg))
        self.run.stats.solver_s += time.time() - t
        return r == z3.unsat, r == z3.sat and not self.nl and not hard, hard

    def known(self, cond):
        """is cond entailed by the path so far (quick, may say no)"""
        cond = zb(cond)
        if cond is True:
            return True
        if cond is False:
            return False
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = (cond.get_id(), len(self.assumed))
        if k in self.known_cache:
            return self.known_cache[k]
        if self.known_cache.get(cond.get_id()):
            return True
        self.keep.append(cond)
        if time.time() > self.run.deadline:
            self.run.out_of_time = True
            raise Budget('time budget exhausted')
        r, exact, hard = self.lcheck(z3.Not(cond))
        if not r and not exact:
            self.solver.set('rlimit', 400000 if hard else 100000)
            self.solver.set('timeout', 1500 if hard else 300)
            i = cond.get_id()
            if i not in self.run.slow:
                # a question that took long without an answer is not asked again (no is always a safe answer)
                t = time.time()
                r = self._check(z3.Not(cond)) == z3.unsat
                if not r and time.time() - t > 0.4:
                    self.run.slow[i] = cond
            self.solver.set('rlimit', 0)
            self.solver.set('timeout', 1500)
        self.known_cache[k] = r
        if r:
            self.known_cache[cond.get_id()] = True
        return r

    def decide(self, cond):
        """branch on a symbolic condition"""
        if self.abort:
            raise PathAbort()
        cond = zb(cond)
        if cond is True or cond is False:
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self._check(cond)
            if t == z3.unsat:
                d = None
                take = False
            else:
                f = self._check(z3.Not(cond))
                if f == z3.unsat:
                    d = None
                    take = True
                else:
                    d = True
                    self.run.push(self.trail + [False])
            if d is None:
                # forced: record so that replays do the same
                self.trail.append(take)
                self.pos += 1
                self.keep.append(cond)
                return take
        self.trail.append(d)
        self.pos += 1
        self.fact(cond if d else z3.Not(cond))
        if self.pos > 400:
            raise Unsupported('too many decisions on one path (unbounded loop without invariant?)')
        return d

    def stop(self):
        self.abort = True
        raise PathAbort()

    def feasible(self):
        return self._check() != z3.unsat

    # -- contract API
    def assume(self, cond):
        cond = zb(cond)
        if cond is True:
            return
        if cond is False:
            self.stop()
        self.fact(cond)
        if self._check() == z3.unsat:
            self.stop()

    def prove(self, name, cond, **kw):
        self.run.obligation(self, name, cond, **kw)
