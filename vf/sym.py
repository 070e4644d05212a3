"""Symbolic scalars and the path explorer.

A ``Sym`` is either an exact constant (bool / int / Fraction / +-inf) or a z3
term of sort Bool / Int / Real.  Python control flow on a symbolic truth value
forks: the explorer re-executes the harness once per feasible decision prefix.
"""
import sys
import time
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402
import numpy as _rnp  # noqa: E402

INF = float('inf')


class EngineLimit(BaseException):
    """The encoding cannot follow the code here: inconclusive."""


class PathEnd(BaseException):
    """Path is infeasible / cut."""


class Degenerate(BaseException):
    """Numerically undefined operation (x / 0): outside the claim."""


class MemoryFault(BaseException):
    """An unchecked (compiled) array access can leave its buffer."""


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise EngineLimit("no symbolic context")
    return c


# ------------------------------------------------------------------ z3 utils
def is_z3(v):
    return isinstance(v, z3.ExprRef)


def _rv(fr):
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


def to_real(v):
    if is_z3(v):
        s = v.sort_kind() if hasattr(v, 'sort_kind') else v.sort().kind()
        if s == z3.Z3_REAL_SORT:
            return v
        if s == z3.Z3_INT_SORT:
            return _i2r(v)
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return _rv(v)
    raise EngineLimit("non-finite constant in arithmetic")


def _i2r(e, depth=0):
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    if depth < 40 and z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), _i2r(e.arg(1), depth + 1),
                     _i2r(e.arg(2), depth + 1))
    return z3.ToReal(e)


def to_int(v):
    if is_z3(v):
        s = v.sort().kind()
        if s == z3.Z3_INT_SORT:
            return v
        if s == z3.Z3_BOOL_SORT:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        # truncation toward zero
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    return z3.IntVal(int(v))


def to_bool(v):
    if is_z3(v):
        if v.sort().kind() == z3.Z3_BOOL_SORT:
            return v
        return v != 0
    return z3.BoolVal(bool(v))


def const_of(e):
    """Python constant of a z3 numeral / boolean constant, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def kind_of(v):
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, (Fraction, float)):
        return 'f'
    k = v.sort().kind()
    return {z3.Z3_BOOL_SORT: 'b', z3.Z3_INT_SORT: 'i',
            z3.Z3_REAL_SORT: 'f'}[k]


_ORD = {'b': 0, 'i': 1, 'f': 2}


def _mx(a, b):
    return a if _ORD[a] >= _ORD[b] else b


def _special(v):
    return isinstance(v, float)


def fl(x):
    """exact constant from a Python float"""
    if x != x or x in (INF, -INF):
        return x
    return Fraction(x)


class Sym(object):
    __slots__ = ('k', 'v')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, k, v):
        self.k = k
        self.v = v

    # -------------------------------------------------- scalar-array protocol
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return _rnp.dtype({'b': bool, 'i': _rnp.int64,
                           'f': _rnp.float64}[self.k])

    @property
    def T(self):
        return self

    def transpose(self, *a):
        return self

    def copy(self):
        return self

    def item(self, *a):
        return self

    tolist = item

    def astype(self, dt, copy=True, **kw):
        k = dkind(dt)
        return cast(self, k)

    def _arr(self):
        from . import arr
        return arr.asarray(self)

    def ravel(self, *a):
        return self._arr().reshape(-1)
    flatten = ravel

    def reshape(self, *a):
        return self._arr().reshape(*a)

    def sum(self, *a, **kw):
        return cast(self, 'i') if self.k == 'b' else self

    def max(self, *a, **kw):
        return self
    min = max
    mean = max

    def any(self, *a, **kw):
        return cast(self, 'b')
    all = any

    def dot(self, o):
        return self * o

    # ------------------------------------------------------------ conversions
    @property
    def sym(self):
        return is_z3(self.v)

    def __bool__(self):
        v = self.v
        if is_z3(v):
            return ctx().branch(to_bool(v))
        return bool(v)

    def __index__(self):
        if self.k == 'f':
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        if is_z3(self.v):
            return ctx().pick_int(to_int(self.v))
        return int(self.v)

    def __int__(self):
        if is_z3(self.v):
            return ctx().pick_int(to_int(self.v))
        return int(self.v)

    def __float__(self):
        if is_z3(self.v):
            raise EngineLimit("float() of a symbolic value")
        return float(self.v)

    def __hash__(self):
        if is_z3(self.v):
            if self.k == 'f':
                raise EngineLimit("hash of a symbolic real")
            return hash(self.__index__())
        return hash(self.v)

    def __repr__(self):
        if is_z3(self.v):
            return "<%s>" % z3.simplify(self.v)
        return repr(float(self.v) if self.k == 'f' else self.v)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        if is_z3(self.v):
            return repr(self)
        return format(float(self.v) if self.k == 'f' else self.v, spec)

    # ------------------------------------------------------------- arithmetic
    def __add__(self, o):
        return _bin(self, o, add, 'add')

    def __radd__(self, o):
        return _bin(o, self, add, 'radd')

    def __sub__(self, o):
        return _bin(self, o, sub, 'sub')

    def __rsub__(self, o):
        return _bin(o, self, sub, 'rsub')

    def __mul__(self, o):
        return _bin(self, o, mul, 'mul')

    def __rmul__(self, o):
        return _bin(o, self, mul, 'rmul')

    def __truediv__(self, o):
        return _bin(self, o, div, 'truediv')

    def __rtruediv__(self, o):
        return _bin(o, self, div, 'rtruediv')

    def __floordiv__(self, o):
        return _bin(self, o, floordiv, 'floordiv')

    def __rfloordiv__(self, o):
        return _bin(o, self, floordiv, 'rfloordiv')

    def __mod__(self, o):
        return _bin(self, o, mod, 'mod')

    def __rmod__(self, o):
        return _bin(o, self, mod, 'rmod')

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return _bin(self, o, power, 'pow')

    def __rpow__(self, o):
        return _bin(o, self, power, 'rpow')

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __invert__(self):
        if self.k == 'b':
            return lnot(self)
        if not is_z3(self.v):
            return Sym('i', ~int(self.v))
        return Sym('i', -self.v - 1)

    def __and__(self, o):
        return _bin(self, o, band, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return _bin(self, o, bor, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return _bin(self, o, bxor, 'xor')
    __rxor__ = __xor__

    # ------------------------------------------------------------ comparisons
    def __lt__(self, o):
        return _bin(self, o, lt, 'lt')

    def __le__(self, o):
        return _bin(self, o, le, 'le')

    def __gt__(self, o):
        return _bin(self, o, gt, 'gt')

    def __ge__(self, o):
        return _bin(self, o, ge, 'ge')

    def __eq__(self, o):
        return _bin(self, o, eq, 'eq')

    def __ne__(self, o):
        return _bin(self, o, ne, 'ne')

    def __round__(self, nd=None):
        if is_z3(self.v):
            raise EngineLimit("round of symbolic")
        r = round(self.v, nd) if nd is not None else round(self.v)
        return lift(r)

    def __trunc__(self):
        return cast(self, 'i')

    def __ceil__(self):
        return ceil(self, 'i')

    def __floor__(self):
        return floor(self, 'i')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        if is_z3(self.v):
            return Sym('b', z3.IsInt(to_real(self.v)))
        return Fraction(self.v).denominator == 1

    @property
    def real(self):
        return self


def lift(v):
    """anything scalar -> Sym, or None."""
    if isinstance(v, Sym):
        return v
    if isinstance(v, (bool, _rnp.bool_)):
        return Sym('b', bool(v))
    if isinstance(v, (int, _rnp.integer)):
        return Sym('i', int(v))
    if isinstance(v, Fraction):
        return Sym('f', v)
    if isinstance(v, (float, _rnp.floating)):
        return Sym('f', fl(float(v)))
    if isinstance(v, z3.ExprRef):
        c = const_of(v)
        if c is not None:
            k = kind_of(v)
            return Sym(k, Fraction(c) if k == 'f' else c)
        return Sym(kind_of(v), v)
    return None


def mk(k, e):
    """Sym from z3 expr, folding literals."""
    if k == 'f' and _CTX[0] is not None and _CTX[0].forks:
        e = z3.simplify(e, som=True)
    c = const_of(e)
    if c is not None:
        return Sym(k, Fraction(c) if k == 'f' else c)
    return Sym(k, e)


def dkind(dt):
    if dt is None:
        return 'f'
    if isinstance(dt, str) and dt in ('b', 'i', 'f'):
        dt = {'b': bool, 'i': int, 'f': float}[dt]
    dt = getattr(dt, '_vf_dtype', dt)
    k = _rnp.dtype(dt).kind
    if k in 'iu':
        return 'i'
    if k == 'f':
        return 'f'
    if k == 'b':
        return 'b'
    if k == 'O':
        return 'O'
    raise EngineLimit("dtype %r" % (dt,))


def cast(s, k):
    if s.k == k:
        return s
    v = s.v
    if k == 'f':
        if is_z3(v):
            return mk('f', to_real(v))
        return Sym('f', Fraction(int(v)))
    if k == 'i':
        if is_z3(v):
            return mk('i', to_int(v))
        if _special(v):
            raise ValueError("cannot convert float %r to integer" % v)
        return Sym('i', int(v))
    if k == 'b':
        if is_z3(v):
            return mk('b', to_bool(v))
        return Sym('b', bool(v))
    raise EngineLimit("cast to %s" % k)


def _bin(a, b, f, name):
    x, y = lift(a), lift(b)
    if x is not None and y is not None:
        return f(x, y)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) or \
            isinstance(a, _rnp.ndarray) or isinstance(b, _rnp.ndarray):
        from . import arr
        if name in ('eq', 'ne') and (x is None and not isinstance(
                a, (list, _rnp.ndarray)) or y is None and not isinstance(
                b, (list, _rnp.ndarray))):
            return NotImplemented
        return arr.binop(f, arr.asarray(a), arr.asarray(b))
    return NotImplemented


# ---- operations on Sym
def _leaf_consts(e, depth=0):
    """is e an ITE tree with numeral leaves (bounded)?"""
    if const_of(e) is not None:
        return True
    if depth > 12 or not z3.is_app_of(e, z3.Z3_OP_ITE):
        return False
    return _leaf_consts(e.arg(1), depth + 1) and \
        _leaf_consts(e.arg(2), depth + 1)


def _has_zero_leaf(e, depth=0):
    c = const_of(e)
    if c is not None:
        return c == 0
    if depth > 12 or not z3.is_app_of(e, z3.Z3_OP_ITE):
        return False
    return _has_zero_leaf(e.arg(1), depth + 1) or \
        _has_zero_leaf(e.arg(2), depth + 1)


def _map_ite(e, f, depth=0):
    if depth <= 12 and z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), _map_ite(e.arg(1), f, depth + 1),
                     _map_ite(e.arg(2), f, depth + 1))
    return f(e)


def _mulz(x, y, k):
    """product of two z3 terms of kind k, distributing over 0/1 ITEs"""
    cx, cy = const_of(x), const_of(y)
    if cx is not None:
        if cx == 0:
            return x
        if cx == 1:
            return y
        if cy is not None:
            return z3.simplify(x * y)
    if cy is not None:
        if cy == 0:
            return y
        if cy == 1:
            return x
    if cx is None and z3.is_app_of(x, z3.Z3_OP_ITE) and \
            (_leaf_consts(x) or _has_zero_leaf(x)):
        return _map_ite(x, lambda t: _mulz(t, y, k))
    if cy is None and z3.is_app_of(y, z3.Z3_OP_ITE) and \
            (_leaf_consts(y) or _has_zero_leaf(y)):
        return _map_ite(y, lambda t: _mulz(x, t, k))
    return x * y


def _z(s, k):
    return to_real(s.v) if k == 'f' else to_int(s.v)


def add(a, b):
    k = _mx(a.k, b.k)
    av, bv = a.v, b.v
    if k == 'b':
        return bor(a, b)
    if not is_z3(av) and not is_z3(bv):
        if _special(av) or _special(bv):
            return Sym('f', float(av) + float(bv))
        r = av + bv
        return Sym(k, Fraction(r) if k == 'f' else int(r))
    if _special(av):
        return a
    if _special(bv):
        return b
    if not is_z3(av) and av == 0:
        return cast(b, k)
    if not is_z3(bv) and bv == 0:
        return cast(a, k)
    return mk(k, _z(a, k) + _z(b, k))


def sub(a, b):
    k = _mx(a.k, b.k)
    if k == 'b':
        raise TypeError("numpy boolean subtract, the `-` operator, is not "
                        "supported")
    av, bv = a.v, b.v
    if not is_z3(av) and not is_z3(bv):
        if _special(av) or _special(bv):
            return Sym('f', float(av) - float(bv))
        r = av - bv
        return Sym(k, Fraction(r) if k == 'f' else int(r))
    if _special(av):
        return a
    if _special(bv):
        return Sym('f', -bv)
    if not is_z3(bv) and bv == 0:
        return cast(a, k)
    if is_z3(av) and is_z3(bv) and av.eq(bv):
        return Sym(k, Fraction(0) if k == 'f' else 0)
    return mk(k, _z(a, k) - _z(b, k))


def mul(a, b):
    k = _mx(a.k, b.k)
    if k == 'b':
        return band(a, b)
    av, bv = a.v, b.v
    if not is_z3(av) and not is_z3(bv):
        if _special(av) or _special(bv):
            return Sym('f', float(av) * float(bv))
        r = av * bv
        return Sym(k, Fraction(r) if k == 'f' else int(r))
    for s, o in ((a, b), (b, a)):
        if not is_z3(s.v):
            if _special(s.v):
                raise EngineLimit("inf * symbolic")
            if s.v == 0:
                return Sym(k, Fraction(0) if k == 'f' else 0)
            if s.v == 1:
                return cast(o, k)
    # Bool * x
    if a.k == 'b':
        z = z3.RealVal(0) if k == 'f' else z3.IntVal(0)
        return mk(k, z3.If(to_bool(av), _z(b, k), z))
    if b.k == 'b':
        z = z3.RealVal(0) if k == 'f' else z3.IntVal(0)
        return mk(k, z3.If(to_bool(bv), _z(a, k), z))
    return mk(k, _mulz(_z(a, k), _z(b, k), k))


def div(a, b):
    av, bv = a.v, b.v
    if not is_z3(bv):
        if bv == 0:
            if not is_z3(av):
                if av == 0 or av != av:
                    return Sym('f', float('nan'))
                return Sym('f', INF if av > 0 else -INF)
            raise Degenerate("division by zero")
        if _special(bv):
            return Sym('f', Fraction(0)) if not _special(av) else \
                Sym('f', float('nan'))
        if not is_z3(av):
            if _special(av):
                return Sym('f', float(av) / float(bv))
            return Sym('f', Fraction(av) / Fraction(bv))
        return mul(cast(a, 'f'), Sym('f', 1 / Fraction(bv)))
    if _special(av):
        raise EngineLimit("inf / symbolic")
    if not is_z3(av) and av == 0:
        pass
    den = to_real(bv)
    if _leaf_consts(den) and not _has_zero_leaf(den):
        num = to_real(av)
        return mk('f', _map_ite(
            den, lambda t: num * _rv(1 / Fraction(const_of(t)))))
    if ctx().branch(den == 0):
        raise Degenerate("division by zero")
    if not is_z3(av) and av == 0:
        return Sym('f', Fraction(0))
    return mk('f', to_real(av) / den)


def floordiv(a, b):
    k = _mx(a.k, b.k)
    if k == 'b':
        k = 'i'
    av, bv = a.v, b.v
    if not is_z3(av) and not is_z3(bv):
        if bv == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return lift(Fraction(av // bv) if k == 'f' else int(av // bv))
    if is_z3(bv):
        raise EngineLimit("floor division by symbolic")
    if k == 'i' and bv > 0:
        return mk('i', to_int(av) / z3.IntVal(int(bv)))
    q = div(a, b)
    return cast(floor(q, 'i'), k)


def mod(a, b):
    k = _mx(a.k, b.k)
    if k == 'b':
        k = 'i'
    av, bv = a.v, b.v
    if not is_z3(av) and not is_z3(bv):
        if bv == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return lift(Fraction(av % bv) if k == 'f' else int(av % bv))
    if not is_z3(bv) and k == 'i' and bv > 0:
        return mk('i', to_int(av) % z3.IntVal(int(bv)))
    return sub(a, mul(floordiv(a, b), b))


def _sqrt_const(v):
    if _special(v):
        return v
    v = Fraction(v)
    if v < 0:
        return float('nan')
    import math
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return Fraction(math.sqrt(v))


def sqrt(a):
    if not is_z3(a.v):
        return Sym('f', _sqrt_const(a.v))
    c = ctx()
    x = to_real(a.v)
    if c.branch(x < 0):
        raise Degenerate("sqrt of negative")
    s = c.fresh_real('sqrt')
    c.add(s >= 0)
    c.add(s * s == x)
    return Sym('f', s)


def power(a, b):
    bv = b.v
    if is_z3(bv):
        if b.k in 'bi':
            bv = b.__index__()
        else:
            raise EngineLimit("symbolic exponent")
    k = _mx(a.k, b.k)
    if k == 'b':
        k = 'i'
    if not is_z3(a.v):
        if _special(a.v) or _special(bv):
            return lift(float(a.v) ** float(bv))
        if Fraction(bv).denominator == 1:
            e = int(bv)
            if e < 0 and k == 'i':
                raise ValueError("Integers to negative integer powers are "
                                 "not allowed.")
            if e < 0 and a.v == 0:
                return Sym('f', INF)
            r = Fraction(a.v) ** e
            return Sym(k, r if k == 'f' else int(r))
        if Fraction(bv) == Fraction(1, 2):
            return Sym('f', _sqrt_const(a.v))
        return Sym('f', fl(float(a.v) ** float(bv)))
    bvf = Fraction(bv)
    if bvf == Fraction(1, 2):
        return sqrt(a)
    if bvf.denominator != 1:
        raise EngineLimit("fractional power of symbolic")
    e = int(bvf)
    if e == 0:
        return Sym(k, Fraction(1) if k == 'f' else 1)
    if e < 0:
        return div(Sym('f', Fraction(1)), power(a, Sym('i', -e)))
    r = cast(a, k)
    out = r
    for _ in range(e - 1):
        out = mul(out, r)
    return out


def neg(a):
    if a.k == 'b':
        raise TypeError("The numpy boolean negative, the `-` operator, is not"
                        " supported")
    if not is_z3(a.v):
        return Sym(a.k, -a.v)
    return mk(a.k, -a.v)


def lnot(a):
    if not is_z3(a.v):
        return Sym('b', not a.v)
    return mk('b', z3.Not(to_bool(a.v)))


def _fl_b(a):
    return to_bool(a.v)


def band(a, b):
    if a.k != 'b' or b.k != 'b':
        if not is_z3(a.v) and not is_z3(b.v):
            return Sym('i', int(a.v) & int(b.v))
        raise EngineLimit("bitwise and of symbolic ints")
    if not is_z3(a.v):
        return b if a.v else a
    if not is_z3(b.v):
        return a if b.v else b
    return mk('b', z3.And(a.v, b.v))


def bor(a, b):
    if a.k != 'b' or b.k != 'b':
        if not is_z3(a.v) and not is_z3(b.v):
            return Sym('i', int(a.v) | int(b.v))
        raise EngineLimit("bitwise or of symbolic ints")
    if not is_z3(a.v):
        return a if a.v else b
    if not is_z3(b.v):
        return b if b.v else a
    return mk('b', z3.Or(a.v, b.v))


def bxor(a, b):
    if not is_z3(a.v) and not is_z3(b.v):
        return lift(a.v ^ b.v)
    if a.k == 'b' and b.k == 'b':
        return mk('b', z3.Xor(to_bool(a.v), to_bool(b.v)))
    raise EngineLimit("xor")


def _cmp(a, b, pyop, zop):
    av, bv = a.v, b.v
    if not is_z3(av) and not is_z3(bv):
        return Sym('b', bool(pyop(av, bv)))
    if _special(av) or _special(bv):
        s, flip = (av, False) if _special(av) else (bv, True)
        if s != s:
            return Sym('b', bool(pyop(s, 0)))
        return Sym('b', bool(pyop(0, s) if flip else pyop(s, 0)))
    k = _mx(a.k, b.k)
    if k == 'b':
        if zop in ('eq', 'ne'):
            x, y = to_bool(av), to_bool(bv)
            e = x == y
            return mk('b', z3.simplify(e if zop == 'eq' else z3.Not(e)))
        k = 'i'
    x, y = _z(a, k), _z(b, k)
    # push comparison with a constant into ITE trees with constant leaves
    cx, cy = const_of(x), const_of(y)
    if cy is not None and cx is None and z3.is_app_of(x, z3.Z3_OP_ITE) \
            and _leaf_consts(x):
        return mk('b', z3.simplify(_bool_ite(
            x, lambda c: bool(pyop(c, cy)))))
    if cx is not None and cy is None and z3.is_app_of(y, z3.Z3_OP_ITE) \
            and _leaf_consts(y):
        return mk('b', z3.simplify(_bool_ite(
            y, lambda c: bool(pyop(cx, c)))))
    if x.eq(y):
        return Sym('b', bool(pyop(0, 0)))
    e = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y,
         'ge': lambda: x >= y, 'eq': lambda: x == y,
         'ne': lambda: x != y}[zop]()
    return mk('b', e)


def _bool_ite(e, f):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        t = _bool_ite(e.arg(1), f)
        o = _bool_ite(e.arg(2), f)
        if z3.is_true(t) and z3.is_true(o):
            return t
        if z3.is_false(t) and z3.is_false(o):
            return t
        return z3.If(e.arg(0), t, o)
    return z3.BoolVal(f(const_of(e)))


def lt(a, b):
    return _cmp(a, b, lambda p, q: p < q, 'lt')


def le(a, b):
    return _cmp(a, b, lambda p, q: p <= q, 'le')


def gt(a, b):
    return _cmp(a, b, lambda p, q: p > q, 'gt')


def ge(a, b):
    return _cmp(a, b, lambda p, q: p >= q, 'ge')


def eq(a, b):
    return _cmp(a, b, lambda p, q: p == q, 'eq')


def ne(a, b):
    return _cmp(a, b, lambda p, q: p != q, 'ne')


def ite(c, a, b):
    """c: Sym bool; a, b: Sym"""
    c = lift(c)
    a, b = lift(a), lift(b)
    if not is_z3(c.v):
        return a if c.v else b
    k = _mx(a.k, b.k)
    if not is_z3(a.v) and not is_z3(b.v) and a.v == b.v:
        return cast(a, k)
    if is_z3(a.v) and is_z3(b.v) and a.k == b.k and a.v.eq(b.v):
        return a
    cz = to_bool(c.v)
    if ctx().forks:
        r = a if ctx().branch(cz) else b
        return cast(r, k)
    if k == 'b':
        return mk('b', z3.simplify(z3.If(cz, to_bool(a.v), to_bool(b.v))))
    if _special(a.v) or _special(b.v):
        # cannot merge infinities into a real term: fork
        return a if ctx().branch(cz) else b
    return mk(k, z3.If(cz, _z(a, k), _z(b, k)))


def absv(a):
    if not is_z3(a.v):
        return Sym('i' if a.k == 'b' else a.k, abs(a.v))
    if a.k == 'b':
        return a
    return ite(ge(a, Sym('i', 0)), a, neg(a))


def maxv(a, b):
    if not is_z3(a.v) and _special(a.v):
        return b if a.v < 0 else a
    if not is_z3(b.v) and _special(b.v):
        return a if b.v < 0 else b
    k = _mx(a.k, b.k)
    return ite(ge(a, b), cast(a, k), cast(b, k))


def minv(a, b):
    if not is_z3(a.v) and _special(a.v):
        return a if a.v < 0 else b
    if not is_z3(b.v) and _special(b.v):
        return b if b.v < 0 else a
    k = _mx(a.k, b.k)
    return ite(le(a, b), cast(a, k), cast(b, k))


def signv(a):
    if not is_z3(a.v):
        return Sym(a.k, type(a.v)((a.v > 0) - (a.v < 0)))
    z = Sym('i', 0)
    return cast(ite(gt(a, z), Sym('i', 1), ite(lt(a, z), Sym('i', -1), z)),
                a.k)


def floor(a, k='f'):
    if not is_z3(a.v):
        if _special(a.v):
            return a
        import math
        return Sym(k, Fraction(math.floor(a.v)) if k == 'f'
                   else math.floor(a.v))
    if a.k != 'f':
        return cast(a, k)
    return cast(mk('i', z3.ToInt(a.v)), k)


def ceil(a, k='f'):
    return neg(floor(neg(cast(a, 'f')), k))


def trunc(a):
    return cast(cast(a, 'i'), 'f')


def sumv(xs, k=None):
    """n-ary sum of Syms"""
    const = 0
    terms = []
    kk = k or 'b'
    for s in xs:
        kk = _mx(kk, s.k)
        if is_z3(s.v):
            terms.append(s)
        else:
            if _special(s.v):
                const = float(const) + s.v if _special(const) else s.v
            elif not _special(const):
                const = const + (int(s.v) if s.k == 'b' else s.v)
    if kk == 'b':
        kk = 'i'
    if _special(const):
        return Sym('f', const)
    const = Fraction(const) if kk == 'f' else int(const)
    if not terms:
        return Sym(kk, const)
    zs = [_z(t, kk) for t in terms]
    if const != 0:
        zs.append(_rv(const) if kk == 'f' else z3.IntVal(const))
    if len(zs) == 1:
        return mk(kk, zs[0])
    return mk(kk, z3.Sum(zs))


def andv(xs):
    terms = []
    for s in xs:
        s = cast(s, 'b')
        if is_z3(s.v):
            terms.append(s.v)
        elif not s.v:
            return Sym('b', False)
    if not terms:
        return Sym('b', True)
    return mk('b', z3.And(*terms) if len(terms) > 1 else terms[0])


def orv(xs):
    return lnot(andv([lnot(cast(x, 'b')) for x in xs]))


# ------------------------------------------------------------------ explorer
class Ctx(object):
    """One execution path."""

    def __init__(self, prefix, stats, branch_timeout=4000, limits=None):
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', branch_timeout)
        self.pc = []
        self.model = None
        self.nfresh = 0
        self.forks = False    # fork instead of merging values
        self.branch_budget = (limits or {}).get('branches', 4000)
        self.deadline = (limits or {}).get('deadline')
        self.inputs = {}      # name -> (kind, z3 const)
        self.notes = []

    def fresh_real(self, tag='r'):
        self.nfresh += 1
        return z3.Real('%s!%d' % (tag, self.nfresh))

    def fresh_int(self, tag='i'):
        self.nfresh += 1
        return z3.Int('%s!%d' % (tag, self.nfresh))

    def add(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check_sat(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.sat:
            self.model = self.solver.model()
        return r

    def assume(self, e):
        """cut the path if e cannot hold"""
        if z3.is_false(e):
            raise PathEnd('assume false')
        self.add(e)

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.deadline and time.time() > self.deadline:
            raise EngineLimit('time budget of this configuration used up')
        i = len(self.trail)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trail.append(val)
            self.add(cond if val else z3.Not(cond))
            return val
        if i > self.branch_budget:
            raise EngineLimit('branch budget')
        can_t = can_f = None
        if self.model is None:
            r = self.check_sat()
            if r == z3.unsat:
                raise PathEnd('infeasible')
        if self.model is not None:
            mv = self.model.eval(cond, model_completion=True)
            if z3.is_true(mv):
                can_t = True
            elif z3.is_false(mv):
                can_f = True
        m = self.model
        if can_t is None:
            can_t = self.check_sat(cond) != z3.unsat
            mt = self.model if can_t else None
        else:
            mt = m
        if can_f is None:
            can_f = self.check_sat(z3.Not(cond)) != z3.unsat
            mf = self.model if can_f else None
        else:
            mf = m
        if can_t and can_f:
            self.pending.append(self.trail + [False])
            val = True
            self.stats['forks'] += 1
        elif can_t:
            val = True
        elif can_f:
            val = False
        else:
            raise PathEnd('infeasible')
        self.trail.append(val)
        c = cond if val else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        self.model = None
        return val

    def pick_int(self, e):
        e = z3.simplify(e)
        c = const_of(e)
        if c is not None:
            return c
        for _ in range(64):
            # a deterministic candidate: need same order on replay
            i = len(self.trail)
            if i < len(self.prefix):
                # value was recorded as a decision
                val = self.prefix[i]
                if isinstance(val, tuple):
                    self.trail.append(val)
                    self.add(e == val[1])
                    return val[1]
            self.model = None
            r = self.check_sat()
            if r == z3.unknown:
                raise EngineLimit('values of an integer undecided')
            if r != z3.sat:
                raise PathEnd('infeasible')
            vals = []
            self.solver.push()
            while len(vals) < 64:
                r = self.check_sat()
                if r == z3.unknown:
                    raise EngineLimit('values of an integer undecided')
                if r != z3.sat:
                    break
                v = const_of(self.model.eval(e, model_completion=True))
                if v is None:
                    raise EngineLimit('pick_int')
                vals.append(v)
                self.solver.add(e != v)
            self.solver.pop()
            self.model = None
            if len(vals) >= 64:
                raise EngineLimit('unbounded integer used as an index/size')
            if not vals:
                raise PathEnd('infeasible')
            vals.sort()
            for v in vals[1:]:
                self.pending.append(self.trail + [('int', v)])
                self.stats['forks'] += 1
            self.trail.append(('int', vals[0]))
            self.add(e == vals[0])
            return vals[0]
        raise EngineLimit('pick_int')


def explore(fn, stats, max_paths=2000, limits=None, on_path=None):
    """Run fn(ctx) over every feasible path.  Returns True if exhaustive."""
    work = [[]]
    n = 0
    complete = True
    while work:
        prefix = work.pop()
        if n >= max_paths or (limits and limits.get('deadline') and
                              time.time() > limits['deadline']):
            complete = False
            break
        n += 1
        c = Ctx(prefix, stats, limits=limits)
        old = _CTX[0]
        _CTX[0] = c
        try:
            on_path(c, fn)
        finally:
            _CTX[0] = old
        work.extend(c.pending)
    stats['paths'] += n
    return complete
