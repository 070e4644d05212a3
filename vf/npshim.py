"""The numpy surface seen by the code under symbolic execution."""
import builtins
import itertools
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import arr as A
from . import sym as S
from .arr import SA, MaskSel, asarray as _as, obj, DT, from_real
from .sym import Sym, lift, EngineLimit

this = sys.modules[__name__]


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SA, MaskSel, rnp.ndarray))


class ndarray(object, metaclass=_NDMeta):
    def __new__(cls, shape, dtype=float, **k):
        return empty(shape, dtype)


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.k in cls._kinds
        return isinstance(x, cls._real)


def _mkscalar(name, kinds, real, dt, base=object):
    def __new__(cls, x=0, *a, **k):
        if isinstance(x, (SA, MaskSel, list, tuple, rnp.ndarray)):
            x = _as(x)
            if x.ndim:
                return x.astype(dt)
            x = x.a[()]
        if isinstance(x, str):
            x = float(x)
        s = lift(x)
        if s is None:
            raise TypeError("%s() argument %r" % (name, x))
        return S.cast(s, S.dkind(dt))
    return _ScalarMeta(name, (base,), {
        '__new__': __new__, '_kinds': kinds, '_real': real,
        '_vf_dtype': rnp.dtype(dt), 'dtype': rnp.dtype(dt)})


float64 = _mkscalar('float64', 'f', (rnp.float64,), rnp.float64)
float_ = double = longdouble = float64
float32 = _mkscalar('float32', 'f', (rnp.float32,), rnp.float32)
int64 = _mkscalar('int64', 'i', (rnp.int64,), rnp.int64)
int_ = intp = longlong = int64
int32 = _mkscalar('int32', 'i', (rnp.int32,), rnp.int32)
intc = int32
int16 = _mkscalar('int16', 'i', (rnp.int16,), rnp.int16)
int8 = _mkscalar('int8', 'i', (rnp.int8,), rnp.int8)
uint64 = _mkscalar('uint64', 'i', (rnp.uint64,), rnp.uint64)
uint = uintp = uint64
uint32 = _mkscalar('uint32', 'i', (rnp.uint32,), rnp.uint32)
uint16 = _mkscalar('uint16', 'i', (rnp.uint16,), rnp.uint16)
uint8 = _mkscalar('uint8', 'i', (rnp.uint8,), rnp.uint8)
bool_ = _mkscalar('bool_', 'b', (rnp.bool_,), bool)
bool8 = bool_
integer = _mkscalar('integer', 'i', (rnp.integer,), rnp.int64)
signedinteger = integer
floating = _mkscalar('floating', 'f', (rnp.floating,), rnp.float64)
number = _mkscalar('number', 'if', (rnp.number,), rnp.float64)
generic = _mkscalar('generic', 'bif', (rnp.generic,), rnp.float64)
object_ = object
inf = Inf = Infinity = PINF = Sym('f', float('inf'))
NINF = Sym('f', float('-inf'))
nan = NaN = Sym('f', float('nan'))
pi = Sym('f', Fraction(rnp.pi))
e = Sym('f', Fraction(rnp.e))
newaxis = None
__version__ = rnp.__version__
VisibleDeprecationWarning = rnp.VisibleDeprecationWarning


def dtype(x):
    return A._wrap_dtype(x)


class _Int(type):
    """np.int / builtins int: callable + usable as a dtype"""

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or \
            isinstance(x, Sym) and x.k in 'ib'

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)


class int(metaclass=_Int):
    _vf_dtype = rnp.dtype(rnp.int64)
    from_bytes = builtins.int.from_bytes

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return S.cast(x, 'i') if S.is_z3(x.v) else builtins.int(x.v)
        if isinstance(x, SA):
            return cls(x.item())
        if isinstance(x, MaskSel):
            return cls(x.force().item())
        return builtins.int(x, *a)


class _Float(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or \
            isinstance(x, Sym) and x.k == 'f' or isinstance(x, Fraction)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.float)


class float(metaclass=_Float):
    _vf_dtype = rnp.dtype(rnp.float64)
    is_integer = staticmethod(lambda x: x.is_integer())

    def __new__(cls, x=0):
        if isinstance(x, SA):
            x = x.item()
        if isinstance(x, str):
            t = builtins.float(x)
            if t != t or t in (S.INF, -S.INF):
                return Sym('f', t)
            return Sym('f', Fraction(x.strip()))
        s = lift(x)
        if s is None:
            return builtins.float(x)
        return S.cast(s, 'f')


class _Bool(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool,)) or \
            isinstance(x, Sym) and x.k == 'b'

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.bool)


class bool(metaclass=_Bool):
    _vf_dtype = rnp.dtype(builtins.bool)

    def __new__(cls, x=False):
        return builtins.bool(x)


object = builtins.object

# ---------------------------------------------------------------- creation


def _shape(s):
    if isinstance(s, (tuple, list, SA)):
        return tuple(x.__index__() for x in s)
    return (s.__index__(),)


def zeros(shape, dtype=None, order=None):
    return A.full(_shape(shape), 0, dtype if dtype is not None else rnp.float64)


def ones(shape, dtype=None, order=None):
    return A.full(_shape(shape), 1, dtype if dtype is not None else rnp.float64)


def empty(shape, dtype=None, order=None):
    """uninitialised memory: arbitrary values"""
    dt = A._wrap_dtype(dtype if dtype is not None else rnp.float64)
    shp = _shape(shape)
    k = S.dkind(dt)
    if k == 'O':
        return SA(obj(shp), dt)
    r = obj(shp)
    c = S._CTX[0]
    for i in rnp.ndindex(r.shape):
        if c is None:
            r[i] = S.cast(Sym('i', 0), k)
        elif k == 'f':
            r[i] = Sym('f', c.fresh_real('uninit'))
        elif k == 'i':
            r[i] = Sym('i', c.fresh_int('uninit'))
        else:
            r[i] = Sym('b', c.fresh_int('uninit') > 0)
    return SA(r, dt)


def full(shape, fill_value, dtype=None, order=None):
    if dtype is None:
        dtype = _as(fill_value).dt
    r = zeros(shape, dtype)
    r[...] = fill_value
    return r


def zeros_like(x, dtype=None, **k):
    x = _as(x)
    return zeros(x.shape, dtype if dtype is not None else x.dt)


def ones_like(x, dtype=None, **k):
    x = _as(x)
    return ones(x.shape, dtype if dtype is not None else x.dt)


def empty_like(x, dtype=None, **k):
    x = _as(x)
    return empty(x.shape, dtype if dtype is not None else x.dt)


def full_like(x, v, dtype=None, **k):
    x = _as(x)
    return full(x.shape, v, dtype if dtype is not None else x.dt)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    r = A.asarray(x, dtype, copy=True)
    if isinstance(x, SA) and (r is x or r.a is x.a):
        r = SA(r.a.copy('K'), r.dt)
    while r.ndim < ndmin:
        r = SA(r.a[None], r.dt)
    return r


def asarray(x, dtype=None, order=None):
    return A.asarray(x, dtype)


asanyarray = asarray


def ascontiguousarray(x, dtype=None):
    r = asarray(x, dtype)
    return SA(rnp.ascontiguousarray(r.a), r.dt)


def asfortranarray(x, dtype=None):
    r = asarray(x, dtype)
    return SA(rnp.asfortranarray(r.a), r.dt)



def require(x, dtype=None, requirements=None):
    r = asarray(x, dtype)
    for k in [requirements] if isinstance(requirements, str) else \
            requirements or []:
        k = k.upper()
        if k in ('W', 'WRITEABLE'):
            if not r.flags.writeable:
                r = r.copy()
        elif k in ('C', 'CONTIGUOUS', 'C_CONTIGUOUS'):
            r = ascontiguousarray(r)
        elif k in ('F', 'F_CONTIGUOUS', 'FORTRAN'):
            r = asfortranarray(r)
        elif k in ('O', 'OWNDATA'):
            if not r.flags.owndata:
                r = r.copy()
        elif k not in ('A', 'ALIGNED', 'E', 'ENSUREARRAY'):
            raise KeyError(k)
    return r


def atleast_1d(x):
    x = _as(x)
    return x if x.ndim else x.reshape(1)


def atleast_2d(x):
    x = _as(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    return x if x.ndim >= 2 else SA(x.a[None], x.dt)


def copy(x, order=None):
    return array(x)


def arange(*a, **k):
    dt = k.pop('dtype', None)
    a = [v if not isinstance(v, Sym) else v for v in a]
    k = {n: (v.v if isinstance(v, Sym) else v) for n, v in k.items()}
    if all(not isinstance(v, Sym) or v.k != 'f' for v in a):
        r = rnp.arange(*[v.__index__() for v in a], **k)
        if dt is not None:
            r = r.astype(A._wrap_dtype(dt))
        return from_real(r)
    a = [lift(v) for v in a]
    if any(S.is_z3(v.v) for v in a):
        raise EngineLimit("arange with symbolic float bounds")
    start, stop, step = Fraction(0), None, Fraction(1)
    vs = [Fraction(v.v) for v in a]
    if len(vs) == 1:
        stop = vs[0]
    elif len(vs) == 2:
        start, stop = vs
    else:
        start, stop, step = vs
    out = []
    while start < stop if step > 0 else start > stop:
        out.append(start)
        start += step
    return _as(out, rnp.float64)


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = lift(a), lift(b)
    n = num.__index__()
    d = n - 1 if endpoint else n
    return _as([a + (b - a) * Sym('f', Fraction(i, d)) if d else a
                for i in range(n)], rnp.float64)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def eye(n, M=None, k=0, dtype=None, **kw):
    r = rnp.eye(n.__index__(), None if M is None else M.__index__(), k)
    return from_real(r.astype(A._wrap_dtype(dtype or rnp.float64)))


def tri(n, M=None, k=0, dtype=None):
    r = rnp.tri(n.__index__(), None if M is None else M.__index__(), k)
    return from_real(r.astype(A._wrap_dtype(dtype or rnp.float64)))


def diag(x, k=0):
    x = _as(x)
    if x.ndim == 1:
        n = x.size + abs(k)
        r = zeros((n, n), x.dt)
        for i in range(x.size):
            r.a[i - builtins.min(k, 0), i + builtins.max(k, 0)] = x.a[i]
        return r
    return SA(rnp.diagonal(x.a, k).copy(), x.dt)


def diagonal(x, offset=0, axis1=0, axis2=1):
    x = _as(x)
    return SA(rnp.diagonal(x.a, offset, axis1, axis2), x.dt)


def diagflat(x, k=0):
    return diag(_as(x).ravel(), k)


def trace(x, **k):
    return sum(diagonal(x, **k))


def fill_diagonal(x, v, wrap=False):
    v = lift(v)
    for i in range(builtins.min(x.a.shape)):
        x.a[(i,) * x.a.ndim] = S.cast(v, x.k)


def _str_dtype_out(f):
    def g(*a, **k):
        return _back(f(*_real_args(a), **_real_kw(k)))
    return g


def _real_args(a):
    return [_real(x) for x in a]


def _real_kw(k):
    return {n: _real(v) for n, v in k.items()}


def _real(x):
    if isinstance(x, MaskSel):
        x = x.force()
    if isinstance(x, SA):
        return x.concrete()
    if isinstance(x, Sym):
        if S.is_z3(x.v):
            if x.k in 'ib':
                return x.__index__()
            raise EngineLimit("concrete value needed")
        if x.k == 'f':
            return builtins.float(x.v)
        return x.v
    if isinstance(x, list):
        return [_real(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_real(v) for v in x)
    d = getattr(x, '_vf_dtype', None)
    if d is not None and isinstance(x, type):
        return d
    return x


def _back(r):
    if isinstance(r, rnp.ndarray):
        return from_real(r)
    if isinstance(r, tuple):
        return tuple(_back(x) for x in r)
    if isinstance(r, list):
        return [_back(x) for x in r]
    if isinstance(r, rnp.generic):
        return lift(r)
    return r


class _OGrid(object):
    def __init__(self, r):
        self.r = r

    def __getitem__(self, k):
        def ix(s):
            if isinstance(s, slice):
                return slice(*[None if v is None else
                               (v if isinstance(v, complex) else
                                v.__index__())
                               for v in (s.start, s.stop, s.step)])
            return s
        k = tuple(ix(s) for s in k) if isinstance(k, tuple) else ix(k)
        return _back(self.r[k])


ogrid = _OGrid(rnp.ogrid)
mgrid = _OGrid(rnp.mgrid)


def _directed(real, k):
    """c_['axis,ndmin,trans', ...]: numpy's own rules, on positions"""
    xs = [_as(x) for x in k[1:]]
    ix, n = [], 0
    for x in xs:
        ix.append(n + rnp.arange(x.size).reshape(x.shape))
        n += x.size
    return concatenate([x.ravel() for x in xs])[real[(k[0],) + tuple(ix)]]


class _C(object):
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if isinstance(k[0], str):
            return _directed(rnp.c_, k)
        return column_stack([_as(x) if _as(x).ndim else _as(x).reshape(1)
                             for x in k])


class _R(object):
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if isinstance(k[0], str):
            return _directed(rnp.r_, k)
        out = []
        for x in k:
            if isinstance(x, slice):
                out.append(arange(x.start or 0, x.stop, x.step or 1))
            else:
                out.append(atleast_1d(x))
        return concatenate(out)


class _S(object):
    def __getitem__(self, k):
        return k


c_ = _C()
r_ = _R()
s_ = index_exp = _S()


def indices(shape, dtype=None, sparse=False):
    return _back(rnp.indices(_shape(shape)))


def meshgrid(*a, **k):
    a = [_as(x) for x in a]
    r = rnp.meshgrid(*[x.a for x in a], **k)
    return [SA(x, y.dt) for x, y in zip(r, a)]


def ix_(*a):
    a = [_as(x) for x in a]
    out = []
    for i, x in enumerate(a):
        if x.k == 'b':
            x = nonzero(x)[0]
        shp = [1] * len(a)
        shp[i] = x.size
        out.append(x.reshape(shp))
    return tuple(out)


triu_indices = _str_dtype_out(rnp.triu_indices)
tril_indices = _str_dtype_out(rnp.tril_indices)
diag_indices = _str_dtype_out(rnp.diag_indices)
ndindex = rnp.ndindex
ndenumerate = None


def unravel_index(i, shape):
    i = _as(i)
    if not i.any_sym():
        return _back(rnp.unravel_index(i.concrete(), _shape(shape)))
    out = []
    rest = i
    for n in reversed(_shape(shape)):
        out.append(rest % n)
        rest = rest // n
    return tuple(reversed(out))


def ravel_multi_index(mi, dims, **k):
    r = None
    for i, n in zip(mi, dims):
        i = _as(i)
        r = i if r is None else r * n + i
    return r


# ------------------------------------------------------------- joining


def _rdt(xs):
    return rnp.result_type(*[x.dt for x in xs])


def concatenate(xs, axis=0, out=None, dtype=None):
    if isinstance(xs, SA):
        xs = [SA(x, xs.dt) for x in xs.a]
    xs = [_as(x) for x in xs]
    if axis is None:
        xs = [x.ravel() for x in xs]
        axis = 0
    r = rnp.concatenate([x.a for x in xs], axis=axis)
    return SA(r, _rdt(xs) if dtype is None else A._wrap_dtype(dtype))._ck()


def _seq(xs):
    if isinstance(xs, (list, tuple)):
        return list(xs)
    if isinstance(xs, SA):
        return [x for x in xs]
    return list(xs)


def hstack(xs):
    xs = [atleast_1d(x) for x in _seq(xs)]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    xs = [atleast_2d(x) for x in _seq(xs)]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    return concatenate(xs, 0)


row_stack = vstack


def column_stack(xs):
    out = []
    for x in _seq(xs):
        x = _as(x)
        if x.ndim < 2:
            x = atleast_1d(x).reshape(-1, 1)
        out.append(x)
    return concatenate(out, 1)


def stack(xs, axis=0):
    xs = [_as(x) for x in _seq(xs)]
    return SA(rnp.stack([x.a for x in xs], axis=axis), _rdt(xs))._ck()


def dstack(xs):
    xs = [_as(x) for x in _seq(xs)]
    return SA(rnp.dstack([x.a for x in xs]), _rdt(xs))._ck()


def append(x, v, axis=None):
    if axis is None:
        return concatenate([_as(x).ravel(), _as(v).ravel()])
    return concatenate([x, v], axis)


def insert(x, i, v, axis=None):
    x = _as(x)
    r = rnp.insert(x.a, _real(i), _as(v).a, axis=axis)
    return SA(r, x.dt)._ck()


def delete(x, i, axis=None):
    x = _as(x)
    return SA(rnp.delete(x.a, _real(i), axis=axis), x.dt)


def _shapefn(name):
    rf = getattr(rnp, name)

    def f(x, *a, **k):
        x = _as(x)
        r = rf(x.a, *_real_args(a), **_real_kw(k))
        if isinstance(r, list):
            return [SA(y, x.dt) for y in r]
        return SA(r, x.dt)
    f.__name__ = name
    return f


for _n in ('ravel transpose swapaxes moveaxis rollaxis squeeze expand_dims '
           'flip fliplr flipud roll tile split array_split hsplit vsplit '
           'rot90 tril triu broadcast_to').split():
    setattr(this, _n, _shapefn(_n))


def tril(x, k=0):
    x = _as(x)
    r = x.copy()
    for i in rnp.ndindex(x.shape):
        if i[-1] - i[-2] > k:
            r.a[i] = A._zero[x.k]
    return r


def triu(x, k=0):
    x = _as(x)
    r = x.copy()
    for i in rnp.ndindex(x.shape):
        if i[-1] - i[-2] < k:
            r.a[i] = A._zero[x.k]
    return r


def reshape(x, shape, order='C', newshape=None):
    return _as(x).reshape(shape)


def repeat(x, repeats, axis=None):
    x = _as(x)
    return SA(rnp.repeat(x.a, _real(repeats), axis=axis), x.dt)


def shape(x):
    return _as(x).shape


def ndim(x):
    return _as(x).ndim


def size(x, axis=None):
    x = _as(x)
    return x.size if axis is None else x.shape[axis]


def broadcast_arrays(*a):
    a = [_as(x) for x in a]
    return [SA(r, x.dt) for r, x in zip(
        rnp.broadcast_arrays(*[x.a for x in a]), a)]


def atleast_3d(x):
    raise EngineLimit('atleast_3d')


def _compress(x, cond, axis=None):
    return take(x, nonzero(cond)[0], axis)


# ------------------------------------------------------------- elementwise


def _bin(f):
    def g(a, b, out=None, where=None, dtype=None, **k):
        if isinstance(a, MaskSel) or isinstance(b, MaskSel):
            return A.mask_binop(f, a, b)
        r = A.binop(f, _as(a), _as(b))
        if where is not None:
            raise EngineLimit('ufunc where')
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            A.iassign(out, _as(r))
            return out
        return r
    return g


class _UF(object):
    """binary ufunc with reduce / outer / at"""

    def __init__(self, f, red=None, name=None):
        self.f = f
        self.call = _bin(f)
        self.red = red
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def reduce(self, x, axis=0, **k):
        if self.red is None:
            raise EngineLimit('reduce')
        return getattr(this, self.red)(x, axis=axis)

    def accumulate(self, x, axis=0):
        x = _as(x)
        if x.ndim != 1:
            raise EngineLimit('accumulate')
        out, cur = [], None
        for v in x.a:
            cur = v if cur is None else self.f(cur, v)
            out.append(cur)
        return _as(out)

    def outer(self, a, b):
        a, b = _as(a), _as(b)
        return A.binop(self.f, a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, x, idx, v=None):
        idx = idx if isinstance(idx, tuple) else (idx,)
        arrs = [_as(i) if isinstance(i, (SA, list, rnp.ndarray)) else i
                for i in idx]
        if builtins.any(isinstance(i, slice) or i is None for i in arrs):
            raise EngineLimit('ufunc.at with slices')
        shp = rnp.broadcast_shapes(*[i.shape if isinstance(i, SA) else ()
                                     for i in arrs])
        va = _as(v)
        nv = rnp.broadcast_to(va.a, shp + va.a.shape[len(shp):]) if \
            va.ndim <= len(shp) else va.a
        for p in rnp.ndindex(shp):
            ii = tuple(rnp.broadcast_to(i.a, shp)[p] if isinstance(i, SA)
                       else i for i in arrs)
            vv = nv[p]
            if isinstance(vv, rnp.ndarray):
                vv = SA(vv, va.dt)
            cur = x[ii]
            x[ii] = A.binop(self.f, cur, vv) if isinstance(cur, SA) \
                else S._bin(cur, vv, self.f, 'at')


add = _UF(S.add, 'sum', 'add')
subtract = _UF(S.sub, None, 'subtract')
multiply = _UF(S.mul, 'prod', 'multiply')
divide = true_divide = _UF(S.div)
floor_divide = _UF(S.floordiv)
mod = remainder = _UF(S.mod)
power = float_power = _UF(S.power)
maximum = fmax = _UF(S.maxv, 'amax')
minimum = fmin = _UF(S.minv, 'amin')
equal = _UF(S.eq)
not_equal = _UF(S.ne)
less = _UF(S.lt)
less_equal = _UF(S.le)
greater = _UF(S.gt)
greater_equal = _UF(S.ge)


def _tob(x):
    x = _as(x)
    return x if x.k == 'b' else x.astype(builtins.bool)


logical_and = _UF(lambda a, b: S.band(S.cast(a, 'b'), S.cast(b, 'b')), 'all')
logical_or = _UF(lambda a, b: S.bor(S.cast(a, 'b'), S.cast(b, 'b')), 'any')
logical_xor = _UF(lambda a, b: S.bxor(S.cast(a, 'b'), S.cast(b, 'b')))
bitwise_and = _UF(S.band, 'all')
bitwise_or = _UF(S.bor, 'any')
bitwise_xor = _UF(S.bxor)
A._ops_obj  # noqa


def _bool_out(x):
    return x


def _un(f, kind=None):
    def g(x, out=None, **k):
        if isinstance(x, MaskSel):
            return A.unop(f, x)
        x = _as(x)
        if x.dt.kind == 'O' and x.size:
            x = from_real(x.a) if not isinstance(x.a.flat[0], SA) else x
        kk = kind or x.k
        dt = x.dt if kk == x.k else DT[kk]
        r = A.unop(f, x, dt)
        if out is not None:
            A.iassign(out, _as(r))
            return out
        return r
    return g


abs = absolute = fabs = _un(S.absv)
negative = _un(S.neg)
sign = _un(S.signv)
sqrt = _un(S.sqrt, 'f')
square = _un(lambda s: S.mul(s, s))
floor = _un(lambda s: S.floor(s, 'f'), 'f')
ceil = _un(lambda s: S.ceil(s, 'f'), 'f')
trunc = fix = _un(S.trunc, 'f')
logical_not = _un(lambda s: S.lnot(S.cast(s, 'b')), 'b')
invert = bitwise_not = _un(lambda s: s.__invert__())
reciprocal = _un(lambda s: S.div(Sym('i', 1), s), 'f')
positive = _un(lambda s: s)
_nanp = lambda s: Sym('b', not S.is_z3(s.v) and s.v != s.v)
isnan = _un(_nanp, 'b')
isfinite = _un(lambda s: Sym('b', S.is_z3(s.v) or not isinstance(
    s.v, builtins.float)), 'b')
isinf = _un(lambda s: Sym('b', not S.is_z3(s.v) and isinstance(
    s.v, builtins.float) and s.v == s.v), 'b')
signbit = _un(lambda s: S.lt(s, Sym('i', 0)), 'b')
isposinf = _un(lambda s: Sym('b', not S.is_z3(s.v) and s.v == S.INF), 'b')
isneginf = _un(lambda s: Sym('b', not S.is_z3(s.v) and s.v == -S.INF), 'b')
iscomplexobj = lambda x: False
isscalar = lambda x: isinstance(x, Sym) or rnp.isscalar(x)


def _transc(name):
    rf = getattr(rnp, name)

    def f(s):
        if S.is_z3(s.v):
            raise EngineLimit("np.%s of a symbolic value" % name)
        return Sym('f', S.fl(builtins.float(rf(builtins.float(s.v)))))
    return _un(f, 'f')


for _n in 'exp log log2 log10 log1p expm1 sin cos tan tanh arctan'.split():
    setattr(this, _n, _transc(_n))


def around(x, decimals=0, out=None):
    def f(s):
        if S.is_z3(s.v):
            if s.k == 'i':
                return s
            m = Sym('i', 10 ** decimals)
            t = S.mul(s, m)
            fl = S.floor(t, 'i')
            d = S.sub(t, fl)
            half = Sym('f', Fraction(1, 2))
            even = S.eq(S.mod(fl, Sym('i', 2)), Sym('i', 0))
            r = S.ite(S.lt(d, half), fl, S.ite(
                S.gt(d, half), fl + 1, S.ite(even, fl, fl + 1)))
            return S.div(S.cast(r, 'f'), m)
        return lift(round(s.v, decimals) if s.k == 'f' else s.v)
    return _un(f)(x)


round = round_ = around
rint = _un(lambda s: around(s))


def clip(x, lo, hi, out=None):
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        A.iassign(out, _as(r))
        return out
    return r


def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    c, a, b = _as(c), _as(a), _as(b)
    if c.k != 'b':
        c = c.astype(builtins.bool)
    if 'O' in (a.dt.kind, b.dt.kind):
        return _back(rnp.where(c.concrete(), a.a, b.a))
    r = rnp.frompyfunc(S.ite, 3, 1)(c.a, a.a, b.a)
    if not isinstance(r, rnp.ndarray):
        r_ = obj(())
        r_[()] = r
        r = r_
    return SA(r, rnp.result_type(a.dt, b.dt))._ck()


def select(conds, choices, default=0):
    r = _as(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def choose(i, choices, **k):
    i = _as(i)
    r = None
    for n, c in reversed(list(enumerate(choices))):
        r = _as(c) if r is None else where(i == n, c, r)
    return r


def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    return less_equal(abs(_as(a) - _as(b)), _as(rtol) * abs(b) + _as(atol))


def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b, **k):
    a, b = _as(a), _as(b)
    if a.shape != b.shape:
        return Sym('b', False)
    return all(a == b)


array_equiv = array_equal


# ------------------------------------------------------------- reductions


def _reduce(fn, x, axis, keepdims, dt):
    """fn: list of Sym -> Sym"""
    if isinstance(x, MaskSel):
        x = x.force()
    x = _as(x)
    if x.dt.kind == 'O':
        if x.ndim == 0:
            v = x.a[()]
            if hasattr(v, '__iter__') and not isinstance(v, SA):
                # e.g. np.sum(generator)
                return _reduce(fn, _as(list(v)), axis, keepdims, dt)
        raise EngineLimit("reduction of object array")
    a = x.a
    if isinstance(axis, Sym):
        axis = axis.__index__()
    if axis is None:
        r = fn(list(a.flat))
        if keepdims:
            return _as(r).reshape((1,) * a.ndim)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(ax.__index__() for ax in axes)
    for ax in axes:
        if not -a.ndim <= ax < a.ndim:
            raise rnp.AxisError(ax, a.ndim)
    axes = sorted(ax % a.ndim for ax in axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = a.transpose(keep + axes)
    shp = tuple(a.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= a.shape[i]
    t = t.reshape(shp + (n,))
    r = obj(shp)
    for i in rnp.ndindex(shp):
        r[i] = fn(list(t[i]))
    if not shp and not keepdims:
        return r[()]
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else a.shape[i]
                            for i in range(a.ndim)))
    return SA(r, dt(x))


def _sumdt(x):
    if x.dt.kind == 'b':
        return DT['i']
    if x.dt.kind in 'iu' and x.dt.itemsize < 8:
        return rnp.dtype(rnp.int64 if x.dt.kind == 'i' else rnp.uint64)
    return x.dt


def sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None,
        where=None):
    if isinstance(x, MaskSel) and axis in (None, 0) and dtype is None:
        return x.sum(axis=axis)
    x = _as(x)
    if x.dt.kind == 'O' and x.ndim:
        tot = None
        if axis in (None, 0):
            for v in x.a:
                tot = v if tot is None else tot + v
            if axis is None and isinstance(tot, SA):
                return sum(tot)
            return tot
    k = None if x.dt.kind == 'O' else ('i' if x.k == 'b' else x.k)
    if dtype is not None:
        x = x.astype(dtype)
        k = x.k
    r = _reduce(lambda v: S.sumv(v, k), x, axis, keepdims, _sumdt)
    if initial is not None:
        r = r + initial
    if out is not None:
        out[...] = r
        return out
    return r


nansum = sum


def prod(x, axis=None, dtype=None, out=None, keepdims=False):
    x0 = _as(x)
    if x0.size == 0 and axis is None:
        return lift(Fraction(1)) if x0.k == 'f' else lift(1)

    def f(v):
        r = Sym('i', 1)
        for e_ in v:
            r = S.mul(r, e_)
        return r
    return _reduce(f, x0, axis, keepdims, _sumdt)


product = prod


def mean(x, axis=None, dtype=None, out=None, keepdims=False):
    x = _as(x)

    def f(v):
        if not v:
            return Sym('f', builtins.float('nan'))
        return S.div(S.sumv(v, 'f'), Sym('i', len(v)))
    return _reduce(f, x, axis, keepdims, lambda x: DT['f'])


nanmean = mean


def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis)
    x, w = _as(x), _as(weights)
    return sum(x * w, axis) / sum(w)


def var(x, axis=None, ddof=0, **k):
    x = _as(x)
    m = mean(x, axis, keepdims=True)
    n = x.size if axis is None else x.shape[axis]
    return sum((x - m) ** 2, axis) / (n - ddof)


def std(x, axis=None, ddof=0, **k):
    return sqrt(var(x, axis, ddof))


def _fold(f, name):
    def red(v):
        if not v:
            raise ValueError("zero-size array to reduction operation %s "
                             "which has no identity" % name)
        # pairwise, so that the depth of the term stays logarithmic
        v = list(v)
        while len(v) > 8:
            v = [f(*v[i:i + 2]) if i + 1 < len(v) else v[i]
                 for i in range(0, len(v), 2)]
        r = v[0]
        for e_ in v[1:]:
            r = f(r, e_)
        return r
    return red


def amax(x, axis=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(x, MaskSel):
        x = x.force()
    x = _as(x)
    if initial is not None and axis is None:
        return _fold(S.maxv, 'maximum')(list(x.a.flat) + [lift(initial)])
    if x.size == 0 and axis is None:
        raise ValueError("zero-size array to reduction operation maximum "
                         "which has no identity")
    return _reduce(_fold(S.maxv, 'maximum'), x, axis, keepdims,
                   lambda x: x.dt)


def amin(x, axis=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(x, MaskSel):
        x = x.force()
    x = _as(x)
    if initial is not None and axis is None:
        return _fold(S.minv, 'minimum')(list(x.a.flat) + [lift(initial)])
    return _reduce(_fold(S.minv, 'minimum'), x, axis, keepdims,
                   lambda x: x.dt)


max = nanmax = amax
min = nanmin = amin


def ptp(x, axis=None, **k):
    return amax(x, axis) - amin(x, axis)


def _argbest(better):
    def red(v):
        if not v:
            raise ValueError("attempt to get argmax of an empty sequence")
        best, idx = v[0], Sym('i', 0)
        for i, e_ in enumerate(v[1:], 1):
            c = better(e_, best)
            idx = S.ite(c, Sym('i', i), idx)
            best = S.ite(c, e_, best)
        return idx
    return red


def argmax(x, axis=None, out=None, keepdims=False):
    if isinstance(x, (list, tuple)):
        x = _as(x)
    return _reduce(_argbest(S.gt), x, axis, keepdims, lambda x: DT['i'])


def argmin(x, axis=None, out=None, keepdims=False):
    return _reduce(_argbest(S.lt), x, axis, keepdims, lambda x: DT['i'])


def _truthy(v):
    return [S.cast(e_, 'b') for e_ in v]


def any(x, axis=None, out=None, keepdims=False, where=None):
    if isinstance(x, MaskSel) and axis is None:
        return x.any()
    x = _as(x)
    if x.dt.kind == 'O':
        return _obj_anyall(x, builtins.any)
    return _reduce(lambda v: S.orv(_truthy(v)), x, axis, keepdims,
                   lambda x: DT['b'])


def all(x, axis=None, out=None, keepdims=False, where=None):
    if isinstance(x, MaskSel) and axis is None:
        return x.all()
    x = _as(x)
    if x.dt.kind == 'O':
        return _obj_anyall(x, builtins.all)
    return _reduce(lambda v: S.andv(_truthy(v)), x, axis, keepdims,
                   lambda x: DT['b'])


def _obj_anyall(x, f):
    if x.ndim == 0:
        return x.a[()]
    return f(builtins.bool(v) for v in x.a.flat)


alltrue = all
sometrue = any


def count_nonzero(x, axis=None, **k):
    return sum(_tob(x), axis)


def cumsum(x, axis=None, dtype=None, out=None):
    x = _as(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    a = rnp.moveaxis(x.a, axis, 0)
    r = obj(a.shape)
    for j in rnp.ndindex(a.shape[1:]):
        c = S.cast(Sym('i', 0), 'f' if x.k == 'f' else 'i')
        for i in range(a.shape[0]):
            c = S.add(c, S.cast(a[(i,) + j], c.k))
            r[(i,) + j] = c
    r = SA(rnp.moveaxis(r, 0, axis), _sumdt(x))
    return r if dtype is None else r.astype(dtype)


def cumprod(x, axis=None, **k):
    x = _as(x).ravel()
    out, c = [], Sym('i', 1)
    for v in x.a:
        c = c * v
        out.append(c)
    return _as(out, x.dt)


def diff(x, n=1, axis=-1, **k):
    x = _as(x)
    if x.ndim != 1:
        raise EngineLimit('diff nd')
    for _ in range(n):
        x = x[1:] - x[:-1]
    return x


# ------------------------------------------------------------- linear algebra


def _dotv(u, v):
    return S.sumv([S.mul(p, q) for p, q in zip(u, v)])


def dot(a, b, out=None):
    if isinstance(a, MaskSel):
        a = a.force()
    if isinstance(b, MaskSel):
        b = b.force()
    a, b = _as(a), _as(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b if a.ndim or b.ndim else S.mul(a.a[()], b.a[()])
    ax = b.ndim - 2 if b.ndim > 1 else 0
    if a.shape[-1] != b.shape[ax]:
        raise ValueError("shapes %s and %s not aligned: %d (dim %d) != %d "
                         "(dim %d)" % (a.shape, b.shape, a.shape[-1],
                                       a.ndim - 1, b.shape[ax], ax))
    dt = rnp.result_type(a.dt, b.dt)
    k = S.dkind(dt)
    if k == 'O':
        raise EngineLimit('dot of object arrays')
    bt = rnp.moveaxis(b.a, ax, -1)
    r = obj(a.shape[:-1] + bt.shape[:-1])
    zero = A._zero[k]
    finite = not builtins.any(
        not S.is_z3(v.v) and S._special(v.v) for x in (a, b) for v in x.a.flat)
    for i in rnp.ndindex(a.shape[:-1]):
        u = a.a[i]
        if finite and k != 'b' and len(u) > 8:
            nz = [t for t, v in enumerate(u) if S.is_z3(v.v) or v.v != 0]
        else:
            nz = None
        for j in rnp.ndindex(bt.shape[:-1]):
            if nz is not None and len(nz) < len(u):
                w = bt[j]
                r[i + j] = S.cast(_dotv([u[t] for t in nz],
                                        [w[t] for t in nz]), k) \
                    if nz else zero
            elif k == 'b':
                r[i + j] = S.orv([S.band(p, q) for p, q in zip(u, bt[j])])
            else:
                r[i + j] = S.cast(_dotv(u, bt[j]), k) if len(u) else zero
    if r.ndim == 0:
        return A.wrap1(r[()], dt) if A.narrow(dt) else r[()]
    res = SA(r, dt)
    if A.narrow(dt):
        res._ck()
    if out is not None:
        A.iassign(out, res)
        return out
    return res


def matmul(a, b, out=None):
    a, b = _as(a), _as(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough "
                         "dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b, out)
    sh = rnp.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    aa = rnp.broadcast_to(a.a, sh + a.shape[-2:])
    bb = rnp.broadcast_to(b.a, sh + b.shape[-2:])
    out = None
    for i in rnp.ndindex(sh):
        r = dot(SA(aa[i], a.dt), SA(bb[i], b.dt))
        if out is None:
            out = SA(obj(sh + r.shape), r.dt)
        out.a[i] = r.a
    return out


def vdot(a, b):
    return dot(_as(a).ravel(), _as(b).ravel())


def inner(a, b):
    a, b = _as(a), _as(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return dot(a, SA(rnp.moveaxis(b.a, -1, builtins.max(b.ndim - 2, 0)),
                     b.dt))


def outer(a, b, out=None):
    a, b = _as(a).ravel(), _as(b).ravel()
    return a.reshape(-1, 1) * b.reshape(1, -1)


def kron(a, b):
    a, b = _as(a), _as(b)
    if a.ndim == 1 and b.ndim == 1:
        return outer(a, b).ravel()
    r = einsum('ij,kl->ikjl', a, b)
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def tensordot(a, b, axes=2):
    a, b = _as(a), _as(b)
    if isinstance(axes, builtins.int):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, builtins.int) else list(axa)
        axb = [axb] if isinstance(axb, builtins.int) else list(axb)
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    fa = [i for i in range(a.ndim) if i not in axa]
    fb = [i for i in range(b.ndim) if i not in axb]
    n = 1
    for i in axa:
        n *= a.shape[i]
    A2 = SA(a.a.transpose(fa + axa).reshape(-1, n) if a.size else
            a.a.transpose(fa + axa).reshape(
                builtins.int(rnp.prod([a.shape[i] for i in fa])), n), a.dt)
    B2 = SA(b.a.transpose(axb + fb).reshape(
        n, builtins.int(rnp.prod([b.shape[i] for i in fb]))), b.dt)
    r = dot(A2, B2)
    return r.reshape(tuple(a.shape[i] for i in fa) +
                     tuple(b.shape[i] for i in fb))


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise EngineLimit('einsum sublist form')
    ops = [_as(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise EngineLimit('einsum ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match")
        for c, n in zip(s, o.shape):
            if dim.setdefault(c, n) != n:
                if dim[c] == 1:
                    dim[c] = n
                elif n != 1:
                    raise ValueError("operands could not be broadcast "
                                     "together")
    summed = [c for c in dim if c not in out]
    dt = _rdt(ops)
    kk = S.dkind(dt)
    r = obj(tuple(dim[c] for c in out))
    for i in rnp.ndindex(r.shape):
        env = dict(zip(out, i))
        terms = []
        for j in itertools.product(*[range(dim[c]) for c in summed]):
            env.update(zip(summed, j))
            t = None
            for s, o in zip(ins, ops):
                v = o.a[tuple(0 if o.shape[q] == 1 else env[c]
                              for q, c in enumerate(s))]
                t = v if t is None else S.mul(t, v)
            terms.append(t)
        r[i] = S.cast(S.sumv(terms, kk), kk)
    if r.ndim == 0:
        return r[()]
    return SA(r, dt)


# ------------------------------------------------------------- searching


def nonzero(x):
    if isinstance(x, MaskSel):
        x = x.force()
    x = _as(x)
    m = x if x.k == 'b' else x.astype(builtins.bool)
    if m.any_sym():
        m = m.copy()
        for i in rnp.ndindex(m.a.shape):
            m.a[i] = Sym('b', builtins.bool(m.a[i]))
    return tuple(from_real(r) for r in rnp.nonzero(m.concrete()))


def flatnonzero(x):
    return nonzero(_as(x).ravel())[0]


def argwhere(x):
    return vstack(nonzero(x)).T


def take(x, idx, axis=None, **k):
    x = _as(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    axis = axis % x.ndim
    return x[(slice(None),) * axis + (idx,)]


def take_along_axis(x, idx, axis):
    x, idx = _as(x), _as(idx)
    ii = []
    for d in range(x.ndim):
        if d == axis % x.ndim:
            ii.append(idx)
        else:
            s = [1] * x.ndim
            s[d] = x.shape[d]
            ii.append(arange(x.shape[d]).reshape(s))
    return x[tuple(ii)]


def put_along_axis(x, idx, v, axis):
    idx = _as(idx)
    ii = []
    for d in range(x.ndim):
        if d == axis % x.ndim:
            ii.append(idx)
        else:
            s = [1] * x.ndim
            s[d] = x.shape[d]
            ii.append(arange(x.shape[d]).reshape(s))
    x[tuple(ii)] = v


def _sorted_perm(v):
    """stable argsort of a list of Sym by forking on comparisons"""
    idx = []
    for i, e_ in enumerate(v):
        j = len(idx)
        while j > 0 and builtins.bool(S.lt(e_, v[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(x, axis=-1, kind=None, order=None):
    x = _as(x)
    if x.ndim == 1:
        return _as(_sorted_perm(list(x.a)), rnp.int64)
    if axis is None:
        return argsort(x.ravel())
    a = rnp.moveaxis(x.a, axis, -1)
    r = obj(a.shape)
    for i in rnp.ndindex(a.shape[:-1]):
        for p, v in enumerate(_sorted_perm(list(a[i]))):
            r[i + (p,)] = Sym('i', v)
    return SA(rnp.moveaxis(r, -1, axis), DT['i'])


def sort(x, axis=-1, **k):
    x = array(x)
    if axis is None:
        x = x.ravel()
        axis = -1
    a = rnp.moveaxis(x.a, axis, -1)
    for i in rnp.ndindex(a.shape[:-1]):
        v = list(a[i])
        for p, q in enumerate(_sorted_perm(v)):
            a[i + (p,)] = v[q]
    return x


def unique(x, return_index=False, return_inverse=False, return_counts=False,
           axis=None):
    if axis is not None:
        return _back(rnp.unique(_real(x), return_index=return_index,
                                return_inverse=return_inverse,
                                return_counts=return_counts, axis=axis))
    x = _as(x).ravel()
    if not x.any_sym() and x.k != 'f':
        r = rnp.unique(x.concrete(), return_index=return_index,
                       return_inverse=return_inverse,
                       return_counts=return_counts)
        return _back(r)
    perm = _sorted_perm(list(x.a))
    out, first, inv, cnt = [], [], [None] * x.size, []
    for p in perm:
        v = x.a[p]
        if out and builtins.bool(S.eq(v, out[-1])):
            cnt[-1] += 1
        else:
            out.append(v)
            first.append(p)
            cnt.append(1)
        inv[p] = len(out) - 1
    r = [_as(out, x.dt) if out else zeros(0, x.dt)]
    if return_index:
        r.append(_as(first, rnp.int64))
    if return_inverse:
        r.append(_as(inv, rnp.int64))
    if return_counts:
        r.append(_as(cnt, rnp.int64))
    return r[0] if len(r) == 1 else tuple(r)


def bincount(x, weights=None, minlength=0):
    x = _as(x)
    n = builtins.max([minlength] + [v.__index__() + 1 for v in x.a]) if \
        not x.any_sym() else None
    if n is None:
        n = builtins.max(minlength, 1 + amax(x).__index__())
    w = ones(x.size, rnp.int64) if weights is None else \
        _as(weights).astype(rnp.float64)
    r = zeros(n, w.dt)
    for i in range(x.size):
        r[x.a[i]] += w.a[i]
    return r


def in1d(a, b, **k):
    a, b = _as(a).ravel(), _as(b).ravel()
    return any(a.reshape(-1, 1) == b.reshape(1, -1), axis=1)


def isin(a, b, **k):
    a = _as(a)
    return in1d(a, b).reshape(a.shape)


def setdiff1d(a, b, **k):
    u = unique(a)
    return u[~in1d(u, b)]


def intersect1d(a, b, **k):
    u = unique(a)
    return u[in1d(u, b)]


def union1d(a, b):
    return unique(concatenate([_as(a).ravel(), _as(b).ravel()]))


def searchsorted(a, v, side='left', **k):
    a, v = _as(a), _as(v)
    f = S.lt if side == 'left' else S.le

    def one(s):
        return S.sumv([f(e_, s) for e_ in a.a], 'i')
    if v.ndim == 0:
        return one(v.a[()])
    return A.unop(one, v, DT['i'])


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def apply_along_axis(f, axis, x, *a, **k):
    x = _as(x)
    t = rnp.moveaxis(x.a, axis, -1)
    outs = [f(SA(t[i], x.dt), *a, **k) for i in rnp.ndindex(t.shape[:-1])]
    r = _as(outs)
    return r.reshape(t.shape[:-1] + r.shape[1:])


def vectorize(f, **k):
    def g(*a):
        a = [_as(x) for x in a]
        bs = rnp.broadcast_arrays(*[x.a for x in a])
        return _as([f(*[b[i] for b in bs]) for i in
                    rnp.ndindex(bs[0].shape)]).reshape(bs[0].shape)
    return g


def fromiter(it, dtype, count=-1):
    return _as(list(it), dtype)


def issubdtype(a, b):
    return rnp.issubdtype(A._wrap_dtype(a), getattr(b, '_vf_sub', b)
                          if not hasattr(b, '_vf_dtype') else
                          {'integer': rnp.integer, 'floating': rnp.floating,
                           'number': rnp.number}.get(
                               b.__name__, b._vf_dtype))


def result_type(*a):
    return rnp.result_type(*[x.dt if isinstance(x, SA) else
                             (x.dtype if isinstance(x, Sym) else
                              getattr(x, '_vf_dtype', x)) for x in a])


def may_share_memory(a, b):
    return rnp.may_share_memory(a.a, b.a)


shares_memory = may_share_memory


def copyto(dst, src, **k):
    dst[...] = src


def finfo(dt):
    f = rnp.finfo(A._wrap_dtype(dt))
    return types.SimpleNamespace(eps=Sym('f', Fraction(builtins.float(f.eps))),
                                 max=Sym('f', Fraction(builtins.float(f.max))),
                                 min=Sym('f', Fraction(builtins.float(f.min))),
                                 tiny=Sym('f', Fraction(builtins.float(
                                     f.tiny))))


def iinfo(dt):
    return rnp.iinfo(A._wrap_dtype(dt))


class _Linalg(object):
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = _as(x)
        if ord in (None, 2, 'fro'):
            return sqrt(sum(x * x, axis=axis))
        if ord == 1:
            return sum(abs(x), axis=axis)
        if ord == rnp.inf:
            return amax(abs(x), axis=axis)
        raise EngineLimit('norm')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _str_dtype_out(getattr(rnp.linalg, n))


linalg = _Linalg()


class _Ctxm(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


errstate = _Ctxm
printoptions = _Ctxm


def seterr(*a, **k):
    return {}


def set_printoptions(*a, **k):
    pass


# random: arbitrary values (supplied by the harness)
class _Random(object):
    def __init__(self):
        self.provider = None

    def _p(self):
        if self.provider is None:
            raise EngineLimit("np.random used without a model")
        return self.provider

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            return getattr(self._p(), n)(*a, **k)
        return f


random = _Random()


class _Testing(object):
    def __getattr__(self, n):
        raise EngineLimit('np.testing')


testing = _Testing()


def __getattr__(n):
    """anything else: run the real function on concrete arguments"""
    if n.startswith('__'):
        raise AttributeError(n)
    r = getattr(rnp, n)
    if callable(r) and not isinstance(r, type):
        return _str_dtype_out(r)
    if isinstance(r, (builtins.float,)):
        return lift(r)
    if isinstance(r, type):
        return r
    if isinstance(r, (builtins.int, str)):
        return r
    raise EngineLimit("np.%s" % n)
