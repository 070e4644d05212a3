"""Symbolic arrays: a wrapper over object ndarrays whose elements are Sym."""
import itertools
from fractions import Fraction

import numpy as rnp

from . import sym as S
from .sym import Sym, lift, EngineLimit

DT = {'b': rnp.dtype(bool), 'i': rnp.dtype(rnp.int64),
      'f': rnp.dtype(rnp.float64), 'O': rnp.dtype(object)}

_cast1 = {k: rnp.frompyfunc(lambda s, k=k: S.cast(s, k), 1, 1)
          for k in 'bif'}


def _wrap_dtype(dt):
    dt = getattr(dt, '_vf_dtype', dt)
    return rnp.dtype(dt)


_zero = {'b': Sym('b', False), 'i': Sym('i', 0), 'f': Sym('f', Fraction(0))}
_one = {'b': Sym('b', True), 'i': Sym('i', 1), 'f': Sym('f', Fraction(1))}


def obj(shape):
    return rnp.empty(shape, dtype=object)


def full(shape, val, dt):
    a = obj(shape)
    k = S.dkind(dt)
    v = lift(val)
    if k == 'O':
        a[...] = val
        return SA(a, rnp.dtype(object))
    v = S.cast(v, k)
    for i in rnp.ndindex(a.shape):
        a[i] = v
    return SA(a, _wrap_dtype(dt))


def _elem(v):
    s = lift(v)
    if s is None:
        if isinstance(v, rnp.ndarray) and v.ndim == 0:
            return _elem(v[()])
        if isinstance(v, SA) and v.ndim == 0:
            return v.a[()]
        if isinstance(v, (str, type(None), dict)):
            return None
    return s


def from_real(x):
    """real ndarray -> SA"""
    if x.dtype.kind == 'O':
        a = obj(x.shape)
        kind = 'b'
        plain = True
        for i in rnp.ndindex(x.shape):
            e = _elem(x[i])
            if e is None:
                plain = False
                break
            a[i] = e
            kind = S._mx(kind, e.k)
        if plain and x.size:
            return SA(a, DT[kind])._ck()
        return SA(x, rnp.dtype(object))
    if x.dtype.kind not in 'biuf':
        raise EngineLimit("array of dtype %s" % x.dtype)
    a = obj(x.shape)
    for i in rnp.ndindex(x.shape):
        a[i] = lift(x[i])
    return SA(a, x.dtype)


def narrow(dt):
    return dt.kind in 'iu' and dt.itemsize < 8


def wrap1(e, dt):
    """an integer in an array of narrow integers: the low bits of it"""
    bits = 8 * dt.itemsize
    lo = -(1 << bits - 1) if dt.kind == 'i' else 0
    if not S.is_z3(e.v):
        v = int(e.v)
        if lo <= v < lo + (1 << bits):
            return e
        return Sym('i', (v - lo) % (1 << bits) + lo)
    if bits > 16:
        return e
    m = Sym('i', 1 << bits)
    inside = S.andv([S.le(Sym('i', lo), e),
                     S.lt(e, Sym('i', lo + (1 << bits)))])
    if not S.is_z3(inside.v):
        if inside.v:
            return e
    return S.ite(inside, e, S.add(S.mod(S.sub(e, Sym('i', lo)), m),
                                  Sym('i', lo)))


def fit_into(val, dt):
    """val as it arrives in an array of narrow integers"""
    if isinstance(val, MaskSel):
        return MaskSel(fit_into(val.val, dt), val.mask)
    v = asarray(val)
    if v.dt.kind == 'O' or v.dt == dt:
        return val
    return v.astype(dt)


def _shape_of(x):
    if isinstance(x, SA):
        return x.a.shape
    if isinstance(x, MaskSel):
        return x.force().a.shape
    if isinstance(x, rnp.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        shapes = [_shape_of(e) for e in x]
        if any(s is None for s in shapes):
            return None
        if any(s != shapes[0] for s in shapes):
            return None
        return (len(x),) + shapes[0]
    return ()


def asarray(x, dtype=None, copy=False):
    dt = None if dtype is None else _wrap_dtype(dtype)
    if isinstance(x, MaskSel):
        x = x.force()
    if isinstance(x, SA):
        if dt is None or dt == x.dt:
            return x.copy() if copy else x
        return x.astype(dt)
    if isinstance(x, rnp.ndarray):
        r = from_real(x)
        return r if dt is None else r.astype(dt)
    s = lift(x)
    if s is not None:
        a = obj(())
        a[()] = s
        r = SA(a, DT[s.k])
        return r if dt is None else r.astype(dt)
    if isinstance(x, (range, map, filter, zip)) or hasattr(x, '__next__'):
        if isinstance(x, range):
            x = list(x)
        else:
            a = obj(())
            a[()] = x
            return SA(a, rnp.dtype(object))
    if hasattr(x, '_vf_toarray'):
        return asarray(x._vf_toarray(), dtype)
    if isinstance(x, (list, tuple)):
        shp = _shape_of(x)
        if shp is None or (dt is not None and dt.kind == 'O'):
            # ragged: array of objects
            a = obj(len(x))
            for i, e in enumerate(x):
                a[i] = e
            return SA(a, rnp.dtype(object))
        a = obj(shp)
        kinds = 'b' if shp and 0 not in shp else 'f'
        dts = []
        bad = False

        def put(pre, e):
            nonlocal bad
            if isinstance(e, MaskSel):
                e = e.force()
            if isinstance(e, rnp.ndarray):
                e = from_real(e)
            if isinstance(e, SA):
                a[pre] = e.a if e.ndim else e.a[()]
                dts.append(e.dt)
                return
            if isinstance(e, (list, tuple)):
                for i, ee in enumerate(e):
                    put(pre + (i,), ee)
                return
            s = lift(e)
            if s is None:
                bad = True
                a[pre] = e
                dts.append(rnp.dtype(object))
            else:
                a[pre] = s
                dts.append(DT[s.k])
        put((), x)
        if bad:
            return SA(a, rnp.dtype(object))
        if dt is None:
            if not dts or 0 in shp and all(isinstance(e, (list, tuple))
                                           for e in x):
                rdt = rnp.dtype(float)
            else:
                rdt = rnp.result_type(*dts)
        else:
            rdt = dt
        return SA(a, rdt)._ck()
    if x is None or isinstance(x, (str, dict)) or callable(x) or True:
        a = obj(())
        a[()] = x
        return SA(a, rnp.dtype(object))


def is_sa(x):
    return isinstance(x, SA)


def binop(f, a, b, out_kind=None):
    """elementwise f with broadcasting"""
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        return mask_binop(f, a, b)
    a, b = asarray(a), asarray(b)
    if a.dt.kind == 'O' or b.dt.kind == 'O':
        ufn = _ops_obj.get(f)
        if ufn is None:
            raise EngineLimit("op on object arrays")
        r = rnp.frompyfunc(ufn, 2, 1)(a.a, b.a)
        if not isinstance(r, rnp.ndarray):
            return r
        return from_real(r) if r.dtype == object else r
    r = rnp.frompyfunc(f, 2, 1)(a.a, b.a)
    if not isinstance(r, rnp.ndarray):
        return r
    if f in _CMPS:
        dt = DT['b']
    elif f is S.div:
        dt = DT['f']
    else:
        dt = rnp.result_type(_weak(a, b), _weak(b, a))
        if f in (S.floordiv, S.mod, S.power) and dt.kind == 'b':
            dt = DT['i']
    res = SA(r, dt)
    return res._ck()


def _weak(a, b):
    # 0-d operands do not upcast within a kind
    if a.ndim == 0 and b.ndim > 0:
        ka, kb = S.dkind(a.dt), S.dkind(b.dt)
        if S._ORD[ka] <= S._ORD[kb]:
            e = a.a[()]
            if ka == 'i' and narrow(b.dt) and not S.is_z3(e.v):
                # a number that does not fit makes the result wider
                return rnp.result_type(rnp.zeros(1, b.dt), int(e.v))
            return b.dt
    return a.dt


def _py(op):
    import operator
    return getattr(operator, op)


_ops_obj = {S.add: _py('add'), S.sub: _py('sub'), S.mul: _py('mul'),
            S.div: _py('truediv'), S.eq: _py('eq'), S.ne: _py('ne'),
            S.lt: _py('lt'), S.le: _py('le'), S.gt: _py('gt'),
            S.ge: _py('ge')}
_CMPS = (S.lt, S.le, S.gt, S.ge, S.eq, S.ne)


def unop(f, a, dt=None):
    if isinstance(a, MaskSel):
        return MaskSel(unop(f, a.val, dt), a.mask)
    a = asarray(a)
    r = rnp.frompyfunc(f, 1, 1)(a.a)
    if not isinstance(r, rnp.ndarray):
        return r
    return SA(r, dt or a.dt)._ck()


class SA(object):
    __slots__ = ('a', 'dt', '_w')
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, a, dt, w=True):
        self.a = a
        self.dt = dt
        self._w = w

    def _ck(self):
        k = S.dkind(self.dt)
        if k == 'O':
            return self
        for i in rnp.ndindex(self.a.shape):
            e = self.a[i]
            if e.k != k:
                self.a[i] = S.cast(e, k)
        if narrow(self.dt):
            for i in rnp.ndindex(self.a.shape):
                self.a[i] = wrap1(self.a[i], self.dt)
        return self

    # ------------------------------------------------------------ properties
    @property
    def k(self):
        return S.dkind(self.dt)

    dtype = property(lambda s: s.dt)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, v):
        self.a.shape = v

    @property
    def T(self):
        return SA(self.a.T, self.dt)

    @property
    def flat(self):
        return self.ravel()

    @property
    def flags(self):
        return self.a.flags

    @property
    def strides(self):
        return self.a.strides

    @property
    def nbytes(self):
        return self.a.size * self.dt.itemsize

    @property
    def base(self):
        return self.a.base

    @property
    def real(self):
        return self

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self._out(self.a[i])

    def _out(self, r):
        if isinstance(r, rnp.ndarray):
            return SA(r, self.dt)
        return r

    def any_sym(self):
        return any(isinstance(e, Sym) and S.is_z3(e.v) for e in self.a.flat)

    def concrete(self):
        """-> real ndarray (exact only for representable values)"""
        if self.dt.kind == 'O':
            return self.a
        if self.any_sym():
            raise EngineLimit("concrete value needed for a symbolic array")
        r = rnp.empty(self.a.shape, dtype=self.dt)
        for i in rnp.ndindex(self.a.shape):
            r[i] = self.a[i].v
        return r

    def __array__(self, dtype=None):
        r = self.concrete()
        return r if dtype is None else r.astype(dtype)

    def __repr__(self):
        return "SA(%s, %s)" % (self.a.tolist(), self.dt)
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        if self.a.size != 1:
            if self.a.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return bool(self.a.flat[0])

    def __index__(self):
        if self.a.ndim == 0 and self.k == 'i':
            return self.a[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    def __int__(self):
        if self.a.size == 1:
            return int(self.a.flat[0])
        raise TypeError("only size-1 arrays can be converted to Python "
                        "scalars")

    def __float__(self):
        if self.a.size == 1:
            return float(self.a.flat[0])
        raise TypeError("only size-1 arrays can be converted to Python "
                        "scalars")

    __hash__ = None

    # -------------------------------------------------------------- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)

    # ------------------------------------------------------------ arithmetic
    def _b(f, swap=False):
        if swap:
            def op(self, o):
                if o is None or isinstance(o, (str, dict)):
                    return NotImplemented
                return binop(f, o, self)
        else:
            def op(self, o):
                if o is None or isinstance(o, (str, dict)):
                    return NotImplemented
                return binop(f, self, o)
        return op

    __add__ = _b(S.add)
    __radd__ = _b(S.add, True)
    __sub__ = _b(S.sub)
    __rsub__ = _b(S.sub, True)
    __mul__ = _b(S.mul)
    __rmul__ = _b(S.mul, True)
    __truediv__ = _b(S.div)
    __rtruediv__ = _b(S.div, True)
    __floordiv__ = _b(S.floordiv)
    __rfloordiv__ = _b(S.floordiv, True)
    __mod__ = _b(S.mod)
    __rmod__ = _b(S.mod, True)
    __pow__ = _b(S.power)
    __rpow__ = _b(S.power, True)
    __and__ = _b(S.band)
    __rand__ = _b(S.band, True)
    __or__ = _b(S.bor)
    __ror__ = _b(S.bor, True)
    __xor__ = _b(S.bxor)
    __lt__ = _b(S.lt)
    __le__ = _b(S.le)
    __gt__ = _b(S.gt)
    __ge__ = _b(S.ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return full(self.a.shape, False, bool)
        try:
            return binop(S.eq, self, o)
        except ValueError:
            # numpy 1.23: shape mismatch in == gives a scalar False
            return Sym('b', False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return full(self.a.shape, True, bool)
        try:
            return binop(S.ne, self, o)
        except ValueError:
            return Sym('b', True)

    def __neg__(self):
        return unop(S.neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return unop(S.absv, self)

    def __invert__(self):
        if self.k == 'b':
            return unop(S.lnot, self)
        return unop(lambda s: s.__invert__(), self)

    def __matmul__(self, o):
        from . import npshim
        return npshim.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.matmul(o, self)

    def _i(f):
        def op(self, o):
            if isinstance(o, MaskSel):
                o = o.force()
            r = asarray(binop(f, self, o))
            iassign(self, r)
            return self
        return op

    __iadd__ = _i(S.add)
    __isub__ = _i(S.sub)
    __imul__ = _i(S.mul)
    __itruediv__ = _i(S.div)
    __ifloordiv__ = _i(S.floordiv)
    __imod__ = _i(S.mod)
    __ipow__ = _i(S.power)
    __iand__ = _i(S.band)
    __ior__ = _i(S.bor)

    # --------------------------------------------------------------- methods
    def copy(self, order=None):
        return SA(self.a.copy(), self.dt)
    __copy__ = copy

    def __deepcopy__(self, memo):
        if self.dt.kind == 'O':
            import copy
            r = obj(self.a.shape)
            for i in rnp.ndindex(self.a.shape):
                r[i] = copy.deepcopy(self.a[i], memo)
            return SA(r, self.dt)
        return self.copy()

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic array")

    def view(self, *a):
        return SA(self.a, self.dt)

    def astype(self, dt, order=None, copy=True, casting=None, **kw):
        dt = _wrap_dtype(dt)
        if dt.kind == 'O':
            return SA(self.a.copy(), dt)
        k = S.dkind(dt)
        r = obj(self.a.shape)
        for i in rnp.ndindex(self.a.shape):
            e = lift(self.a[i])
            if e is None:
                raise EngineLimit("astype of object array")
            e = S.cast(e, k)
            if narrow(dt):
                e = wrap1(e, dt)
            r[i] = e
        return SA(r, dt)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SA)):
            shape = tuple(shape[0])
        shape = tuple(int(s.__index__()) if not isinstance(s, int) else s
                      for s in shape)
        return SA(self.a.reshape(shape, **kw), self.dt)

    def ravel(self, order='C'):
        return SA(self.a.ravel(order), self.dt)

    def flatten(self, order='C'):
        return SA(self.a.flatten(order), self.dt)

    def transpose(self, *ax):
        return SA(self.a.transpose(*ax), self.dt)

    def swapaxes(self, a, b):
        return SA(self.a.swapaxes(a, b), self.dt)

    def squeeze(self, *a, **k):
        return SA(self.a.squeeze(*a, **k), self.dt)

    def resize(self, *a, **k):
        raise EngineLimit('resize')

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if a:
            return self.a.item(*a)
        if self.a.size != 1:
            raise ValueError("can only convert an array of size 1 to a "
                             "Python scalar")
        return self.a.flat[0]

    def tolist(self):
        return self.a.tolist()

    def __contains__(self, v):
        return bool(asarray(binop(S.eq, self, v)).any())

    def _np(name):
        def m(self, *a, **k):
            from . import npshim
            return getattr(npshim, name)(self, *a, **k)
        return m

    sum = _np('sum')
    prod = _np('prod')
    mean = _np('mean')
    max = _np('amax')
    min = _np('amin')
    argmax = _np('argmax')
    argmin = _np('argmin')
    any = _np('any')
    all = _np('all')
    dot = _np('dot')
    cumsum = _np('cumsum')
    nonzero = _np('nonzero')
    repeat = _np('repeat')
    take = _np('take')
    diagonal = _np('diagonal')
    trace = _np('trace')
    clip = _np('clip')
    argsort = _np('argsort')
    round = _np('around')
    std = _np('std')
    var = _np('var')
    ptp = _np('ptp')
    compress = _np('_compress')

    def sort(self, axis=-1):
        from . import npshim
        self.a[...] = npshim.sort(self, axis).a

    def put(self, *a):
        raise EngineLimit('put')


def iassign(dst, r):
    """dst[...] = r with numpy's same-kind casting rule for in-place ops"""
    if r.a.shape != dst.a.shape:
        raise ValueError("non-broadcastable output operand with shape %s "
                         "doesn't match the broadcast shape %s"
                         % (dst.a.shape, r.a.shape))
    kd = S.dkind(dst.dt)
    if kd == 'O':
        dst.a[...] = r.a
        return
    kr = S.dkind(r.dt)
    if S._ORD[kr] > S._ORD[kd]:
        raise TypeError("Cannot cast ufunc output from dtype('%s') to "
                        "dtype('%s') with casting rule 'same_kind'"
                        % (r.dt, dst.dt))
    if not dst.a.flags.writeable:
        raise ValueError("output array is read-only")
    if narrow(dst.dt):
        r = r.astype(dst.dt)
    for i in rnp.ndindex(dst.a.shape):
        dst.a[i] = S.cast(r.a[i], kd)


# ------------------------------------------------------------------- masking
class MaskSel(object):
    """a[mask] for a symbolic mask: full-shape values + mask, size unknown."""
    __array_ufunc__ = None
    __array_priority__ = 3000
    __hash__ = None

    def __init__(self, val, mask):
        self.val = val
        self.mask = mask

    def __setitem__(self, i, v):
        # from now on an array of its own
        a = self.force()
        a[i] = v
        self.val = a
        self.mask = SA(obj(a.shape[:1]), rnp.dtype(bool))
        for k in range(a.shape[0]):
            self.mask.a[k] = Sym('b', True)

    def force(self):
        m = self.mask
        for i in rnp.ndindex(m.a.shape):
            e = m.a[i]
            if S.is_z3(e.v):
                m.a[i] = Sym('b', bool(e))
        cm = m.concrete()
        return SA(self.val.a[cm], self.val.dt)

    @property
    def dtype(self):
        return self.val.dt

    def astype(self, dt, **k):
        return MaskSel(self.val.astype(dt), self.mask)

    def copy(self):
        return MaskSel(self.val.copy(), self.mask)

    def _masked(self, fill):
        m = self.mask
        out = self.val.a.copy()
        f = lift(fill)
        for i in rnp.ndindex(m.a.shape):
            c = m.a[i]
            if m.a.ndim == out.ndim:
                out[i] = S.ite(c, out[i], f)
            else:
                sub = out[i]
                for j in rnp.ndindex(sub.shape):
                    sub[j] = S.ite(c, sub[j], f)
        return SA(out, self.val.dt)

    def sum(self, axis=None, **kw):
        if axis is None and not kw or axis == 0 and \
                self.mask.ndim == 1 and not kw:
            return self._masked(0).sum(axis=axis)
        return self.force().sum(axis=axis, **kw)

    def any(self, axis=None, **kw):
        if axis is None:
            return self._masked(False).any()
        return self.force().any(axis=axis, **kw)

    def all(self, axis=None, **kw):
        if axis is None:
            return self._masked(True).all()
        return self.force().all(axis=axis, **kw)

    def __getattr__(self, n):
        if n.startswith('_vf') or n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __bool__(self):
        return bool(self.force())

    def __neg__(self):
        return MaskSel(-self.val, self.mask)

    def __invert__(self):
        return MaskSel(~self.val, self.mask)

    def __abs__(self):
        return MaskSel(abs(self.val), self.mask)

    def _b(f, swap=False):
        def op(self, o):
            return mask_binop(f, o, self) if swap else mask_binop(f, self, o)
        return op

    for _n, _f in (('add', S.add), ('sub', S.sub), ('mul', S.mul),
                   ('truediv', S.div), ('floordiv', S.floordiv),
                   ('mod', S.mod), ('pow', S.power), ('and', S.band),
                   ('or', S.bor)):
        locals()['__%s__' % _n] = _b(_f)
        locals()['__r%s__' % _n] = _b(_f, True)
    for _n, _f in (('lt', S.lt), ('le', S.le), ('gt', S.gt), ('ge', S.ge),
                   ('eq', S.eq), ('ne', S.ne)):
        locals()['__%s__' % _n] = _b(_f)
    del _n, _f


def _same_mask(a, b):
    if a is b:
        return True
    if a.a.shape != b.a.shape:
        return False
    for x, y in zip(a.a.flat, b.a.flat):
        if S.is_z3(x.v) != S.is_z3(y.v):
            return False
        if S.is_z3(x.v):
            if not x.v.eq(y.v):
                return False
        elif x.v != y.v:
            return False
    return True


def mask_binop(f, a, b):
    am, bm = isinstance(a, MaskSel), isinstance(b, MaskSel)
    if am and bm:
        if _same_mask(a.mask, b.mask):
            r = binop(f, a.val, b.val)
            return MaskSel(asarray(r), a.mask)
        return binop(f, a.force(), b.force())
    m, o = (a, b) if am else (b, a)
    oa = asarray(o)
    if oa.ndim == 0:
        r = binop(f, m.val, oa) if am else binop(f, oa, m.val)
        return MaskSel(asarray(r), m.mask)
    if m.val.ndim > m.mask.ndim and \
            oa.ndim <= m.val.ndim - m.mask.ndim:
        r = binop(f, m.val, oa) if am else binop(f, oa, m.val)
        return MaskSel(asarray(r), m.mask)
    fm = m.force()
    return binop(f, fm, oa) if am else binop(f, oa, fm)


# ------------------------------------------------------------------ indexing
def _norm(idx):
    """-> (list of components, has_symbolic)"""
    comps = list(idx) if isinstance(idx, tuple) else [idx]
    out, symb = [], False
    for c in comps:
        if isinstance(c, MaskSel):
            c = c.force()
        if isinstance(c, slice):
            c = slice(*[None if v is None else v.__index__()
                        for v in (c.start, c.stop, c.step)])
        elif isinstance(c, Sym):
            if c.k == 'f':
                raise IndexError("only integers, slices (`:`), ellipsis "
                                 "(`...`), numpy.newaxis (`None`) and integer"
                                 " or boolean arrays are valid indices")
            if S.is_z3(c.v):
                symb = True
            elif c.k == 'b':
                c = bool(c.v)
            else:
                c = int(c.v)
        elif isinstance(c, (list, SA)) or (isinstance(c, tuple)):
            c = asarray(c)
            if c.size == 0 and not isinstance(idx, SA) and c.dt.kind == 'f' \
                    and isinstance(c, SA):
                c = SA(c.a, DT['i']) if not is_sa_in(idx, c) else c
            if c.dt.kind == 'O':
                raise IndexError("arrays used as indices must be of integer "
                                 "(or boolean) type")
            if c.k == 'f':
                raise IndexError("arrays used as indices must be of integer "
                                 "(or boolean) type")
            if c.any_sym():
                symb = True
                if c.ndim == 0:
                    c = c.a[()]
            else:
                c = c.concrete()
                if c.ndim == 0:
                    c = c[()]
        elif isinstance(c, rnp.ndarray):
            pass
        elif c is None or c is Ellipsis or isinstance(
                c, (int, bool, rnp.integer, rnp.bool_)):
            pass
        elif hasattr(c, '__index__'):
            c = c.__index__()
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`),"
                             " numpy.newaxis (`None`) and integer or boolean"
                             " arrays are valid indices")
        out.append(c)
    return out, symb


def is_sa_in(idx, c):
    if isinstance(idx, tuple):
        return any(i is c for i in idx)
    return idx is c


def _is_adv(c):
    return isinstance(c, (rnp.ndarray, SA)) and c.ndim > 0


def _expand(comps, ndim):
    """replace Ellipsis, pad with full slices"""
    used = 0
    for c in comps:
        if c is None or c is Ellipsis:
            continue
        if isinstance(c, (rnp.ndarray, SA)) and c.dtype.kind == 'b':
            used += c.ndim
        else:
            used += 1
    if used > ndim:
        raise IndexError("too many indices for array")
    out, seen = [], False
    for c in comps:
        if c is Ellipsis:
            if not seen:
                out.extend([slice(None)] * (ndim - used))
                seen = True
        else:
            out.append(c)
    if not seen:
        out.extend([slice(None)] * (ndim - used))
    return out


def _resolve(arr, idx):
    """Normalise an index.  Returns ('real', tuple) | ('mask', ...) |
    ('int', plan)"""
    comps, symb = _norm(idx)
    if not symb:
        return 'real', tuple(comps)
    comps = _expand(comps, arr.a.ndim)
    masks = [i for i, c in enumerate(comps)
             if isinstance(c, SA) and c.k == 'b' or
             isinstance(c, Sym) and c.k == 'b']
    if masks:
        others_adv = [c for i, c in enumerate(comps)
                      if i not in masks and _is_adv(c)]
        if len(masks) == 1 and not others_adv and \
                not any(isinstance(c, Sym) for c in comps):
            return 'mask', (comps, masks[0])
        for i in masks:
            c = comps[i]
            if isinstance(c, Sym):
                comps[i] = bool(c)
                continue
            m = c.copy()
            for j in rnp.ndindex(m.a.shape):
                m.a[j] = Sym('b', bool(m.a[j]))
            comps[i] = m.concrete()
        if not any(isinstance(c, (Sym, SA)) for c in comps):
            return 'real', tuple(comps)
    # expand real boolean masks to integer arrays
    out = []
    for c in comps:
        if isinstance(c, rnp.ndarray) and c.dtype.kind == 'b':
            out.extend(c.nonzero())
        else:
            out.append(c)
    return 'int', out


def _bounds(s, n):
    """normalise a symbolic integer index against length n (forks on error)"""
    z = S.to_int(s.v)
    c = S.ctx()
    lo = const_lo_hi(z)
    if lo is not None and 0 <= lo[0] and lo[1] < n:
        return s
    if not c.branch(S.z3.And(z >= -n, z < n)):
        raise IndexError("index is out of bounds for axis with size %d" % n)
    if lo is not None and lo[0] >= 0:
        return s
    if c.branch(z >= 0):
        return s
    return S.ite(S.mk('b', z < 0), S.mk('i', z + n), s)


def const_lo_hi(e, depth=0):
    """range of an ITE tree with constant leaves"""
    c = S.const_of(e)
    if c is not None:
        return c, c
    if depth < 14 and S.z3.is_app_of(e, S.z3.Z3_OP_ITE):
        a = const_lo_hi(e.arg(1), depth + 1)
        b = const_lo_hi(e.arg(2), depth + 1)
        if a and b:
            return min(a[0], b[0]), max(a[1], b[1])
    return None


def _values(s, n):
    """candidate values 0..n-1 for a normalised symbolic index"""
    r = const_lo_hi(S.to_int(s.v))
    if r:
        return range(max(0, r[0]), min(n - 1, r[1]) + 1)
    return range(n)


def _int_plan(arr, comps):
    """Split an integer index with symbolic parts.

    Returns (axes info): list of comps where symbolic comps are object arrays
    broadcast to the common shape B, together with B and the axis sizes."""
    ax = 0
    sizes = []
    for c in comps:
        if c is None:
            sizes.append(None)
        else:
            sizes.append(arr.a.shape[ax])
            ax += 1
    shapes = []
    for c in comps:
        if isinstance(c, (SA, rnp.ndarray)):
            shapes.append(c.shape)
    B = rnp.broadcast_shapes(*shapes) if shapes else ()
    norm = []
    for c, n in zip(comps, sizes):
        if isinstance(c, Sym):
            o = obj(B)
            v = _bounds(c, n)
            for i in rnp.ndindex(B):
                o[i] = v
            norm.append(('s', o, n))
        elif isinstance(c, SA):
            o = obj(c.shape)
            for i in rnp.ndindex(c.shape):
                e = c.a[i]
                if S.is_z3(e.v):
                    o[i] = _bounds(e, n)
                else:
                    v = int(e.v)
                    if not -n <= v < n:
                        raise IndexError("index %d is out of bounds for axis "
                                         "with size %d" % (v, n))
                    o[i] = Sym('i', v % n)
            norm.append(('s', rnp.broadcast_to(o, B), n))
        elif isinstance(c, rnp.ndarray):
            if c.dtype.kind not in 'iu':
                raise IndexError("arrays used as indices must be of integer "
                                 "(or boolean) type")
            for v in c.flat:
                if not -n <= v < n:
                    raise IndexError("index %d is out of bounds for axis with"
                                     " size %d" % (v, n))
            norm.append(('c', rnp.broadcast_to(c, B), n))
        elif isinstance(c, (int, rnp.integer)) and not isinstance(c, bool):
            if not -n <= c < n:
                raise IndexError("index %d is out of bounds for axis with "
                                 "size %d" % (c, n))
            norm.append(('c', rnp.broadcast_to(rnp.array(int(c)), B), n))
        else:
            norm.append(('p', c, n))
    # where do broadcast dims go?  adjacent advanced -> in place, else front
    advpos = [i for i, c in enumerate(norm) if c[0] in 'sc']
    adjacent = advpos == list(range(advpos[0], advpos[-1] + 1))
    before = 0
    if adjacent:
        before = sum(1 for c in norm[:advpos[0]] if c[0] == 'p')
    return norm, B, before


def getitem(arr, idx):
    mode, plan = _resolve(arr, idx)
    if mode == 'real':
        r = arr.a[plan]
        if isinstance(r, rnp.ndarray):
            return SA(r, arr.dt)
        return r
    if mode == 'mask':
        comps, mi = plan
        mask = comps[mi]
        c2 = list(comps)
        c2[mi:mi + 1] = [slice(None)] * mask.ndim
        view = arr.a[tuple(c2)]
        # position of mask dims in the view
        pos = sum(1 for c in comps[:mi] if c is None or isinstance(c, slice))
        if pos != 0:
            m2 = mask.copy()
            for j in rnp.ndindex(m2.a.shape):
                m2.a[j] = Sym('b', bool(m2.a[j]))
            c3 = list(comps)
            c3[mi] = m2.concrete()
            r = arr.a[tuple(c3)]
            return SA(r, arr.dt)
        if view.shape[:mask.ndim] != mask.shape:
            raise IndexError("boolean index did not match indexed array")
        return MaskSel(SA(view.copy(), arr.dt), mask.copy())
    norm, B, before = _int_plan(arr, plan)
    syms = [i for i, c in enumerate(norm) if c[0] == 's']
    nb = len(B)

    def rec(j, cur):
        if j == len(syms):
            t = tuple(c if isinstance(c, rnp.ndarray) else c for c in cur)
            # with 0-d broadcast shape numpy must still see scalars
            r = arr.a[tuple(int(c) if isinstance(c, rnp.ndarray) and
                            c.ndim == 0 else c for c in t)]
            return r
        i = syms[j]
        _, o, n = norm[i]
        vals = sorted(set(v for e in o.flat for v in (
            _values(e, n) if S.is_z3(e.v) else [int(e.v)])))
        res = None
        if not vals:
            if o.size:
                raise IndexError("index out of bounds")
            vals = [0] if n else []
            if not vals:
                return obj(0).reshape((0,) * 1)
        for v in reversed(vals):
            cur[i] = rnp.full(B, v, dtype=int)
            r = rec(j + 1, cur)
            if res is None:
                res = r
                continue
            if not isinstance(r, rnp.ndarray):
                c = S.eq(o[()], Sym('i', v))
                res = S.ite(c, r, res)
                continue
            out = obj(r.shape)
            nd = r.ndim
            for p in rnp.ndindex(r.shape):
                bp = p[before:before + nb]
                e = o[bp]
                if not S.is_z3(e.v):
                    out[p] = r[p] if int(e.v) == v else res[p]
                else:
                    out[p] = S.ite(S.eq(e, Sym('i', v)), r[p], res[p])
            res = out
        return res

    cur = [None] * len(norm)
    for i, c in enumerate(norm):
        if c[0] != 's':
            cur[i] = c[1]
    r = rec(0, cur)
    if isinstance(r, rnp.ndarray):
        return SA(r, arr.dt)
    return r


def _cast_into(v, dt):
    k = S.dkind(dt)
    if k == 'O':
        return v
    s = lift(v)
    if s is None:
        raise ValueError("setting an array element with a sequence.")
    return S.cast(s, k)


def setitem(arr, idx, val):
    if not arr.a.flags.writeable:
        raise ValueError("assignment destination is read-only")
    if narrow(arr.dt):
        val = fit_into(val, arr.dt)
    mode, plan = _resolve(arr, idx)
    k = S.dkind(arr.dt)
    if mode == 'mask':
        comps, mi = plan
        mask = comps[mi]
        c2 = list(comps)
        c2[mi:mi + 1] = [slice(None)] * mask.ndim
        view = arr.a[tuple(c2)]
        pos = sum(1 for c in comps[:mi] if c is None or isinstance(c, slice))
        sel = None
        if pos == 0 and isinstance(val, MaskSel) and \
                _same_mask(val.mask, mask):
            sel = val.val
        elif pos == 0 and not isinstance(val, MaskSel):
            va = asarray(val)
            if va.ndim == 0 or va.ndim <= view.ndim - mask.ndim:
                sel = SA(rnp.broadcast_to(va.a, view.shape), va.dt)
        if sel is not None:
            for i in rnp.ndindex(mask.shape):
                c = mask.a[i]
                if view.ndim == mask.ndim:
                    view[i] = S.ite(c, S.cast(sel.a[i], k), view[i])
                else:
                    for j in rnp.ndindex(view.shape[mask.ndim:]):
                        view[i + j] = S.ite(c, S.cast(sel.a[i + j], k),
                                            view[i + j])
            return
        m2 = mask.copy()
        for j in rnp.ndindex(m2.a.shape):
            m2.a[j] = Sym('b', bool(m2.a[j]))
        c3 = list(comps)
        c3[mi] = m2.concrete()
        mode, plan = 'real', tuple(c3)
    if isinstance(val, MaskSel):
        val = val.force()
    if mode == 'real':
        if k == 'O':
            arr.a[plan] = val.a if isinstance(val, SA) else val
            return
        if isinstance(val, (list, tuple, rnp.ndarray, SA)) or \
                hasattr(val, '_vf_toarray'):
            va = asarray(val)
            if va.dt.kind == 'O':
                raise ValueError("setting an array element with a sequence.")
            tgt = arr.a[plan]
            if not isinstance(tgt, rnp.ndarray):
                if va.size != 1:
                    raise ValueError("setting an array element with a "
                                     "sequence.")
                arr.a[plan] = _cast_into(va.a.flat[0], arr.dt)
                return
            arr.a[plan] = _cast1[k](va.a) if va.size else va.a
            return
        v = _cast_into(val, arr.dt)
        tgt = arr.a[plan]
        if isinstance(tgt, rnp.ndarray):
            o = obj(())
            o[()] = v
            arr.a[plan] = o
        else:
            arr.a[plan] = v
        return
    norm, B, before = _int_plan(arr, plan)
    va = asarray(val)
    # shape of the target
    rep = tuple((rnp.zeros(B, dtype=int) if c[0] == 's' else c[1])
                for c in norm)
    if arr.a.size == 0:
        if rnp.prod(B) == 0:
            return
        raise IndexError("index out of bounds")
    tshape = rnp.empty(arr.a.shape, dtype=bool)[tuple(
        int(c) if isinstance(c, rnp.ndarray) and c.ndim == 0 else c
        for c in rep)]
    tshape = tshape.shape if isinstance(tshape, rnp.ndarray) else ()
    if va.a.shape != tshape:
        src = va.a
        while src.ndim > len(tshape) and src.shape[0] == 1:
            src = src[0]
        vb = rnp.broadcast_to(src, tshape)
    else:
        vb = va.a
    nb = len(B)
    for bp in rnp.ndindex(B):
        src = vb[(slice(None),) * before + bp]
        choices = []
        for c in norm:
            if c[0] == 's':
                e = c[1][bp]
                if S.is_z3(e.v):
                    choices.append([(v, S.eq(e, Sym('i', v)))
                                    for v in _values(e, c[2])])
                else:
                    choices.append([(int(e.v), None)])
            elif c[0] == 'c':
                choices.append([(int(c[1][bp]), None)])
            else:
                choices.append([(c[1], None)])
        for combo in itertools.product(*choices):
            conds = [x[1] for x in combo if x[1] is not None]
            cond = S.andv(conds)
            if not S.is_z3(cond.v) and not cond.v:
                continue
            ridx = tuple(x[0] for x in combo)
            t = arr.a[ridx]
            if isinstance(t, rnp.ndarray):
                sb = rnp.broadcast_to(src, t.shape) if \
                    isinstance(src, rnp.ndarray) else None
                for p in rnp.ndindex(t.shape):
                    v = sb[p] if sb is not None else src
                    t[p] = S.ite(cond, S.cast(v, k), t[p])
            else:
                v = src[()] if isinstance(src, rnp.ndarray) else src
                arr.a[ridx] = S.ite(cond, S.cast(v, k), t)
