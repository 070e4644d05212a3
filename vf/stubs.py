"""Third-party modules of the symbolic rendering."""
import builtins
import copy
import inspect
import io
import types

import numpy as rnp

from . import sym as S
from . import arr as A
from . import npshim
from . import hooks
from .hooks import HOOKS, ad3_check as _ad3_check
from .sym import Sym, EngineLimit


def mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


# ---------------------------------------------------------------- cvxopt
class CMat(object):
    """cvxopt matrix / spmatrix (dense here): 2-d, column major"""
    __array_ufunc__ = None

    def __init__(self, a, tc):
        self._a = a
        self.typecode = tc

    @property
    def size(self):
        return self._a.shape

    def __len__(self):
        return self._a.size

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self._a[i]
        return self._a.reshape(-1, order='F')[i]

    def __iter__(self):
        return iter(self._a.reshape(-1, order='F'))

    def _vf_toarray(self):
        return self._a.copy()


def _cm(x, size=None, tc=None):
    if isinstance(x, CMat):
        a = x._a
    else:
        if isinstance(x, A.MaskSel):
            x = x.force()
        scalar = S.lift(x) is not None
        a = A.asarray(x)
        if a.dt.kind == 'O':
            raise TypeError('invalid array type')
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(-1, 1)
        elif isinstance(x, (list, tuple)):
            a = a.T           # lists are columns
        if a.ndim != 2:
            raise TypeError('imcompatible dimensions')
        if not scalar and not isinstance(x, (list, tuple)):
            n = rnp.dtype(a.dt)
            if n.kind not in 'if' or n.itemsize != 8:
                raise TypeError('invalid array type')
    t = tc or ('d' if a.dt.kind == 'f' else 'i')
    a = a.copy()
    if t == 'd':
        a = a.astype(float)
    if size is not None:
        if size[0] * size[1] != a.size:
            raise TypeError('wrong matrix size')
        v = a.reshape(-1, order='F')
        a = v.reshape(size[1], size[0]).T
    return CMat(a, t)


def _spmatrix(data, I, J, size=None, tc=None):
    ds = A.asarray(data)
    if ds.ndim == 0:
        ds = npshim.full(len(I), ds.a[()])
    Is = [int(i) for i in A.asarray(I).ravel().a]
    Js = [int(i) for i in A.asarray(J).ravel().a]
    if size is None:
        size = ((max(Is) + 1) if Is else 0, (max(Js) + 1) if Js else 0)
    out = npshim.zeros(size)
    for d, i, j in zip(ds.ravel().a, Is, Js):
        out.a[i, j] = S.cast(S.add(out.a[i, j], d), 'f')
    return CMat(out, tc or 'd')


def _spdiag(x):
    if isinstance(x, CMat):
        if 1 in x.size:
            return CMat(npshim.diag(x._a.reshape(-1, order='F')), 'd')
        return CMat(x._a.copy(), x.typecode)
    if isinstance(x, (list, tuple)):
        blocks = []
        for b in x:
            blocks.append(b._a if isinstance(b, CMat) else
                          A.asarray(b).reshape(1, 1))
        n = sum(b.shape[0] for b in blocks)
        m = sum(b.shape[1] for b in blocks)
        out = npshim.zeros((n, m))
        i = j = 0
        for b in blocks:
            out[i:i + b.shape[0], j:j + b.shape[1]] = b
            i += b.shape[0]
            j += b.shape[1]
        return CMat(out, 'd')
    raise TypeError('spdiag')


def _sparse(x, tc=None):
    if isinstance(x, CMat):
        return CMat(x._a.astype(float), 'd')
    if isinstance(x, (list, tuple)):
        if x and isinstance(x[0], (list, tuple)):
            return CMat(npshim.hstack([npshim.vstack([_cm(b)._a for b in c])
                                       for c in x]).astype(float), 'd')
        return CMat(npshim.vstack([_cm(b)._a for b in x]).astype(float), 'd')
    raise TypeError('sparse')


OPTIONS = {}


def _need_d(**ms):
    for n, m in ms.items():
        if m is not None and (not isinstance(m, CMat) or m.typecode != 'd'):
            raise TypeError("'%s' must be a 'd' matrix" % n)


def _un(m):
    return None if m is None else m._a


def _vec(m):
    return None if m is None else m._a.reshape(-1, order='F')


def _sol(r):
    r = dict(r)
    if 'x' in r and r['x'] is not None and not isinstance(r['x'], CMat):
        r['x'] = _cm(A.asarray(r['x']).astype(float))
    return r


def _qp(P, q, G=None, h=None, A=None, b=None, solver=None, kktsolver=None,
        initvals=None, **k):
    _need_d(P=P, q=q, G=G, h=h, A=A, b=b)
    if P.size[0] != P.size[1] or q.size != (P.size[0], 1):
        raise TypeError("'q' must be a 'd' matrix of size (%d,1)"
                        % P.size[0])
    if G is not None and (G.size[1] != P.size[0] or
                          h.size != (G.size[0], 1)):
        raise TypeError("'G' must be a 'd' matrix with %d columns"
                        % P.size[0])
    if A is not None and (A.size[1] != P.size[0] or
                          b.size != (A.size[0], 1)):
        raise TypeError("'A' must be a 'd' matrix with %d columns"
                        % P.size[0])
    return _sol(HOOKS.call('qp', _un(P), _vec(q), _un(G), _vec(h), _un(A),
                           _vec(b)))


def _lp(c, G, h, A=None, b=None, *a, **k):
    _need_d(c=c, G=G, h=h, A=A, b=b)
    if c.size[1] != 1 or G.size[1] != c.size[0] or \
            h.size != (G.size[0], 1) or \
            (A is not None and (A.size[1] != c.size[0] or
                                b.size != (A.size[0], 1))):
        raise TypeError('lp: incompatible sizes')
    return _sol(HOOKS.call('lp', _vec(c), _un(G), _vec(h), _un(A), _vec(b)))


# ---------------------------------------------------------------- ad3
def _general_graph(unaries, edges, edge_weights, verbose=1,
                   n_iterations=1000, eta=.1, exact=False):
    _ad3_check(unaries, edges, edge_weights)
    return HOOKS.call('ad3', unaries, edges, edge_weights,
                      dict(exact=exact))


def _general_constrained_graph(unaries, edges, edge_weights, constraints,
                               verbose=1, n_iterations=1000, eta=.1,
                               exact=False):
    _ad3_check(unaries, edges, edge_weights)
    return HOOKS.call('ad3c', unaries, edges, edge_weights, constraints,
                      dict(exact=exact))


# ---------------------------------------------------------------- scipy
class SpM(object):
    """scipy.sparse matrix, kept dense"""
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, a):
        self._a = a

    @property
    def shape(self):
        return self._a.shape

    @property
    def T(self):
        return SpM(self._a.T)

    def transpose(self, *a):
        return self.T

    def _self(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = tolil = tobsr = asformat = _self

    def copy(self):
        return SpM(self._a.copy())

    def toarray(self, *a, **k):
        return self._a.copy()

    todense = toarray

    @property
    def A(self):
        return self._a.copy()

    def astype(self, dt, **k):
        return SpM(self._a.astype(dt))

    def __add__(self, o):
        if isinstance(o, SpM):
            return SpM(self._a + o._a)
        return self._a + o

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SpM):
            return SpM(self._a - o._a)
        return self._a - o

    def __mul__(self, o):
        if isinstance(o, SpM):
            return SpM(npshim.dot(self._a, o._a))
        if S.lift(o) is not None:
            return SpM(self._a * o)
        return npshim.dot(self._a, A.asarray(o))

    def __matmul__(self, o):
        return self.__mul__(o)

    dot = __mul__

    def __rmul__(self, o):
        if S.lift(o) is not None:
            return SpM(self._a * o)
        return npshim.dot(A.asarray(o), self._a)

    def multiply(self, o):
        return SpM(self._a * (o._a if isinstance(o, SpM) else o))

    def __getitem__(self, i):
        r = self._a[i]
        if isinstance(r, A.SA) and r.ndim == 2:
            return SpM(r)
        if isinstance(r, A.SA) and r.ndim == 1:
            return SpM(r.reshape(1, -1))
        return r

    def sum(self, axis=None):
        return self._a.sum(axis=axis)

    def max(self, axis=None):
        return self._a.max(axis=axis)

    def nonzero(self):
        return npshim.nonzero(self._a)

    def diagonal(self):
        return npshim.diag(self._a)


def _coo(arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, SpM):
        return arg
    if isinstance(arg, tuple) and len(arg) == 2 and \
            not (S.lift(arg[0]) is not None):
        data, ij = arg
        ij = A.asarray(ij) if not isinstance(ij, tuple) else ij
        data = A.asarray(data)
        row, col = A.asarray(ij[0]), A.asarray(ij[1])
        if not (data.size == row.size == col.size):
            raise ValueError('row, column, and data array must all be the '
                             'same length')
        if shape is None:
            if row.size == 0:
                raise ValueError('cannot infer dimensions from zero sized '
                                 'index arrays')
            shape = (int(row.max()) + 1, int(col.max()) + 1)
        shape = tuple(int(s) for s in shape)
        out = npshim.zeros(shape, dtype=dtype or data.dt)
        for d, i, j in zip(data.a.ravel(), row.a.ravel(), col.a.ravel()):
            i, j = int(i), int(j)
            if i >= shape[0] or j >= shape[1]:
                raise ValueError('index exceeds matrix dimensions')
            if i < 0 or j < 0:
                raise ValueError('negative index found')
            out.a[i, j] = S.add(out.a[i, j], d)
        return SpM(out._ck())
    if isinstance(arg, tuple):
        return SpM(npshim.zeros(arg))
    return SpM(A.asarray(arg))


# ---------------------------------------------------------------- sklearn
class BaseEstimator(object):
    @classmethod
    def _get_param_names(cls):
        init = cls.__init__
        if init is object.__init__:
            return []
        ps = inspect.signature(init).parameters.values()
        return sorted(p.name for p in ps
                      if p.name != 'self' and p.kind != p.VAR_KEYWORD)

    def get_params(self, deep=True):
        return dict((k, getattr(self, k)) for k in self._get_param_names())

    def set_params(self, **p):
        ok = self._get_param_names()
        for k, v in p.items():
            if k not in ok:
                raise ValueError('Invalid parameter %s' % k)
            setattr(self, k, v)
        return self


# ---------------------------------------------------------------- misc
class _Num(type):
    kinds = ()
    reals = ()

    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.k in cls.kinds
        return isinstance(x, cls.reals)


class Integral(metaclass=_Num):
    kinds = ('i', 'b')
    reals = (int, rnp.integer)


class Real(metaclass=_Num):
    kinds = ('i', 'f', 'b')
    reals = (int, float, rnp.number)


class Number(metaclass=_Num):
    kinds = ('i', 'f', 'b')
    reals = (int, float, complex, rnp.number)


class _Clock(object):
    def __init__(self):
        self.t = 0

    def __call__(self):
        self.t += 1
        return float(self.t)


_clock = _Clock()

VFS = {}


class VFile(object):
    def __init__(self, name, mode):
        if 'r' in mode and name not in VFS:
            raise FileNotFoundError(name)
        self.name = name
        if 'w' in mode:
            VFS[name] = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def vopen(name, mode='r', *a, **k):
    return VFile(name, mode)


def _dump(obj, f, protocol=None):
    if HOOKS.dump is not None:
        HOOKS.dump(obj)
    snap = copy.deepcopy(obj)
    VFS[f.name] = snap
    HOOKS.saved.append((f.name, snap))


def _load(f, **k):
    return copy.deepcopy(VFS[f.name])


def sym_modules():
    solvers = mod('cvxopt.solvers', qp=_qp, lp=_lp, options=OPTIONS)
    cvxopt = mod('cvxopt', solvers=solvers, matrix=_cm, spmatrix=_spmatrix,
                 spdiag=_spdiag, sparse=_sparse)
    ad3 = mod('ad3', general_graph=_general_graph,
              general_constrained_graph=_general_constrained_graph,
              __version__='2.2.1')
    joblib = mod('joblib', Parallel=hooks.Parallel, delayed=hooks.delayed,
                 cpu_count=hooks.cpu_count)
    sparse = mod('scipy.sparse', coo_matrix=_coo, csr_matrix=_coo,
                 csc_matrix=_coo, issparse=lambda x: isinstance(x, SpM))
    optimize = mod('scipy.optimize', fmin=hooks.fmin)
    scipy = mod('scipy', sparse=sparse, optimize=optimize)
    sk_utils = mod('sklearn.utils', gen_even_slices=hooks.gen_even_slices,
                   shuffle=hooks.shuffle,
                   check_random_state=hooks.check_random_state)
    sklearn = mod('sklearn', utils=sk_utils,
                  base=mod('sklearn.base', BaseEstimator=BaseEstimator),
                  cluster=mod('sklearn.cluster', KMeans=hooks.KMeans))
    pickle = mod('pickle', dump=_dump, load=_load,
                 PicklingError=Exception, HIGHEST_PROTOCOL=4)
    import time as _t
    time = mod('time', time=_clock, perf_counter=_clock)
    numbers = mod('numbers', Integral=Integral, Real=Real, Number=Number)
    npshim.random.provider = hooks._RNG
    HOOKS.np = npshim
    HOOKS.options = OPTIONS
    return {'numpy': npshim, 'cvxopt': cvxopt, 'ad3': ad3, 'joblib': joblib,
            'scipy': scipy, 'sklearn': sklearn, 'pickle': pickle,
            'cPickle': None, 'time': time, 'numbers': numbers}
