"""One property harness, two modes.

sym  : inputs are solver variables; `check` asks the solver whether the
       condition can fail on the current path; failing assignments become
       candidates.
conc : inputs come from an assignment (a solver model); the same harness runs
       against the real code, and a failing check there is a violation.
"""
import math
import time
from fractions import Fraction

from .hooks import HOOKS

TOL = 1e-6


class Stop(BaseException):
    """concrete run ended (assumption false, or harness done)"""


class Captured(BaseException):
    """thrown by a hook once the boundary call has been recorded"""

    def __init__(self, val=None):
        BaseException.__init__(self)
        self.val = val


class HBase(object):
    def __init__(self):
        self.observed = []
        self.labels = {}
        self.auto = 0

    # -- conveniences shared by both modes
    def fresh(self, stem):
        self.auto += 1
        return '%s@%d' % (stem, self.auto)

    def capture(self, name, f):
        """run f(); returns the arguments the hook `name` saw"""
        box = []

        def hook(*a):
            box.append(a)
            raise Captured(a)
        old = getattr(HOOKS, name)
        setattr(HOOKS, name, hook)
        try:
            f()
        except Captured:
            pass
        finally:
            setattr(HOOKS, name, old)
        if not box:
            self.check('solver-called', self.false(), note=name)
            raise Stop()
        return box[0]

    def raises(self, f, *types):
        """None if f() returned, else the exception"""
        try:
            f()
        except types as e:
            return e
        return None

    def implies(self, g, c):
        return self.or_(self.not_(g), c)

    # -- model of an exact solver
    def labelings(self, sizes):
        import itertools
        return list(itertools.product(*[range(s) for s in sizes]))


# ------------------------------------------------------------------ concrete
class CH(HBase):
    mode = 'conc'

    def __init__(self, assign):
        HBase.__init__(self)
        import numpy
        self.np = numpy
        self.assign = assign
        self.failed = []
        self.reached = []

    def _get(self, name):
        v = self.assign.get(name)
        if v is None:
            return 0
        return v

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name))
        if name not in self.assign:
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
        return self.np.float64(v)

    def line(self, name, lo, hi):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        v = int(self._get(name))
        if name not in self.assign:
            v = min(max(v, lo), hi)
        return v

    def bool(self, name):
        return bool(int(self._get(name)))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def pick(self, v):
        return int(v)

    def num(self, text):
        """a number written in decimals, as in source code"""
        return self.np.float64(text)

    def fork(self, c):
        return bool(self.np.all(c))

    def reals(self, name, shape, lo=None, hi=None):
        np = self.np
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + ''.join('_%d' % k for k in i), lo, hi)
        return out

    def ints(self, name, shape, lo, hi, dtype='int64'):
        np = self.np
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape, dtype=dtype)
        for i in np.ndindex(*shape):
            out[i] = self.int(name + ''.join('_%d' % k for k in i), lo, hi)
        return out

    # conditions are plain truth values, comparisons are tolerant
    def true(self):
        return True

    def false(self):
        return False

    def _tol(self, a, b):
        return TOL * (1 + abs(a) + abs(b))

    def eq(self, a, b):
        np = self.np
        if a is None or b is None:
            return a is None and b is None
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'O' or b.dtype.kind == 'O':
            return all(self.eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
        a, b = a.astype(float), b.astype(float)
        if a.size == 0:
            return True
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
        return bool((abs(a - b) <= self._tol(a, b)).all())

    def le(self, a, b):
        np = self.np
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if np.isnan(a).any() or np.isnan(b).any():
            return False
        return bool((a <= b + TOL * (1 + abs(np.where(np.isfinite(a), a, 0))
                                     + abs(np.where(np.isfinite(b), b, 0)))
                     ).all())

    def lt(self, a, b):
        """strict, not tolerant in favour of truth"""
        np = self.np
        return bool((np.asarray(a, dtype=float) <
                     np.asarray(b, dtype=float)).all())

    def is_true(self, c):
        return bool(self.np.all(c))

    cond = is_true

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise Stop()

    def check(self, label, c, note=None):
        self.reached.append(label)
        if not c:
            self.failed.append((label, note))

    def observe(self, name, v):
        self.observed.append((name, _flat(self, v)))

    def sumr(self, xs):
        t = 0.0
        for x in xs:
            t = t + x
        return t

    def maxr(self, xs):
        return max(float(x) for x in xs)


def _flat(h, v):
    if v is None:
        return None
    if isinstance(v, (list, tuple)):
        return [_flat(h, e) for e in v]
    if isinstance(v, dict):
        return {str(k): _flat(h, e) for k, e in v.items()}
    if isinstance(v, str):
        return v
    a = h.np.asarray(v)
    if a.dtype.kind == 'O':
        return [_flat(h, e) for e in a.ravel()]
    return [float(e) for e in a.astype(float).ravel()]


def conc_run(fn, params, assign):
    """-> dict describing the run"""
    HOOKS.reset()
    h = CH(assign)
    out = {'stopped': False, 'exc': None}
    try:
        fn(h, **params)
    except Stop:
        out['stopped'] = True
    except Captured:
        out['stopped'] = True
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/pystruct/' in f.filename]
        out['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        out['exc_type'] = type(e).__name__
        out['where'] = ('%s:%s' % (where[-1].filename, where[-1].name)
                        if where else 'harness')
        out['tb'] = traceback.format_exc()[-1500:]
    finally:
        HOOKS.reset()
    out['failed'] = h.failed
    out['reached'] = sorted(set(h.reached))
    out['observed'] = h.observed
    return out


# ------------------------------------------------------------------ symbolic
def _sym():
    from . import sym
    return sym


class Cond(object):
    """ok: Sym b, the exact condition; bad: Sym b, violated by a margin"""
    __slots__ = ('ok', 'bad')

    def __init__(self, ok, bad=None):
        S = _sym()
        self.ok = ok
        self.bad = S.lnot(ok) if bad is None else bad


class SH(HBase):
    mode = 'sym'

    def __init__(self, c, run):
        HBase.__init__(self)
        from . import npshim, sym
        self.np = npshim
        self.S = sym
        self.c = c
        self.run = run

    # -- inputs
    def _z(self, name, kind):
        import z3
        if name in self.c.inputs:
            return self.c.inputs[name][1]
        v = z3.Real(name) if kind == 'f' else z3.Int(name)
        self.c.inputs[name] = (kind, v)
        return v

    def real(self, name, lo=None, hi=None):
        v = self._z(name, 'f')
        if lo is not None:
            self.c.add(v >= self.S._rv(Fraction(lo)))
        if hi is not None:
            self.c.add(v <= self.S._rv(Fraction(hi)))
        return self.S.Sym('f', v)

    def line(self, name, lo, hi):
        """a real number on which all else depends linearly: comparisons
        split its range into few pieces, so values are never merged"""
        self.c.forks = True
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._z(name, 'i')
        self.c.add(v >= lo)
        self.c.add(v <= hi)
        return self.S.Sym('i', v)

    def bool(self, name):
        v = self._z(name, 'i')
        self.c.add(v >= 0)
        self.c.add(v <= 1)
        return self.S.Sym('b', v == 1)

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        v = self.int(name, 0, len(options) - 1)
        return options[self.c.pick_int(v.v)]

    def num(self, text):
        return self.S.Sym('f', Fraction(text))

    def fork(self, c):
        """branch on a condition"""
        return bool(self.cond(c).ok)

    def pick(self, v):
        if isinstance(v, self.S.Sym):
            if self.S.is_z3(v.v):
                return self.c.pick_int(self.S.to_int(v.v))
            return int(v.v)
        return int(v)

    def reals(self, name, shape, lo=None, hi=None):
        import numpy as rnp
        from . import arr as A
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = A.obj(shape)
        for i in rnp.ndindex(*shape):
            a[i] = self.real(name + ''.join('_%d' % k for k in i), lo, hi)
        return A.SA(a, rnp.dtype(float))

    def ints(self, name, shape, lo, hi, dtype='int64'):
        import numpy as rnp
        from . import arr as A
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = A.obj(shape)
        for i in rnp.ndindex(*shape):
            a[i] = self.S.lift(self.int(
                name + ''.join('_%d' % k for k in i), lo, hi))
        return A.SA(a, rnp.dtype(dtype))

    # -- conditions
    def true(self):
        return Cond(self.S.Sym('b', True))

    def false(self):
        return Cond(self.S.Sym('b', False))

    def _arrs(self, a, b):
        from . import arr as A
        a, b = A.asarray(a), A.asarray(b)
        return a, b

    def eq(self, a, b):
        S = self.S
        if a is None or b is None:
            return self.true() if (a is None and b is None) else self.false()
        a, b = self._arrs(a, b)
        if a.shape != b.shape:
            return self.false()
        if a.dt.kind == 'O' or b.dt.kind == 'O':
            return self.and_(*[self.eq(x, y) for x, y in
                               zip(a.a.ravel(), b.a.ravel())])
        ok, bad = [], []
        for x, y in zip(a.a.ravel(), b.a.ravel()):
            e = S.eq(x, y)
            if S.is_z3(e.v):
                e = self._peq(x, y, e)
            ok.append(e)
            if S.is_z3(e.v) and (x.k == 'f' or y.k == 'f') and \
                    not S._special(x.v) and not S._special(y.v):
                d = S.absv(S.sub(x, y))
                bad.append(S.ge(d, S.Sym('f', Fraction(1, 4))))
            else:
                bad.append(S.lnot(e))
        return Cond(S.andv(ok), S.orv(bad))

    def _peq(self, x, y, e):
        """polynomial identity?"""
        import z3
        S = self.S
        if S._special(x.v) or S._special(y.v):
            return e
        d = z3.simplify(S.to_real(S.cast(x, 'f').v) -
                        S.to_real(S.cast(y, 'f').v), som=True)
        c = S.const_of(d)
        if c is not None:
            return S.Sym('b', c == 0)
        return e

    def le(self, a, b):
        from . import arr as A
        S = self.S
        a, b = self._arrs(a, b)
        import numpy as rnp
        x, y = rnp.broadcast_arrays(a.a, b.a)
        ok, bad = [], []
        for p, q in zip(x.ravel(), y.ravel()):
            e = S.le(p, q)
            ok.append(e)
            if S.is_z3(e.v) and not S._special(p.v) and not S._special(q.v):
                bad.append(S.ge(S.sub(p, q), S.Sym('f', Fraction(1, 4))))
            else:
                bad.append(S.lnot(e))
        return Cond(S.andv(ok), S.orv(bad))

    def lt(self, a, b):
        S = self.S
        a, b = self._arrs(a, b)
        import numpy as rnp
        x, y = rnp.broadcast_arrays(a.a, b.a)
        return Cond(S.andv([S.lt(p, q) for p, q in
                            zip(x.ravel(), y.ravel())]))

    def cond(self, c):
        S = self.S
        from . import arr as A
        if isinstance(c, Cond):
            return c
        if isinstance(c, A.MaskSel):
            c = c.force()
        if isinstance(c, A.SA):
            if c.dt.kind == 'O':
                return Cond(S.Sym('b', bool(c)))
            return Cond(S.andv([S.cast(e, 'b') for e in c.a.ravel()]))
        s = S.lift(c)
        if s is not None:
            return Cond(S.cast(s, 'b'))
        return Cond(S.Sym('b', bool(c)))

    is_true = cond

    def and_(self, *cs):
        cs = [self.cond(c) for c in cs]
        S = self.S
        return Cond(S.andv([c.ok for c in cs]), S.orv([c.bad for c in cs]))

    def or_(self, *cs):
        cs = [self.cond(c) for c in cs]
        S = self.S
        return Cond(S.orv([c.ok for c in cs]), S.andv([c.bad for c in cs]))

    def not_(self, c):
        c = self.cond(c)
        return Cond(self.S.lnot(c.ok), c.ok)

    def ite(self, c, a, b):
        c = self.cond(c).ok
        if not self.S.is_z3(c.v):
            return a if c.v else b
        return self.S.ite(c, self.S.lift(a), self.S.lift(b))

    def assume(self, c):
        c = self.cond(c).ok
        if not self.S.is_z3(c.v):
            if not c.v:
                raise self.S.PathEnd('assume')
            return
        self.c.add(c.v)

    def check(self, label, c, note=None):
        self.run.check(self, label, self.cond(c), note)

    def observe(self, name, v):
        self.observed.append((name, v))

    def sumr(self, xs):
        from . import arr as A
        t = self.S.Sym('f', Fraction(0))
        xs = [A.asarray(x).item() if isinstance(x, A.SA) else x for x in xs]
        return self.S.sumv([self.S.cast(self.S.lift(x), 'f') for x in xs],
                           'f') if xs else t

    def maxr(self, xs):
        S = self.S
        out = None
        for x in xs:
            x = S.lift(x.item() if hasattr(x, 'item') else x)
            out = x if out is None else S.maxv(out, x)
        return out
