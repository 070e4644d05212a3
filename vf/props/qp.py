"""Shared by the cutting-plane harnesses: a recording QP solver whose answer
is any feasible point, and the semantics of the problem it was given."""
from . import table


def mv(h, M, a):
    return [h.sumr([M[i, j] * a[j] for j in range(len(a))])
            for i in range(M.shape[0])]


def value(h, P, q, a):
    Pa = mv(h, P, a)
    n = len(a)
    return h.sumr([a[i] * Pa[i] for i in range(n)]) / 2 + \
        h.sumr([q[i] * a[i] for i in range(n)])


def same_problem(h, rec, psi, loss, feasible, label='qp'):
    """the recorded problem is: minimise 1/2 |sum a psi|^2 - sum a loss over
    the a that `feasible` (a -> list of (lhs, rhs) with lhs <= rhs, list of
    (lhs, rhs) equal) describes"""
    P, q, G, hh, A, b = rec
    n = len(psi)
    h.check(label + ': one variable per constraint', h.cond(
        P.shape == (n, n) and len(q) == n))
    if P.shape != (n, n) or len(q) != n:
        return False
    for i in range(n):
        h.check(label + ': losses', h.eq(q[i], -loss[i]))
        for j in range(n):
            # the quadratic form, however it is split
            h.check(label + ': inner products', h.eq(
                P[i, j] + P[j, i], 2 * table.dot(h, psi[i], psi[j])))
    # the same feasible points: decided for an arbitrary point
    a = [h.real('any_a%d' % i, -64, 64) for i in range(n)]
    les, eqs = feasible(a)
    want = h.and_(*([h.le(x, y) for x, y in les] +
                    [h.eq(x, y) for x, y in eqs] + [h.true()]))
    Ga, hh = (mv(h, G, a), hh) if G is not None else ([], [])
    Aa, b = (mv(h, A, a), b) if A is not None else ([], [])
    got = h.and_(*([h.le(x, y) for x, y in zip(Ga, hh)] +
                   [h.eq(x, y) for x, y in zip(Aa, b)] + [h.true()]))
    h.check(label + ': allows no other multipliers', h.implies(got, want))
    h.check(label + ': allows all multipliers', h.implies(want, got))
    return True


class Solver(object):
    """answers any feasible point (or, with vals, the given ones)"""

    def __init__(self, h, hook, lo=0, hi=64, points=None):
        from vf.hooks import HOOKS
        self.h, self.hook = h, hook
        self.n = 0
        self.points = points
        self.last = None
        HOOKS.qp = self

    def __call__(self, P, q, G, hh, A, b):
        h = self.h
        self.n += 1
        n = P.shape[0]
        rec = (P, q, G, hh, A, b)
        a = h.reals('alpha%d' % self.n, n, 0, 64)
        st = self.hook(self, rec, a)
        v = value(h, P, q, a)
        self.last = (a, v)
        return {'x': a, 'status': st or 'optimal', 'primal objective': v}


def walk(h, k, n, p, C, total=None):
    """given multipliers for step k (from 0) of long runs: parts of C, some
    zero; of a total, if one is given"""
    if p < 0:
        # most constraints lose their multiplier after a while
        r = [1 + (j * k) % 4 if j % 3 == 0 or k - j + j % 4 < -p else 0
             for j in range(n)]
    else:
        r = [(p * j * j + 3 * k + j * (k // 2)) % 5 for j in range(n)]
    if total is None:
        return [C * x / (4 * n) for x in r]
    if not any(r):
        r[k % n] = 1
    return [total * x / sum(r) for x in r]
