"""The LP method solves the local relaxation: what it reports comes from a
locally consistent point, bounds every labeling, and rounds to the largest
marginal."""
import itertools
from .mapc import score
from .common import Inst, few, _ring, _E9

BOUNDS = ('graphs on 1 to 4 nodes (forests, isolated nodes, cycles, any '
          'orientation), 1 to 3 states, up to 7 on two nodes, up to 9 nodes and 14 edges with 2 states; '
          'every real potential; every feasible and every optimal point the '
          'LP solver may return; the linear program itself for up to 12 '
          'nodes, 17 states, 14 edges, or 140 nodes with 150 edges, and listed '
          'labelings')
OUTSIDE = ('larger graphs; the LP solver itself (it returns a point '
           'satisfying its optimality conditions); solver tolerance')


def lin(h, M, v, n):
    """rows of M v"""
    return [h.sumr([M[i, j] * v[j] for j in range(n)])
            for i in range(M.shape[0])]


def setup(h, n, S, edges, shared):
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', (S, S) if shared else (len(edges), S, S))
    PW = P
    if shared:
        PW = np.array([P for _ in edges]).reshape(len(edges), S, S)
    return U, E, P, PW


def point(h, seen, dual=False):
    from vf.hooks import HOOKS

    def lp(c, G, hh, A, b):
        m = len(c)
        x = h.np.zeros(m)
        for j in range(m):
            x[j] = h.real('x_%d' % j)
        gx = lin(h, G, x, m)
        for i in range(len(gx)):
            h.assume(h.le(gx[i], hh[i]))
        ax = lin(h, A, x, m)
        for i in range(len(ax)):
            h.assume(h.eq(ax[i], b[i]))
        seen['show'] = dict(HOOKS.options).get('show_progress', True)
        if not dual:
            obj = h.sumr([c[j] * x[j] for j in range(m)])
        else:
            z = [h.real('z_%d' % i, 0) for i in range(len(gx))]
            y = [h.real('d_%d' % i) for i in range(len(ax))]
            for j in range(m):
                h.assume(h.eq(c[j] + h.sumr(
                    [G[i, j] * z[i] for i in range(len(gx))] +
                    [A[i, j] * y[i] for i in range(len(ax))]), 0))
            for i in range(len(gx)):
                h.assume(h.or_(h.eq(z[i], 0), h.eq(gx[i], hh[i])))
            obj = -h.sumr([hh[i] * z[i] for i in range(len(gx))] +
                          [b[i] * y[i] for i in range(len(ax))])
        seen['obj'] = obj
        return {'x': x, 'status': 'optimal', 'primal objective': obj}
    HOOKS.lp = lp


def feasible(h, n, S, edges, shared=False):
    from pystruct.inference import inference_dispatch
    np = h.np
    U, E, P, PW = setup(h, n, S, edges, shared)
    seen = {}
    point(h, seen)
    from vf.hooks import HOOKS
    HOOKS.options['show_progress'] = True
    U0, P0 = U.copy(), P.copy()
    (mu, pm), en = inference_dispatch(U, P, E, 'lp', relaxed=True,
                                      return_energy=True)
    h.check('solver option restored',
            h.cond(HOOKS.options.get('show_progress') is True))
    h.check('solver silenced', h.cond(seen['show'] is False))
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0)))
    h.check('shapes', h.cond(tuple(mu.shape) == (n, S) and
                             tuple(pm.shape) == (len(edges), S * S)))
    for i in range(n):
        h.check('node marginals', h.and_(
            h.eq(h.sumr([mu[i, s] for s in range(S)]), 1),
            *[h.le(0, mu[i, s]) for s in range(S)]))
    ts = [mu[i, s] * U0[i, s] for i in range(n) for s in range(S)]
    for e, (a, b) in enumerate(edges):
        for s in range(S):
            h.check('edge marginals (sender)', h.eq(
                h.sumr([pm[e, s * S + t] for t in range(S)]), mu[a, s]))
            h.check('edge marginals (receiver)', h.eq(
                h.sumr([pm[e, t * S + s] for t in range(S)]), mu[b, s]))
            for t in range(S):
                h.check('edge marginals nonnegative',
                        h.le(0, pm[e, s * S + t]))
                ts.append(pm[e, s * S + t] * PW[e, s, t])
    h.check('energy', h.eq(-en, h.sumr(ts)))
    h.observe('mu', mu)


def rounded(h, n, S, edges):
    from pystruct.inference import inference_dispatch
    U, E, P, PW = setup(h, n, S, edges, False)
    seen = {}
    point(h, seen)
    mu, pm = inference_dispatch(U, P, E, 'lp', relaxed=True)
    y = inference_dispatch(U, P, E, 'lp')
    h.check('labels shape', h.cond(tuple(y.shape) == (n,)))
    for i in range(n):
        h.check('label', h.and_(0 <= y[i], y[i] < S))
        v = h.pick(y[i])
        for s in range(S):
            h.check('largest marginal', h.le(mu[i, s], mu[i, v]))
    y2, en = inference_dispatch(U, P, E, 'lp', return_energy=True)
    h.check('same labels', h.eq(y, y2))
    h.check('energy', h.eq(en, seen['obj']))
    h.observe('y', y)


def bound(h, n, S, edges, shared=False):
    from pystruct.inference import inference_dispatch
    U, E, P, PW = setup(h, n, S, edges, shared)
    seen = {}
    point(h, seen, dual=True)
    (mu, pm), en = inference_dispatch(U, P, E, 'lp', relaxed=True,
                                      return_energy=True)
    for y in itertools.product(range(S), repeat=n):
        h.check('bounds every labeling', h.le(score(h, U, PW, edges, y),
                                              -en), note=str(y))
    h.observe('en', en)


def integral(h, n, S, edges):
    """a relaxed optimum at a vertex without fractions is a best labeling"""
    from pystruct.inference import inference_dispatch
    U, E, P, PW = setup(h, n, S, edges, False)
    seen = {}
    point(h, seen, dual=True)
    lab = [h.pick(h.int('lab_%d' % i, 0, S - 1)) for i in range(n)]
    mu, pm = inference_dispatch(U, P, E, 'lp', relaxed=True)
    for i in range(n):
        h.assume(h.eq(mu[i, lab[i]], 1))
    y = inference_dispatch(U, P, E, 'lp')
    for i in range(n):
        h.check('rounds to it', h.cond(y[i] == lab[i]))
    best = score(h, U, PW, edges, lab)
    for z in itertools.product(range(S), repeat=n):
        h.check('best labeling', h.le(score(h, U, PW, edges, z), best),
                note=str(z))


def program(h, n, S, edges, shared=False):
    """every labeling is a point of the program, worth its score"""
    from pystruct.inference import inference_dispatch
    U, E, P, PW = setup(h, n, S, edges, shared)
    c, G, hh, A, b = h.capture('lp', lambda: inference_dispatch(
        U, P, E, 'lp'))
    m = len(c)
    h.check('variables', h.cond(m == n * S + len(edges) * S * S))
    g = Inst()
    g.n, g.allowed = n, [list(range(S))] * n
    G, A = [[[(j, float(v)) for j, v in enumerate(M[i]) if float(v) != 0]
             for i in range(len(M))] for M in (G, A)]
    for y in few(g, 64, 20):
        x = [0] * m
        for i in range(n):
            x[i * S + y[i]] = 1
        for e, (p, q) in enumerate(edges):
            x[n * S + e * S * S + y[p] * S + y[q]] = 1
        at = lambda row: sum(v for j, v in row if x[j])
        h.check('feasible', h.and_(*(
            [h.le(at(r), hh[i]) for i, r in enumerate(G)] +
            [h.eq(at(r), b[i]) for i, r in enumerate(A)])), note=str(y))
        h.check('worth its score', h.eq(h.sumr(
            [c[j] for j in range(m) if x[j]]), -score(h, U, PW, edges, y)),
            note=str(y))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    G = [(1, []), (2, []), (2, [[0, 1]]), (2, [[1, 0]]),
         (3, [[1, 0], [1, 2]]), (3, [[2, 0]]),
         (3, [[0, 1], [1, 2], [2, 0]])]
    if big:
        G += [(4, [[3, 1], [0, 3], [2, 0]]), (2, [[0, 1], [1, 0]]),
              (4, [[0, 1], [1, 2], [3, 2], [0, 3]])]
    for n, E in G:
        for S in (1, 2, 3) if len(E) <= 2 or big else (2,):
            if S == 1 and n > 2:
                continue
            add('feasible', n=n, S=S, edges=E)
            if S <= 2 or n <= 2:
                add('rounded', n=n, S=S, edges=E)
                add('bound', n=n, S=S, edges=E)
                if S > 1 and E:
                    add('integral', n=n, S=S, edges=E)
    for S in (4, 5, 6, 7):
        add('feasible', n=2, S=S, edges=[[0, 1]] if S % 2 else [[1, 0]])
    for k, (n, S, E) in enumerate((
            (9, 3, _E9), (9, 2, _E9[::-1]), (4, 6, [[3, 1], [0, 3], [2, 0]]),
            (12, 2, [[i + 1, i] for i in range(11)]),
            (5, 4, [[0, 1], [2, 1], [2, 3], [4, 3], [4, 0], [1, 4]]),
            (140, 2, _ring(140)[:150]), (2, 17, [[1, 0]]))):
        C.append(dict(name='program large%d' % k, fn='program', n=n, S=S,
                      edges=E, shared=k % 2 == 1))
    for n, S, E in ((6, 2, [[0, 1], [2, 1], [2, 3], [4, 3], [4, 0], [1, 5]]),
                    (4, 4, [[3, 1], [0, 3], [2, 0]]),
                    (9, 2, _E9), (4, 5, [[0, 1], [2, 1], [3, 0]]),
                    (5, 3, [[1, 0], [1, 2], [3, 2], [4, 3]])):
        add('feasible', n=n, S=S, edges=E)
    add('rounded', n=2, S=4, edges=[[0, 1]])
    add('bound', n=2, S=4, edges=[[1, 0]])
    add('bound', n=3, S=3, edges=[[1, 0], [2, 1]])
    for n, E in ((2, [[1, 0]]), (3, [[1, 0], [1, 2]])):
        add('feasible', n=n, S=2, edges=E, shared=True)
        add('bound', n=n, S=2, edges=E, shared=True)
    return C
