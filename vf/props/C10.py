"""Max-product on graphs with cycles: one admissible label per node, exact
where the interactions decompose over the nodes."""
import itertools
from .mapc import is_map, on_line, score

BOUNDS = ('graphs on 2 to 4 nodes with a cycle (repeated edges, triangle, '
          'square, complete graph; any orientation), up to 3 states; every '
          'real unary potential; pairwise potentials that are zero, or sums '
          'of a term per end point (damping 0), any interaction in one '
          'round; potentials on a line (affine in a free number) for graphs '
          'of up to 25 nodes, 40 edges and 9 states, also with 140 nodes or '
          '135 states')
OUTSIDE = ('the quality of the answer for interactions that do not '
           'decompose (loopy message passing is a heuristic); rounding')


def zero(h, n, S, edges, shared, damping=None, max_iter=None):
    """without interactions the answer is the best label per node"""
    from pystruct.inference import inference_dispatch
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = np.zeros((S, S) if shared else (len(edges), S, S))
    kw = {}
    if damping is not None:
        kw['damping'] = damping
    if max_iter is not None:
        kw['max_iter'] = max_iter
        kw['tol'] = 0
    U0 = U.copy()
    y = inference_dispatch(U, P, E, ('max-product', kw))
    h.check('inputs kept', h.eq(U, U0))
    h.observe('y', y)
    is_map(h, U0, np.zeros((len(edges), S, S)), edges, y, n, S)


def separable(h, n, S, edges, max_iter, shared=False):
    from pystruct.inference import inference_dispatch
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    m = 1 if shared else len(edges)
    f, g = h.reals('f', (m, S)), h.reals('g', (m, S))
    P = np.zeros((m, S, S))
    for e in range(m):
        for a in range(S):
            for b in range(S):
                P[e, a, b] = f[e, a] + g[e, b]
    PW = np.array([P[0 if shared else e] for e in range(len(edges))])
    y = inference_dispatch(U, P[0] if shared else P, E,
                           ('max-product', dict(damping=0, tol=0,
                                                max_iter=max_iter)))
    h.observe('y', y)
    is_map(h, U, PW, edges, y, n, S)


def anyp(h, n, S, edges):
    """arbitrary interactions: still one admissible label per node, and the
    caller's potentials are untouched"""
    from pystruct.inference import inference_dispatch
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', (len(edges), S, S))
    U0, P0 = U.copy(), P.copy()
    y = inference_dispatch(U, P, E, ('max-product', dict(max_iter=1, tol=0)))
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0)))
    h.check('shape', h.cond(tuple(y.shape) == (n,)))
    for i in range(n):
        h.check('valid label', h.and_(0 <= y[i], y[i] < S))
    h.observe('y', y)


def big(h, n, S, edges, seed, kind, shared=False, top=5, free=True,
        **kw):
    """a large graph: potentials on a line"""
    from pystruct.inference import inference_dispatch
    np = h.np
    U = on_line(h, (n, S), seed, top, free, 0.5)
    m = 1 if shared else len(edges)
    P = np.zeros((m, S, S))
    if kind == 'any':
        P = on_line(h, (m, S, S), seed + 1, top, False)
    elif kind == 'separable':
        f = on_line(h, (m, S), seed + 1, top, False)
        g = on_line(h, (m, S), seed + 2, top, False)
        P = f.reshape(m, S, 1) + g.reshape(m, 1, S)
        kw['damping'] = 0
    P0, U0 = P.copy(), U.copy()
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    y = inference_dispatch(U, P[0] if shared else P, E,
                           ('max-product', kw) if kw else 'max-product')
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0)))
    h.check('shape', h.cond(tuple(y.shape) == (n,)))
    lab = [h.pick(v) for v in y]
    h.check('valid labels', h.cond(all(0 <= v < S for v in lab)))
    if kind != 'any':
        V = U0.copy()
        if kind == 'separable':
            for e, (a, b) in enumerate(edges):
                V[a] = V[a] + f[0 if shared else e]
                V[b] = V[b] + g[0 if shared else e]
        for i in range(n):
            for k in range(S):
                h.check('maximizer', h.le(V[i, k], V[i, lab[i]]))
    h.observe('y', y)


CYC = {
    'twice': (2, [[0, 1], [0, 1]]),
    'there-back': (2, [[0, 1], [1, 0]]),
    'tri': (3, [[0, 1], [1, 2], [2, 0]]),
    'tri-mixed': (3, [[1, 0], [1, 2], [0, 2]]),
    'tri+1': (4, [[3, 1], [1, 2], [2, 3]]),
    'square': (4, [[0, 1], [1, 2], [3, 2], [0, 3]]),
    'square-tail': (5, [[0, 1], [1, 2], [3, 2], [0, 3], [4, 0]]),
    'k4': (4, [[0, 1], [2, 0], [0, 3], [2, 1], [1, 3], [3, 2]]),
    'path-twice': (3, [[0, 1], [1, 2], [1, 2]]),
    'chain-twice': (4, [[0, 1], [1, 2], [2, 3], [0, 1]]),
}


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        k.pop('g')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    for g in CYC:
        n, E = CYC[g]
        for S in (2, 3):
            if S == 3 and n > 3 and not big:
                continue
            add('zero', g=g, n=n, S=S, edges=E, shared=False, max_iter=3)
            if g in ('twice', 'path-twice', 'square') and (S == 2 or big):
                add('zero', g=g, n=n, S=S, edges=E, shared=True)
            else:
                add('zero', g=g, n=n, S=S, edges=E, shared=True, damping=0,
                    max_iter=2)
        add('separable', g=g, n=n, S=2, edges=E, max_iter=1)
        if n <= 3 or big:
            add('separable', g=g, n=n, S=2, edges=E, max_iter=2)
            add('separable', g=g, n=n, S=2, edges=E, max_iter=1, shared=True)
        if n <= 3:
            add('separable', g=g, n=n, S=3, edges=E, max_iter=1)
            add('anyp', g=g, n=n, S=2, edges=E)
    for n, S, m in ((5, 4, 7), (9, 2, 12), (6, 3, 15), (12, 3, 12),
                    (3, 9, 4), (25, 2, 40), (2, 7, 3), (140, 2, 150),
                    (3, 135, 4)):
        E = [[i, i + 1] for i in range(n - 1)]
        for i in range(m - n + 1):
            a, b = (i * 5) % n, (i * 3 + 2) % n
            E.append([a, b] if a != b else [a, (a + 1) % n])
        E = [[a, b] if (i * i + n) % 3 else [b, a]
             for i, (a, b) in enumerate(E)]
        E = E[::2] + E[1::2]
        for i, k in enumerate((
                dict(kind='zero'), dict(kind='zero', damping=0.25),
                dict(kind='separable', max_iter=1),
                dict(kind='separable', max_iter=4, tol=0),
                dict(kind='separable', shared=True),
                dict(kind='any', max_iter=2))):
            if (k['kind'] == 'any' and n not in (2, 5, 9)) or (
                    n == 25 and (i in (1, 4))) or (
                    (n > 100 or S > 100) and i not in (0, 2)):
                continue
            C.append(dict(k, name='big n=%d S=%d edges=%d %s' % (
                n, S, len(E), sorted(k.items())), fn='big', n=n, S=S,
                edges=E, seed=n + S + i,
                **(dict(top=997, free='one') if S > 100 else
                   dict(free='one') if n > 100 else {})))
    return C
