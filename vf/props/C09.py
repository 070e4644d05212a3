"""Max-product on any forest is exact, ties included."""
import itertools
from .mapc import is_map, large

BOUNDS = ('every forest on up to 4 nodes (every numbering, order and '
          'orientation of the edges up to 3 nodes; every unordered forest '
          'on 4 nodes with an arbitrary order and orientation), 2 states; up '
          'to 3 states on 3 nodes; larger examples; every real potential; potentials '
          'on a line (affine in a free number) for forests of up to 33 nodes '
          'and 11 states, 270 nodes with 2 states, 4 nodes with 140')
OUTSIDE = 'larger forests; floating-point rounding'


def acyclic(n, E):
    p = list(range(n))

    def r(a):
        while p[a] != a:
            a = p[a]
        return a
    for a, b in E:
        a, b = r(a), r(b)
        if a == b:
            return False
        p[a] = b
    return True


def forest(h, n, S, edges, shared=False, dtype='int64'):
    """edges: list, or a number: any forest with that many edges"""
    from pystruct.inference import inference_dispatch
    np = h.np
    if isinstance(edges, int):
        edges = pick_forest(h, n, edges)
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype=dtype).reshape(-1, 2)
    P = h.reals('p', (S, S) if shared else (len(edges), S, S))
    U0, P0, E0 = U.copy(), P.copy(), E.copy()
    y = inference_dispatch(U, P, E, 'max-product')
    h.observe('y', y)
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0), h.eq(E, E0)))
    PW = P0
    if shared:
        PW = np.array([P0 for _ in edges]).reshape(len(edges), S, S)
    is_map(h, U0, PW, edges, y, n, S)


def pick_forest(h, n, k):
    ps = [(a, b) for a in range(n) for b in range(n) if a != b]
    ch = [list(map(list, es)) for es in itertools.permutations(ps, k)
          if acyclic(n, es)]
    return ch[h.pick(h.int('graph', 0, len(ch) - 1))]


def model(h, n, S, edges):
    import pystruct.models as M
    from .common import dot
    m = M.GraphCRF(n_states=S, n_features=S, directed=True,
                   inference_method='max-product')
    E = h.np.array(edges, dtype='int64').reshape(-1, 2)
    x = (h.reals('x', (n, S)), E)
    w = h.np.hstack([h.np.eye(S).ravel(), h.reals('w', (S * S,))])
    y = m.inference(x, w)
    lab = [h.pick(y[i]) for i in range(n)]
    mk = lambda z: h.np.array(list(z), dtype='int64')
    best = dot(h, w, m.joint_feature(x, mk(lab)))
    for z in itertools.product(range(S), repeat=n):
        h.check('maximizer', h.le(dot(h, w, m.joint_feature(x, mk(z))),
                                  best), note=str(z))


def scramble(E, k):
    """a reordering and reorientation of the edges"""
    E = [list(e) for e in E]
    out = []
    while E:
        a, b = E.pop((k * 7 + len(E)) % len(E))
        out.append([a, b] if (k + len(E)) % 2 else [b, a])
        k = k * 5 + 3
    return out


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'cost')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    for n, k in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0)):
        add('forest', n=n, S=2, edges=k, cost=3)
    add('forest', n=3, S=1, edges=2)
    add('forest', n=2, S=3, edges=1)
    add('forest', n=2, S=4, edges=1)
    add('forest', n=2, S=3, edges=1, shared=True)
    add('forest', n=3, S=2, edges=[[2, 0], [2, 1]], dtype='int32')
    # all forests on 4 nodes, unordered
    und = list(itertools.combinations(range(4), 2))
    q = 0
    for k in (1, 2, 3):
        for E in itertools.combinations(und, k):
            if acyclic(4, E):
                q += 1
                add('forest', n=4, S=2, edges=scramble(E, q), cost=2)
                if big:
                    add('forest', n=4, S=2, edges=scramble(E, q + 11),
                        shared=True, cost=2)
    for E in ([[1, 0], [1, 2]], [[2, 1], [0, 2]], [[0, 2], [1, 0]],
              [[0, 1], [2, 1]], [[2, 1]], [[0, 2]]):
        add('forest', n=3, S=3, edges=E, cost=5)
        add('forest', n=3, S=2, edges=E, shared=True)
        add('model', n=3, S=2, edges=E)
    for E in ([[4, 1], [1, 3], [0, 3], [3, 2]], [[0, 4], [4, 2], [1, 3]],
              [[2, 0], [2, 1], [2, 3], [2, 4]], [[1, 2], [2, 3], [3, 4]],
              [[0, 4], [3, 1]]):
        add('forest', n=5, S=2, edges=E, cost=9)
    if big:
        for E in ([[5, 0], [0, 3], [3, 1], [4, 3], [2, 5]],
                  [[1, 0], [2, 1], [5, 4], [4, 3]]):
            add('forest', n=6, S=2, edges=E, cost=50)
        for E in ([[3, 0], [1, 3], [3, 2]], [[0, 1], [2, 3]],
                  [[1, 0], [2, 1], [3, 2]]):
            add('forest', n=4, S=3, edges=E, cost=50)
    for n, S, top, sh in ((6, 2, 3, False), (7, 3, 5, False), (9, 2, 2, True),
                          (12, 3, 3, False), (5, 6, 5, True), (4, 11, 7, True),
                          (20, 2, 3, False), (33, 2, 2, False),
                          (10, 4, 3, True), (8, 3, 2, False), (150, 2, 4, True),
                          (270, 2, 3, True), (4, 140, 997, True)):
        for seed in range(4):
            if n > 100 and seed == (n == 270) or S > 100 and seed in (1, 3):
                continue
            # trees, stars, brooms and forests with isolated nodes
            E = []
            for i in range(1, n):
                p = [(i * 7 + seed) % i, 0 if i <= n // 2 else n // 2,
                     max(0, i - 1 - i % 3), i - 1][seed]
                if seed == 2 and i % 5 == 3:
                    continue
                E.append([p, i])
            # other numbers for the nodes
            k = [x for x in range(n)]
            for i in range(n):
                j = (i * 5 + seed * 3 + 1) % n
                k[i], k[j] = k[j], k[i]
            E = scramble([[k[a], k[b]] for a, b in E], seed + n)
            C.append(dict(name='large n=%d S=%d top=%d shared=%s seed=%d' % (
                n, S, top, sh, seed), fn='large', n=n, S=S, top=top,
                shared=sh, edges=E, seed=n + S + seed,
                **(dict(free='one') if S > 100 else {})))
    seen = set()
    return [c for c in C if not (c['name'] in seen or seen.add(c['name']))]
