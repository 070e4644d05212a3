"""Max-product on a chain is exact, ties included."""
from .mapc import is_map, large

BOUNDS = ('chains of up to 6 nodes with 2 states, 4 with 3, 3 with 4, 2 with '
          '5 (thorough: 7, 5, 4, 3); every real unary and pairwise potential, one '
          'matrix for all edges or one per edge; potentials on a line (affine '
          'in a free number) for up to 40 nodes and 17 states, chains of 270 '
          'nodes with 2 states, and of 3 nodes with 260')
OUTSIDE = 'longer chains, more states; floating-point rounding, infinities'


def chain(h, n, S, per_edge, dtype='int64'):
    from pystruct.inference import inference_dispatch
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array([[i, i + 1] for i in range(n - 1)],
                 dtype=dtype).reshape(-1, 2)
    P = h.reals('p', (n - 1, S, S)) if per_edge else h.reals('p', (S, S))
    U0, P0 = U.copy(), P.copy()
    y = inference_dispatch(U, P, E, 'max-product')
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0)))
    PW = P0 if per_edge else [P0] * (n - 1)
    if not per_edge:
        PW = np.array([P0 for _ in range(n - 1)]).reshape(n - 1, S, S)
    h.observe('y', y)
    is_map(h, U0, PW, E, y, n, S)


def model(h, n, S, directed):
    import pystruct.models as M
    from .common import dot
    import itertools
    m = M.ChainCRF(n_states=S, n_features=S, directed=directed,
                   inference_method='max-product')
    x = h.np.eye(S)[:n] if n <= S else None
    if x is None:
        x = h.reals('x', (n, S))
    w = h.reals('w', (m.size_joint_feature,))
    y = m.inference(x, w)
    lab = [h.pick(y[i]) for i in range(n)]
    mk = lambda z: h.np.array(list(z), dtype='int64')
    best = dot(h, w, m.joint_feature(x, mk(lab)))
    for z in itertools.product(range(S), repeat=n):
        h.check('maximizer', h.le(dot(h, w, m.joint_feature(x, mk(z))),
                                  best), note=str(z))
    h.observe('y', y)


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'cost')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    for n, S in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (4, 2),
                 (3, 3), (2, 4), (5, 2), (2, 5), (3, 4), (4, 3),
                 (6, 2)) + (((7, 2), (3, 5), (5, 3), (4, 4))
                            if big else ()):
        cost = S ** n
        add('chain', n=n, S=S, per_edge=True, cost=cost)
        if n > 1:
            add('chain', n=n, S=S, per_edge=False, cost=cost)
    add('chain', n=3, S=2, per_edge=True, dtype='int32')
    for n, S, top in ((7, 3, 7), (12, 2, 3), (5, 6, 5), (20, 3, 3),
                      (3, 11, 9), (33, 2, 7), (8, 4, 3), (2, 17, 3),
                      (40, 3, 2), (140, 2, 5), (270, 2, 3), (3, 140, 997),
                      (2, 135, 499), (3, 260, 997)):
        for sh in (False, True):
            if S == 260 and not sh:
                continue
            C.append(dict(name='large n=%d S=%d top=%d shared=%s' % (
                n, S, top, sh), fn='large', n=n, S=S, top=top, shared=sh,
                edges=[[i, i + 1] for i in range(n - 1)],
                # (the best labels before the last node go past 255)
                seed=51 if S == 260 else n + S,
                **(dict(free='one') if S > 100 else {})))
    for d in (True, False):
        add('model', n=2, S=2, directed=d)
        add('model', n=2, S=3, directed=d)
    return C
