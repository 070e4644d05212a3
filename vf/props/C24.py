"""Grids: every pair of neighbours is joined exactly once, by an edge of its
direction."""
from .common import build, few, large, score

BOUNDS = ('grids of up to 4x4 pixels, both neighborhoods, any pair of '
          'pixels; grid models with up to 3 states on up to 2x3 pixels, '
          'every real weight; '
          'grids up to 9x1, 2x7, 6x6; grid models up to 6x5 with given '
          'features and listed labelings, every real weight')
OUTSIDE = 'larger grids'

DIRS = {'right': (0, 1), 'down': (1, 0), 'upright': (-1, 1),
        'downright': (1, 1)}
KINDS = {4: ['right', 'down'], 8: ['right', 'down', 'upright', 'downright']}


def joins(h, E, a, b, both=False):
    """how often the pair (a, b) is in E"""
    ts = []
    for e in range(len(E)):
        c = h.and_(h.cond(E[e, 0] == a), h.cond(E[e, 1] == b))
        if both:
            c = h.or_(c, h.and_(h.cond(E[e, 0] == b), h.cond(E[e, 1] == a)))
        ts.append(h.ite(c, 1, 0))
    return h.sumr(ts)


def edges(h, nb, R=4, C=4, F=1, size=None):
    from pystruct.utils import make_grid_edges, edge_list_to_features
    np = h.np
    r, c = size or (h.pick(h.int('r', 1, R)), h.pick(h.int('c', 1, C)))
    x = h.reals('x', (r, c, F)) if F else h.reals('x', (r, c))
    kw = {} if nb is None else {'neighborhood': nb}
    nb = nb or 4
    # two pixels
    a = (h.int('ar', 0, r - 1), h.int('ac', 0, c - 1))
    b = (h.int('br', 0, r - 1), h.int('bc', 0, c - 1))
    ia, ib = a[0] * c + a[1], b[0] * c + b[1]
    dr, dc = b[0] - a[0], b[1] - a[1]
    E = make_grid_edges(x, **kw)
    h.check('shape', h.cond(E.ndim == 2 and E.shape[1] == 2))

    def step(k):
        return h.and_(h.cond(dr == DIRS[k][0]), h.cond(dc == DIRS[k][1]))
    near = h.or_(*[step(k) for k in KINDS[nb]])
    h.check('joined once, oriented', h.eq(joins(h, E, ia, ib),
                                          h.ite(near, 1, 0)))
    back = h.or_(*[h.and_(h.cond(dr == -DIRS[k][0]),
                          h.cond(dc == -DIRS[k][1])) for k in KINDS[nb]])
    h.check('joined once', h.eq(joins(h, E, ia, ib, True),
                                h.ite(h.or_(near, back), 1, 0)))
    L = make_grid_edges(x, return_lists=True, **kw)
    h.check('one list per direction', h.cond(len(L) == len(KINDS[nb])))
    for k, l in zip(KINDS[nb], L):
        h.check('lists', h.eq(joins(h, l, ia, ib), h.ite(step(k), 1, 0)),
                note=k)
    h.check('lists in order', h.cond(bool((np.vstack(L) == E).all())))
    f = edge_list_to_features(L)
    h.check('features shape', h.cond(f.shape == (len(E), len(L))))
    for e in range(len(E)):
        pr = divmod(int(E[e, 0]), c)
        pq = divmod(int(E[e, 1]), c)
        for i, k in enumerate(KINDS[nb]):
            h.check('indicator', h.eq(f[e, i], 1 if (
                pq[0] - pr[0], pq[1] - pr[1]) == DIRS[k] else 0))


def features(h, lens):
    """any lists of edges"""
    from pystruct.utils import edge_list_to_features
    np = h.np
    L = [np.array([[i, j + 7] for j in range(n)],
                  dtype='int64').reshape(-1, 2) for i, n in enumerate(lens)]
    f = edge_list_to_features(L)
    h.check('features shape', h.cond(f.shape == (sum(lens), len(lens))))
    e, k = h.int('e', 0, max(sum(lens) - 1, 0)), h.int('k', 0, len(lens) - 1)
    e, k = h.pick(e), h.pick(k)
    kind = [i for i, n in enumerate(lens) for _ in range(n)]
    if kind:
        h.check('indicator', h.eq(f[e, k], 1 if kind[e] == k else 0))


def model(h, kind, nb, r, c, S=2, F=1, L=2, spl=1, xval=None):
    """the problem a grid model hands to the solver: one pairwise table for
    all edges, or one per direction"""
    spec = dict(kind=kind, nb=nb, r=r, c=c, F=F, xval=xval)
    spec.update(dict(L=L, spl=spl) if kind.startswith('lat') else dict(S=S))
    g = build(h, **spec)
    U, E, PW, kw = h.capture('ad3', lambda: g.m.inference(g.x, g.w))
    S = g.S
    pix = [(i, j) for i in range(r) for j in range(c)]
    for y in few(g):
        ts = []
        for i, j in pix:
            s = y[i * c + j]
            for f in range(F):
                ts.append(g.x[i, j, f] * g.w[s * F + f])
        for k, d in enumerate(KINDS[nb]):
            dr, dc = DIRS[d]
            for i, j in pix:
                p, q = i + dr, j + dc
                if not (0 <= p < r and 0 <= q < c):
                    continue
                s, t = y[i * c + j], y[p * c + q]
                if kind in ('dirgrid', 'latdirgrid'):
                    ix = S * F + k * S * S + s * S + t
                else:           # lower triangle of a symmetric table
                    s, t = max(s, t), min(s, t)
                    ix = S * F + s * (s + 1) // 2 + t
                ts.append(g.w[ix])
        h.check('grid energy', h.eq(score(h, U, PW, E, y), h.sumr(ts)),
                note=str(y))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    R = 6 if big else 4
    add('edges', nb=4, R=R, C=R)
    add('edges', nb=8, R=R, C=R)
    add('edges', nb=None, R=2, C=3, F=2)
    add('edges', nb=8, R=3, C=2, F=0)
    for size in ((1, 9), (9, 1), (2, 7), (6, 3), (5, 5), (6, 6)) + (
            ((8, 9), (10, 6), (1, 40)) if big else ()):
        for nb in (4, 8):
            add('edges', nb=nb, size=size)
    for k, s in large():
        if 'r' in s:
            add('model', **s)
    for lens in ([1], [2, 1], [0, 2], [1, 0], [2, 1, 3], [1, 2, 1, 3],
                 [2, 2, 0, 1], [3, 1, 1, 1, 2]):
        add('features', lens=lens)
    for kind in ('grid', 'dirgrid', 'latgrid', 'latdirgrid'):
        for nb in (4, 8):
            for r, c in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3)):
                add('model', kind=kind, nb=nb, r=r, c=c)
            add('model', kind=kind, nb=nb, r=1, c=2, F=2, S=3, L=2,
                spl=[1, 2])
    return C
