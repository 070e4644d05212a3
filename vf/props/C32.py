"""Exhaustive search finds a best labeling; the energy of a labeling is its
sum of potentials."""
from .common import build, labelings, dot, GRAPHS
from .mapc import score

BOUNDS = ('up to 4 nodes and 4 states for energies, up to 8 labelings for '
          'exhaustive search; every real potential or weight, every true '
          'labeling; given labelings of up to 300 nodes, 130 states and 60 '
          'edges for energies; up to 81 labelings and weights on a line for '
          'exhaustive search')
OUTSIDE = 'larger instances; rounding'


def energy(h, n, edges, S, shared, labels=None):
    from pystruct.inference import compute_energy
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', (S, S) if shared else (len(edges), S, S))
    y = np.array(labels or [h.pick(h.int('y_%d' % i, 0, S - 1))
                            for i in range(n)], dtype='int64')
    e = compute_energy(U, P, E, y)
    PW = [P] * len(edges) if shared else [P[k] for k in range(len(edges))]
    want = h.sumr([U[i, int(y[i])] for i in range(n)] +
                  [PW[k][int(y[a]), int(y[b])]
                   for k, (a, b) in enumerate(edges)])
    h.check('energy', h.eq(e, want))
    h.observe('e', e)


def reject(h, n, edges, S, shape):
    from pystruct.inference import compute_energy
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', tuple(shape))
    y = np.zeros(n, dtype='int64')
    h.check('rejected', h.cond(h.raises(
        lambda: compute_energy(U, P, E, y), ValueError) is not None))


def exhaustive(h, aug, line=None, **spec):
    from pystruct.utils import (exhaustive_inference,
                                exhaustive_loss_augmented_inference)
    g = build(h, xval='eye', **spec)
    if line is not None:
        # weights on a line
        np, t = h.np, h.real('t', -8, 8)
        g.w = np.array([(i * i + 2 * i * line + i // 3) % 7 - 3. + i / 32
                        for i in range(len(g.w))]) + \
            np.array([(i * 3 + line + i * i // 2) % 5 - 2.
                      for i in range(len(g.w))]) * t
    if aug:
        y = g.mk([(i * i + line) % g.S if line is not None else
                  h.pick(h.int('y_%d' % i, 0, g.S - 1))
                  for i in range(g.n)])
        got = exhaustive_loss_augmented_inference(g.m, g.x, y, g.w)
    else:
        got = exhaustive_inference(g.m, g.x, g.w)

    def val(z):
        z = g.mk(z)
        v = dot(h, g.w, g.m.joint_feature(g.x, z))
        return v + g.m.loss(y, z) if aug else v
    h.check('shape', h.cond(tuple(got.shape) == (g.shape or (g.n,))))
    lab = tuple(int(v) for v in got.ravel())
    h.check('a labeling', h.cond(lab in labelings(g)))
    best = val(lab)
    for z in labelings(g):
        if z != lab:
            h.check('best', h.le(val(z), best), note=str(z))
    h.observe('y', got.ravel())


def configs(tier):
    C = []

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    for gname in ('one', 'two-free', 'edge', 'edge-rev', 'path3-mixed',
                  'cyc3', 'iso3', 'star4'):
        n, E = GRAPHS[gname]
        for S in (2, 3) + ((4,) if n <= 2 else ()):
            if S ** n > 30:
                continue
            for shared in (True, False):
                add('energy', n=n, edges=E, S=S, shared=shared)
    add('energy', n=2, edges=[[0, 1], [0, 1], [1, 0]], S=2, shared=False)
    # as many edges as states
    add('energy', n=3, edges=[[1, 0], [2, 1]], S=2, shared=False)
    for shape in ((3, 2), (2, 3), (3, 3), (1, 2, 2), (3, 2, 2), (2, 3, 2),
                  (2, 2, 3), (2,), (2, 2, 2, 1)):
        add('reject', n=3, edges=[[0, 1], [1, 2]], S=2, shape=shape)
    sp = [dict(kind='graph', n=2, S=2, F=2, edges=[[1, 0]], directed=True),
          dict(kind='graph', n=2, S=3, F=2, edges=[[0, 1]]),
          dict(kind='graph', n=3, S=2, F=2, edges=[[0, 1], [1, 2]]),
          dict(kind='graph', n=2, S=2, F=2, edges=[]),
          dict(kind='chain', n=3, S=2, F=1),
          dict(kind='grid', r=1, c=2, S=2, F=2),
          dict(kind='grid', r=2, c=1, S=2, F=2),
          dict(kind='dirgrid', r=1, c=2, S=2, F=2, nb=8),
          dict(kind='edgefeat', n=2, S=2, F=2, Fe=1, edges=[[1, 0]])]
    for s in sp:
        for aug in (False, True):
            add('exhaustive', aug=aug, **s)
    add('exhaustive', aug=True, cw=[1., 3.], **sp[0])
    wide = [dict(kind='graph', n=4, S=3, F=2, directed=True,
                 edges=[[1, 0], [1, 3], [3, 2], [0, 3]]),
            dict(kind='graph', n=2, S=9, F=2, edges=[[0, 1]]),
            dict(kind='graph', n=6, S=2, F=2,
                 edges=[[0, 1], [1, 2], [3, 4], [5, 0]]),
            dict(kind='graph', n=1, S=12, F=12, edges=[]),
            dict(kind='chain', n=5, S=2, F=2),
            dict(kind='grid', r=3, c=2, S=2, F=2, nb=8),
            dict(kind='grid', r=2, c=2, S=3, F=2),
            dict(kind='dirgrid', r=2, c=2, S=2, F=2, nb=4),
            dict(kind='edgefeat', n=4, S=2, F=2, Fe=3,
                 edges=[[1, 0], [2, 3], [1, 3]])]
    for i, s in enumerate(wide):
        for aug in (False, True):
            add('exhaustive', aug=aug, line=i % 5, **s)
        add('exhaustive', aug=True, line=i % 5 + 1, cw=[
            1. + (j * j + i) % 5 for j in range(s['S'])], **s)
    for n, S, m in ((7, 6, 12), (12, 3, 30), (3, 11, 4), (40, 2, 60),
                    (6, 5, 5), (6, 5, 6), (300, 2, 2), (2, 130, 1),
                    (5, 4, 0)):
        for shared in (True, False):
            if m * S * S > 20000:
                continue
            E = [[(i * 5 + i // n) % n, (i * 3 + 1 + i // 2) % n]
                 for i in range(m)]
            E = [[a, b if b != a else (a + 1) % n] for a, b in E]
            C.append(dict(
                name='energy n=%d S=%d edges=%d shared=%s' % (
                    n, S, m, shared), fn='energy', n=n, S=S, edges=E,
                shared=shared, labels=[(i * i + i // 2 + 1) % S
                                       for i in range(n)]))
    if tier != 'quick':
        add('exhaustive', aug=True, cw='sym', **sp[0])
        add('exhaustive', aug=False, kind='grid', r=2, c=2, S=2, F=1)
    return C
