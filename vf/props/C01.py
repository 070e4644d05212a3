"""Score of a labeling = potentials the inference maximises."""
from .common import build, few, score, dot, GRAPHS, wide, large, typed_specs, paired

BOUNDS = ('up to 4 nodes (grids up to 3x3), 4 states, 3 node features, '
          '3 edge features; every real weight and feature value, every '
          'labeling; listed graphs plus every orientation and every pair of '
          'end points of one and two edges; '
          'plus wide instances, one dimension at a time: 6 states or '
          'features, 6 edge features, 6 nodes with 8 edges, parallel '
          'edges, grids up to 2x4 and 3x3, 7 hidden states; '
          'up to 30 nodes, 14 edges, 10 states with given features and '
          'listed labelings, every real weight; also up to 270 nodes with 2 '
          'states and 540 edges, or 130 states; features given as integers, booleans or single '
          'precision and labels of narrow or unsigned types')
OUTSIDE = ('larger graphs; weights of (anti)symmetric edge features that do '
           'not have the declared symmetry; floating-point rounding')


def agree(h, **spec):
    g = build(h, **spec)
    U, E, PW, kw = h.capture('ad3', lambda: g.m.inference(g.x, g.w))
    h.check('unary-shape', h.cond(U.shape == (g.n, g.S)))
    h.check('pairwise-shape', h.cond(PW.shape == (len(E), g.S, g.S)))
    h.observe('U', U)
    h.observe('PW', PW)
    for y in few(g):
        f = g.m.joint_feature(g.x, g.mk(y))
        h.check('size', h.cond(f.shape == (g.m.size_joint_feature,)))
        h.check('score', h.eq(dot(h, g.w, f), score(h, U, PW, E, y)),
                note=str(y))
    h.observe('f', f)


def agree_sym(h, **spec):
    """one symbolic labeling"""
    g = build(h, **spec)
    U, E, PW, kw = h.capture('ad3', lambda: g.m.inference(g.x, g.w))
    y = h.ints('y', g.n, 0, g.S - 1)
    f = g.m.joint_feature(g.x, g.mk(y))
    ts = []
    for i in range(g.n):
        for s in range(g.S):
            ts.append(h.ite(y[i] == s, U[i, s], 0))
    for e in range(len(E)):
        a, b = int(E[e][0]), int(E[e][1])
        for s in range(g.S):
            for t in range(g.S):
                ts.append(h.ite(h.and_(y[a] == s, y[b] == t), PW[e, s, t],
                                0))
    h.check('score', h.eq(dot(h, g.w, f), h.sumr(ts)))
    h.observe('f', f)


def configs(tier):
    C = []

    def add(fn='agree', **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **{
            a: b for a, b in k.items() if a != 'g'}))
    big = tier != 'quick'
    for gname in ('edge-rev', 'path3-mixed', 'iso3', 'cyc3-mixed', 'star4',
                  'cyc4', 'one'):
        n, E = GRAPHS[gname]
        for d in (False, True):
            add(kind='graph', g=gname, n=n, edges=E, S=2, F=2, directed=d)
        if n <= 3:
            add(kind='graph', g=gname, n=n, edges=E, S=3, F=1, directed=True)
            add(kind='graph', g=gname, n=n, edges=E, S=3, F=1)
    add(kind='graph', g='any2', n=3, edges=2, S=2, F=1, directed=True)
    add(kind='graph', g='any2', n=3, edges=2, S=2, F=1)
    add(kind='graph', g='edge4', n=2, edges=[[1, 0]], S=4, F=1,
        directed=True)
    add(kind='graph', g='edge4', n=2, edges=[[1, 0]], S=4, F=3)
    add(fn='agree_sym', kind='graph', g='cyc3', n=3, edges=GRAPHS['cyc3'][1],
        S=2, F=1, directed=True)
    for d in (False, True):
        for n, S in ((1, 2), (2, 3), (3, 2), (4, 2)):
            add(kind='chain', n=n, S=S, F=2, directed=d)
    for gname in ('edge-rev', 'path3-mixed', 'cyc3', 'iso3', 'two-free'):
        n, E = GRAPHS[gname]
        add(kind='edgefeat', g=gname, n=n, edges=E, S=2, F=2, Fe=2)
        add(kind='edgefeat', g=gname, n=n, edges=E, S=2, F=1, Fe=3, sym=[0],
            anti=[2])
        add(kind='edgefeat', g=gname, n=n, edges=E, S=3, F=1, Fe=2, sym=[1],
            anti=[0])
    add(kind='edgefeat', g='any2', n=3, edges=2, S=2, F=1, Fe=1)
    add(kind='edgefeat', g='any1', n=4, edges=1, S=2, F=1, Fe=1)
    for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)):
        for nb in (4, 8):
            S = 3 if r * c <= 2 else 2
            if r * c == 6 and tier == 'quick':
                S = 2
            add(kind='grid', r=r, c=c, nb=nb, S=S, F=2 if r * c < 6 else 1)
            add(kind='dirgrid', r=r, c=c, nb=nb, S=S,
                F=2 if r * c < 6 else 1)
    for kind in ('grid', 'dirgrid'):
        add(kind=kind, r=2, c=3, nb=8, S=2, F=2, layout='F')
    add(kind='graph', g='cyc3', n=3, edges=GRAPHS['cyc3'][1], S=2, F=2,
        layout='F')
    for gname in ('two-free', 'edge-rev', 'path3-mixed', 'cyc3', 'star4',
                  'iso3'):
        n, E = GRAPHS[gname]
        add(kind='multilabel', g=gname, L=n, edges=E, F=2)
    add(kind='multilabel', g='any2', L=3, edges=2, F=1)
    for gname in ('edge-rev', 'path3-mixed', 'cyc3', 'iso3'):
        n, E = GRAPHS[gname]
        add(kind='latgraph', g=gname, n=n, edges=E, L=2, spl=[1, 2], F=1)
    add(kind='latgraph', g='edge', n=2, edges=[[0, 1]], L=2, spl=2, F=2)
    for r, c in ((1, 2), (2, 1), (2, 2)):
        for nb in (4, 8):
            add(kind='latgrid', r=r, c=c, nb=nb, L=2, spl=[2, 1], F=1)
            add(kind='latdirgrid', r=r, c=c, nb=nb, L=2, spl=[2, 1], F=1)
    for nm, s in wide() + large():
        C.append(dict(name='agree ' + nm, fn='agree', **s))
    if big:
        for gname in ('k4', 'cyc4', 'star4', 'forest4'):
            n, E = GRAPHS[gname]
            for d in (False, True):
                add(kind='graph', g=gname, n=n, edges=E, S=3, F=2,
                    directed=d, cost=4)
            add(kind='edgefeat', g=gname, n=n, edges=E, S=3, F=1, Fe=2,
                sym=[1], cost=4)
        add(kind='graph', g='any3', n=3, edges=3, S=2, F=1, directed=True,
            cost=5)
        add(kind='edgefeat', g='any2', n=4, edges=2, S=2, F=1, Fe=2, sym=[0],
            anti=[1], cost=5)
        for nb in (4, 8):
            add(kind='grid', r=3, c=3, nb=nb, S=2, F=1, cost=9)
            add(kind='dirgrid', r=3, c=3, nb=nb, S=2, F=1, cost=9)
            add(kind='dirgrid', r=2, c=2, nb=nb, S=3, F=1, cost=3)
        for nb in (4, 8):
            add(kind='latgrid', r=2, c=3, nb=nb, L=2, spl=[2, 1], F=1,
                cost=9)
            add(kind='latdirgrid', r=2, c=3, nb=nb, L=2, spl=[2, 1], F=1,
                cost=9)
        add(fn='agree_sym', kind='edgefeat', g='cyc3', n=3,
            edges=GRAPHS['cyc3'][1], S=2, F=1, Fe=2)
        add(fn='agree_sym', kind='grid', r=2, c=2, nb=8, S=2, F=1)
    for s in typed_specs(xval=3):
        add(**s)
    for s in typed_specs([('int64', 'uint8')]):
        if s['kind'] in ('multilabel', 'chain'):
            add(**s)
    for s in paired():
        add(**s)
    return C
