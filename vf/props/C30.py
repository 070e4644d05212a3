"""Models with hidden nodes: visible nodes get visible states, hidden nodes
hidden ones, and the answer is the best such labeling."""
from .common import build, labelings, dot
from .mapc import argmax_solver, exact_solver, on_line

BOUNDS = ('up to 3 visible and 2 hidden nodes (3 together), 3 labels, '
          '2 hidden states; every real unary and pairwise weight; every true '
          'labeling; class weights 1 and listed ones; an exact solver '
          'that may break ties in any way; up to 5 nodes, 3 hidden ones, 4 '
          'hidden states for given features and labels and weights on a '
          'line, with a solver that returns the first or last maximizer')
OUTSIDE = ('larger graphs; class weights beyond 90; approximate solvers; '
           'rounding')


def one(h, op, method='ad3', **spec):
    g = build(h, method=method, xval='eye', **spec)
    if method == 'ad3':
        exact_solver(h, [])
    y = None
    if op == 'inference':
        got = g.m.inference(g.x, g.w)
    else:
        y = g.mk([h.pick(h.int('y_%d' % i, a[0], a[-1]))
                  for i, a in enumerate(g.allowed)])
        got = g.m.loss_augmented_inference(g.x, y, g.w)
    h.check('one state per node', h.cond(tuple(got.shape) == (g.n,)))
    h.observe('got', got)
    lab = [h.pick(v) for v in got]
    for i in range(g.n):
        h.check('visible state' if g.allowed[i][0] == 0 else 'hidden state',
                h.cond(lab[i] in g.allowed[i]))
    if any(lab[i] not in g.allowed[i] for i in range(g.n)):
        return
    vis = [l for l, a in zip(lab, g.allowed) if a[0] == 0]
    out = g.m.label_from_latent(got)
    h.check('labels', h.cond(tuple(out.shape) == (len(vis),)))
    for i, v in enumerate(vis):
        h.check('labels', h.cond(out[i] == v))

    def val(z):
        v = dot(h, g.w, g.m.joint_feature(g.x, g.mk(z)))
        if y is not None:
            v = v + g.m.loss(y, g.mk(z))
        return v
    best = val(lab)
    for z in labelings(g):
        if list(z) != lab:
            h.check('best labeling', h.le(val(z), best), note=str(z))


def line(h, op, seed, last=False, **spec):
    """a larger instance: given features, weights on a line"""
    g = build(h, xval=seed, wfree=False, **spec)
    w = on_line(h, (g.m.size_joint_feature,), seed, 5)
    argmax_solver(h, last)
    y = None
    if op == 'inference':
        got = g.m.inference(g.x, w)
    else:
        y = g.mk([a[(seed + i * i) % len(a)]
                  for i, a in enumerate(g.allowed)])
        got = g.m.loss_augmented_inference(g.x, y, w)
    h.check('one state per node', h.cond(tuple(got.shape) == (g.n,)))
    h.observe('got', got)
    lab = tuple(h.pick(v) for v in got)
    ok = all(l in a for l, a in zip(lab, g.allowed))
    h.check('visible or hidden state', h.cond(ok), note=str(lab))
    if not ok:
        return
    out = g.m.label_from_latent(got)
    vis = [l for l, a in zip(lab, g.allowed) if a[0] == 0]
    h.check('labels', h.cond([int(v) for v in out] == vis))

    def val(z):
        v = dot(h, w, g.m.joint_feature(g.x, g.mk(z)))
        return v if y is None else v + g.m.loss(y, g.mk(z))
    best = val(lab)
    h.check('best labeling', h.and_(*[h.le(val(z), best)
                                      for z in labelings(g)]))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(**k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name='one ' + nm, fn='one', **k))
    G = [(1, 1, [[0, 1]]), (2, 1, [[0, 2], [2, 1]]), (2, 0, [[1, 0]]),
         (1, 2, [[0, 2], [1, 0], [2, 1]])]
    for op in ('inference', 'lai'):
        for n, nh, E in G:
            # two nodes and two hidden states, or three nodes and one
            Sh = 2 if n + nh <= 2 else 1
            add(op=op, kind='latnode', n=n, nh=nh, edges=E, L=2, Sh=Sh, F=n)
            add(op=op, kind='latnode', n=n, nh=nh, edges=E, L=2, Sh=Sh,
                F=n + nh, lnf=True)
            if n + nh <= 2 or big:
                add(op=op, kind='eflatnode', n=n, nh=nh, edges=E, L=2, Sh=Sh,
                    F=n, Fe=len(E))
                add(op=op, kind='eflatnode', n=n, nh=nh, edges=E, L=2, Sh=Sh,
                    F=n + nh, Fe=len(E), lnf=True)
        add(op=op, kind='latnode', n=1, nh=1, edges=[[1, 0]], L=3, Sh=2, F=1)
        add(op=op, kind='eflatnode', n=1, nh=1, edges=[[1, 0]], L=3, Sh=1,
            F=1, Fe=1)
        add(op=op, kind='eflatnode', n=2, nh=1, edges=[[1, 2]], L=2, Sh=1,
            F=2, Fe=1)
    add(op='lai', kind='latnode', n=1, nh=1, edges=[[1, 0]], L=2, Sh=2, F=1,
        cw=[1., 7.])
    add(op='lai', kind='eflatnode', n=1, nh=1, edges=[[0, 1]], L=2, Sh=2, F=1,
        Fe=1, cw=[60., 2.])
    LG = [dict(kind='latnode', n=3, nh=2, edges=[[0, 3], [4, 1], [2, 4],
                                                 [3, 4]], L=2, Sh=2, F=2),
          dict(kind='latnode', n=2, nh=2, edges=[[0, 2], [3, 1], [2, 3],
                                                 [0, 1]], L=3, Sh=2, F=2,
               lnf=True),
          dict(kind='latnode', n=2, nh=1, edges=[[2, 0], [2, 1]], L=2, Sh=4,
               F=1),
          dict(kind='eflatnode', n=2, nh=2, edges=[[0, 2], [1, 3], [3, 2]],
               L=2, Sh=2, F=2, Fe=2, lnf=True),
          dict(kind='eflatnode', n=3, nh=1, edges=[[0, 3], [3, 1], [3, 2],
                                                   [1, 0]], L=3, Sh=1, F=2,
               Fe=2),
          dict(kind='eflatnode', n=1, nh=3, edges=[[0, 1], [2, 1], [3, 0]],
               L=2, Sh=3, F=1, Fe=2)]
    for k, s in enumerate(LG):
        for op in ('inference', 'lai'):
            for seed in (k, k + 7)[:1 if not big else 2]:
                last = (k + (op == 'lai')) % 2 == 1
                cw = {} if op == 'inference' or k % 2 else dict(
                    cw=[1., 3., 2.][:s['L']])
                C.append(dict(name='line %s %s %d' % (s['kind'], op, k) +
                              ' seed=%d' % seed, fn='line', op=op, seed=seed,
                              last=last, **dict(s, **cw)))
    # the package's own exact solvers for trees
    add(op='inference', method='max-product', kind='latnode', n=1, nh=1,
        edges=[[0, 1]], L=2, Sh=1, F=1)
    add(op='inference', method='max-product', kind='latnode', n=1, nh=1,
        edges=[[1, 0]], L=2, Sh=1, F=1)
    return C
