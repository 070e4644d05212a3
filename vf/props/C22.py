"""Completing a labeling with hidden states or nodes keeps the labeling, and
takes the best completion."""
import itertools
from .common import build, dot
from .mapc import argmax_solver, exact_solver, on_line

BOUNDS = ('up to 3 visible and 2 hidden nodes, 3 labels, up to 3 hidden '
          'states per label; every labeling; every real weight; every '
          'clustering; an exact solver with arbitrary ties, and a solver '
          'with arbitrary answers; up to 5 nodes and 6 hidden states for '
          'given features and labels and weights on a line, with a solver '
          'that returns the first or last maximizer; initial completions '
          'with up to 142 hidden states or 130 labels')
OUTSIDE = 'larger instances; the clustering algorithm itself; rounding'


def visible(g):
    if g.kind in ('latnode', 'eflatnode'):
        return g.n - g.nh, g.L
    return g.n, g.L


def truth(h, g):
    nv, L = visible(g)
    y = h.np.array([h.pick(h.int('y_%d' % i, 0, L - 1)) for i in range(nv)],
                   dtype='int64')
    return y.reshape(g.shape) if g.shape else y


def completions(g, y):
    """all labelings that project to y"""
    if g.kind in ('latnode', 'eflatnode'):
        nv = g.n - g.nh
        opts = [[int(v)] for v in y] + g.allowed[nv:]
    else:
        opts = [[s for s in range(g.S) if g.label_of[s] == int(v)]
                for v in y.ravel()]
    return [tuple(z) for z in itertools.product(*opts)]


def completes(g, y, lab):
    if g.kind in ('latnode', 'eflatnode'):
        return lab in completions(g, y)
    y = [int(v) for v in y.ravel()]
    return len(lab) == len(y) and all(
        0 <= s < g.S and g.label_of[s] == v for s, v in zip(lab, y))


def latent(h, method='ad3', arbitrary=False, **spec):
    g = build(h, method=method, xval=None if arbitrary else 'eye', **spec)
    y = truth(h, g)
    y0 = y.copy()
    if arbitrary:
        # whatever the solver answers, the labels stay
        from vf.hooks import HOOKS

        def ad3(U, E, PW, *a):
            lab = [h.pick(h.int('sol_%d' % i, 0, g.S - 1))
                   for i in range(g.n)]
            mu = h.np.zeros((g.n, g.S))
            for i in range(g.n):
                mu[i, lab[i]] = 1
            return mu, h.np.zeros((len(E), g.S ** 2)), 0.0, 'unsolved'
        HOOKS.ad3 = ad3
        box = []
        e = h.raises(lambda: box.append(g.m.latent(g.x, y, g.w)), ValueError)
        if g.kind in ('latnode', 'eflatnode'):
            if e is not None:       # refusing is fine, a wrong label is not
                h.check('refused', h.true())
                return
        h.check('no exception', h.cond(e is None))
        if e is not None:
            return
        got = box[0]
    else:
        if method == 'ad3':
            exact_solver(h, [])
        got = g.m.latent(g.x, y, g.w)
    h.observe('got', got)
    h.check('labels given are kept', h.cond(bool((y == y0).all())))
    h.check('shape', h.cond(tuple(got.shape) == (g.shape or (g.n,))))
    lab = tuple(h.pick(v) for v in got.ravel())
    z = completions(g, y)
    if arbitrary and g.kind in ('latnode', 'eflatnode'):
        h.check('completes the labels', h.cond(
            lab[:len(y)] == tuple(int(v) for v in y)), note=str(lab))
        return
    h.check('completes the labels', h.cond(lab in z), note=str(lab))
    if lab not in z:
        return
    out = g.m.label_from_latent(got)
    h.check('projects back', h.cond(tuple(out.shape) == tuple(y.shape) and
                                    bool((out == y).all())))
    h.check('no loss', h.eq(g.m.loss(got, got), 0))
    if arbitrary:
        return
    best = dot(h, g.w, g.m.joint_feature(g.x, g.mk(lab)))
    for c in z:
        if c != lab:
            h.check('best completion', h.le(
                dot(h, g.w, g.m.joint_feature(g.x, g.mk(c))), best),
                note=str(c))


def line(h, seed, last=False, **spec):
    """a larger instance: given features and labels, weights on a line"""
    np = h.np
    g = build(h, xval=seed, wfree=False, **spec)
    w = on_line(h, (g.m.size_joint_feature,), seed, 5)
    nv, L = visible(g)
    y = np.array([(seed + i * i) % L for i in range(nv)], dtype='int64')
    y = y.reshape(g.shape) if g.shape else y
    y0 = y.copy()
    argmax_solver(h, last)
    got = g.m.latent(g.x, y, w)
    h.observe('got', got)
    h.check('labels given are kept', h.cond(bool((y == y0).all())))
    h.check('shape', h.cond(tuple(got.shape) == (g.shape or (g.n,))))
    lab = tuple(h.pick(v) for v in got.ravel())
    z = completions(g, y)
    h.check('completes the labels', h.cond(lab in z), note=str(lab))
    if lab not in z:
        return
    out = g.m.label_from_latent(got)
    h.check('projects back', h.cond(tuple(out.shape) == tuple(y.shape) and
                                    bool((out == y).all())))
    h.check('no loss', h.eq(g.m.loss(got, got), 0))

    def val(z):
        return dot(h, w, g.m.joint_feature(g.x, g.mk(z)))
    best = val(lab)
    h.check('best completion', h.and_(*[h.le(val(c), best) for c in z]))


def init(h, spec, N=2, spec2=None, given=None, lists=False):
    """initial completion from an arbitrary clustering; given: fixed
    labels"""
    from vf.hooks import HOOKS
    np = h.np
    specs = [spec, spec2 or spec][:N]
    gs = []
    for k, s in enumerate(specs):
        gs.append(build(h, tag='_s%d' % k, m=gs[0].m if gs else None,
                        wfree=False, **s))
    Y = []
    for k, g in enumerate(gs):
        nv, L = visible(g)
        if given is not None:
            y = np.array([given[k][i] for i in range(nv)], dtype='int64')
        else:
            y = np.array([h.pick(h.int('y%d_%d' % (k, i), 0, L - 1))
                          for i in range(nv)], dtype='int64')
        Y.append(y.reshape(g.shape) if g.shape else y)
    g = gs[0]
    flat = [int(v) for y in Y for v in y.ravel()]
    node = g.kind in ('latnode', 'eflatnode')
    if not node:
        # clustering needs as many nodes as hidden states
        cnt = [g.label_of.count(l) for l in range(g.L)]
        for l in range(g.L):
            if 0 < flat.count(l) < cnt[l]:
                h.assume(False)
    fits = []

    def fit(k, X):
        fits.append((k, X.copy()))
        return len(fits)

    def predict(k, X, tag):
        if len(X) > 20:
            # a large instance: any one clustering
            return np.array([(i * i + i // 3) % k for i in range(len(X))],
                            dtype='int64')
        return np.array([h.pick(h.int('km_%d_%d_%d' % (tag + (i,)), 0, k - 1))
                         for i in range(len(X))], dtype='int64')
    HOOKS.km_fit, HOOKS.km_predict = fit, predict
    X = [g.x for g in gs]
    if g.shape and not lists:
        X, Y = np.array(X), np.array(Y)
    H = g.m.init_latent(X, Y)
    h.check('one per sample', h.cond(len(H) == len(gs)))
    for k, g2 in enumerate(gs):
        hh = H[k]
        h.check('shape', h.cond(tuple(hh.shape) == (g2.shape or (g2.n,))))
        lab = tuple(int(v) for v in hh.ravel())
        h.check('completes the labels', h.cond(
            completes(g2, Y[k], lab)), note=str(lab))
        out = g.m.label_from_latent(hh)
        h.check('projects back', h.cond(bool((out == Y[k]).all())))
    if not node:
        # every label is clustered on its own nodes
        want = [l for l in sorted(set(flat))]
        h.check('one clustering per label', h.cond(len(fits) == len(want)))
        for l, (k, XX) in zip(want, fits):
            h.check('clusters', h.cond(k == cnt[l] and
                                       len(XX) == flat.count(l)))
            rows = []
            for k2, g2 in enumerate(gs):
                fx = g2.x if g2.shape else g2.x[0]
                fx = fx.reshape(-1, fx.shape[-1])
                for i, v in enumerate(Y[k2].ravel()):
                    if int(v) == l:
                        rows.append(fx[i])
            for i, r in enumerate(rows):
                for f in range(len(r)):
                    h.check('features clustered', h.eq(XX[i, f], r[f]))
    h.observe('H', [a.ravel() for a in H])


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    ex = [dict(kind='latgraph', n=2, L=2, spl=2, edges=[[0, 1]], F=2),
          dict(kind='latgraph', n=2, L=2, spl=[1, 3], edges=[[1, 0]], F=2),
          dict(kind='latgraph', n=2, L=3, spl=[2, 1, 1], edges=[[1, 0]], F=2),
          dict(kind='latgraph', n=2, L=2, spl=[2, 1], edges=[], F=2),
          dict(kind='latgraph', n=3, L=2, spl=[2, 1], edges=[[1, 0], [1, 2]],
               F=3),
          dict(kind='latgrid', r=1, c=2, L=2, spl=[1, 2], F=2),
          dict(kind='latgrid', r=2, c=1, L=2, spl=[2, 2], F=2),
          dict(kind='latdirgrid', r=2, c=1, L=2, spl=[2, 1], F=2),
          dict(kind='latdirgrid', r=1, c=2, L=2, spl=2, F=2, nb=8),
          dict(kind='latnode', n=1, nh=1, L=2, Sh=2, edges=[[0, 1]], F=1),
          dict(kind='latnode', n=1, nh=1, L=3, Sh=2, edges=[[1, 0]], F=1),
          dict(kind='latnode', n=2, nh=1, L=2, Sh=1, edges=[[0, 2], [2, 1]],
               F=2),
          dict(kind='latnode', n=1, nh=2, L=2, Sh=2, edges=[[0, 2], [2, 1]],
               F=1),
          dict(kind='latnode', n=1, nh=1, L=2, Sh=2, edges=[[0, 1]], F=2,
               lnf=True),
          dict(kind='eflatnode', n=1, nh=1, L=2, Sh=2, edges=[[0, 1]], F=1,
               Fe=1),
          dict(kind='eflatnode', n=1, nh=1, L=2, Sh=3, edges=[[1, 0]], F=2,
               Fe=1, lnf=True)]
    for s in ex:
        add('latent', **s)
    add('latent', method='max-product', kind='latgraph', n=2, L=2, spl=[2, 1],
        edges=[[0, 1]], F=2)
    add('latent', method='max-product', kind='latnode', n=1, nh=1, L=2, Sh=2,
        edges=[[0, 1]], F=1)
    for s in [ex[1], ex[2], ex[5], ex[7], ex[9], ex[14]]:
        add('latent', arbitrary=True, **dict(s, F=1))
    LG = [dict(kind='latgraph', n=4, L=2, spl=[3, 1], F=2,
               edges=[[0, 1], [2, 1], [3, 0], [2, 3]]),
          dict(kind='latgraph', n=3, L=3, spl=[2, 3, 1], F=1,
               edges=[[0, 1], [2, 1], [1, 0]]),
          dict(kind='latgrid', r=2, c=2, L=2, spl=[1, 3], F=2, nb=8),
          dict(kind='latgrid', r=1, c=3, L=2, spl=[2, 3], F=2),
          dict(kind='latdirgrid', r=2, c=2, L=2, spl=2, F=1),
          dict(kind='latdirgrid', r=3, c=1, L=3, spl=[2, 1, 2], F=1, nb=8),
          dict(kind='latnode', n=3, nh=2, edges=[[0, 3], [4, 1], [2, 4],
                                                 [3, 4]], L=2, Sh=2, F=2),
          dict(kind='latnode', n=2, nh=2, edges=[[0, 2], [3, 1], [2, 3],
                                                 [0, 1]], L=2, Sh=3, F=2,
               lnf=True),
          dict(kind='eflatnode', n=2, nh=2, edges=[[0, 2], [1, 3], [3, 2]],
               L=2, Sh=2, F=2, Fe=2, lnf=True),
          dict(kind='eflatnode', n=1, nh=3, edges=[[0, 1], [2, 1], [3, 0]],
               L=2, Sh=3, F=1, Fe=2)]
    for k, s in enumerate(LG):
        for seed in (k, k + 7)[:1 if not big else 2]:
            C.append(dict(name='line %s %d seed=%d' % (s['kind'], k, seed),
                          fn='line', seed=seed, last=k % 2 == 1, **s))
    for n, spl in ((140, [130, 2]), (150, [2, 140]), (135, [1] * 130)):
        L = len(spl)
        C.append(dict(name='init large n=%d L=%d states=%d' % (
            n, L, sum(spl)), fn='init', N=1, spec=dict(
                kind='latgraph', n=n, L=L, spl=spl, F=1, edges=[[1, 0]],
                xval=2), given=[
                [(i * 7) % 130 if L > 2 else int((i > 4) == (spl[0] < 3))
                 for i in range(n)]]))
    g1 = dict(kind='latgraph', n=3, L=2, spl=2, edges=[[0, 1], [2, 1]], F=1)
    add('init', spec=g1, N=1)
    add('init', spec=dict(g1, n=4, spl=[1, 3], edges=[[0, 1], [3, 2]]), N=1)
    add('init', spec=dict(g1, n=2, spl=[1, 2], edges=[[1, 0]]))
    add('init', spec=dict(g1, n=2, L=3, spl=1, edges=[[1, 0]]))
    add('init', spec=dict(g1, n=3, L=3, spl=[1, 2, 1], edges=[[1, 0]]), N=1)
    add('init', spec=dict(g1, n=7, L=3, spl=[1, 2, 3],
                          edges=[[1, 0], [6, 4], [2, 5]]), N=1,
        given=[[2, 1, 0, 2, 1, 2, 0]])
    add('init', spec=dict(g1, n=4, L=4, spl=[2, 1, 1, 2],
                          edges=[[1, 0], [3, 2]]),
        given=[[3, 0, 2, 1], [3, 2, 0, 1]])
    add('init', spec=dict(g1, n=5, L=4, spl=[3, 2, 1, 2],
                          edges=[[1, 0], [3, 4]]), N=1,
        given=[[3, 1, 3, 1, 1]])
    add('init', spec=dict(kind='latgrid', r=2, c=2, L=3, spl=[2, 1, 2], F=1),
        given=[[2, 0, 1, 2], [0, 1, 1, 2]])
    add('init', spec=dict(kind='latdirgrid', r=2, c=3, L=3, spl=[1, 2, 3],
                          F=1, nb=8), N=1, given=[[2, 1, 2, 1, 0, 2]])
    add('init', spec=dict(kind='latnode', n=3, nh=2, L=3, Sh=2, F=1,
                          edges=[[0, 3], [4, 1], [2, 4], [3, 4]]), N=1,
        given=[[2, 0, 1]])
    add('init', spec=dict(kind='eflatnode', n=4, nh=3, L=4, Sh=2, F=1, Fe=1,
                          edges=[[0, 4], [5, 1], [2, 6], [3, 4]]), N=1,
        given=[[2, 3, 0, 1]])
    add('init', spec=dict(kind='latgrid', r=2, c=1, L=2, spl=[1, 2], F=2))
    add('init', spec=dict(kind='latgrid', r=2, c=2, L=2, spl=[2, 1], F=1,
                          nb=8), N=1)
    add('init', spec=dict(kind='latdirgrid', r=1, c=2, L=2, spl=[2, 1], F=2))
    add('init', spec=dict(kind='latdirgrid', r=2, c=2, L=2, spl=[2, 1], F=1,
                          nb=8), N=1)
    add('init', spec=dict(kind='latnode', n=2, nh=1, L=2, Sh=2, F=2,
                          edges=[[0, 2], [2, 1]]))
    add('init', spec=dict(kind='latnode', n=1, nh=2, L=2, Sh=3, F=1,
                          edges=[[0, 2], [0, 1]]),
        spec2=dict(kind='latnode', n=3, nh=1, L=2, Sh=3, F=1,
                   edges=[[0, 3], [3, 1]]))
    add('init', spec=dict(kind='latnode', n=2, nh=1, L=2, Sh=2, F=1,
                          edges=[[0, 2], [2, 1]], lnf=True))
    add('init', spec=dict(kind='eflatnode', n=2, nh=1, L=2, Sh=2, F=1, Fe=1,
                          edges=[[0, 2], [2, 1]]))
    # lists of grids, which need not be of one size
    for kind in ('latgrid', 'latdirgrid'):
        add('init', spec=dict(kind=kind, r=1, c=2, L=2, spl=[2, 1], F=2),
            lists=True)
        add('init', spec=dict(kind=kind, r=1, c=2, L=2, spl=[2, 1], F=1),
            spec2=dict(kind=kind, r=2, c=1, L=2, spl=[2, 1], F=1), lists=True)
        add('init', spec=dict(kind=kind, r=2, c=2, L=3, spl=[2, 1, 2], F=1),
            spec2=dict(kind=kind, r=1, c=3, L=3, spl=[2, 1, 2], F=1),
            lists=True, given=[[2, 0, 1, 2], [0, 2, 2]])
    return C
