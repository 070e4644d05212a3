"""Task loss: nonnegative, zero exactly on the truth, bounded, batch =
per-sample, relaxed loss = expected loss."""
from .common import (build, build_nt, few, GRAPHS, NT, NT_WIDE, NT_LARGE,
                     wide, large, LARGE_HIDDEN, varied, typed_specs)

BOUNDS = ('up to 4 nodes and 4 states; every pair of labelings; every class '
          'weight vector in (0, 8]; every relaxed labeling with nonnegative '
          'marginals summing to one per node; '
          'plus wide instances: 6 states, 6 nodes, 5 node types; '
          'up to 30 nodes, 10 states, 12 nodes of 6 types with listed '
          'true labelings, every marginal and class weight; also up to 270 nodes with 2 '
          'states and 540 edges, or 130 states; '
          'labels of narrow or unsigned types')
OUTSIDE = 'larger instances; negative class weights; rounding'


def pos(h, g):
    for c in (g.cw or []):
        for e in (c if isinstance(c, list) else [c]):
            h.assume(h.lt(0, e))


def flatcw(g):
    out = []
    for c in (g.cw or []):
        out += list(c) if isinstance(c, list) else [c]
    return out or None


def labels(h, g, name):
    y = h.np.zeros(g.n, dtype='int64')
    for i in range(g.n):
        y[i] = h.int('%s_%d' % (name, i), g.allowed[i][0], g.allowed[i][-1])
    return y


def visible(g):
    return g.n - getattr(g, 'nh', 0)


def same(h, g, y, z):
    lab = getattr(g, 'label_of', None)
    cs = []
    for i in range(visible(g)):
        if lab:
            for a in g.allowed[i]:
                for b in g.allowed[i]:
                    if lab[a] != lab[b]:
                        cs.append(h.not_(h.and_(y[i] == a, z[i] == b)))
        else:
            cs.append(h.cond(y[i] == z[i]))
    return h.and_(*cs)


def axioms(h, g, m, y, z):
    pos(h, g)
    Y, Z = g.mk(y.copy()), g.mk(z.copy())
    l = m.loss(Y, Z)
    h.observe('loss', l)
    h.check('nonnegative', h.le(0, l))
    eqv = same(h, g, y, z)
    h.check('zero-if-same', h.implies(eqv, h.eq(l, 0)))
    h.check('positive-if-different', h.or_(eqv, h.lt(0, l)))
    b = m.batch_loss([Y, Z], [Z, Z])
    h.check('batch', h.and_(h.eq(b[0], l), h.eq(b[1], m.loss(Z, Z)),
                            h.cond(len(b) == 2)))
    return l, Y, Z


def discrete(h, given=None, **spec):
    """given: fixed true labeling"""
    g = build(h, wfree=False, **spec)
    fork = g.kind in ('latnode', 'eflatnode')
    if given is not None:
        y = varied(h, g, given)
        # half of the nodes move
        z = varied(h, g, given + 1)
        for i in range(0, g.n, 2):
            a = g.allowed[i]
            z[i] = h.int('z_%d' % i, a[0], a[-1])
        if fork:
            z = varied(h, g, given + 1)
            for i in range(0, g.n, 4):
                a = g.allowed[i]
                z[i] = h.pick(h.int('z_%d' % i, a[0], a[-1]))
    elif fork:
        y = h.np.array([h.pick(h.int('y_%d' % i, a[0], a[-1]))
                        for i, a in enumerate(g.allowed)], dtype='int64')
        z = h.np.array([h.pick(h.int('z_%d' % i, a[0], a[-1]))
                        for i, a in enumerate(g.allowed)], dtype='int64')
    else:
        y, z = labels(h, g, 'y'), labels(h, g, 'z')
    m = g.m
    l, Y, Z = axioms(h, g, m, y, z)
    if hasattr(g, 'label_of'):
        # in label space
        ly, lz = m.label_from_latent(Y), m.label_from_latent(Z)
        h.check('bounded', h.le(l, m.max_loss(ly)))
        h.check('base-loss', h.eq(m.base_loss(ly, lz), l))
    elif fork:
        h.check('bounded', h.le(l, m.max_loss(Y)))
        h.check('base-loss', h.eq(m.base_loss(m.label_from_latent(Y),
                                              m.label_from_latent(Z)), l))
    else:
        h.check('bounded', h.le(l, m.max_loss(Y)))
    # additive over nodes: a single wrong node costs the weight of its truth
    mx = 0
    for i in range(visible(g)):
        w = 0
        for s in g.allowed[i]:
            a = g.label_of[s] if hasattr(g, 'label_of') else s
            w = h.ite(y[i] == s, 1 if g.cw is None else g.cw[a], w)
        mx = mx + w
    top = m.label_from_latent(Y) if hasattr(g, 'label_of') else Y
    h.check('max-loss', h.eq(m.max_loss(top), mx))


def discrete_nt(h, inst, cw, given=None):
    g = build_nt(h, wfree=False, cw=cw, **inst)
    y, z = labels(h, g, 'y'), labels(h, g, 'z')
    if given is not None:
        y = varied(h, g, given)
    l, Y, Z = axioms(h, g, g.m, y, z)
    h.check('bounded', h.le(l, g.m.max_loss(Y)))


def marg(h, g):
    np = h.np
    mu = np.zeros((g.n, g.S))
    for i in range(g.n):
        tot = 0
        al = g.allowed[i]
        for s in al[:-1]:
            mu[i, s] = h.real('mu_%d_%d' % (i, s), 0, 1)
            tot = tot + mu[i, s]
        mu[i, al[-1]] = 1 - tot
        h.assume(h.le(0, mu[i, al[-1]]))
    return mu


def relaxed(h, given=None, **spec):
    g = build(h, wfree=False, **spec)
    m = g.m
    if given is not None:
        y = varied(h, g, given)
    else:
        y = h.np.array([h.pick(h.int('y_%d' % i, a[0], a[-1]))
                        for i, a in enumerate(g.allowed)], dtype='int64')
    pos(h, g)
    mu = marg(h, g)
    Y = g.mk(y.copy())
    um = mu.reshape(g.shape + (g.S,)) if g.shape else mu
    if g.kind in ('latnode', 'eflatnode'):
        pass
    cl = m.continuous_loss(Y, um.copy())
    ts = []
    for i in range(visible(g)):
        for s in g.allowed[i]:
            ts.append(mu[i, s] * wt(h, g, i, int(y[i]), s))
    want = h.sumr(ts)
    h.check('expected-loss', h.eq(cl, want))
    h.check('via-loss', h.eq(m.loss(Y, (um, None)), want))
    h.check('nonnegative', h.le(0, cl))
    h.observe('cl', cl)
    for z in few(g, 300, 20):
        oh = h.np.zeros((g.n, g.S))
        for i in range(g.n):
            oh[i, z[i]] = 1
        oh = oh.reshape(g.shape + (g.S,)) if g.shape else oh
        h.check('integral', h.eq(m.continuous_loss(Y, oh),
                                 m.loss(Y, g.mk(z))), note=str(z))


def wt(h, g, i, a, b):
    lab = getattr(g, 'label_of', None)
    if lab:
        a, b = lab[a], lab[b]
    if a == b:
        return 0
    c = flatcw(g)
    return 1 if c is None else c[a]


def relaxed_nt(h, inst, cw, given=None):
    g = build_nt(h, wfree=False, cw=cw, **inst)
    m = g.m
    if given is not None:
        y = varied(h, g, given)
    else:
        y = h.np.array([h.pick(h.int('y_%d' % i, a[0], a[-1]))
                        for i, a in enumerate(g.allowed)], dtype='int64')
    pos(h, g)
    mu = marg(h, g)
    off = [sum(g.nodes[:t]) for t in range(g.T + 1)]
    um = [mu[off[t]:off[t + 1], g.start[t]:g.start[t + 1]].copy()
          for t in range(g.T)]
    cl = m.continuous_loss(y, um)
    want = h.sumr([mu[i, s] * wt(h, g, i, int(y[i]), s)
                   for i in range(g.n) for s in g.allowed[i]])
    h.check('expected-loss', h.eq(cl, want))
    h.check('via-loss', h.eq(m.loss(y, (um, None)), want))
    h.observe('cl', cl)


def clf(h, kind, n, cw=None, rescale=False, N=2):
    import pystruct.models as M
    np = h.np
    g = type('G', (), {})()
    if kind == 'binary':
        m = M.BinaryClf(n_features=1)
        g.cw = None
        opts = [-1, 1]
    else:
        g.cw = [h.real('cw_%d' % i, 0, 8) for i in range(n)] if cw == 'sym' \
            else cw
        m = M.MultiClassClf(n_features=1, n_classes=n, class_weight=g.cw,
                            rescale_C=rescale)
        opts = list(range(n))
        pos(h, g)

    def vec(nm):
        a = np.zeros(N, dtype='int64')
        for i in range(N):
            v = h.int('%s_%d' % (nm, i), 0, len(opts) - 1)
            a[i] = 2 * v - 1 if kind == 'binary' else v
        return a
    Y, Z = vec('y'), vec('z')
    b = m.batch_loss(Y, Z)
    h.check('batch-length', h.cond(len(b) == N))
    for i in range(N):
        l = m.loss(Y[i], Z[i])
        h.check('batch', h.eq(b[i], l))
        h.check('nonnegative', h.le(0, l))
        h.check('zero-iff-same', h.or_(
            h.and_(Y[i] == Z[i], h.eq(l, 0)),
            h.and_(h.not_(Y[i] == Z[i]), h.lt(0, l))))
        h.check('bounded', h.le(l, m.max_loss(Y[i])))
        want = 0
        for a in opts:
            k = 1 if g.cw is None else g.cw[a]
            want = h.ite(h.and_(Y[i] == a, h.not_(Z[i] == a)), k, want)
        h.check('loss', h.eq(l, want))
    h.observe('b', b)


def configs(tier):
    C = []

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    big = tier != 'quick'
    E = [[0, 1]]
    ns = ((1, 2), (2, 3), (3, 2)) + (((4, 2), (3, 3), (2, 4)) if big else ())
    for fn in ('discrete', 'relaxed'):
        for n, S in ns:
            for cw in (None, 'sym', [3, 1, 2, 5][:S]):
                add(fn, kind='graph', n=n, S=S, cw=cw)
                add(fn, kind='chain', n=n, S=S, cw=cw)
            add(fn, kind='edgefeat', n=n, S=S, cw='sym')
        for r, c in ((1, 2), (2, 1), (2, 2)) + (((2, 3),) if big else ()):
            S = 3 if r * c <= 2 else 2
            add(fn, kind='grid', r=r, c=c, S=S)
            add(fn, kind='dirgrid', r=r, c=c, S=S, nb=8)
            if r * c <= 4:
                add(fn, kind='latgrid', r=r, c=c, L=2, spl=[2, 1])
                add(fn, kind='latdirgrid', r=r, c=c, L=2, spl=[1, 2])
        add(fn, kind='grid', r=2, c=1, S=2, cw='sym')
        add(fn, kind='grid', r=2, c=2, S=2, layout='F')
        add(fn, kind='dirgrid', r=2, c=2, S=2, layout='F')
        add(fn, kind='latgrid', r=2, c=2, L=2, spl=[2, 1], layout='F')
        for L in (1, 2, 3):
            add(fn, kind='multilabel', L=L, edges=[] if L == 1 else E)
        for spl, L in (([1, 2], 2), ([2, 1, 1], 3), (2, 2)):
            add(fn, kind='latgraph', n=2, L=L, spl=spl, edges=E)
        for n, nh in ((1, 1), (2, 1), (1, 2)):
            for cw in (None, 'sym'):
                add(fn, kind='latnode', n=n, nh=nh, L=2, Sh=2, cw=cw,
                    edges=[[0, 1]])
                add(fn, kind='eflatnode', n=n, nh=nh, L=2, Sh=2, cw=cw,
                    edges=[[0, 1]])
        for k in NT:
            if k in ('four',) and not big:
                continue
            for cw in ('sym', None):
                C.append(dict(name='types %s %s %s' % (fn, k, cw),
                              fn=fn + '_nt', inst=NT[k], cw=cw))
    for fn, most in (('discrete', 9), ('relaxed', 6)):
        for nm, s in wide(most=most):
            if s['kind'] in ('graph', 'chain', 'edgefeat'):
                s['cw'] = 'sym'
            C.append(dict(name=fn + ' ' + nm, fn=fn, **s))
    for k in NT_WIDE:
        for fn in ('discrete', 'relaxed'):
            C.append(dict(name='types %s %s' % (fn, k), fn=fn + '_nt',
                          inst=NT_WIDE[k], cw='sym'))
    for fn in ('discrete', 'relaxed'):
        for k, (nm, s) in enumerate(large() + large(LARGE_HIDDEN)):
            if s.get('nh', 0) > 100 and fn == 'discrete':
                continue
            cw = {} if s['kind'] in ('dirgrid', 'multilabel', 'latgraph',
                                     'latgrid', 'latdirgrid') else dict(
                cw='sym')
            C.append(dict(name='%s %s' % (fn, nm), fn=fn, given=k,
                          **dict(s, **cw)))
        for k in NT_LARGE:
            C.append(dict(name='types %s %s' % (fn, k), fn=fn + '_nt',
                          inst=NT_LARGE[k], cw='sym', given=5))
    for N in (1, 2, 3):
        add('clf', kind='binary', n=2, N=N)
        for n in (2, 3, 4):
            if N == 3 and not big:
                continue
            for cw in (None, 'sym'):
                for rs in (False, True):
                    add('clf', kind='multi', n=n, cw=cw, rescale=rs, N=N)
    for s in typed_specs([(None, 'uint8'), (None, 'int16'),
                          (None, 'uint32')]):
        add('discrete', **s)
    return C
