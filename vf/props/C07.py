"""The most violated constraint, its slack, and the primal objective."""
from . import table
from .common import build, dot
from .mapc import exact_solver

BOUNDS = ('any model with up to 4 labels per sample, 2 features, 3 samples '
          '(joint features, losses and inference answers are free; up to 7 '
          'labels, 11 features, 7 samples with given answers); the '
          'built-in models with up to 3 nodes and 3 classes; every real '
          'weight vector and C')
OUTSIDE = 'more labels, features or samples; rounding'


def one(h, K=3, d=2, rescale=False, exact=False, given=False, diff=True,
        i=0, truth=0, coded=None):
    from pystruct.utils import find_constraint
    s = table.make(h, i + 1, K, d, rescale=rescale, exact=exact, coded=coded)
    s.Y[i] = i * K + truth
    s.YL[i] = s.enc(s.Y[i], True)
    s.m.initialize(s.X, s.YL)
    w = h.reals('w', d)
    w0 = w.copy()
    kw = {}
    if given:
        y = i * K + h.pick(h.int('y_hat', 0, K - 1))
        kw['y_hat'] = s.enc(y)
    if not diff:
        kw['compute_difference'] = False
    y_hat, D, slack, loss = find_constraint(s.m, i, s.YL[i], w, **kw)
    if given:
        h.check('no inference', h.cond(not s.calls))
    else:
        h.check('one inference', h.cond(
            len(s.calls) == 1 and s.calls[0][:2] == ('lai', i)))
        y = s.calls[0][2]
        h.check('at w', h.eq(s.calls[0][3], w0))
    h.check('the labeling', h.cond(s.dec(y_hat) == y))
    h.check('weights kept', h.eq(w, w0))
    want = s.delta(i, y)
    if diff:
        h.check('difference', h.eq(D, want))
        h.check('slack', h.eq(slack, table.pos(h, s.violation(i, y, w))))
    else:
        yt = s.Y[i] if rescale else None
        h.check('difference', h.eq(D, -s.jfv(i, y, yt)))
    h.check('loss', h.eq(loss, s.loss(s.Y[i], y)))
    if exact and diff:
        for o in range(K):
            h.check('most violated', h.le(s.violation(i, i * K + o, w),
                                          slack))
    h.observe('c', [D, slack, loss])


def latent(h, K=3, d=2, exact=False, coded=None):
    from pystruct.utils import find_constraint_latent
    # labels 0 and 1; the truth is completed by a hidden state
    labels = [0] * (K - 1) + [1]
    s = table.make(h, 1, K, d, exact=exact, labels=labels, coded=coded)
    s.m.initialize(s.X, s.YL)
    w = h.reals('w', d)

    def complete(x, y, w):
        return h.pick(h.int('completion', 0, K - 2))
    s.m.latent = lambda *a: s.enc(complete(*a), True)
    y_hat, D, slack, loss = find_constraint_latent(s.m, 0, 'label', w)
    c = complete(0, 'label', w)
    y = s.calls[0][2]
    h.check('the labeling', h.cond(
        s.dec(y_hat) == y and len(s.calls) == 1))
    h.check('difference', h.eq(D, s.jfv(0, c) - s.jfv(0, y)))
    h.check('loss', h.eq(loss, s.loss(c, y)))
    v = s.loss(c, y) - dot(h, w, s.jfv(0, c) - s.jfv(0, y))
    h.check('slack', h.eq(slack, table.pos(h, v)))


def objective(h, N=2, K=2, d=2, rescale=False, exact=False, n_jobs=1,
              variant='n_slack', script=None, coded=None, fixed=False):
    from pystruct.utils import objective_primal
    s = table.make(h, N, K, d, rescale=rescale, exact=exact, coded=coded,
                   script=script)
    s.m.initialize(s.X, s.YL)
    w = h.np.array([(-2.) ** i for i in range(d)]) if fixed else \
        h.reals('w', d)
    C = h.np.float64(3) if fixed else h.real('C', 0, 64)
    kw = {} if variant is None else {'variant': variant}
    o = objective_primal(s.m, w, s.X, s.YL, C, n_jobs=n_jobs, **kw)
    if exact:
        # the same for every maximiser
        parts = [h.maxr([s.violation(i, i * K + k, w) for k in range(K)])
                 for i in range(N)]
    else:
        h.check('one inference per sample', h.cond(
            sorted(c[1] for c in s.calls) == s.X))
        parts = [table.pos(h, s.violation(c[1], c[2], w)) for c in s.calls]
    h.check('objective', h.eq(
        o, h.sumr(parts) * C + table.sq(h, w) / 2))
    h.observe('o', o)


def base(h, learner, N=2, K=2, d=1, n_jobs=1, coded=None, script=None,
         fixed=False):
    """the curves of the learners use that objective"""
    import pystruct.learners as L
    s = table.make(h, N, K, d, coded=coded, script=script)
    s.m.initialize(s.X, s.YL)
    C = h.np.float64(3) if fixed else h.real('C', 0, 64)
    clf = getattr(L, learner)(s.m, C=C, n_jobs=n_jobs)
    clf.w = h.np.array([(-2.) ** i for i in range(d)]) if fixed else \
        h.reals('w', d)
    o = clf._objective(s.X, s.YL)
    parts = [table.pos(h, s.violation(c[1], c[2], clf.w)) for c in s.calls]
    h.check('objective', h.eq(
        o, h.sumr(parts) * C + table.sq(h, clf.w) / 2))


def real(h, relaxed=True, **spec):
    """the built-in models: no labeling violates more"""
    from pystruct.utils import find_constraint
    if spec['kind'] in ('multi', 'binary'):
        import pystruct.models as M
        if spec['kind'] == 'multi':
            n = spec['n']
            cw = spec.get('cw')
            rc = spec.get('rescale', False)
            m = M.MultiClassClf(n_features=spec['F'], n_classes=n,
                                class_weight=cw, rescale_C=rc)
            labs = list(range(n))
        else:
            rc = False
            m = M.BinaryClf(n_features=spec['F'])
            labs = [-1, 1]
        x, w = h.reals('x', spec['F']), h.reals('w', m.size_joint_feature)
        y = labs[h.pick(h.int('y', 0, len(labs) - 1))]

        def jf(o):
            return m.joint_feature(x, o, y) if rc else m.joint_feature(x, o)
        mk = lambda o: o
    else:
        g = build(h, xval='eye', **spec)
        m, x, w = g.m, g.x, g.w
        if spec.get('method', 'ad3') == 'ad3':
            exact_solver(h, [])
        import itertools
        labs = list(itertools.product(*g.allowed))
        y = g.mk([h.pick(h.int('y_%d' % i, a[0], a[-1]))
                  for i, a in enumerate(g.allowed)])
        mk = g.mk

        def jf(o):
            return m.joint_feature(x, o)
    y_hat, D, slack, loss = find_constraint(m, x, y, w, relaxed=relaxed)
    h.check('loss', h.eq(loss, m.loss(y, y_hat)))
    h.check('difference', h.eq(D, jf(y) - jf(y_hat)))
    h.check('slack', h.eq(slack, table.pos(
        h, m.loss(y, y_hat) - dot(h, w, jf(y) - jf(y_hat)))))
    for o in labs:
        o = mk(o)
        h.check('most violated', h.le(
            m.loss(y, o) - dot(h, w, jf(y) - jf(o)), slack), note=str(o))


def fractional(h, **spec):
    """relaxed answers: their own loss and features"""
    from pystruct.utils import find_constraint
    from vf.hooks import HOOKS
    g = build(h, **spec)
    y = g.mk([h.pick(h.int('y_%d' % i, a[0], a[-1]))
              for i, a in enumerate(g.allowed)])
    mu = h.reals('mu', (g.n, g.S), 0, 1)

    def ad3(U, E, PW, *a):
        pm = h.reals('pm', (len(E), g.S * g.S), 0, 1)
        return mu, pm, np_val, 'fractional'
    np_val = h.real('val')
    HOOKS.ad3 = ad3
    y_hat, D, slack, loss = find_constraint(g.m, g.x, y, g.w, relaxed=True)
    h.check('relaxed', h.cond(isinstance(y_hat, tuple)))
    if not isinstance(y_hat, tuple):
        return
    want = h.sumr([(1 if g.cw is None else g.cw[int(v)]) *
                   (1 - mu[i, int(v)]) for i, v in enumerate(y.ravel())])
    h.check('loss', h.eq(loss, want))
    D2 = g.m.joint_feature(g.x, y) - g.m.joint_feature(g.x, y_hat)
    h.check('difference', h.eq(D, D2))
    h.check('slack', h.eq(slack, table.pos(h, want - dot(h, g.w, D2))))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    for rescale in (False, True):
        for exact in (False, True):
            add('one', K=3 if not big else 4, d=2, rescale=rescale,
                exact=exact)
        add('one', K=2, d=1, i=1, truth=1, rescale=rescale, exact=True)
        add('one', given=True, rescale=rescale)
        add('one', diff=False, rescale=rescale)
        add('one', given=True, diff=False, rescale=rescale)
        add('objective', rescale=rescale)
    add('latent')
    add('latent', exact=True)
    for v in (None, 'n_slack', 'one_slack'):
        add('objective', variant=v)
    add('objective', variant='one_slack', exact=True, d=1)
    add('objective', exact=True, d=1)
    add('objective', n_jobs=2, d=1)
    add('objective', n_jobs=-1, N=3, d=1)
    for l in ('NSlackSSVM', 'OneSlackSSVM', 'FrankWolfeSSVM',
              'SubgradientSSVM'):
        add('base', learner=l)
    for coded in ('array', 'relaxed', 'typed', 'mixed', 'mixed-typed'):
        for d in (1, 4):
            add('one', K=4, d=d, coded=coded)
            add('one', K=4, d=d, coded=coded, given=True)
            add('one', K=3, d=d, coded=coded, i=2, truth=1, rescale=True)
            add('one', K=3, d=d, coded=coded, i=1, diff=False)
        add('objective', N=3, K=4, coded=coded, script=[1, 3, 2])
        add('objective', N=3, K=4, coded=coded, script=[1, 0, 2],
            n_jobs=2, variant='one_slack')
    add('latent', K=4, d=4, coded='array')
    add('latent', K=5, d=1)
    add('one', K=7, d=5, exact=True)
    add('one', K=2, d=11)
    for N in (5, 7):
        for v in ('n_slack', 'one_slack'):
            add('objective', N=N, K=3, d=3, variant=v, fixed=True,
                script=[1, 0, 2, 2, 1, 1, 0])
            add('objective', N=N, K=3, d=3, variant=v, fixed=True, n_jobs=3,
                script=[1, 0, 2, 2, 1, 1, 0], rescale=True)
    for l in ('NSlackSSVM', 'OneSlackSSVM', 'SubgradientSSVM'):
        add('base', learner=l, N=5, K=3, d=3, n_jobs=2, fixed=True,
            script=[1, 0, 2, 2, 1])
        add('base', learner=l, N=3, K=4, d=2, coded='array',
            script=[1, 0, 2])
    for n in (2, 3):
        add('real', kind='multi', n=n, F=1)
        add('real', kind='multi', n=n, F=2, cw=[1., 2., 3.][:n])
        add('real', kind='multi', n=n, F=1, cw=[2., 1., 4.][:n],
            rescale=True)
    add('real', kind='binary', F=2)
    gs = [dict(kind='graph', n=2, S=2, F=2, edges=[[1, 0]], directed=True,
               cw=[1., 2.]),
          dict(kind='graph', n=2, S=3, F=2, edges=[[0, 1]]),
          dict(kind='graph', n=3, S=2, F=3, edges=[[0, 1], [2, 1]]),
          dict(kind='chain', n=3, S=2, F=3),
          dict(kind='edgefeat', n=2, S=2, F=2, Fe=1, edges=[[1, 0]]),
          dict(kind='grid', r=1, c=2, S=2, F=2)]
    for g in gs:
        add('real', **g)
    add('real', method='max-product', **gs[0])
    add('real', method='max-product', **gs[2])
    add('real', method='max-product', **gs[3])
    add('real', method='unary', kind='graph', n=2, S=2, F=2, edges=[])
    for g in gs[:3] + gs[4:]:
        add('fractional', **dict(g, F=1))
    return C
