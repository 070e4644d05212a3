"""Prediction and scoring use the learned weights, sample by sample, with any
number of jobs; so does training."""
from . import table
from .common import build, GRAPHS

BOUNDS = ('up to 4 samples, up to 130 with given answers (models given by free joint features, losses and '
          'answers; multi-class and binary models with up to 3 classes and 2 '
          'features, 12 and 5 with given samples; conditional random fields on '
          'up to 3 nodes), every real '
          'weight, feature, loss and class weight; 1, 2 or all jobs; loss '
          'recorded in every, every second or third of up to 4 iterations, and less often in up '
          'to 12')
OUTSIDE = ('more samples; worker processes and what joblib does with them '
           '(jobs run one after the other on copies); fitting a learner '
           'that has a loss curve already')

CLS = ('OneSlackSSVM', 'NSlackSSVM', 'SubgradientSSVM', 'FrankWolfeSSVM',
       'StructuredPerceptron', 'LatentSSVM', 'SubgradientLatentSSVM')


def learner(cls, model, n_jobs=1, **k):
    import pystruct.learners as L
    if cls == 'LatentSSVM':
        return L.LatentSSVM(L.OneSlackSSVM(model, n_jobs=n_jobs, **k))
    return getattr(L, cls)(model, n_jobs=n_jobs, **k)


def setw(c, w):
    if hasattr(c, 'base_ssvm'):
        c.base_ssvm.w = w
    else:
        c.w = w


def predict(h, cls, N, K=3, n_jobs=1, d=2, constraints=False, script=None,
            coded=None):
    s = table.make(h, N, K, d, script=script, coded=coded)
    seen = []
    orig = s.m.inference

    def inf(x, w, relaxed=None, constraints=None):
        h.check('only rounded labels', h.cond(not relaxed))
        seen.append((x, w.copy(), constraints))
        return orig(x, w)
    s.m.inference = inf
    s.m.label_from_latent = lambda y: y
    c = learner(cls, s.m, n_jobs)
    w = h.reals('w', d)
    w0 = w.copy()
    setw(c, w)
    cons = None
    if constraints:
        cons = [['c%d' % i] for i in range(N)]
        out = c.predict(s.X, constraints=cons)
    else:
        out = c.predict(s.X)
    h.check('one prediction per sample', h.cond(
        len(out) == N and [e[0] for e in seen] == s.X))
    h.check('what inference answers', h.cond(
        [s.dec(y) for y in out] == [e[2] for e in s.calls]))
    h.check('at the learned weights', h.and_(
        *[h.eq(e[1], w0) for e in seen]))
    h.check('constraints of its own sample', h.cond(
        [e[2] for e in seen] == (cons or [None] * N)))
    h.check('weights kept', h.eq(w, w0))
    h.observe('out', [s.dec(y) for y in out])


def score(h, cls, N, K=2, n_jobs=1, d=1, script=None, coded=None):
    s = table.make(h, N, K, d, script=script, coded=coded)
    top = [h.real('max_loss%d' % i, 0.5, 64) for i in range(N)]
    s.m.max_loss = lambda y: top[s.Y.index(s.dec(y))]
    s.m.label_from_latent = lambda y: y
    s.m.base_loss = s.loss
    c = learner(cls, s.m, n_jobs)
    w = h.reals('w', d)
    setw(c, w.copy())
    r = c.score(s.X, s.YL)
    h.check('one prediction per sample', h.cond(
        [e[1] for e in s.calls] == s.X))
    h.check('at the learned weights', h.and_(
        *[h.eq(e[3], w) for e in s.calls]))
    M = h.sumr(top)
    h.check('one minus the loss relative to the largest', h.eq(
        r * M, M - h.sumr([s.loss(y, e[2])
                           for y, e in zip(s.Y, s.calls)])))
    h.observe('score', r)


def flat(h, model, S, N, n_jobs, cls='OneSlackSSVM', cw=False, F=2,
         lists=False, given=None):
    """models that treat all samples at once"""
    import pystruct.models as M
    np = h.np
    if model == 'BinaryClf':
        m, labels = M.BinaryClf(F), [-1, 1]
        c = [1, 1]
    else:
        c = [h.real('c%d' % i, 0.5, 8) for i in range(S)] if cw else [1] * S
        m = M.MultiClassClf(F, S, class_weight=list(c) if cw else None)
        labels = list(range(S))
    if given:
        X = np.array([[(i * i * given + 3 * i * f + f) % 13 - 6.
                       for f in range(F)] for i in range(N)])
        w = np.array([(i * i + 5 * i + given) % 11 - 5. + i / 64
                      for i in range(m.size_joint_feature)])
        ys = [labels[(i * i + given + i // 3) % len(labels)]
              for i in range(N)]
    else:
        X = h.reals('x', (N, F))
        w = h.reals('w', m.size_joint_feature)
        ys = [labels[h.pick(h.int('y%d' % i, 0, len(labels) - 1))]
              for i in range(N)]
    l = learner(cls, m, n_jobs)
    setw(l, w.copy())
    out = l.predict(X)
    h.check('one prediction per sample', h.cond(len(out) == N))
    pred = []
    for i in range(N):
        p = labels[h.pick(out[i] if model != 'BinaryClf'
                          else h.ite(out[i] == 1, 1, 0))]
        h.check('a label', h.eq(out[i], p))
        pred.append(p)
        if model == 'BinaryClf':
            v = table.dot(h, w, X[i])
            h.check('sign of the score', h.le(0, v) if p == 1
                    else h.lt(v, 0))
        else:
            sc = [h.sumr([w[k * F + f] * X[i, f] for f in range(F)])
                  for k in labels]
            for k in labels:
                h.check('largest score', h.le(sc[k], sc[p]))
    Y = ys if lists else np.array(ys)
    r = l.score(X, Y)
    wt = lambda y: c[labels.index(y)]
    tot = h.sumr([wt(y) for y in ys])
    bad = h.sumr([wt(y) for y, p in zip(ys, pred) if y != p])
    h.check('score', h.eq(r * tot, tot - bad))
    h.observe('score', r)


def crf(h, kind, n_jobs, cls='NSlackSSVM', N=2, **spec):
    """the problems solved for prediction"""
    from vf.hooks import HOOKS
    np = h.np
    gs = [build(h, kind, tag='_%d' % i, wfree=False, **spec)
          for i in range(N)]
    m = gs[0].m
    w = h.reals('w', m.size_joint_feature)
    calls = []

    def ad3(U, E, PW, kw):
        calls.append((U, E, PW))
        n, S = U.shape
        mu = np.zeros((n, S))
        for i in range(n):
            mu[i, (i + len(calls)) % S] = 1
        return mu, np.zeros((len(E), S * S)), 0.5, 'integral'
    HOOKS.ad3 = ad3
    want = []
    for g in gs:
        want.append((m.inference(g.x, w), calls[-1]))
    n1 = len(calls)
    h.check('a problem per sample', h.cond(n1 == N))
    del calls[:]
    l = learner(cls, m, n_jobs)
    setw(l, w.copy())
    X = [g.x for g in gs]
    if kind == 'multilabel':
        X = np.array(X)
    out = l.predict(X)
    h.check('a problem per sample', h.cond(
        len(calls) == N and len(out) == N))
    for i in range(N):
        for a, b in zip(calls[i], want[i][1]):
            h.check('the same problem', h.eq(a, b))
        h.check('the same labels', h.eq(out[i], want[i][0]))


def recorder(h, np):
    from vf.hooks import HOOKS
    rec = []
    c = lambda v: v.copy() if hasattr(v, 'copy') else v

    def qp(P, q, G, hh, A, b):
        rec.append([c(v) for v in (P, q, G, hh, A, b)])
        k = len(q)
        v = [h.num('0.25') / k] * k
        return {'x': v, 'z': [0] * len(hh), 'y': [0], 'status': 'optimal',
                'primal objective': 0.25}
    HOOKS.qp = qp
    return rec


def jobs(h, cls, model='MultiClassClf', N=3, cw=False, rescale=False,
         n_jobs=2, iters=1, **kw):
    """training with several jobs is training with one"""
    import pystruct.models as M
    import pystruct.learners as L
    np = h.np
    X = h.reals('x', (N, 1))
    if model == 'BinaryClf':
        Y = np.array([1 - 2 * (i % 2) for i in range(N)])
        mk = lambda: M.BinaryClf(1)
    else:
        Y = np.array([i % 2 for i in range(N)])
        mk = lambda: M.MultiClassClf(
            1, 2, class_weight=[1, 3] if cw else None, rescale_C=rescale)
    out = []
    for j in (1, n_jobs):
        rec = recorder(h, np)
        m = mk()
        a = dict(kw, max_iter=iters, n_jobs=j)
        if cls != 'StructuredPerceptron':
            a['C'] = 1
        c = getattr(L, cls)(m, **a)
        c.fit(X, Y)
        out.append((c.w.copy(), list(rec), list(getattr(
            c, 'primal_objective_curve_', c.objective_curve_
            if hasattr(c, 'objective_curve_') else c.loss_curve_))))
    (w1, r1, o1), (w2, r2, o2) = out
    h.check('the same number of problems', h.cond(len(r1) == len(r2)))
    for a, b in zip(r1, r2):
        for x, y in zip(a, b):
            h.check('the same problem', h.eq(x, y))
    h.check('the same weights', h.eq(w1, w2))
    h.check('the same curve', h.and_(h.cond(len(o1) == len(o2)),
                                     *[h.eq(x, y) for x, y in zip(o1, o2)]))
    h.observe('w', w2)


def curve(h, cls, every, iters, N=2, script=None, exact=False, **kw):
    """loss recorded while training"""
    import pystruct.learners as L
    from vf.hooks import HOOKS
    np = h.np
    d, K = 1, 2
    ans = {}
    s = table.make(h, N, K, d, script=script,
                   jfconst=lambda x, y, yt=None: [[3, 1, 2, 5][y % 4]])
    top = [h.real('max_loss%d' % i, 0.5, 64) for i in range(N)]
    s.m.max_loss = lambda y: top[s.Y.index(y)]
    recorder(h, np)
    HOOKS.perm = lambda n: list(range(n))
    st = {'it': None}
    seen = []        # weights and predictions of a scoring
    ws = []          # weights as logged

    def inf(x, w, relaxed=None, constraints=None):
        y = x * K + (len(seen) + x) % K
        seen.append((x, w.copy(), y, len(ws)))
        return y
    s.m.inference = inf

    def lai(x, y, w, relaxed=None):
        # always the wrong label
        return [k for k in range(x * K, x * K + K) if k != y][0]
    s.m.loss_augmented_inference = lai
    loss0 = s.loss

    def log(c, it='final'):
        ws.append((it, c.w.copy()))
    a = dict(kw, max_iter=iters, show_loss_every=every, logger=log, C=1)
    c = getattr(L, cls)(s.m, **a)
    c.fit(s.X, s.Y)
    n = len([1 for it, w in ws if it != 'final'])
    want = [i for i in range(n) if every and i % every == 0]
    if not every:
        h.check('no loss asked for', h.cond(not seen))
        h.check('no curve', h.cond(not hasattr(c, 'loss_curve_')))
        return
    got = list(c.loss_curve_)
    # an iteration that only finds out that training is over may count too
    h.check('a loss per iteration asked for', h.cond(
        len(got) == len(want) or
        (n < iters and n % every == 0 and len(got) == len(want) + 1)))
    h.check('all samples are predicted', h.cond(
        [e[0] for e in seen] == s.X * len(got)))
    M = h.sumr(top)
    for j, v in enumerate(got):
        grp = seen[j * N:(j + 1) * N]
        it = want[j] if j < len(want) else n
        h.check('while the iteration runs', h.cond(
            all(e[3] == it for e in grp)))
        lo = ws[it - 1][1] if it else np.zeros(d)
        hi = ws[it][1]
        for e in grp:
            if cls == 'OneSlackSSVM':
                # before the quadratic program of the iteration
                h.check('weights of the iteration', h.or_(
                    h.eq(e[1], lo), h.eq(e[1], hi)))
            else:
                h.check('weights of the iteration', h.eq(e[1], hi))
        h.check('loss relative to the largest', h.eq(
            v * M, h.sumr([s.loss(s.Y[e[0]], e[2]) for e in grp])))
    h.observe('curve', got)


def configs(tier):
    C = []

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(k, name=fn + ' ' + nm, fn=fn))
    for cls in CLS:
        for j in (1, 2, -1):
            add('predict', cls=cls, N=2, n_jobs=j)
            add('score', cls=cls, N=2, n_jobs=j, K=2)
        if 'Latent' not in cls:
            add('predict', cls=cls, N=3, K=2, n_jobs=1, constraints=True)
            add('predict', cls=cls, N=3, K=2, n_jobs=2, constraints=True)
        add('score', cls=cls, N=3, n_jobs=1, K=2)
    for cls in ('OneSlackSSVM', 'SubgradientSSVM', 'FrankWolfeSSVM'):
        for j in (1, 2):
            add('flat', model='BinaryClf', S=2, N=2, n_jobs=j, cls=cls)
            for l in (False, True):
                add('flat', model='MultiClassClf', S=2, N=2, n_jobs=j,
                    cls=cls, lists=l, cw=True, F=1)
    add('flat', model='MultiClassClf', S=3, N=1, n_jobs=1)
    add('flat', model='MultiClassClf', S=3, N=2, n_jobs=1, F=1)
    add('flat', model='MultiClassClf', S=3, N=2, n_jobs=2, F=1)
    for j in (1, 2):
        n, E = GRAPHS['path3-mixed']
        add('crf', kind='graph', n_jobs=j, S=2, F=1, n=n, edges=E)
        add('crf', kind='chain', n_jobs=j, S=2, F=2, n=2)
        add('crf', kind='grid', n_jobs=j, S=2, F=1, r=1, c=2)
        add('crf', kind='edgefeat', n_jobs=j, S=2, F=1, Fe=1, n=2,
            edges=[[1, 0]])
        add('crf', kind='multilabel', n_jobs=j, L=2, F=2, edges=[[0, 1]])
    for N, K, j in ((5, 4, 2), (9, 4, 4), (12, 3, 1), (12, 3, 5), (65, 2, 3),
                    (130, 3, 2)):
        sc = [(i * i + i // 3) % K for i in range(N)]
        for cls in CLS if N < 60 else CLS[1:2]:
            coded = None if K != 4 or 'Latent' in cls else 'array'
            C.append(dict(name='predict many %s %d %d' % (cls, N, j),
                          fn='predict', cls=cls, N=N, K=K, n_jobs=j,
                          script=sc, coded=coded, constraints=bool(
                              'Latent' not in cls and N % 2)))
            C.append(dict(name='score many %s %d %d' % (cls, N, j),
                          fn='score', cls=cls, N=N, K=K, n_jobs=j,
                          script=sc, coded=coded))
    for N, S, F, j, g in ((11, 3, 2, 1, 1), (11, 7, 3, 2, 3), (23, 12, 2, 1, 2),
                          (7, 4, 5, 3, 4), (130, 3, 1, 1, 5)):
        add('flat', model='MultiClassClf', S=S, N=N, F=F, n_jobs=j, given=g,
            cw=True, lists=bool(g % 2))
        add('flat', model='BinaryClf', S=2, N=N, F=F, n_jobs=j, given=g)
    for every, k in ((5, 12), (4, 9), (7, 8)):
        add('curve', cls='SubgradientSSVM', every=every, iters=k, N=3,
            learning_rate=1)
        add('curve', cls='FrankWolfeSSVM', every=every, iters=k, N=3,
            line_search=False, tol=-1000)
        add('curve', cls='FrankWolfeSSVM', every=every, iters=k, N=3,
            line_search=False, batch_mode=True)
    for j in (2, -1):
        add('jobs', cls='OneSlackSSVM', n_jobs=j)
        add('jobs', cls='NSlackSSVM', n_jobs=j)
        add('jobs', cls='StructuredPerceptron', n_jobs=j, batch=True)
    add('jobs', cls='OneSlackSSVM', cw=True)
    add('jobs', cls='OneSlackSSVM', rescale=True, cw=True)
    add('jobs', cls='OneSlackSSVM', iters=2, N=2)
    add('jobs', cls='OneSlackSSVM', model='BinaryClf')
    add('jobs', cls='NSlackSSVM', cw=True, batch_size=2)
    add('jobs', cls='NSlackSSVM', rescale=True, cw=True, N=2)
    add('jobs', cls='NSlackSSVM', model='BinaryClf', batch_size=-1)
    add('jobs', cls='StructuredPerceptron', model='BinaryClf', batch=True)
    for every in (0, 1, 2, 3):
        k = 4 if every > 1 else 3
        add('curve', cls='SubgradientSSVM', every=every, iters=k,
            learning_rate=1)
        add('curve', cls='SubgradientSSVM', every=every, iters=k,
            learning_rate=1, averaging='linear')
        add('curve', cls='FrankWolfeSSVM', every=every, iters=k,
            line_search=False)
        add('curve', cls='FrankWolfeSSVM', every=every, iters=k,
            line_search=False, batch_mode=True)
        add('curve', cls='OneSlackSSVM', every=every, iters=k,
            check_constraints=False, tol=-10)
        add('curve', cls='NSlackSSVM', every=every, iters=k,
            check_constraints=False)
    return C
