"""Perceptron training."""
from . import nsl, table

BOUNDS = ('up to 3 samples with 3 labels, 2 features, 4 passes; every real '
          'joint feature and loss (some zero), any answers of inference; '
          'decay exponents -1, 0, 1; with given features, answers and '
          'a free loss up to 9 samples, 7 labels, 13 passes, also decay '
          'exponents 0.5, -0.5, 2')
OUTSIDE = 'more samples, labels, passes, fractional exponents; rounding'


def train(h, N=2, K=2, d=1, iters=1, avg=False, batch=False, n_jobs=1,
          decay=0, t0=10, script=None, feat=None, twice=False, loss=None, coded=None,
          topval=None):
    import pystruct.learners as L
    from vf.harness import Stop
    np = h.np
    s = table.make(h, N, K, d, script=script, coded=coded,
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]),
                   lossconst=None if loss is None else
                   (lambda y, z: loss[z % len(loss)]))
    top = [h.real('max_loss%d' % i, 1, 64) for i in range(N)]
    s.m.max_loss = lambda y: top[s.Y.index(s.dec(y))]
    t0 = h.num(t0) if isinstance(t0, str) else t0
    decay = h.num(decay) if isinstance(decay, str) else decay
    clf = L.StructuredPerceptron(s.m, max_iter=iters, batch=batch,
                                 n_jobs=n_jobs, average=avg,
                                 decay_exponent=decay, decay_t0=t0)
    start = 0 if avg is True else avg
    ev = []
    orig = s.m.inference

    def inf(x, w, relaxed=None, **k):
        r = orig(x, w, relaxed)
        ev.append((x, s.dec(r), w.copy()))
        return r
    s.m.inference = inf
    for rnd in range(2 if twice else 1):
        del ev[:]
        out = clf.fit(s.X, s.YL)
        h.check('fit returns the learner', h.cond(out is clf))
        pos = 0
        w = np.zeros(d)
        seen = []
        curve = []
        for it in range(iters):
            lr = (it + t0) ** decay
            tot = []
            if start == -1:
                seen = []
            w0 = w
            for i in range(N):
                if pos >= len(ev):
                    h.check('steps: every sample is predicted', h.false())
                    raise Stop()
                x, y, wc = ev[pos]
                pos += 1
                h.check('order of the samples', h.cond(x == i))
                if x != i:
                    raise Stop()
                h.check('prediction with the current weights',
                        h.eq(wc, w0 if batch else w))
                l = s.loss(s.Y[i], y)
                tot.append(l)
                if h.fork(l > 0):
                    w = w + s.delta(i, y) * lr
                if avg is not False and it >= start and not batch:
                    seen.append(w)
            if avg is not False and it >= start and batch:
                seen.append(w)
            curve.append(h.sumr(tot) / h.sumr(top))
            if h.fork(h.eq(h.sumr(tot), 0)):
                break
        h.check('steps: stops without errors', h.cond(pos == len(ev)))
        if avg is not False:
            # the mean of the weights
            w = np.zeros(d)
            for v in seen:
                w = w + v / len(seen)
        h.check('weights', h.eq(clf.w, w))
        got = clf.loss_curve_
        h.check('curve', h.cond(len(got) == len(curve)))
        for p, q in zip(got, curve):
            h.check('relative loss', h.eq(p, q))
    h.observe('w', clf.w)
    h.observe('curve', clf.loss_curve_)


def long(h, v, N, K, iters, d=3, free=1, more=0, **k):
    p = nsl.plan(N, K, d, 2 * iters, v, free, more)
    del p['values']
    train(h, N=N, K=K, iters=iters, d=d, **dict(p, **k))


def reject(h, avg):
    import pystruct.learners as L
    s = table.make(h, 1, 2, 1)
    clf = L.StructuredPerceptron(s.m, average=avg)
    h.check('unsupported averaging is rejected', h.cond(h.raises(
        lambda: clf.fit(s.X, s.Y), NotImplementedError) is not None))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn='train', **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'budget')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F2 = [[1, 0], [0, 2], [-1, 1], [3, 1], [2, -1], [0, 1], [1, 1], [0, 0],
          [-2, 1]]
    add('reject', avg=-2)
    add('reject', avg=-5)
    for a in (False, True, 1, 2, -1):
        add(N=2, K=2, d=1, avg=a, iters=2)
        add(N=2, K=2, d=1, avg=a, iters=2, batch=True)
        add(N=1, K=3, d=2, avg=a, iters=3)
        add(N=2, K=3, d=2, avg=a, iters=3, feat=F2,
            script=[1, 2, 1, 1, 0, 2])
    add(N=3, K=2, d=1, iters=2, avg=True, script=[1, 0, 1, 1, 1, 0])
    add(N=3, K=2, d=1, iters=2, batch=True, n_jobs=2, avg=True,
        script=[1, 0, 1, 1, 1, 0])
    add(N=3, K=2, d=1, iters=2, batch=True, n_jobs=-1,
        script=[1, 0, 1, 1, 1, 0])
    for dec, t in ((1, 0), (1, 3), (-1, 1), (-1, 10)):
        add(N=2, K=2, d=1, iters=2, decay=dec, t0=t, avg=True)
        add(N=1, K=3, d=1, iters=3, decay=dec, t0=t)
    for a in (False, True, 1, -1):
        add(N=1, K=2, d=1, iters=2, avg=a, twice=True)
    add(N=1, K=2, d=1, iters=4, avg=1)
    add(N=1, K=2, d=1, iters=4, avg=-1)
    for N, K, it, k in (
            (5, 4, 6, dict(avg=True)),
            (4, 5, 8, dict(avg=5)),
            (3, 6, 7, dict(avg=-1)),
            (7, 3, 5, dict(avg=3, decay=1, t0=1)),
            (2, 7, 12, dict(avg=9)),
            (2, 5, 13, dict(decay=-1, t0='0.5')),
            (3, 4, 5, dict(decay='0.5', t0=1, avg=2)),
            (3, 4, 5, dict(decay='-0.5', t0='2.5', avg=True)),
            (3, 4, 5, dict(decay=2, t0=0)),
            (5, 4, 6, dict(avg=True, batch=True)),
            (7, 3, 5, dict(avg=2, batch=True, n_jobs=2)),
            (6, 3, 7, dict(avg=-1, batch=True, n_jobs=-1)),
            (9, 3, 4, dict(batch=True, decay=-1)),
            (3, 4, 5, dict(coded='array', avg=True)),
            (4, 4, 4, dict(coded='array', batch=True, avg=1)),
            (3, 4, 4, dict(coded='array', batch=True, n_jobs=2)),
            (4, 3, 4, dict(twice=True, avg=2)),
            (3, 4, 3, dict(twice=True, batch=True, avg=-1))):
        for v in (1, 2):
            C.append(dict(name='long N=%d K=%d iters=%d v=%s %s' % (
                N, K, it, v, sorted(k.items())), fn='long', N=N, K=K,
                iters=it, v=v, **k))
    return C
