"""Caching of inference results in one-slack training."""
from . import nsl, osl

BOUNDS = ('up to 2 samples with 4 labels, 1 feature, 4 steps, caches of 1 to '
          '3 results; every real loss and C, every answer of the QP solver '
          '(any feasible point), constant features (and free ones with 2 '
          'steps); with given features, answers and multipliers up to 4 '
          'samples, 9 labels, 10 steps, caches of up to 50')
OUTSIDE = ('more samples, labels, steps; ties between cached results; warm '
           'starts; rounding')


def train(h, **k):
    s = osl.run(h, **k)
    osl.Ref(h, s, **k).follow()


def long(h, v, N, K, iters, d=3, more=2, **k):
    train(h, N=N, K=K, iters=iters, d=d,
          **dict(nsl.plan(N, K, d, iters, v, 1, more), **k))


def equal(h, kind, n=2, S=2, E=1):
    """when two results are the same"""
    from pystruct.learners import OneSlackSSVM
    np = h.np
    eq = OneSlackSSVM.constraint_equal

    def make(t):
        if kind == 'int':
            return np.array([h.pick(h.int('%s%d' % (t, i), 0, S - 1))
                             for i in range(n)])
        if kind == 'relaxed':
            return (h.reals(t + 'u', (n, S)), h.reals(t + 'p', (E, S, S)))
        if kind == 'typed':
            return ([h.reals(t + 'u0', (n, S)), h.reals(t + 'u1', (1, 3))],
                    [h.reals(t + 'p0', (E, S * S)), h.reals(t + 'p1', (0, 6)),
                     h.reals(t + 'p2', (1, 9))])

    def flat(a):
        if isinstance(a, (list, tuple)):
            return [x for e in a for x in flat(e)]
        return list(a.ravel())
    a, b = make('a'), make('b')
    same = h.and_(*[h.eq(x, y) for x, y in zip(flat(a), flat(b))])
    got = eq(a, b)
    h.check('equal', h.eq(h.ite(h.cond(got), 1, 0), h.ite(same, 1, 0)))
    h.check('itself', h.cond(eq(a, a)))
    if kind != 'int':
        c = np.zeros(n, dtype='int64')
        h.check('relaxed and integral differ',
                h.not_(h.cond(np.all(eq(a, c)))))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn='train', **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k
                      if a not in ('budget', 'qpcheck'))
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F1 = [[1], [-2], [3], [2], [-1], [4], [-3], [0]]
    F2 = [[0], [8], [-12], [0], [-4], [8]]
    for kind in ('int', 'relaxed', 'typed'):
        add('equal', kind=kind)
    # two answers, then the cache
    add(N=1, K=3, d=1, iters=2, script=[1, 2], cache=1)
    add(N=1, K=3, d=1, iters=3, script=[1, 2, 1], cache=1, feat=F1)
    add(N=1, K=3, d=1, iters=3, script=[1, 2, 1], cache=2, feat=F1)
    add(N=1, K=4, d=1, iters=4, script=[1, 2, 3, 1], cache=2, feat=F1,
        cval=1, loss=[0, 3, 1, 2])
    add(N=1, K=4, d=1, iters=4, script=[1, 2, 3, 1], cache=3, feat=F1,
        cval=1, loss=[0, 1, 3, 2])
    add(N=2, K=3, d=1, iters=3, script=[1, 1, 2, 1, 1, 2], cache=2, feat=F1)
    add(N=2, K=3, d=1, iters=3, script=[1, 1, 1, 2, 2, 2], cache=1, feat=F1)
    add(N=1, K=3, d=1, iters=3, script=[1, 2, 1], cache=2, feat=F1,
        cache_tol=None)
    add(N=1, K=3, d=1, iters=3, script=[1, 2, 1], cache=2, feat=F1,
        cache_tol='0.5')
    add(N=1, K=3, d=1, iters=2, script=[1, 2, 1], cache=1, rescale=True)
    add(N=1, K=3, d=1, iters=3, script=[1, 2, 1], cache=1, rescale=True,
        cval=2, feat=F1)
    add(N=1, K=3, d=1, iters=3, script=[1, 2, 1, 2], cache=2, feat=F1,
        switch='second')
    # combinations of cached results that are new
    add(N=2, K=3, d=1, iters=3, script=[1, 1, 2, 2, 1, 2], cache=2, feat=F2,
        cval=1, loss=[0, 3, 1])
    add(N=2, K=3, d=1, iters=3, script=[1, 1, 2, 2, 1, 2], cache=2, feat=F2,
        cval=1, cache_tol='0.25')
    add(N=2, K=3, d=1, iters=4, script=[1, 1, 2, 2, 1, 2], cache=2, feat=F2,
        cval=1, loss=[0, 3, 1], budget=100)
    # longer runs: given features, answers and multipliers
    for N, K, it, cache, k in ((1, 9, 9, 2, {}), (1, 9, 9, 5, {}),
                               (2, 6, 8, 3, {}), (2, 7, 10, 6, {}),
                               (3, 5, 8, 4, {}), (4, 4, 6, 2, {}),
                               (2, 6, 8, 3, dict(cache_tol=None)),
                               (2, 6, 8, 3, dict(cache_tol='0.25')),
                               (3, 5, 9, 50, dict(tol='-3')),
                               (3, 6, 9, 3, dict(tol='sym')),
                               (2, 4, 7, 2, dict(coded='array')),
                               (2, 4, 7, 3, dict(coded='relaxed')),
                               (2, 4, 7, 2, dict(coded='relaxed', n_jobs=2)),
                               (2, 4, 7, 2, dict(coded='typed')),
                               (2, 4, 6, 3, dict(coded='mixed')),
                               (2, 4, 7, 2, dict(coded='mixed-typed',
                                                 n_jobs=2)),
                               (2, 6, 9, 4, dict(window=2, thr='0.1'))):
        for v in (1, 3):
            for cval in (1, 4):
                C.append(dict(
                    name='long N=%d K=%d iters=%d cache=%d v=%d cval=%d %s' % (
                        N, K, it, cache, v, cval, sorted(k.items())),
                    fn='long', N=N, K=K, iters=it, cache=cache, v=v,
                    cval=cval, **k))
    return C
