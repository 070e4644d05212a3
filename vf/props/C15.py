"""n-slack training solves the dual of the regularised working set problem."""
from . import nsl

BOUNDS = ('up to 3 samples with 3 labels, 2 features, 3 passes; every real '
          'joint feature, loss and C, every answer of the solver (any '
          'feasible point) and of inference; with given features, answers '
          'and multipliers and two free losses up to 11 samples, 10 labels, '
          '12 passes; labels that are numbers, arrays or marginals')
OUTSIDE = 'more samples, labels, passes; rounding; the QP solver itself'


def train(h, **k):
    s = nsl.run(h, **k)
    nsl.follow(h, s, **dict(dict(N=2, K=2, d=1, iters=1), **k))


def failing(h, statuses, **k):
    """an answer that is not optimal is not used: the problem is solved once
    more, and if that fails too there is an error"""
    box = []

    def fit():
        nsl.run(h, statuses=statuses, log=box, **k)
    e = h.raises(fit, ValueError)
    got = [x[4] or 'optimal' for x in box if x[0] == 'qp']
    bad = any(a != 'optimal' and b != 'optimal'
              for a, b in zip(got, got[1:]))
    h.check('an error exactly if the solver failed', h.cond(
        (e is not None) == bad), note=str(got))
    alone = [i for i, a in enumerate(got) if a != 'optimal' and
             i + 1 == len(got) and not (i and got[i - 1] != 'optimal')]
    h.check('solved once more', h.cond(not alone), note=str(got))


def long(h, v, N, K, iters, **k):
    train(h, d=3, N=N, K=K, iters=iters,
          **dict(nsl.plan(N, K, 3, iters, v), **k))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(**k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name='train ' + nm, fn='train', **k))
    F2 = [[1, 0], [0, 2], [-1, 1], [3, 1], [2, -1], [0, 1]]
    F1 = [[1], [-2], [3], [2], [-1], [4]]
    add(N=1, K=2, d=2)
    add(N=2, K=2, d=1)
    add(N=1, K=3, d=1, iters=2)
    add(N=2, K=2, d=2, feat=F2, iters=2, window=0)
    add(N=2, K=2, d=1, batch=1)
    add(N=2, K=2, d=1, batch=-1, n_jobs=2)
    add(N=1, K=2, d=2, neg=[1], script=[1])
    add(N=2, K=2, d=2, neg=[1], feat=F2)
    add(N=1, K=3, d=2, iters=2, neg=[0, 1], script=[1, 2])
    add(N=2, K=3, d=1, given=[[1, 2], [5]], script=[1, 2, 2], feat=F1)
    add(N=1, K=3, d=1, given=[[2]], script=[1])
    add(N=2, K=3, d=2, given=[[2], []], script=[2, 1, 1], feat=F2)
    add(N=2, K=2, d=1, given=[[], []])
    add(N=2, K=3, d=2, iters=2, script=[1, 2, 2, 1], feat=F2)
    add(N=2, K=3, d=1, iters=2, script=[1, 1, 2, 2], batch=1, feat=F1,
        window=0)
    add(N=3, K=2, d=1, script=[1, 1, 1], batch=2)
    add(N=3, K=2, d=1, script=[1, 1, 1], batch=1, feat=F1)
    add(N=2, K=3, d=1, iters=2, script=[1, 0, 2, 0], batch=1, feat=F1)
    add(N=2, K=3, d=1, iters=2, script=[1, 0, 0, 2], batch=1, feat=F1)
    add(N=3, K=2, d=1, iters=2, script=[0, 1, 0, 1, 0, 0], batch=1, feat=F1)
    add(N=2, K=2, d=1, rescale=True, script=[1, 1])
    add(N=1, K=2, d=1, check=False)
    add(N=1, K=3, d=2, check=False, iters=3, script=[1, 2, 1], feat=F2)
    add(N=1, K=3, d=2, iters=3, script=[2, 1, 1], feat=F2)
    add(N=1, K=2, d=1, iters=2, exact=True)
    add(N=2, K=2, d=1, script=[1, 1], statuses=['unknown', 'optimal'])
    for k, st in enumerate((['unknown', 'unknown'],
                            ['optimal', 'unknown', 'unknown'],
                            ['unknown', 'optimal', 'unknown', 'primal'])):
        C.append(dict(name='failing %s' % st, fn='failing', N=2, K=3, d=2,
                      iters=3, script=[1, 2, 2, 1, 1, 2], feat=F2,
                      statuses=st))
    # longer runs: given features and multipliers
    for v in (1, 2):
        for N, K, it, b, tol in ((1, 5, 7, 100, '1e-3'), (3, 4, 6, 2, '-9'),
                                 (5, 3, 4, 2, '-9'), (7, 3, 3, 3, '-9'),
                                 (2, 6, 8, 1, '-9'), (4, 4, 5, -1, '1e-3'),
                                 (11, 3, 3, 4, '-9'), (2, 9, 12, 2, '-9')):
            for cval in (1, 30):
                C.append(dict(
                    name='long N=%d K=%d iters=%d batch=%d v=%d cval=%d' % (
                        N, K, it, b, v, cval), fn='long', N=N, K=K, iters=it,
                    batch=b, tol=tol, v=v, cval=cval))
    for N, K, it, b, tol, v, k in (
            (1, 10, 11, 1, '-9', 1, dict(check=False)),
            (2, 9, 10, 1, '-9', 3, dict(check=False)),
            (1, 6, 7, 1, 'sym', 1, {}), (2, 5, 8, 100, 'sym', 2, {}),
            (3, 4, 6, 2, 'sym', 1, dict(check=False)),
            (1, 9, 10, 1, 'sym', 1, dict(check=False)),
            (2, 9, 10, 100, 'sym', 1, dict(check=False)),
            (2, 9, 10, 100, 'sym', 3, dict(check=False)),
            (1, 5, 7, 1, '0.5', 1, {}), (2, 5, 7, 100, '0.5', 2, {}),
            (2, 4, 6, 100, '0.25', 3, dict(check=False)),
            (3, 4, 6, 100, '1', 1, dict(check=False, n_jobs=2)),
            (3, 4, 6, 2, '1e-3', 1, dict(check=False, coded='array')),
            (2, 4, 5, 1, '1e-3', 2, dict(coded='relaxed', n_jobs=2))):
        C.append(dict(
            name='long N=%d K=%d iters=%d batch=%d v=%d tol=%s %s' % (
                N, K, it, b, v, tol, sorted(k.items())), fn='long', N=N, K=K,
            iters=it, batch=b, tol=tol, v=v, cval=1, **k))
    for coded in ('array', 'relaxed', 'typed', 'mixed', 'mixed-typed'):
        add(N=2, K=2, d=1, coded=coded)
        add(N=1, K=4, d=1, iters=2, coded=coded, feat=F1)
        add(N=1, K=3, d=2, iters=3, script=[1, 2, 1], feat=F2, coded=coded)
        if coded in ('array', 'relaxed'):
            add(N=2, K=4, d=1, iters=2, coded=coded, script=[1, 2, 3, 1],
                batch=1, feat=F1 + F1, loss=[0, 3, None, 2])
        add(N=1, K=4, d=1, given=[[1, 2]], script=[3], coded=coded, feat=F1)
    if big:
        add(N=2, K=2, d=2)
        add(N=2, K=2, d=2, neg=[1])
        add(N=2, K=3, d=2, iters=2, feat=F2)
        add(N=2, K=2, d=1, iters=2)
        add(N=2, K=3, d=2, iters=3, script=[1, 2, 2, 1, 2, 2], feat=F2)
        add(N=3, K=2, d=2, iters=2, feat=F2, script=[1] * 6, batch=2)
    return C
