"""one-slack training solves the dual over mean constraints."""
from . import nsl, osl

BOUNDS = ('up to 3 samples with 3 labels, 2 features, 3 steps; every real '
          'joint feature, loss and C, every answer of the solver (any '
          'feasible point) and of inference; with given features, answers '
          'and multipliers and two free losses up to 11 samples, 12 labels, '
          '12 steps; labels that are numbers, arrays or marginals')
OUTSIDE = 'more samples, labels, steps; warm starts; rounding; the QP solver'


def train(h, **k):
    s = osl.run(h, **k)
    osl.Ref(h, s, **k).follow()


def failing(h, statuses, **k):
    """an answer that is not optimal is not used: the problem is solved once
    more, and if that fails too there is an error"""
    box = []

    def fit():
        osl.run(h, statuses=statuses, log=box, **k)
    e = h.raises(fit, ValueError)
    got = [x[4] or 'optimal' for x in box if x[0] == 'qp']
    bad = any(a != 'optimal' and b != 'optimal'
              for a, b in zip(got, got[1:]))
    h.check('an error exactly if the solver failed', h.cond(
        (e is not None) == bad), note=str(got))
    alone = [i for i, a in enumerate(got) if a != 'optimal' and
             i + 1 == len(got) and not (i and got[i - 1] != 'optimal')]
    h.check('solved once more', h.cond(not alone), note=str(got))


def long(h, v, N, K, iters, **k):
    train(h, d=3, N=N, K=K, iters=iters,
          **dict(nsl.plan(N, K, 3, iters, v), **k))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(**k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name='train ' + nm, fn='train', **k))
    F2 = [[1, 0], [0, 2], [-1, 1], [3, 1], [2, -1], [0, 1]]
    F1 = [[1], [-2], [3], [2], [-1], [4]]
    add(N=1, K=2, d=2)
    add(N=2, K=2, d=1)
    add(N=1, K=3, d=1, iters=2)
    add(N=2, K=2, d=2, feat=F2, iters=2)
    add(N=2, K=2, d=1, n_jobs=2)
    add(N=3, K=2, d=1, script=[1, 1, 1], n_jobs=-1)
    add(N=1, K=2, d=2, neg=[1], script=[1])
    add(N=2, K=2, d=2, neg=[1], feat=F2)
    add(N=1, K=3, d=2, iters=2, neg=[0, 1], script=[1, 2], feat=F2)
    add(N=2, K=3, d=2, iters=2, script=[1, 2, 2, 1], feat=F2)
    add(N=2, K=2, d=1, rescale=True, script=[1, 1])
    add(N=1, K=3, d=1, rescale=True, iters=2, script=[1, 2])
    add(N=1, K=2, d=1, check=True)
    add(N=1, K=3, d=2, check=True, iters=3, script=[1, 2, 1], feat=F2)
    add(N=1, K=3, d=2, iters=3, script=[2, 1, 1], feat=F2)
    add(N=1, K=2, d=1, iters=2, exact=True)
    add(N=2, K=2, d=1, script=[1, 1], statuses=['unknown', 'optimal'])
    add(N=1, K=3, d=2, iters=2, script=[1, 2], bad=True, feat=F2)
    add(N=1, K=2, d=1, iters=3, script=[1, 1, 1], switch='second')
    add(N=2, K=2, d=1, iters=2, tol='0.5', feat=F1)
    for k, st in enumerate((['unknown', 'unknown'],
                            ['optimal', 'unknown', 'unknown'],
                            ['unknown', 'optimal', 'unknown', 'primal'])):
        C.append(dict(name='failing %s' % st, fn='failing', N=2, K=3, d=2,
                      iters=3, script=[1, 2, 2, 1, 1, 2], feat=F2,
                      statuses=st))
    # longer runs: given features and multipliers
    for v in (1, 2, 3):
        for N, K, it, k in ((1, 5, 7, {}), (3, 4, 6, {}), (5, 3, 4, {}),
                            (7, 3, 3, {}), (2, 6, 8, {}),
                            (4, 4, 5, dict(n_jobs=2)), (11, 3, 3, {}),
                            (1, 12, 12, {}),
                            (3, 4, 5, dict(coded='array')),
                            (2, 4, 6, dict(coded='relaxed', n_jobs=2)),
                            (1, 6, 8, dict(tol='sym')),
                            (1, 12, 11, dict(tol='sym', qpcheck=False)),
                            (2, 9, 10, dict(tol='sym', qpcheck=False)),
                            (2, 5, 8, dict(tol='sym')),
                            (3, 4, 10, dict(tol='sym', qpcheck=False)),
                            (3, 5, 7, dict(tol='0.5')),
                            (2, 5, 6, dict(tol='-50')),
                            (3, 5, 12, dict(tol='-50', qpcheck=False))):
            for cval in (1, 20):
                C.append(dict(
                    name='long N=%d K=%d iters=%d v=%d cval=%d %s' % (
                        N, K, it, v, cval, sorted(k.items())), fn='long',
                    N=N, K=K, iters=it, v=v, cval=cval, **k))
    for coded in ('array', 'relaxed', 'typed', 'mixed', 'mixed-typed'):
        add(N=2, K=2, d=1, coded=coded)
        add(N=1, K=4, d=1, iters=2, coded=coded, feat=F1)
        add(N=1, K=3, d=2, iters=3, script=[1, 2, 1], feat=F2, coded=coded)
    if big:
        add(N=2, K=2, d=2)
        add(N=2, K=2, d=2, neg=[1])
        add(N=2, K=3, d=2, iters=2, feat=F2)
        add(N=2, K=2, d=1, iters=2)
        add(N=2, K=3, d=2, iters=3, script=[1, 2, 2, 1, 2, 2], feat=F2)
        add(N=3, K=2, d=2, iters=2, feat=F2, script=[1] * 6)
    return C
