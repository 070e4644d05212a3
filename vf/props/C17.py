"""Only constraints without multiplier are dropped from the working set."""
from . import nsl, osl

BOUNDS = ('up to 2 samples with 4 labels, up to 5 optimisations, windows of '
          '0 to 3; every feasible multiplier vector (features and losses '
          'constant in the longer runs); with given features, losses, '
          'multipliers and a free threshold up to 14 optimisations and '
          'windows up to 5; a run of 60 with the default window of 50')
OUTSIDE = 'longer runs; warm starts; rounding'


def nslack(h, **k):
    s = nsl.run(h, **k)
    nsl.follow(h, s, **dict(dict(N=2, K=2, d=1, iters=1), **k))


def oneslack(h, **k):
    s = osl.run(h, **k)
    osl.Ref(h, s, **k).follow()


def long(h, kind, v, N, K, iters, d=2, **k):
    k = dict(nsl.plan(N, K, d, iters, v, k.pop('free', 1), k.pop('more', 0)), **k)
    {'nslack': nslack, 'oneslack': oneslack}[kind](
        h, d=d, N=N, K=K, iters=iters, **k)


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k
                      if a not in ('budget', 'qpcheck'))
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F1 = [[1], [-2], [3], [2], [-1], [4], [-3], [0]]
    for w in (0, 1, 2):
        add('nslack', N=1, K=4, d=1, iters=4, script=[1, 2, 3, 1], feat=F1,
            window=w, cval=1, loss=[0, 3, 1, 2])
        add('oneslack', N=1, K=4, d=1, iters=4, script=[1, 2, 3, 1], feat=F1,
            window=w, cval=1, loss=[0, 3, 1, 2])
    add('nslack', N=1, K=4, d=1, iters=3, script=[1, 2, 3, 1], feat=F1,
        window=1, thr='0.1', cval=2, loss=[0, 3, 1, 2], qpcheck=False,
        tol='-100', budget=120)
    add('oneslack', N=1, K=4, d=1, iters=4, script=[1, 2, 3, 1], feat=F1,
        window=2, thr='0.1', cval=2, loss=[0, 3, 1, 2])
    add('nslack', N=2, K=3, d=1, iters=2, script=[1, 2, 2, 1], batch=1,
        feat=F1, window=1, cval=1, loss=[0, 3, 1], qpcheck=False,
        budget=120)
    add('nslack', N=2, K=3, d=1, iters=2, script=[1, 0, 0, 0], batch=1,
        feat=F1, window=1, cval=1, loss=[0, 3, 1], given=[[2], [4, 5]],
        qpcheck=False)
    add('nslack', N=1, K=4, d=1, iters=2, script=[3, 1], feat=F1, window=1,
        cval=1, loss=[0, 3, 1, 2], given=[[1, 2]], qpcheck=False)
    add('oneslack', N=2, K=3, d=1, iters=3, script=[1, 2, 2, 1, 1, 1],
        feat=F1, window=1, cval=1, loss=[0, 3, 1])
    # longer runs: given features, answers and multipliers, free threshold
    for kind in ('nslack', 'oneslack'):
        for N, K, it, w, thr in ((1, 9, 9, 1, 'sym'), (1, 9, 9, 2, 'sym'),
                                 (1, 12, 12, 3, 'sym'), (2, 6, 7, 2, 'sym'),
                                 (2, 6, 8, 5, 'sym'), (1, 14, 14, 4, '0.2'), (1, 16, 15, 1, '0.6'),
                                 (2, 8, 12, 2, '0.5'),
                                 (3, 5, 6, 1, '0.2'), (3, 5, 6, 3, '0.5')):
            for v in (1, 3):
                k = dict(check=False, batch=1) if kind == 'nslack' else {}
                C.append(dict(
                    name='long %s N=%d K=%d iters=%d window=%d thr=%s v=%d'
                    % (kind, N, K, it, w, thr, v), fn='long', kind=kind, N=N,
                    K=K, iters=it, window=w, thr=thr, v=v, cval=1, tol='-99',
                    qpcheck=False, **k))
        for N, K, it, w, thr, vv in ((1, 16, 15, 2, '1e-5', -3),
                                     (2, 9, 10, 1, '1e-5', -4),
                                     (1, 16, 15, 5, 'sym', -2)):
            k = dict(check=False, batch=1) if kind == 'nslack' else {}
            C.append(dict(
                name='fading %s N=%d K=%d iters=%d window=%d thr=%s'
                % (kind, N, K, it, w, thr), fn='long', kind=kind, N=N,
                K=K, iters=it, window=w, thr=thr, v=1, values=vv, cval=1,
                tol='-99', more=4, qpcheck=False, **k))
        k = dict(check=False) if kind == 'nslack' else {}
        C.append(dict(
            name='long %s default' % kind, fn='long', kind=kind, N=1, K=70,
            iters=60, window='default', v=1, d=4, cval=1, tol='-99', free=0,
            more=9, values=-5, qpcheck=False, budget=140, **k))
    return C
