"""Warm starts go on where training stopped; switching the inference."""
from . import nsl, osl

BOUNDS = ('two and three fits of up to 3 steps with up to 2 samples, 3 '
          'labels and 2 features; every real joint feature or listed ones, '
          'every loss, every answer of the solver (any feasible point) and '
          'of inference; '
          'with given features, answers and orders up to 3 samples, 6 '
          'labels and 4 fits')
OUTSIDE = ('more samples, labels, steps; warm starts on other data; '
           'rounding; the QP solver')


def nslack(h, **k):
    s = nsl.run(h, **k)
    k = dict(dict(N=2, K=2, d=1, iters=1), **k)
    k.pop('again', None)
    nsl.follow(h, s, **k)


def oneslack(h, **k):
    s = osl.run(h, **k)
    k = dict(dict(N=2, K=2, d=1, iters=1), **k)
    k.pop('again', None)
    r = osl.Ref(h, s, **k)
    if r.follow() is not None:
        r.more()


def long(h, kind, v, N, K, fits, d=2, free=1, more=0, **k):
    total = sum(n for _, n in fits) + len(fits)
    k = dict(nsl.plan(N, K, d, total, v, free, more), **k)
    {'nslack': nslack, 'oneslack': oneslack}[kind](
        h, d=d, N=N, K=K, iters=fits[0][1],
        again=[tuple(f) for f in fits[1:]], **k)


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F2 = [[1, 0], [0, 2], [-1, 1], [3, 1], [2, -1], [0, 1]]
    F1 = [[1], [-2], [3], [2], [-1], [4]]
    # switching the inference method
    add('nslack', N=1, K=2, d=1, iters=3, script=[1, 1, 0, 1], switch='b')
    add('nslack', N=1, K=3, d=2, iters=4, script=[1, 1, 2, 2], switch='b',
        feat=F2)
    add('nslack', N=2, K=2, d=1, iters=3, script=[0, 0, 1, 0, 1, 1],
        switch='b', feat=F1)
    add('nslack', N=1, K=3, d=1, iters=4, script=[1, 2, 1, 2], switch='b',
        feat=F1, tol='2', window=0)
    add('nslack', N=1, K=2, d=1, iters=2, script=[0, 0], switch='b')
    add('nslack', N=1, K=2, d=1, iters=3, script=[1, 0, 1], switch='first')
    add('oneslack', N=1, K=3, d=2, iters=3, script=[1, 1, 2], switch='b',
        feat=F2)
    add('oneslack', N=1, K=3, d=1, iters=4, script=[1, 1, 2, 1], switch='b',
        feat=F1)
    add('oneslack', N=2, K=2, d=1, iters=3, script=[0, 0, 1, 0, 1, 1],
        switch='b', feat=F1)
    add('oneslack', N=1, K=2, d=1, iters=2, script=[0, 0], switch='b')
    add('oneslack', N=1, K=2, d=1, iters=2, script=[1, 1], switch='first')
    # going on
    for again in ([(True, 1)], [('soft', 1)], [(None, 1)]):
        add('oneslack', N=1, K=3, d=2, iters=1, feat=F2,
            script=[1, 0, 2, 0], again=again)
        add('oneslack', N=1, K=3, d=1, iters=1, script=[1, 1, 1, 2],
            again=again, feat=F1)
        add('oneslack', N=1, K=2, d=1, iters=1, again=again, feat=F1)
        add('oneslack', N=2, K=3, d=1, iters=1, script=[1, 1, 0, 0, 2, 1],
            again=again, feat=F1)
        add('oneslack', N=1, K=3, d=1, iters=2, cache=2, tol='0.5',
            script=[1, 2, 0, 1, 2, 1], cache_tol=None, feat=F1, again=again,
            cval=1)
        add('oneslack', N=1, K=2, d=1, iters=1, script=[0, 0, 0, 1],
            again=again)
    add('oneslack', N=1, K=3, d=1, iters=1, script=[1, 0, 2, 0, 1, 0],
        feat=F1, window=1, thr='0.5', again=[(True, 1), (True, 1)], cval=2)
    add('oneslack', N=1, K=3, d=1, iters=1, script=[1, 0, 2, 0, 1, 0],
        feat=F1, again=[(True, 1), (None, 1)], cval=2)
    add('oneslack', N=1, K=2, d=1, iters=2, script=[1, 1, 0, 1, 1],
        switch='b', feat=F1, again=[(True, 2)])
    for again in ([(True, 1)], [(False, 1)]):
        add('nslack', N=1, K=3, d=2, iters=1, feat=F2, script=[1, 0, 2, 0],
            again=again)
        add('nslack', N=2, K=2, d=1, iters=1, feat=F1,
            script=[1, 0, 0, 0, 1, 1], again=again)
        add('nslack', N=2, K=3, d=1, iters=1, feat=F1,
            script=[1, 0, 0, 0, 2, 1], again=again, window=1, thr='0.1',
            cval=1)
        add('nslack', N=1, K=2, d=1, iters=1, script=[1, 0, 1], again=again)
        add('nslack', N=1, K=2, d=1, iters=1, script=[0, 0, 1], again=again)
    add('nslack', N=1, K=3, d=1, iters=1, feat=F1, window=1, thr='0.1',
        script=[1, 0, 1, 0, 2, 0], again=[(True, 1), (True, 1)], cval=1)
    add('nslack', N=1, K=2, d=1, iters=2, script=[1, 1, 0, 1, 1],
        switch='b', feat=F1, again=[(True, 2)])
    add('nslack', N=1, K=3, d=1, iters=1, feat=F1,
        script=[1, 0, 2, 0, 1, 0], again=[(True, 1), (False, 1)], cval=1)
    add('nslack', N=1, K=3, d=1, iters=2, given=[[2]], script=[1, 0, 1],
        feat=F1, window=1, thr='0.1', cval=1)
    add('nslack', N=2, K=3, d=1, iters=2, given=[[1], [5, 4]], feat=F1,
        script=[0, 0, 0, 1], window=1, thr='0.1', cval=1)
    for kind, warm in (('nslack', [(True, True), (True, False, True)]),
                       ('oneslack', [(True,), ('soft',), (None, True),
                                     (True, 'soft', True)])):
        for ws in warm:
            for N, K, n, m, v, kk in (
                    (2, 5, 3, 3, 1, {}),
                    (3, 4, 2, 3, 2, dict(tol='sym')),
                    (2, 6, 3, 2, 2, dict(switch='b')),
                    (1, 6, 5, 4, 1, dict(window=1, thr='sym')),
                    (2, 4, 3, 2, 2, dict(window=0, thr='sym', cval=2)),
                    (3, 5, 2, 2, 1, dict(tol='sym', cval=1))):
                if kind == 'oneslack' and 'switch' not in kk:
                    kk = dict(kk, cache=N, cache_tol=None) if N > 2 else kk
                fits = [(False, n)] + [(x, m) for x in ws]
                C.append(dict(
                    name='long %s N=%d K=%d fits=%s v=%s %s' % (
                        kind, N, K, fits, v, sorted(kk.items())),
                    fn='long', kind=kind, N=N, K=K, fits=fits, v=v, **kk))
    if big:
        add('oneslack', N=2, K=2, d=1, iters=1, again=[(True, 1)], feat=F1)
        add('oneslack', N=1, K=3, d=2, iters=2, script=[1, 2, 0, 2, 1],
            again=[(True, 2)], feat=F2)
        add('nslack', N=2, K=2, d=1, iters=1, again=[(True, 1)], feat=F1)
        add('nslack', N=1, K=3, d=2, iters=2, script=[1, 2, 0, 2, 1],
            again=[(True, 2)], feat=F2)
        add('nslack', N=2, K=3, d=2, iters=4, switch='b', feat=F2,
            script=[1, 2, 1, 2, 2, 1, 2, 0], cval=1)
    return C
