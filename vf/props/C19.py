"""Frank-Wolfe training."""
import itertools
from . import nsl, table

BOUNDS = ('up to 3 samples with 3 labels, 2 features, 3 passes, any order of '
          'the samples, every loss; every real joint feature and C in the '
          'runs with few steps (constant ones otherwise); any answers of '
          'inference; with given features, answers, orders, a free loss and a '
          'free tol up to 13 samples, 7 labels, 25 passes')
OUTSIDE = 'more samples, labels, passes; rounding'


def order(h, how, N, tag, given=False):
    if given:
        t = int(tag)
        if how == 'rnd':
            return [(i * i + 2 * t + i // 2) % N for i in range(N)]
        o = [(i + t + 1) % N for i in range(N)]
        return o[::-1] if t % 2 else o[::2] + o[1::2]
    if how == 'perm':
        ps = list(itertools.permutations(range(N)))
        return list(ps[h.pick(h.int('perm' + tag, 0, len(ps) - 1))])
    if how == 'rnd':
        return [h.pick(h.int('rnd%s_%d' % (tag, i), 0, N - 1))
                for i in range(N)]
    return list(range(N))


def train(h, N=2, K=2, d=1, iters=1, batch=False, search=True, every=1,
          avg=True, how='seq', script=None, rescale=False, cval=None,
          feat=None, tol='1e-3', twice=False, exact=False, loss=None, given=False, coded=None,
          **rest):
    import pystruct.learners as L
    from vf.hooks import HOOKS
    np = h.np
    s = table.make(h, N, K, d, script=script, rescale=rescale, exact=exact,
                   coded=coded, lossconst=None if loss is None else
                   (lambda y, z: loss[z % len(loss)]),
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]))
    C = h.real('C', 0.5, 16) if cval is None else np.float64(cval)
    orders = []

    def perm(n):
        h.check('all samples are shuffled', h.cond(n == N))
        orders.append(order(h, 'perm', N, str(len(orders)), given))
        return orders[-1]

    def randint(lo, hi, size):
        h.check('samples are drawn from all', h.cond(
            lo == 0 and hi == N and size == N))
        orders.append(order(h, 'rnd', N, str(len(orders)), given))
        return np.array(orders[-1])
    HOOKS.perm, HOOKS.randint = perm, randint
    tol = h.real('tol', -16, 64) if tol == 'sym' else h.num(tol)
    clf = L.FrankWolfeSSVM(s.m, max_iter=iters, C=C, batch_mode=batch,
                           line_search=search, check_dual_every=every,
                           tol=tol, do_averaging=avg,
                           sample_method=how)
    ev = []
    orig = s.m.loss_augmented_inference

    def lai(x, y, w, relaxed=None):
        r = orig(x, y, w, relaxed)
        ev.append((x, s.dec(r), w.copy(), s.dec(y)))
        return r
    s.m.loss_augmented_inference = lai
    for rnd in range(2 if twice else 1):
        del ev[:], orders[:]
        out = clf.fit(s.X, s.YL)
        h.check('fit returns the learner', h.cond(out is clf))
        follow(h, s, clf, list(ev), list(orders), C, N, d, iters, batch,
               search, every, avg, how, tol)


def follow(h, s, clf, ev, orders, C, N, d, iters, batch, search, every, avg,
           how, tol):
    np = h.np
    pos = [0]

    def stop():
        from vf.harness import Stop
        raise Stop()

    def call(w, want=None):
        if pos[0] >= len(ev):
            h.check('steps: inference', h.false())
            stop()
        x, y, wc, yt = ev[pos[0]]
        pos[0] += 1
        h.check('inference at the current weights', h.eq(wc, w))
        h.check('with its own label', h.cond(yt == s.Y[x]))
        if want is not None:
            h.check('order of the samples', h.cond(x == want))
            if x != want:
                stop()
        return x, y

    def all_samples(w):
        ys = [None] * N
        for _ in range(N):
            x, y = call(w)
            h.check('every sample once', h.cond(ys[x] is None))
            ys[x] = y
        if None in ys:
            stop()
        return ys

    def sums(ys):
        D = [s.delta(i, y) for i, y in enumerate(ys)]
        return (np.array([h.sumr([x[k] for x in D]) for k in range(d)]),
                h.sumr([s.loss(s.Y[i], y) for i, y in enumerate(ys)]))
    eps = h.num('1e-15')

    def clip(g):
        if not h.fork(g < 1):
            return 1
        return g if h.fork(g > 0) else 0

    def val(w, l):
        return C * N * l - table.sq(h, w) / 2

    def gap(w, l, D, ls):
        return table.sq(h, w) - C * table.dot(h, w, D) - C * N * l + C * ls
    dual, primal = [], []
    zero = np.zeros(d)
    w, l = zero, 0
    if batch:
        for it in range(iters):
            D, ls = sums(all_samples(w))
            g = gap(w, l, D, ls)
            dual.append(val(w, l))
            primal.append(dual[-1] + g)
            ws = D * C
            diff = w - ws
            mean = g / (C * N)
            if search:
                gamma = clip(mean / (table.sq(h, diff) / (C * N) + eps))
            else:
                gamma = h.num('2') / (it + 2)
            w = w * (1 - gamma) + ws * gamma
            l = l * (1 - gamma) + ls / N * gamma
            if h.fork(mean < tol):
                break
        wa = w
    else:
        W, ll = [zero] * N, [0] * N
        wa, la = zero, 0
        k = 0
        for it in range(iters):
            if how == 'seq':
                o = list(range(N))
            else:
                if it >= len(orders):
                    h.check('steps: a new order in each pass', h.false())
                    stop()
                o = orders[it]
            for i in o:
                _, y = call(w, i)
                ws = s.delta(i, y) * C
                ls = s.loss(s.Y[i], y) / N
                if search:
                    diff = W[i] - ws
                    gamma = clip((table.dot(h, diff, w) -
                                  C * N * (ll[i] - ls)) /
                                 (table.sq(h, diff) + eps))
                else:
                    gamma = h.num('2') * N / (k + 2 * N)
                # the weights are the sum of the blocks
                W[i] = W[i] * (1 - gamma) + ws * gamma
                ll[i] = ll[i] * (1 - gamma) + ls * gamma
                w = np.array([h.sumr([v[j] for v in W]) for j in range(d)])
                l = h.sumr(ll)
                if avg:
                    rho = h.num('2') / (k + 2)
                    wa = wa * (1 - rho) + w * rho
                    la = la * (1 - rho) + l * rho
                else:
                    wa, la = w, l
                k += 1
            if every and it % every == 0:
                D, ls = sums(all_samples(wa))
                g = gap(wa, la, D, ls)
                dual.append(val(wa, la))
                primal.append(dual[-1] + g)
                if h.fork(g < tol):
                    break
    D, ls = 0, 0
    ys = all_samples(wa)
    primal.append(C * h.sumr([table.pos(h, s.violation(i, y, wa))
                              for i, y in enumerate(ys)]) +
                  table.sq(h, wa) / 2)
    dual.extend(dual[-1:])
    h.check('steps: stops when the gap is small',
            h.cond(pos[0] == len(ev)), note='%d more' % (len(ev) - pos[0]))
    h.check('weights', h.eq(clf.w, wa))
    for nm, got, want in (('dual', clf.objective_curve_, dual),
                          ('primal', clf.primal_objective_curve_, primal)):
        h.check(nm + ' curve', h.cond(len(got) == len(want)))
        for p, q in zip(got, want):
            h.check(nm + ' objective', h.eq(p, q))
    h.observe('w', clf.w)
    h.observe('dual', clf.objective_curve_)


def long(h, v, N, K, iters, d=3, free=1, more=0, fits=1, **k):
    p = nsl.plan(N, K, d, (2 * iters + 1) * fits, v, free, more)
    del p['values']
    train(h, N=N, K=K, iters=iters, d=d, given=True, twice=fits > 1,
          **dict(p, **k))


def reject(h):
    import pystruct.learners as L
    s = table.make(h, 1, 2, 1)
    h.check('unknown sampling is rejected', h.cond(h.raises(
        lambda: L.FrankWolfeSSVM(s.m, sample_method='foo'),
        ValueError) is not None))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn='train', **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'budget')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F1 = [[1], [-2], [3], [2], [-1], [4], [-3], [0], [1]]
    F2 = [[1, 0], [0, 2], [-1, 1], [3, 1], [2, -1], [0, 1], [1, 1], [0, 0],
          [-2, 1]]
    add('reject')
    # free features
    add(N=1, K=2, d=2, script=[1] * 9)
    add(N=1, K=2, d=1, avg=False)
    add(N=2, K=2, d=1, search=False)
    add(N=2, K=2, d=1, search=False, avg=False, script=[1] * 9)
    add(N=1, K=3, d=1, search=False, iters=2, script=[1, 2, 2, 1, 1])
    add(N=1, K=2, d=1, batch=True)
    add(N=2, K=2, d=1, batch=True, search=False, iters=2)
    add(N=2, K=2, d=1, search=False, rescale=True, script=[1, 1, 0, 1, 1, 1])
    add(N=2, K=2, d=1, search=False, rescale=True, batch=True)
    # constant features, any losses
    add(N=2, K=2, d=1, feat=F1, cval=2, script=[1] * 6)
    add(N=2, K=2, d=1, feat=F1, cval=2, script=[1, 0, 0, 1, 1, 1])
    add(N=2, K=2, d=2, feat=F2, cval=2, avg=False, script=[1] * 6,
        every=0)
    add(N=2, K=2, d=1, feat=F1, cval=1, how='perm', script=[1] * 6,
        every=0)
    add(N=3, K=2, d=1, feat=F1, cval=1, how='perm', script=[1] * 20,
        search=False)
    add(N=2, K=2, d=1, feat=F1, cval=1, how='rnd', script=[1] * 6,
        every=0, avg=False)
    add(N=1, K=3, d=1, feat=F1, cval=1, script=[1, 2, 2, 1, 1],
        iters=2, every=0, avg=False)
    add(N=2, K=2, d=1, feat=F1, cval=1, iters=2, how='perm', search=False,
        script=[1, 1, 0, 1, 1, 1, 1, 1])
    add(N=1, K=2, d=2, feat=F2, cval=1, iters=3, every=2, script=[1] * 9)
    add(N=1, K=2, d=2, feat=F2, cval=1, iters=3, every=0, script=[1] * 9)
    add(N=2, K=2, d=1, feat=F1, cval=1, iters=3, every=2, search=False,
        script=[1] * 20)
    add(N=2, K=2, d=1, feat=F1, cval=1, batch=True, iters=2, script=[1] * 9)
    add(N=1, K=3, d=1, feat=F1, cval=1, batch=True, iters=2,
        script=[1, 2, 1, 1])
    add(N=2, K=2, d=1, feat=F1, cval=1, batch=True, search=False, iters=3,
        script=[1] * 9)
    # fitting again starts anew
    add(N=1, K=2, d=1, feat=F1, cval=1, twice=True, script=[1] * 9)
    add(N=2, K=2, d=1, feat=F1, cval=1, twice=True, script=[1] * 20,
        search=False)
    add(N=1, K=2, d=1, feat=F1, cval=1, batch=True, twice=True,
        script=[1] * 9)
    for N, K, it, k in (
            (5, 4, 8, dict(search=False, every=3)),
            (4, 5, 7, dict(search=False, every=2, avg=False, how='perm')),
            (6, 3, 5, dict(search=False, every=1, how='rnd')),
            (7, 3, 4, dict(search=False, every=10, how='perm')),
            (3, 6, 6, dict(search=False, every=0, how='rnd', avg=False)),
            (5, 4, 6, dict(search=False, batch=True)),
            (7, 3, 9, dict(search=False, batch=True)),
            (4, 4, 3, dict(search=False, rescale=False, coded='array')),
            (4, 5, 3, dict(search=False, coded='array', how='perm')),
            (3, 4, 3, dict(search=False, coded='relaxed')),
            (3, 4, 3, dict(search=False, coded='mixed', batch=True)),
            (3, 4, 3, dict(search=False, coded='typed', how='perm')),
            (3, 4, 3, dict(search=False, coded='mixed-typed', batch=True)),
            (1, 6, 5, dict(every=2)),
            (2, 6, 2, dict(every=2, how='perm')),
            (2, 5, 12, dict(search=False, every=5)),
            (2, 5, 25, dict(search=False, every=10, how='rnd')),
            (1, 7, 21, dict(search=False, every=10, avg=False)),
            (2, 5, 15, dict(search=False, batch=True)),
            (13, 3, 2, dict(search=False, how='perm')),
            (3, 5, 2, dict(every=1, avg=False)),
            (5, 4, 1, dict(every=1, how='rnd')),
            (4, 4, 3, dict(batch=True)),
            (2, 6, 4, dict(batch=True)),
            (3, 4, 3, dict(search=False, fits=2, how='perm')),
            (3, 4, 2, dict(batch=True, fits=2))):
        for v, cval in ((1, 1), (2, 0.5)):
            C.append(dict(name='long N=%d K=%d iters=%d v=%s C=%s %s' % (
                N, K, it, v, cval, sorted(k.items())), fn='long', N=N, K=K,
                iters=it, v=v, cval=cval, tol='sym', **k))
    return C
