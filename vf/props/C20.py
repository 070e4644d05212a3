"""Subgradient training."""
import itertools
from . import nsl, table
from .nsl import slices

BOUNDS = ('up to 3 samples with 3 labels, 2 features, 3 passes, any order of '
          'the samples; every real joint feature, loss and learning rate, '
          'and every C in the runs with few steps; any answers of inference; '
          'decay exponents 0, 1, 2; with given features, answers, orders and '
          'a free loss up to 11 samples, 7 labels, 15 passes, also decay '
          'exponents 0.5, 1.5 and -1')
OUTSIDE = ('more samples, labels, passes, fractional decay exponents; '
           'fitting again without warm_start; rounding')


def train(h, N=2, K=2, d=1, iters=1, lr=None, mom=None, decay=1, t0=10,
          avg=None, batch=None, n_jobs=1, shuffle=False, stop=True,
          script=None, rescale=False, cval=None, feat=None, warm=False,
          exact=False, n_cpu=2, loss=None, given=False, coded=None,
          log=False):
    import pystruct.learners as L
    from vf.hooks import HOOKS
    from vf.harness import Stop
    np = h.np
    HOOKS.n_cpu = n_cpu
    s = table.make(h, N, K, d, script=script, rescale=rescale, exact=exact,
                   coded=coded, lossconst=None if loss is None else
                   (lambda y, z: loss[z % len(loss)]),
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]))
    C = h.real('C', 0.5, 16) if cval is None else np.float64(cval)
    orders = []

    def perm(n):
        h.check('all samples are shuffled', h.cond(n == N))
        if given:
            t = len(orders)
            o = [(i + t + 1) % N for i in range(N)]
            orders.append(o[::-1] if t % 2 else o[::2] + o[1::2])
            return orders[-1]
        ps = list(itertools.permutations(range(N)))
        orders.append(list(ps[h.pick(
            h.int('perm%d' % len(orders), 0, len(ps) - 1))]))
        return orders[-1]
    HOOKS.perm = perm
    kw = {}
    if lr is not None:
        kw['learning_rate'] = lr = h.num(lr) if lr != 'any' else \
            h.real('lr', 0.01, 4)
    if mom is not None:
        kw['momentum'] = mom = h.num(mom) if mom != 'any' else \
            h.real('mom', 0, 1)
    t0 = h.num(t0) if isinstance(t0, str) else t0
    decay = h.num(decay) if isinstance(decay, str) else decay
    clf = L.SubgradientSSVM(
        s.m, max_iter=iters, C=C, decay_exponent=decay, decay_t0=t0,
        averaging=avg, batch_size=batch, n_jobs=n_jobs, shuffle=shuffle,
        break_on_no_constraints=stop, **kw)
    ev = []
    orig = s.m.loss_augmented_inference

    def lai(x, y, w, relaxed=None):
        r = orig(x, y, w, relaxed)
        ev.append((x, s.dec(r), w.copy(), s.dec(y)))
        return r
    s.m.loss_augmented_inference = lai
    pos = [0]

    def call(w, want=None):
        if pos[0] >= len(ev):
            h.check('steps: inference', h.false())
            raise Stop()
        x, y, wc, yt = ev[pos[0]]
        pos[0] += 1
        h.check('inference at the current weights', h.eq(wc, w))
        h.check('with its own label', h.cond(yt == s.Y[x]))
        if want is not None and x != want:
            h.check('order of the samples', h.cond(x == want))
            raise Stop()
        return x, y
    w = np.zeros(d)
    st = dict(t=0, wa=w, curve=[])
    for rnd in range(2 if warm else 1):
        if rnd:
            del ev[:], orders[:]
            pos[0] = 0
            out = clf.fit(s.X, s.YL, warm_start=True)
            # continues from the weights (not from their average)
            w = st['wa']
        else:
            out = clf.fit(s.X, s.YL)
        h.check('fit returns the learner', h.cond(out is clf))
        v = np.zeros(d)

        def step(g, w, v):
            grad = g - w / (C * N)
            if mom is not None:
                v = grad * (1 - mom) + v * mom
            else:
                v = grad
            r = C * N if lr is None else lr
            t = st['t']
            w = w + v * (r / (t + t0) ** decay)
            if avg == 'linear':
                rho = h.num('2') / (t + 2)
            elif avg == 'squared':
                rho = h.num('6') * (t + 1) / ((t + 2) * (2 * t + 3))
            else:
                rho = 1
            st['wa'] = st['wa'] * (1 - rho) + w * rho if rho is not 1 else w
            st['t'] += 1
            return w, v

        def objective():
            wa = st['wa']
            ys = [None] * N
            for _ in range(N):
                x, y = call(wa)
                ys[x] = y
            h.check('objective over all samples', h.cond(None not in ys))
            if None in ys:
                raise Stop()
            return C * h.sumr([table.pos(h, s.violation(i, y, wa))
                               for i, y in enumerate(ys)]) + \
                table.sq(h, wa) / 2
        idx = list(range(N))
        for it in range(iters):
            if shuffle:
                if it >= len(orders):
                    h.check('steps: a new order in each pass', h.false())
                    raise Stop()
                # each pass permutes the previous order
                idx = [idx[i] for i in orders[it]]
            positive = False
            if n_jobs == 1 and batch in (None, 1):
                for i in idx:
                    _, y = call(w, i)
                    if h.fork(s.violation(i, y, w) > 0):
                        positive = True
                    w, v = step(s.delta(i, y), w, v)
            else:
                b = (N if batch == -1 else batch) if n_jobs == 1 else \
                    (n_cpu if n_jobs == -1 else n_jobs)
                for sl in slices(N, b):
                    D = []
                    for j in sl:
                        i = idx[j]
                        _, y = call(w, i)
                        if n_jobs == 1:
                            positive = True
                        else:
                            if not h.fork(s.violation(i, y, w) > 0):
                                continue
                            positive = True
                        D.append(s.delta(i, y))
                    g = np.array([h.sumr([x[k] for x in D])
                                  for k in range(d)])
                    if n_jobs == 1:
                        g = g / len(sl)
                    w, v = step(g, w, v)
            if not positive and stop:
                break
            st['curve'].append(objective())
        st['curve'].append(objective())
        h.check('steps: stops without violated constraints',
                h.cond(pos[0] == len(ev)),
                note='%d more' % (len(ev) - pos[0]))
        h.check('weights', h.eq(clf.w, st['wa']))
        got = clf.objective_curve_
        h.check('curve', h.cond(len(got) == len(st['curve'])))
        for p, q in zip(got, st['curve']):
            h.check('objective', h.eq(p, q))
    h.observe('w', clf.w)
    h.observe('curve', clf.objective_curve_)


def long(h, v, N, K, iters, d=3, free=1, more=0, **k):
    p = nsl.plan(N, K, d, 2 * (2 * iters + 1), v, free, more)
    del p['values']
    train(h, N=N, K=K, iters=iters, d=d, given=True, **dict(p, **k))


def reject(h):
    import pystruct.learners as L
    s = table.make(h, 2, 2, 1)
    clf = L.SubgradientSSVM(s.m, n_jobs=2, batch_size=2)
    h.check('batches and jobs exclude each other', h.cond(h.raises(
        lambda: clf.fit(s.X, s.Y), ValueError) is not None))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn='train', **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'budget')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F1 = [[1], [-2], [3], [2], [-1], [4], [-3], [0], [1]]
    F2 = [[1, 0], [0, 2], [-1, 1], [3, 1], [2, -1], [0, 1], [1, 1], [0, 0],
          [-2, 1]]
    add('reject')
    add(N=1, K=2, d=2)
    add(N=2, K=2, d=1, lr='any', script=[1] * 9)
    add(N=1, K=3, d=1, iters=2)
    add(N=1, K=2, d=2, iters=3, mom='0.9', script=[1] * 9, cval=1, feat=F2)
    add(N=2, K=3, d=1, iters=2, mom='0.5', cval=1, feat=F1,
        script=[1, 2, 1, 1, 2, 1, 1])
    add(N=1, K=2, d=1, iters=2, mom='any', cval=1, feat=F1, script=[1] * 9)
    for dec, t in ((0, 10), (1, 1), (2, 3)):
        add(N=2, K=2, d=1, iters=2, decay=dec, t0=t, cval=1, feat=F1,
            lr='any' if dec else None, script=[1, 1, 0, 0, 1, 1, 1, 0])
    for a in ('linear', 'squared'):
        add(N=1, K=2, d=2, avg=a, script=[1] * 9)
        add(N=2, K=3, d=2, iters=2, avg=a, cval=1, feat=F2,
            script=[1, 2, 1, 1, 2, 1, 1, 0])
    add(N=3, K=2, d=1, batch=2, script=[1] * 9)
    add(N=3, K=2, d=1, batch=-1, script=[1] * 9)
    add(N=2, K=2, d=1, batch=1, script=[1] * 9)
    add(N=3, K=2, d=1, batch=2, iters=2, cval=2, feat=F1,
        script=[1, 0, 1, 1, 1, 0, 1, 1, 1], avg='linear')
    add(N=2, K=2, d=1, batch=2, rescale=True, script=[1] * 9)
    add(N=2, K=2, d=1, rescale=True, script=[1] * 9)
    add(N=3, K=2, d=1, n_jobs=2, script=[1] * 9, cval=1, feat=F1)
    add(N=2, K=2, d=1, n_jobs=2, script=[1] * 9)
    add(N=3, K=2, d=2, n_jobs=-1, n_cpu=3, cval=1, feat=F2, script=[1] * 9)
    add(N=2, K=2, d=1, n_jobs=2, iters=2, cval=1, feat=F1,
        script=[1, 0, 1, 1, 1, 1, 0, 1])
    add(N=3, K=2, d=1, shuffle=True, script=[1] * 9, cval=1, feat=F1)
    add(N=2, K=2, d=1, iters=2, shuffle=True, cval=1, feat=F1,
        script=[1] * 9)
    add(N=2, K=2, d=1, iters=3, stop=False, cval=1, feat=F1,
        script=[0, 0, 1, 1, 0, 0, 1, 0])
    add(N=2, K=2, d=1, iters=2, warm=True, cval=1, feat=F1,
        script=[1, 1, 0, 1, 1, 1, 1, 1, 1])
    for N, K, it, k in (
            (5, 4, 4, dict()),
            (4, 5, 6, dict(avg='linear')),
            (3, 6, 7, dict(avg='squared', mom='0.5')),
            (7, 3, 3, dict(shuffle=True, lr='0.125')),
            (6, 3, 4, dict(shuffle=True, avg='linear', lr='0.5')),
            (2, 5, 12, dict(t0=1, decay=2, mom='0.9', stop=False)),
            (1, 7, 15, dict(t0='0.5', avg='squared')),
            (4, 4, 4, dict(decay='0.5', t0=1)),
            (3, 4, 4, dict(decay='1.5', t0='2.5', lr='2')),
            (3, 4, 3, dict(decay='-1', t0=1, lr='0.125')),
            (7, 3, 4, dict(batch=3)),
            (8, 3, 3, dict(batch=4, avg='linear')),
            (11, 3, 3, dict(batch=5, shuffle=True)),
            (5, 4, 3, dict(batch=-1, avg='squared', lr='0.5')),
            (5, 3, 3, dict(batch=7)),
            (5, 4, 4, dict(n_jobs=2)),
            (7, 3, 4, dict(n_jobs=3, avg='linear')),
            (6, 3, 3, dict(n_jobs=4, shuffle=True)),
            (5, 3, 3, dict(n_jobs=-1, n_cpu=3, mom='0.5')),
            (5, 3, 4, dict(n_jobs=8, stop=False)),
            (3, 4, 4, dict(coded='array', avg='linear')),
            (4, 4, 3, dict(coded='array', batch=3)),
            (4, 4, 3, dict(coded='array', n_jobs=2)),
            (3, 4, 3, dict(coded='relaxed')),
            (4, 4, 2, dict(coded='mixed', batch=2)),
            (3, 4, 3, dict(coded='typed', n_jobs=2)),
            (4, 4, 2, dict(coded='mixed-typed', batch=3)),
            (3, 4, 3, dict(warm=True, avg='linear')),
            (4, 3, 3, dict(warm=True, shuffle=True, mom='0.5')),
            (5, 3, 2, dict(warm=True, batch=2, decay=2)),
            (5, 3, 2, dict(warm=True, n_jobs=2, avg='squared'))):
        for v, cval in ((1, 1), (2, 0.5)):
            C.append(dict(name='long N=%d K=%d iters=%d v=%s C=%s %s' % (
                N, K, it, v, cval, sorted(k.items())), fn='long', N=N, K=K,
                iters=it, v=v, cval=cval, **k))
    return C
