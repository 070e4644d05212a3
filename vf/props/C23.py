"""Latent-variable learners."""
from . import table

BOUNDS = ('up to 3 samples with 4 hidden states of 2 labels, 2 features, 3 '
          'passes or 4 completion rounds; every real joint feature, loss, C '
          'and initial weight, any completion and answer of inference; with '
          'given features, losses, completions and answers up to 7 samples '
          'and 10 passes; hidden states that are numbers or arrays')
OUTSIDE = 'more samples, states, passes; rounding; the inner solver (C15, C16)'


def make(h, N, K, d, feat=None, script=None, completions=None, loss=None,
         coded=None):
    """K hidden states per sample; state k belongs to label k // 2"""
    np = h.np
    lab = lambda y: (y // K) * 8 + (y % K) // 2
    labels = [lab(y) for y in range(N * K)]
    s = table.make(h, N, K, d, labels=labels, script=script,
                   coded=coded, lossconst=None if loss is None else
                   (lambda y, z: loss[(y + 3 * z) % len(loss)]),
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]))
    s.lab = lab
    s.truth = [i * 8 for i in range(N)]     # all truths: label 0
    s.comp = []

    def complete(x, y, w):
        """one of the hidden states of the label"""
        n = len(s.comp)
        h.check('completion of a label', h.cond(
            y == s.truth[x] if isinstance(y, int) else False))
        k = completions[n] if completions and n < len(completions) else \
            0 if completions else h.pick(h.int('completion%d' % n, 0, 1))
        r = x * K + k
        s.comp.append((x, r, w.copy()))
        return s.enc(r, True)
    s.m.latent = complete
    s.m.label_from_latent = lambda hh: lab(s.dec(hh))
    s.m.base_loss = lambda y, z: base(y, z)
    top = [h.real('max_loss%d' % i, 1, 64) for i in range(N)]
    s.top = top
    s.m.max_loss = lambda y: top[y // 8]

    def base(y, z):
        for v in (y, z):
            h.check('labels, not hidden states', h.cond(v in labels))
        return s.baseloss(y, z)
    s.bl = {}

    def baseloss(y, z):
        if y == z:
            return 0
        if (y, z) not in s.bl:
            s.bl[y, z] = h.real('base_%d_%d' % (y, z), 0, 64)
        return s.bl[y, z]
    s.baseloss = baseloss

    def diff(i, t, y):
        return s.jfv(i, t) - s.jfv(i, y)
    s.diff = diff

    def viol(i, t, y, w):
        D = diff(i, t, y)
        return s.loss(t, y) - h.sumr([w[k] * D[k] for k in range(d)])
    s.viol = viol
    return s


def subgradient(h, N=2, K=4, d=1, iters=1, mom=None, decay=1, t0=10,
                avg=None, n_jobs=1, script=None, completions=None, cval=None,
                feat=None, preset=False, lr=None, n_cpu=2, loss=None,
                coded=None, start=None, stop=True, warm=False):
    import pystruct.learners as L
    from vf.hooks import HOOKS
    from vf.harness import Stop
    from .nsl import slices
    np = h.np
    HOOKS.n_cpu = n_cpu
    s = make(h, N, K, d, feat=feat, script=script, completions=completions,
             loss=loss, coded=coded)
    C = h.real('C', 0.5, 16) if cval is None else np.float64(cval)
    w0 = h.reals('w0', d) if start is None else np.array(start, dtype=float)
    drawn = []

    def normal(loc, scale, size):
        drawn.append((loc, scale, size))
        return w0.copy()
    HOOKS.normal = normal
    kw = {}
    if lr is not None:
        kw['learning_rate'] = lr = h.num(lr)
    if mom is not None:
        kw['momentum'] = mom = h.num(mom)
    clf = L.SubgradientLatentSSVM(s.m, max_iter=iters, C=C, averaging=avg,
                                  decay_exponent=decay, decay_t0=t0,
                                  n_jobs=n_jobs,
                                  break_on_no_constraints=stop, **kw)
    if preset:
        clf.w = w0.copy()
    ev = []
    orig = s.m.loss_augmented_inference

    def lai(x, y, w, relaxed=None):
        r = orig(x, y, w, relaxed)
        ev.append((x, s.dec(r), w.copy(), s.dec(y)))
        return r
    s.m.loss_augmented_inference = lai
    pos = [0]

    def call(w, want=None):
        n = pos[0]
        if n >= len(ev) or n >= len(s.comp):
            h.check('steps: completion and inference', h.false())
            raise Stop()
        pos[0] += 1
        x, t, wc = s.comp[n]
        xi, y, wi, yt = ev[n]
        h.check('completion at the current weights', h.eq(wc, w))
        h.check('inference at the current weights', h.eq(wi, w))
        h.check('the same sample', h.cond(x == xi))
        h.check('against the completed truth', h.cond(yt == t))
        if x != xi or yt != t or (want is not None and x != want):
            h.check('order of the samples', h.cond(want is None or x == want))
            raise Stop()
        return x, t, y

    def step(g, w, wa, v, t):
        grad = g - w / (C * N)
        v = grad if mom is None else grad * (1 - mom) + v * mom
        r = C * N if lr is None else lr
        w = w + v * (r / (t + t0) ** decay)
        if avg == 'linear':
            rho = h.num('2') / (t + 2)
        elif avg == 'squared':
            rho = h.num('6') * (t + 1) / ((t + 2) * (2 * t + 3))
        else:
            return w, w, v
        return w, wa * (1 - rho) + w * rho, v
    wa, t = w0, 0
    for rnd in range(2 if warm else 1):
        del ev[:], s.comp[:]
        pos[0] = 0
        if rnd:
            out = clf.fit(s.X, s.truth, warm_start=True)
        else:
            out = clf.fit(s.X, s.truth)
        h.check('fit returns the learner', h.cond(out is clf))
        if not preset:
            h.check('random initial weights', h.cond(len(drawn) == 1))
        w, v = wa, np.zeros(d)
        for it in range(iters):
            positive = False
            if n_jobs == 1:
                batches = [[i] for i in range(N)]
            else:
                batches = slices(N, n_cpu if n_jobs == -1 else n_jobs)
            for b in batches:
                D = []
                for i in b:
                    x, tr, y = call(w, i)
                    D.append(s.diff(x, tr, y))
                    if h.fork(s.viol(x, tr, y, w) > 0):
                        positive = True
                g = np.array([h.sumr([x[k] for x in D]) for k in range(d)])
                w, wa, v = step(g / len(b), w, wa, v, t)
                t += 1
            if not positive and stop:
                break
        tot = [None] * N
        for _ in range(N):
            x, tr, y = call(wa)
            tot[x] = table.pos(h, s.viol(x, tr, y, wa))
        h.check('objective over all samples', h.cond(None not in tot))
        h.check('steps: stops without violated constraints',
                h.cond(pos[0] == len(ev)))
        h.check('weights', h.eq(clf.w, wa))
        h.check('objective', h.eq(clf.objective_curve_[-1],
                                  C * h.sumr(tot) + table.sq(h, wa) / 2))
        h.observe('w', clf.w)


def long(h, v, N, iters, d=3, K=4, **k):
    feat = [[((i * i + 2 * i * j + j + i // K) % 11 - 5) / (2 if v == 2 else 8)
             for j in range(d)] for i in range(N * K)]
    n = 2 * (iters + 1) * N
    subgradient(h, N=N, K=K, d=d, iters=iters, feat=feat,
                script=[(i // N * v + i % N + 1 + i // 5) % K
                        for i in range(n)],
                completions=[(i // N + i // 3) % 2 for i in range(n)],
                loss=[3, 1, 4, 2, 5],
                start=[(-1) ** j * (j + v) / 8 for j in range(d)], **k)


def recorder(h, cls, calls, d, sets=None, s=None):
    """the inner learner: remembers what it is asked, answers any weights"""
    class Inner(cls):
        def fit(self, X, Y, constraints=None, warm_start=False,
                initialize=True):
            n = len(calls)
            self.w = h.reals('w%d' % n, d)
            calls.append((list(X), [s.dec(y) if s else y for y in Y],
                          constraints, warm_start,
                          initialize, self.w.copy()))
            if sets is not None:
                self.constraints_ = [
                    [[s.enc(y) if s else y, None, None] for y in S]
                    for S in sets[n]]
            return self
    return Inner


def latent(h, N=2, K=4, d=1, iters=3, inner='OneSlackSSVM', init=None,
           initialize=True, sets=None, completions=None, feat=None,
           coded=None, loss=None):
    import pystruct.learners as L
    s = make(h, N, K, d, feat=feat, completions=completions, coded=coded,
             loss=loss)
    calls = []
    cls = recorder(h, getattr(L, inner), calls, d, sets, s)
    base = cls(s.m)
    clf = L.LatentSSVM(base, latent_iter=iters)
    H0 = [i * K + h.pick(h.int('init%d' % i, 0, 1)) for i in range(N)]
    asked = []

    def init_latent(X, Y):
        asked.append((list(X), list(Y)))
        return [s.enc(y, True) for y in H0]
    s.m.init_latent = init_latent
    if not initialize:
        s.m.initialize(s.X, s.truth)
        s.m.initialized = 0
    kw = {} if init is None else {
        'H_init': [s.enc(y, True) for y in H0]}
    out = clf.fit(s.X, s.truth, initialize=initialize, **kw)
    h.check('fit returns the learner', h.cond(out is clf))
    h.check('model initialized', h.cond(
        s.m.initialized == (1 if initialize else 0)))
    h.check('given completions are used', h.cond(
        asked == ([] if init else [(s.X, s.truth)])))
    H = H0
    done = 0
    for it in range(iters):
        if it:
            new = s.comp[(it - 1) * N:it * N]
            h.check('every truth is completed', h.cond(
                [c[0] for c in new] == s.X))
            for c in new:
                h.check('with the latest weights',
                        h.eq(c[2], calls[done - 1][5]))
            nH = [c[1] for c in new]
            if nH == H:
                break
            H = nH
        if it >= len(calls):
            h.check('fitted again if completions changed', h.false())
            return
        X, Y, cons, warm, ini, w = calls[it]
        h.check('fitted to the completed truth', h.cond(
            X == s.X and Y == H))
        h.check('the model is initialized once', h.cond(not ini))
        h.check('continues the previous fit', h.cond(
            bool(warm) == (it > 0)))
        if sets is not None and it:
            # known constraints against the new truth
            h.check('constraints kept', h.cond(
                cons is not None and
                [[s.dec(c[0]) for c in S] for S in cons] == sets[it - 1]))
            for i, S in enumerate(cons or []):
                for c in S:
                    h.check('constraint', h.and_(
                        h.eq(c[1], s.diff(i, H[i], s.dec(c[0]))),
                        h.eq(c[2], s.loss(H[i], s.dec(c[0])))))
        done += 1
    h.check('no more rounds', h.cond(len(calls) == done))
    h.check('weights', h.eq(clf.w, calls[-1][5]))


def predict(h, learner, N=2, K=4, d=1, n_jobs=1, script=None, coded=None):
    import pystruct.learners as L
    s = make(h, N, K, d, script=script, coded=coded)
    s.m.initialize(s.X, s.truth)
    w = h.reals('w', d)
    if learner == 'LatentSSVM':
        clf = L.LatentSSVM(L.OneSlackSSVM(s.m, n_jobs=n_jobs))
        clf.base_ssvm.w = w.copy()
    else:
        clf = L.SubgradientLatentSSVM(s.m, n_jobs=n_jobs)
        clf.w = w.copy()

    def ask(f):
        del s.calls[:]
        r = f()
        h.check('every sample once', h.cond(
            [c[1] for c in s.calls] == s.X))
        for c in s.calls:
            h.check('at the weights', h.eq(c[3], w))
        return r, [c[2] for c in s.calls]
    p, a = ask(lambda: clf.predict(s.X))
    h.check('labels of the predicted states', h.cond(
        list(p) == [s.lab(y) for y in a]))
    p, a = ask(lambda: clf.predict_latent(s.X))
    h.check('predicted states', h.cond([s.dec(y) for y in p] == a))
    p, a = ask(lambda: clf.score(s.X, s.truth))
    h.check('score', h.eq(p, 1 - h.sumr(
        [s.baseloss(t, s.lab(y)) for t, y in zip(s.truth, a)]) /
        h.sumr(s.top)))
    h.check('weights kept', h.eq(clf.w, w))


def delegate(h):
    """what LatentSSVM passes on to the learner it uses"""
    import pystruct.learners as L
    s = make(h, 1, 2, 1)
    base = L.OneSlackSSVM(s.m)
    clf = L.LatentSSVM(base)
    w = h.reals('w', 1)
    base.w = w
    clf.C = C = h.real('C', 0, 9)
    h.check('C', h.and_(h.eq(base.C, C), h.eq(clf.C, C)))
    h.check('weights kept', h.eq(clf.w, w))
    clf.n_jobs, clf.verbose = 3, 2
    h.check('options', h.cond(base.n_jobs == 3 and base.verbose == 2 and
                              clf.n_jobs == 3 and clf.verbose == 2))
    clf.w = v = h.reals('v', 1)
    h.check('weights', h.eq(base.w, v))
    h.check('model', h.cond(clf.model is s.m))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'budget')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    F1 = [[1], [-2], [3], [2], [-1], [4], [-3], [0], [1], [2], [5], [-4]]
    sub = 'subgradient'
    add(sub, N=1, K=4, d=1)
    add(sub, N=1, K=4, d=2, preset=True, script=[2, 3],
        completions=[0, 1])
    add(sub, N=2, K=4, d=1, script=[2, 3, 1, 2], completions=[0, 1, 1, 0])
    add(sub, N=1, K=4, d=1, iters=2, cval=1, feat=F1, mom='0.5')
    add(sub, N=2, K=4, d=1, iters=2, cval=1, feat=F1, decay=0, lr='0.25',
        script=[2, 3, 1, 2, 2, 2], completions=[0, 1, 1, 0, 1, 1])
    for a in ('linear', 'squared'):
        add(sub, N=1, K=4, d=1, iters=3, cval=1, feat=F1, avg=a,
            script=[2, 3, 1, 2], completions=[0, 1, 1, 0])
    add(sub, N=2, K=4, d=1, n_jobs=2, script=[2, 3, 1, 2],
        completions=[0, 1, 1, 0])
    add(sub, N=3, K=4, d=1, n_jobs=2, cval=1, feat=F1,
        script=[2, 3, 2, 2, 1, 3], completions=[0, 1, 1, 0, 1, 1])
    add(sub, N=3, K=4, d=1, n_jobs=-1, n_cpu=3, cval=1, feat=F1,
        script=[2, 3, 2, 2, 1, 3], completions=[0, 1, 1, 0, 1, 1])
    for inner in ('OneSlackSSVM', 'NSlackSSVM', 'SubgradientSSVM'):
        add('latent', inner=inner, N=2, iters=3,
            sets=[[[], []]] * 3 if inner[0] == 'N' else None)
    add('latent', N=1, iters=4)
    add('latent', N=2, iters=1, init=True)
    add('latent', N=2, iters=2, init=True, initialize=False)
    add('latent', inner='NSlackSSVM', N=1, d=2, iters=3,
        sets=[[[2, 3]], [[3, 1, 2]], [[]]])
    add('latent', inner='NSlackSSVM', N=2, d=1, iters=2,
        sets=[[[2], [6, 7]], [[], []]])
    for l in ('LatentSSVM', 'SubgradientLatentSSVM'):
        add('predict', learner=l, N=1)
        add('predict', learner=l, script=[1, 2, 2, 3, 3, 2])
        add('predict', learner=l, n_jobs=2, script=[2, 1, 3, 0, 1, 3])
    add('delegate')
    for inner in ('OneSlackSSVM', 'NSlackSSVM', 'SubgradientSSVM'):
        add('latent', inner=inner, N=2, iters=3, coded='array',
            sets=[[[], []]] * 3 if inner[0] == 'N' else None)
    add('latent', inner='NSlackSSVM', N=1, d=2, iters=3, coded='array',
        sets=[[[2, 3]], [[3, 1, 2]], [[]]])
    add('latent', inner='NSlackSSVM', N=3, d=3, iters=3, coded='array',
        sets=[[[2, 3], [], [9, 10, 11]], [[3, 1, 2], [5], [8]],
              [[1], [7, 6], []], [[], [], []]], loss=[3, 1, 4, 2, 5],
        feat=[[i % 3 - 1, i % 4, i // 2 - 2] for i in range(12)])
    add('predict', learner='LatentSSVM', N=4, coded='array',
        script=[1, 2, 2, 3, 3, 2, 0, 1, 1, 0, 2, 3])
    add('predict', learner='SubgradientLatentSSVM', N=4, coded='array',
        n_jobs=3, script=[1, 2, 2, 3, 3, 2, 0, 1, 1, 0, 2, 3])
    for N, it, k in (
            (4, 5, dict()),
            (3, 7, dict(avg='linear')),
            (3, 6, dict(avg='squared', mom='0.5')),
            (5, 4, dict(lr='0.5', decay=2, t0=3, stop=False)),
            (2, 10, dict(mom='0.9', decay=0, lr='0.125', preset=True)),
            (5, 4, dict(n_jobs=2)),
            (7, 3, dict(n_jobs=3, avg='linear', stop=False)),
            (5, 3, dict(n_jobs=-1, n_cpu=3)),
            (5, 3, dict(n_jobs=8, mom='0.5')),
            (3, 3, dict(coded='array')),
            (4, 3, dict(coded='array', n_jobs=2)),
            (3, 3, dict(coded='relaxed')),
            (3, 3, dict(coded='mixed', n_jobs=2)),
            (3, 3, dict(coded='mixed-typed')),
            (3, 3, dict(warm=True)),
            (3, 3, dict(warm=True, n_jobs=2, avg='linear'))):
        for v, cval in ((1, 1), (2, 0.5)):
            C.append(dict(name='long N=%d iters=%d v=%s C=%s %s' % (
                N, it, v, cval, sorted(k.items())), fn='long', N=N,
                iters=it, v=v, cval=cval, **k))
    return C
