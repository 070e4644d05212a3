"""What one-slack cutting-plane training does, step by step, for any model:
the reference the run of the learner is compared with."""
from . import table, qp


def feasible(h, CN, psi, neg):
    def f(a):
        les = [(0, x) for x in a]
        for j in neg or []:
            les.append((h.sumr([a[i] * psi[i][j] for i in range(len(a))]), 0))
        return les, [(h.sumr(list(a)), CN)]
    return f


def run(h, N=2, K=2, d=1, iters=1, window=0, thr=None, neg=None, check=False,
        script=None, exact=False, rescale=False, n_jobs=1, tol='1e-3',
        cache=0, cache_tol='auto', switch=None, loss=None, feat=None,
        statuses=None, values=None, bad=False, given=None, cval=None,
        again=None, coded=None, log=None, **rest):
    import pystruct.learners as L
    lossc = None
    if loss is not None:
        lossc = lambda y, z: loss[z % len(loss)]
    s = table.make(h, N, K, d, script=script, exact=exact, rescale=rescale, coded=coded,
                   lossconst=lossc,
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]))
    np = h.np
    C = h.real('C', 0.5, 16) if cval is None else np.float64(cval)
    ev = [] if log is None else log
    s.tol = h.real('tol', -16, 16) if tol == 'sym' else h.num(tol)

    def hook(self, rec, a):
        P, q, G, hh, A, b = rec
        n = len(a)
        st = statuses[self.n - 1] if statuses and \
            self.n <= len(statuses) else None
        if isinstance(values, int):
            a[:] = qp.walk(h, self.n - 1, n, values, C, C * N)
        elif values is not None:
            a[:] = [h.num(v) if isinstance(v, str) else v
                    for v in values[self.n - 1][:n]]
        elif st in (None, 'optimal'):
            # any feasible point
            for x, y in zip(qp.mv(h, G, a), hh):
                h.assume(h.le(x, y))
            for x, y in zip(qp.mv(h, A, a), b):
                h.assume(h.eq(x, y))
        ev.append(('qp', rec, a.copy(), qp.value(h, P, q, a), st))
        return st
    qp.Solver(h, hook)
    s.thr = h.num('1e-5') if thr is None else \
        h.real('thr', 0, 1) if thr == 'sym' else h.num(thr)
    kw = {} if thr is None else {'inactive_threshold': s.thr}
    if window != 'default':
        kw['inactive_window'] = window
    if cache:
        kw['inference_cache'] = cache
        kw['cache_tol'] = cache_tol if cache_tol in (None, 'auto') \
            else h.num(cache_tol)
    clf = L.OneSlackSSVM(s.m, max_iter=iters, C=C, check_constraints=check,
                         negativity_constraint=neg, n_jobs=n_jobs,
                         tol=s.tol,
                         switch_to=switch, break_on_bad=bad, **kw)
    orig = s.m.loss_augmented_inference

    def lai(x, y, w, relaxed=None):
        r = orig(x, y, w, relaxed)
        ev.append(('call', x, s.dec(r), w.copy(), s.m.inference_method, relaxed,
                   s.dec(y)))
        return r
    s.m.loss_augmented_inference = lai
    s.ev, s.clf, s.C = ev, clf, C
    if bad:
        def fit():
            s.out = clf.fit(s.X, s.YL)
        s.err = h.raises(fit, ValueError)
    else:
        s.err = None
        s.out = clf.fit(s.X, s.YL)
    if s.err is None:
        h.check('fit returns the learner', h.cond(s.out is clf))
        s.snaps = [snap(clf)]
        for warm, n in again or []:
            ev.append(('fit', warm, n))
            clf.max_iter = n
            clf.fit(s.X, s.YL, **({} if warm is None else
                                 {'warm_start': warm}))
            s.snaps.append(snap(clf))
    return s


class Snap(object):
    """what a learner holds after a fit"""


def snap(clf):
    c = Snap()
    c.w = clf.w.copy()
    for k in ('objective_curve_', 'primal_objective_curve_',
              'cached_constraint_', 'constraints_'):
        setattr(c, k, list(getattr(clf, k)))
    c.inference_cache_ = [list(S) for S in
                          getattr(clf, 'inference_cache_', None) or []]
    return c


class Ref(object):
    """follows the recorded run"""

    def __init__(self, h, s, **k):
        self.h, self.s = h, s
        self.__dict__.update(dict(dict(
            N=2, K=2, d=1, iters=1, window=0, thr=None, neg=None, tol='1e-3',
            cache=0, cache_tol='auto', switch=None, bad=False, qpcheck=True),
            **k))
        self.thr = s.thr
        if self.window == 'default':
            self.window = 50
        self.tol = s.tol
        self.pos = 0
        self.ev = list(s.ev)
        self.w = h.np.zeros(self.d)
        # a constraint: (mean difference, mean loss, labelings)
        self.cons = [([0] * self.d, 0, None)]
        self.hist = [[s.C]]
        self.primal, self.dual, self.fromcache = [], [], []
        self.cached = [[] for _ in range(self.N)]
        self.filled = False
        self.method = 'first'
        self.fit = 0
        self.obj = 0

    def more(self):
        """the other fits that were made"""
        while self.pos < len(self.ev):
            _, warm, self.iters = self.ev[self.pos]
            self.pos += 1
            self.fit += 1
            if warm is True:
                self.obj = self.dual[-1]
            else:
                self.obj = 0
                self.w = self.h.np.zeros(self.d)
                self.cons = [([0] * self.d, 0, None)]
                self.hist = [[self.s.C]]
                if warm != 'soft':
                    self.primal, self.dual, self.fromcache = [], [], []
                    self.cached = [[] for _ in range(self.N)]
                    self.filled = False
            if self.follow() is None:
                return

    def stop(self):
        from vf.harness import Stop
        raise Stop()

    def nxt(self, kind):
        h = self.h
        if self.pos < len(self.ev) and self.ev[self.pos][0] == kind:
            self.pos += 1
            return self.ev[self.pos - 1]
        h.check('steps: ' + ('the working set is re-optimised'
                             if kind == 'qp' else
                             'every sample is looked at once'), h.false())
        self.stop()

    def infer(self, method, final=False):
        h = self.h
        ys = [None] * self.N
        for _ in range(self.N):
            e = self.nxt('call')
            h.check('steps: inference at the current weights',
                    h.eq(e[3], self.w))
            h.check('every sample is looked at once',
                    h.cond(ys[e[1]] is None))
            h.check('steps: with its own label', h.cond(
                e[6] == self.s.Y[e[1]]))
            h.check('inference method', h.cond(e[4] == method))
            h.check('relaxed inference', h.cond(bool(e[5])))
            ys[e[1]] = e[2]
        if None in ys:
            self.stop()
        return ys

    def con(self, ys):
        h, s, N = self.h, self.s, self.N
        D = [s.delta(i, y) for i, y in enumerate(ys)]
        return ([h.sumr([x[k] for x in D]) / N for k in range(self.d)],
                h.sumr([s.loss(s.Y[i], y) for i, y in enumerate(ys)]) / N, ys)

    def viol(self, c, w=None):
        h = self.h
        w = self.w if w is None else w
        return c[1] - h.sumr([w[k] * c[0][k] for k in range(self.d)])

    def solve(self):
        h, s = self.h, self.s
        CN = s.C * self.N
        while True:
            _, rec, a, v, st = self.nxt('qp')
            if st in (None, 'optimal'):
                break
        again = self.pos > 1 and self.ev[self.pos - 2][0] == 'qp'
        psi = [c[0] for c in self.cons]
        if self.qpcheck and not again:
            if not qp.same_problem(h, rec, psi, [c[1] for c in self.cons],
                                   feasible(h, CN, psi, self.neg)):
                self.stop()
        h.check('qp: one variable per constraint',
                h.cond(len(a) == len(psi)))
        if len(a) != len(psi):
            self.stop()
        w = h.np.zeros(self.d)
        for x, p in zip(a, psi):
            w = w + x * h.np.array(p)
        for j in self.neg or []:
            h.check('sign constraints', h.le(w[j], 0))
        self.hist.append([])
        for r, x in zip(self.hist, a):
            r.append(x)
        if self.window:
            top = [h.maxr(r[-self.window:]) for r in self.hist]
            strongest = h.maxr(top[1:])
            keep = [i for i in range(len(top))
                    if not h.fork(top[i] < self.thr * strongest)]
            self.dropped = len(top) - len(keep)
            self.cons = [self.cons[i] for i in keep]
            self.hist = [self.hist[i] for i in keep]
        self.w = w
        return -v

    def known(self, c):
        """the constraint is in the working set already"""
        h = self.h
        return any(h.fork(h.and_(*(
            [h.eq(o[1], c[1])] +
            [h.eq(o[0][k], c[0][k]) for k in range(self.d)])))
            for o in self.cons)

    def from_cache(self):
        """the labelings a constraint is built from, or None"""
        h = self.h
        if not self.filled:
            return None
        if self.cache_tol == 'auto':
            if h.fork(self.primal[-1] - self.dual[-1] < self.ctol):
                return None
            tol = self.tol
        else:
            tol = self.ctol
        ys = []
        for i, C in enumerate(self.cached):
            best = 0
            for k in range(1, len(C)):
                a = self.s.violation(i, C[k], self.w)
                b = self.s.violation(i, C[best], self.w)
                # ties may be broken in any way
                h.assume(h.not_(h.eq(a, b)))
                if h.fork(b < a):
                    best = k
            ys.append(C[best])
        c = self.con(ys)
        if h.fork(self.viol(c) - self.last < tol) or self.known(c):
            return None
        return ys

    def follow(self):
        h, s, N, clf = self.h, self.s, self.N, self.s.clf
        C = s.C
        method = self.method
        self.last = -1
        obj = self.obj
        if self.cache:
            self.ctol = self.tol if self.cache_tol in (None, 'auto') \
                else h.num(self.cache_tol)
        for it in range(self.iters):
            ys = self.from_cache() if self.cache else None
            cached = ys is not None
            if not cached:
                ys = self.infer(method)
                v = self.viol(self.con(ys))
                if self.bad:
                    bad = h.fork(h.and_(v - self.last < 0, v > 0))
                    if bad:
                        h.check('bad inference raises',
                                h.cond(s.err is not None))
                        h.check('bad inference raises at once',
                                h.cond(self.pos == len(self.ev)))
                        return None
                if h.fork(v - self.last < self.tol) or \
                        self.known(self.con(ys)):
                    if self.switch is not None and method != self.switch:
                        method = self.switch
                        continue
                    break
                if self.cache:
                    self.filled = True
                    for i, y in enumerate(ys):
                        if y not in self.cached[i]:
                            self.cached[i].append(y)
                            self.cached[i] = self.cached[i][-self.cache:]
            c = self.con(ys)
            self.cons.append(c)
            self.primal.append(table.pos(h, self.viol(c)) * C * N +
                               table.sq(h, self.w) / 2)
            self.fromcache.append(cached)
            obj = self.solve()
            if self.cache and self.cache_tol == 'auto' and not cached:
                self.ctol = (self.primal[-1] - obj) / 4
            self.last = h.maxr([0] + [self.viol(x) for x in self.cons])
            self.dual.append(obj)
        h.check('no exception', h.cond(s.err is None))
        if s.err is not None:
            return None
        ys = self.infer(method, True)
        self.primal.append(
            h.sumr([table.pos(h, s.violation(i, y, self.w))
                    for i, y in enumerate(ys)]) * C + table.sq(h, self.w) / 2)
        self.dual.append(obj)
        self.fromcache.append(False)
        self.method = method
        end = self.pos == len(self.ev) or self.ev[self.pos][0] == 'fit'
        h.check('steps: stops when no constraint is violated more',
                h.cond(end), note='%d more' % (len(self.ev) - self.pos))
        if not end:
            return None
        self.results(s.snaps[self.fit])
        return self

    def results(self, clf):
        h = self.h
        h.check('weights', h.eq(clf.w, self.w))
        for nm, got, want in (
                ('dual objective', clf.objective_curve_, self.dual),
                ('primal objective', clf.primal_objective_curve_,
                 self.primal)):
            h.check(nm + ' curve', h.cond(len(got) == len(want)))
            for p, q in zip(got, want):
                h.check(nm, h.eq(p, q))
        h.check('which constraints came from the cache', h.cond(
            [bool(b) for b in clf.cached_constraint_] == self.fromcache))
        got = clf.constraints_
        h.check('working set', h.cond(len(got) == len(self.cons)))
        if len(got) == len(self.cons):
            for g, c in zip(got, self.cons):
                h.check('constraint', h.and_(
                    h.eq(g[0], h.np.array(c[0])), h.eq(g[1], c[1])))
        if self.cache and self.filled:
            got = clf.inference_cache_
            h.check('cached labelings', h.cond(
                [[self.s.dec(e[2]) for e in S]
                 for S in got] == self.cached))
            h.check('no more than allowed', h.cond(
                all(len(S) <= self.cache for S in got)))
        h.observe('w', clf.w)
        h.observe('dual', clf.objective_curve_)
        h.observe('primal', clf.primal_objective_curve_)
