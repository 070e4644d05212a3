"""The direct learners: the simplex search gets the primal objective, and the
plain SVM solves the soft-margin dual and predicts from its solution."""
from . import table
from . import qp

BOUNDS = ('simplex search: up to 3 samples with up to 3 labels, 2 features, '
          'every weight vector the search tries, every joint feature, loss '
          'and C up to 64; SVM: up to 3 samples with 1 or 2 features, every '
          'sample, every label, every feasible answer of the solver')
OUTSIDE = ('the Nelder-Mead search and the QP solver themselves; training '
           'sets without any support vector; rounding')


def simplex(h, N=2, K=2, d=2, exact=True, rescale=False, evals=2):
    from pystruct.learners import PrimalDSStructuredSVM
    from vf.hooks import HOOKS
    np = h.np
    s = table.make(h, N, K, d, exact=exact, rescale=rescale)
    s.m.initialize(s.X, s.Y)
    C = h.real('C', 0, 64)
    h.assume(h.lt(0, C))
    found = []

    def fmin(func, x0, kw):
        h.check('start', h.cond(tuple(x0.shape) == (d,)))
        k = len(found)
        for e in range(evals):
            w = h.reals('w_%d_%d' % (k, e), d)
            w0 = w.copy()
            n0 = len(s.calls)
            v = func(w)
            h.check('weights kept', h.eq(w, w0))
            calls = s.calls[n0:]
            h.check('one inference per sample', h.cond(
                sorted(c[1] for c in calls) == s.X and
                all(c[0] == 'lai' for c in calls)))
            h.check('at the weights of the search',
                    h.and_(*[h.eq(c[3], w0) for c in calls]))
            if exact:
                parts = [h.maxr([s.violation(i, i * K + j, w)
                                 for j in range(K)]) for i in range(N)]
            else:
                parts = [table.pos(h, s.violation(c[1], c[2], w))
                         for c in calls]
            # times N and C: no division by a variable
            h.check('objective', h.eq(
                2 * N * C * v, 2 * C * h.sumr(parts) +
                N * table.sq(h, w)))
        found.append((w0, v))
        if kw.get('full_output'):
            return w, v, 5, 9, 0
        return w
    HOOKS.fmin = fmin
    L = PrimalDSStructuredSVM(s.m, C=C)
    r = L.fit(s.X, s.Y)
    h.check('fit returns the learner', h.cond(r is L))
    h.check('searched', h.cond(len(found) > 0))
    best = h.or_(*[h.and_(h.eq(L.w, w), *[h.le(v, v2) for _, v2 in found])
                   for w, v in found])
    h.check('the best weights found', best)
    h.observe('w', L.w)


def svm(h, n=2, F=1, ys=(1, -1), C=None, npred=1):
    from pystruct.learners.svm import SVM
    from vf.hooks import HOOKS
    np = h.np
    X = h.reals('x', (n, F))
    y = np.array(list(ys), dtype=float)
    if C is None:
        C = h.real('C', 0, 64)
        h.assume(h.lt(0, C))
    X0, y0 = X.copy(), y.copy()
    rec = []

    def solve(P, q, G, hh, A, b):
        rec.append((P, q, G, hh, A, b))
        a = [h.real('alpha%d' % i, 0, 64) for i in range(n)]
        for v in a:
            h.assume(h.le(v, C))
        h.assume(h.eq(h.sumr([y0[i] * a[i] for i in range(n)]), 0))
        # multipliers are clearly zero or clearly not, one is not
        for v in a:
            h.assume(h.or_(h.eq(v, 0), h.le(h.num('1e-3'), v)))
        h.assume(h.or_(*[h.lt(0, v) for v in a]))
        rec.append(a)
        return {'x': np.array(a).reshape(-1, 1), 'status': 'optimal'}
    HOOKS.qp = solve
    L = SVM() if C == 1 and not hasattr(C, 'v') else SVM(C=C)
    L.fit(X, y)
    h.check('one problem', h.cond(len(rec) == 2))
    psi = [y0[i] * X0[i] for i in range(n)]

    def feasible(a):
        return ([(0, v) for v in a] + [(v, C) for v in a],
                [(h.sumr([y0[i] * a[i] for i in range(n)]), 0)])
    qp.same_problem(h, rec[0], psi, [1] * n, feasible, label='dual')
    a = rec[1]
    w = [h.sumr([a[i] * psi[i][f] for i in range(n)]) for f in range(F)]
    h.check('weights', h.eq(L.w, np.array(w)))
    # offset: mean over the support vectors
    sv = [h.fork(h.lt(0, a[i])) for i in range(n)]
    k = [i for i in range(n) if sv[i]]
    off = h.sumr([y0[i] - table.dot(h, w, X0[i]) for i in k])
    h.check('offset', h.eq(L.b * len(k), off))
    T = h.reals('t', (npred, F))
    T0 = T.copy()
    dec = L.decision_function(T)
    h.check('decision', h.and_(*[
        h.eq(dec[j] * len(k), table.dot(h, w, T0[j]) * len(k) + off)
        for j in range(npred)]))
    p = L.predict(T)
    for j in range(npred):
        sg = h.ite(h.lt(0, dec[j]), 1, h.ite(h.lt(dec[j], 0), -1, 0))
        h.check('sign', h.eq(p[j], sg))
    h.check('data kept', h.and_(h.eq(X, X0), h.eq(y, y0), h.eq(T, T0)))
    h.observe('w', L.w)
    h.observe('b', L.b)


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    for ex in (True, False):
        for rs in (False, True):
            add('simplex', exact=ex, rescale=rs, evals=1)
    add('simplex', N=1, K=3, exact=True, evals=1)
    add('simplex', N=1, K=3, exact=False, evals=1)
    add('simplex', N=1, K=2, d=1, exact=False, evals=2)
    add('simplex', N=1, K=2, d=3, exact=False, evals=1)
    add('simplex', N=2, K=2, d=5, exact=False, evals=1)
    add('simplex', N=3, K=2, exact=False, evals=1)
    if big:
        add('simplex', N=2, K=3, exact=False, evals=1)
        add('simplex', N=3, K=2, exact=True, evals=1)
        add('simplex', N=2, K=2, d=3, exact=False, evals=2)
    for F in (1, 2):
        add('svm', n=2, F=F, ys=[1, -1], npred=2)
    add('svm', n=3, F=1, ys=[1, -1, -1])
    add('svm', n=3, F=2, ys=[-1, -1, 1])
    add('svm', n=2, F=1, ys=[-1, 1], C=1)
    if big:
        add('svm', n=4, F=1, ys=[1, -1, -1, 1])
    return C
