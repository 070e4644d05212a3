"""What n-slack cutting-plane training does, step by step, for any model:
the reference the run of the learner is compared with."""
from . import table, qp


def decide(h, c):
    return h.fork(c)


def slices(N, bs):
    n = -(-N // bs)
    out, start = [], 0
    for p in range(n):
        k = N // n + (1 if p < N % n else 0)
        out.append(list(range(start, start + k)))
        start += k
    return out


def feasible(h, C, sets, psi, neg):
    def f(a):
        les = [(0, x) for x in a]
        k = 0
        for S in sets:
            if S:
                les.append((h.sumr([a[k + j] for j in range(len(S))]), C))
            k += len(S)
        for j in neg or []:
            les.append((h.sumr([a[i] * psi[i][j] for i in range(len(a))]), 0))
        return les, []
    return f


def run(h, N=2, K=2, d=1, iters=1, batch=100, window=50, thr=None, neg=None,
        check=True, script=None, exact=False, rescale=False, n_jobs=1,
        given=None, tol='1e-3', cval=None, switch=None, loss=None, feat=None,
        qpcheck=True, statuses=None, skip=False, values=None, again=None,
        coded=None, log=None):
    import pystruct.learners as L
    lossc = None
    if loss is not None:
        lossc = lambda y, z: loss[z % len(loss)]
    s = table.make(h, N, K, d, script=script, exact=exact, rescale=rescale, coded=coded,
                   lossconst=lossc,
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]))
    np = h.np
    C = h.real('C', 0.5, 16) if cval is None else np.float64(cval)
    ev = [] if log is None else log
    s.tol = h.real('tol', -16, 16) if tol == 'sym' else h.num(tol)

    def hook(self, rec, a):
        # any feasible point
        P, q, G, hh, A, b = rec
        n = len(a)
        if values is not None:
            a[:] = qp.walk(h, self.n - 1, n, values, C)
            st = None
        else:
            Ga = qp.mv(h, G, a)
            st = statuses[self.n - 1] if statuses and \
                self.n <= len(statuses) else None
            if st in (None, 'optimal'):
                for x, y in zip(Ga, hh):
                    h.assume(h.le(x, y))
        ev.append(('qp', rec, a.copy(), qp.value(h, P, q, a), st))
        return st
    sol = qp.Solver(h, hook)
    s.thr = h.num('1e-5') if thr is None else \
        h.real('thr', 0, 1) if thr == 'sym' else h.num(thr)
    kw = {} if thr is None else {'inactive_threshold': s.thr}
    if window != 'default':
        kw['inactive_window'] = window
    clf = L.NSlackSSVM(s.m, max_iter=iters, C=C, check_constraints=check,
                       negativity_constraint=neg, n_jobs=n_jobs,
                       batch_size=batch, tol=s.tol,
                       switch_to=switch, **kw)
    orig = s.m.loss_augmented_inference

    def lai(x, y, w, relaxed=None):
        r = orig(x, y, w, relaxed)
        ev.append(('call', x, s.dec(r), w.copy(), s.m.inference_method))
        return r
    s.m.loss_augmented_inference = lai
    s.ev, s.clf, s.C = ev, clf, C
    kwf = {}
    if given is not None:
        s.m.initialize(s.X, s.YL)
        kwf['constraints'] = [
            [[s.enc(y), s.delta(i, y), s.loss(s.Y[i], y)] for y in S]
            for i, S in enumerate(given)]
    out = clf.fit(s.X, s.YL, **kwf)
    h.check('fit returns the learner', h.cond(out is clf))
    s.snaps = [snap(clf)]
    for warm, n in again or []:
        ev.append(('fit', warm, n))
        clf.max_iter = n
        clf.fit(s.X, s.YL, **({'constraints': clf.constraints_} if warm
                             else {}))
        s.snaps.append(snap(clf))
    return s


class Snap(object):
    """what a learner holds after a fit"""


def snap(clf):
    c = Snap()
    c.w = clf.w.copy()
    c.objective_curve_ = list(clf.objective_curve_)
    c.primal_objective_curve_ = list(clf.primal_objective_curve_)
    c.constraints_ = [[list(k) for k in S] for S in clf.constraints_]
    return c


def follow(h, s, N, K, d, iters, batch=100, window=50, thr=None, neg=None,
           check=True, given=None, tol='1e-3', qpcheck=True, switch=None,
           prune=None, **rest):
    """check the recorded run against the reference"""
    st = State()
    st.pos, st.fit, st.method = 0, 0, 'first'
    st.sets = [list(g) for g in (given or [[]] * N)]
    st.idle = [[0] * len(g) for g in st.sets]
    st.curve = []
    args = dict(N=N, K=K, d=d, batch=batch, window=window, thr=thr, neg=neg,
                check=check, tol=tol, qpcheck=qpcheck, switch=switch)
    w = one(h, s, st, iters=iters, **args)
    while w is not None and st.pos < len(s.ev):
        _, warm, iters = s.ev[st.pos]
        st.pos += 1
        st.fit += 1
        if not warm:
            st.sets = [[] for _ in range(N)]
            st.idle = [[] for _ in range(N)]
            st.curve = []
        w = one(h, s, st, iters=iters, **args)
    return w


class State(object):
    pass


def plan(N, K, d, iters, v, free=2, more=0):
    """a long run: given features, answers and most losses"""
    feat = [[((i * i + 2 * i * j + j + i // K + i // 7 * (j * j + 1)) % 11
              - 5) / (2 if v == 2 else 8) for j in range(d)]
            for i in range(N * K)]
    script = [(i // N * v + i % N + 1 + i // 5 * (v - 1)) % K
              for i in range(iters * N + N)]
    loss = [(i * i + i // 2) % 5 + 1 + more if i % K else 0 for i in range(N * K)]
    for i in range(free):
        loss[(i * (K + 1) + 2) % (N * K)] = None
    return dict(feat=feat, script=script, loss=loss, values=v)


def one(h, s, st, N, K, d, iters, batch, window, thr, neg, check, tol,
        qpcheck, switch):
    """one call of fit"""
    np = h.np
    thr = s.thr
    window = 50 if window == 'default' else window
    tol = s.tol
    eps = h.num('1e-5')
    C, ev = s.C, list(s.ev)
    sets, idle, curve, method = st.sets, st.idle, st.curve, st.method
    w = np.zeros(d)
    obj = 0

    def nxt(kind):
        if st.pos < len(ev) and ev[st.pos][0] == kind:
            st.pos += 1
            return ev[st.pos - 1]
        h.check('steps: ' + ('the working set is re-optimised'
                             if kind == 'qp' else
                             'every sample is looked at once per pass'),
                h.false())
        from vf.harness import Stop
        raise Stop()

    def solve():
        _, rec, a, v, status = nxt('qp')
        psi = [s.delta(i, y) for i in range(N) for y in sets[i]]
        ls = [s.loss(s.Y[i], y) for i in range(N) for y in sets[i]]
        if status not in (None, 'optimal'):
            # once more, slightly regularised
            _, rec, a, v, status = nxt('qp')
        elif qpcheck:
            if not qp.same_problem(h, rec, psi, ls,
                                   feasible(h, C, sets, psi, neg)):
                from vf.harness import Stop
                raise Stop()
        h.check('qp: one variable per constraint',
                h.cond(len(a) == len(psi)))
        if len(a) != len(psi):
            from vf.harness import Stop
            raise Stop()
        w = np.zeros(d)
        for x, p in zip(a, psi):
            w = w + x * p
        if neg:
            for j in neg:
                h.check('sign constraints', h.le(w[j], 0))
        # constraints without multiplier for too long are dropped
        if window:
            k = 0
            for i in range(N):
                keep = []
                for j in range(len(sets[i])):
                    if decide(h, a[k + j] < thr * C):
                        idle[i][j] += 1
                    if idle[i][j] <= window:
                        keep.append(j)
                k += len(sets[i])
                sets[i] = [sets[i][j] for j in keep]
                idle[i] = [idle[i][j] for j in keep]
        return w, -v
    if any(sets):
        w, obj = solve()
    bs = N if batch == -1 else batch
    for it in range(iters):
        new = 0
        for b in slices(N, bs):
            add = 0
            for i in b:
                _, x, y, wc, meth = nxt('call')
                h.check('steps: every sample is looked at once per pass',
                        h.cond(x == i))
                h.check('steps: inference with the current weights',
                        h.eq(wc, w))
                h.check('inference method', h.cond(meth == method))
                if x != i:
                    return None
                sl = s.violation(i, y, w)
                sl = table.pos(h, sl)
                l = s.loss(s.Y[i], y)
                if not decide(h, l > 0):
                    continue
                if decide(h, sl < eps) or y in sets[i]:
                    continue
                if check and any(decide(
                        h, sl - table.pos(h, s.violation(i, o, w)) < -eps)
                        for o in sets[i]):
                    continue
                sets[i].append(y)
                idle[i].append(0)
                add += 1
            if add:
                w, obj = solve()
                new += add
        curve.append(obj)
        stop = new == 0
        if not stop and it > 1 and decide(h, curve[-1] - curve[-2] < tol):
            stop = True
        if stop:
            if switch is not None and method != switch:
                method = switch
                continue
            break
    # the objective at the end
    parts = []
    for i in range(N):
        _, x, y, wc, meth = nxt('call')
        h.check('final objective at the final weights', h.eq(wc, w))
        h.check('final objective over all samples', h.cond(x == i))
        if x != i:
            return None
        parts.append(table.pos(h, s.violation(i, y, w)))
    end = st.pos == len(ev) or ev[st.pos][0] == 'fit'
    h.check('steps: stops when nothing is violated more', h.cond(end),
            note='%d more' % (len(ev) - st.pos))
    if not end:
        return None
    st.method = method
    clf = s.snaps[st.fit]
    curve.append(obj)
    h.check('weights', h.eq(clf.w, w))
    h.check('dual objective curve', h.cond(
        len(clf.objective_curve_) == len(curve)))
    if len(clf.objective_curve_) == len(curve):
        for p, q in zip(clf.objective_curve_, curve):
            h.check('dual objective', h.eq(p, q))
    h.check('primal objective', h.eq(
        clf.primal_objective_curve_[-1],
        h.sumr(parts) * C + table.sq(h, w) / 2))
    got = clf.constraints_
    h.check('working set', h.cond(
        [[s.dec(c[0]) for c in S] for S in got] == sets), note=str(sets))
    for i, S in enumerate(got):
        for c in S:
            h.check('constraint', h.and_(
                h.eq(c[1], s.delta(i, c[0])),
                h.eq(c[2], s.loss(s.Y[i], c[0]))))
    h.observe('w', clf.w)
    h.observe('curve', clf.objective_curve_)
    import os
    if os.environ.get("VF_LEN"): print("LEN", it, len(curve), [len(x) for x in sets], file=__import__("sys").stderr)
    return w
