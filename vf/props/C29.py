"""Nothing given is changed, and answers do not depend on earlier calls."""
from .common import build, build_nt, GRAPHS, NT

BOUNDS = ('all models; graphs of up to 4 nodes, 3 states, 2 features; every '
          'real weight, feature and potential; any order of two calls, '
          'another sample in between; solver answers that depend on the '
          'problem handed over only')
OUTSIDE = ('longer histories; larger samples; models shared by threads; the '
           'solvers themselves')


def copy(v):
    if isinstance(v, tuple):
        return tuple(copy(e) for e in v)
    if isinstance(v, list):
        return [copy(e) for e in v]
    if hasattr(v, 'copy') and hasattr(v, 'shape'):
        return v.copy()
    return v


def same(h, a, b):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return h.false()
        return h.and_(*[same(h, x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, str):
        return h.cond(a == b if isinstance(a, str) else a is b)
    return h.eq(a, b)


def scramble(v):
    """somebody writes into what was returned"""
    if isinstance(v, (tuple, list)):
        for e in v:
            scramble(e)
    elif getattr(v, 'shape', ()) != () and v.flags.writeable:
        v[...] = 1


class Calls(list):
    favour = None


def solver(h, status, g=None):
    """hands out fresh marginals: 3/4 for one state (of the labels of g, as
    models with hidden nodes want it), shared by the others"""
    from vf.hooks import HOOKS
    np = h.np
    calls = Calls()
    calls.favour = g

    def node(u, k):
        n, S = u.shape
        m = np.zeros((n, S))
        for i in range(n):
            for s in range(S):
                f = (i + k) % S
                if calls.favour is not None:
                    f = calls.favour.ys[i]
                m[i, s] = (0.75 if S > 1 else 1) if s == f else \
                    0.25 / (S - 1)
        return m

    def ad3(U, E, PW, kw):
        calls.append((copy(U), copy(E), copy(PW), sorted(kw)))
        if isinstance(U, list):
            mu = [node(u, t) for t, u in enumerate(U)]
            pm = [np.ones((len(e), 2)) for e in E]
        else:
            mu = node(U, 1)
            pm = np.zeros((len(E), U.shape[1] ** 2))
            for e in range(len(E)):
                pm[e, e % U.shape[1]] = 1
        return mu, pm, 0.5, status

    def ad3c(U, E, PW, con, kw):
        calls.append((copy(U), copy(E), copy(PW), copy(con), sorted(kw)))
        mu, pm, v, st = ad3(U, E, PW, {})
        calls.pop()
        return mu, pm, v, st
    HOOKS.ad3, HOOKS.ad3c = ad3, ad3c
    return calls


def make(h, kind, spec, m=None, tag=''):
    spec = dict(spec)
    # for the same numbers of features
    if kind == 'typed':
        g = build_nt(h, m=m, tag=tag, wfree=False, **spec)
        ys = [a[i % len(a)] for i, a in enumerate(g.allowed)]
        zs = [a[-1] for a in g.allowed]
    else:
        g = build(h, kind, m=m, tag=tag, wfree=False, **spec)
        ys = [a[i % len(a)] for i, a in enumerate(g.allowed)]
        zs = [a[-1] for a in g.allowed]
    g.w = h.reals('w' + tag, (int(g.m.size_joint_feature),))
    g.y, g.z = g.mk(ys), g.mk(zs)
    g.ys = ys
    g.lat = g if kind in ('latnode', 'eflatnode') else None
    return g


def ops(h, g, m, relaxed, names=None):
    x, y, z, w = g.x, g.y, g.z, g.w
    o = {
        'joint_feature': lambda: m.joint_feature(x, y),
        'inference': lambda: m.inference(x, w),
        'relaxed inference': lambda: m.inference(x, w, relaxed=True),
        'augmented': lambda: m.loss_augmented_inference(x, y, w),
        'relaxed augmented':
            lambda: m.loss_augmented_inference(x, y, w, relaxed=True),
        'loss': lambda: m.loss(y, z),
        'batch_loss': lambda: m.batch_loss([y, z], [z, y]),
        'batch_inference': lambda: m.batch_inference([x, x], w),
        'batch_augmented': lambda: m.batch_loss_augmented_inference(
            [x, x], [y, z], w),
        'batch_joint_feature': lambda: m.batch_joint_feature([x, x], [y, z]),
        'max_loss': lambda: m.max_loss(y),
    }
    if g.kind.startswith('lat') or g.kind == 'eflatnode':
        o['latent'] = lambda: m.latent(x, y, w)
        o['label_from_latent'] = lambda: m.label_from_latent(y)
        del o['max_loss']
    if relaxed:
        mu, pm = relaxed
        o['relaxed joint_feature'] = lambda: m.joint_feature(x, (mu, pm))
        if g.kind not in ('latgraph', 'latgrid', 'latdirgrid', 'latnode',
                          'eflatnode', 'typed'):
            o['relaxed loss'] = lambda: m.loss(y, (mu, pm))
    return [(k, o[k]) for k in sorted(o) if names is None or k in names]


def marginals(h, g, m=None):
    """a relaxed labeling, or None"""
    np = h.np
    if g.kind in ('typed', 'multilabel'):
        return None
    E = (m or g.m)._get_edges(g.x)
    mu = h.reals('mu', (g.n, g.S), 0, 1)
    pm = h.reals('pm', (len(E), g.S * g.S), 0, 1)
    if g.shape:
        mu = mu.reshape(g.shape + (g.S,))
    return mu, pm


def kept(h, kind, spec, status='fractional', names=None):
    """arguments are kept, and the same call answers the same again"""
    g = make(h, kind, spec)
    g.kind = kind
    calls = solver(h, status, g.lat)
    rel = marginals(h, g)
    state = (g.x, g.y, g.z, g.w, rel)
    before = copy(state)
    for nm, f in ops(h, g, g.m, rel, names):
        del calls[:]
        r = f()
        c1, k1 = list(calls), copy(r)
        h.check('arguments kept', same(h, state, before), note=nm)
        del calls[:]
        r = f()
        h.check('same problem again', same(h, list(calls), c1), note=nm)
        h.check('same answer again', same(h, r, k1), note=nm)
        if nm == 'label_from_latent':
            continue
        scramble(r)
        h.check('returned arrays are not the arguments',
                same(h, state, before), note=nm)
        del calls[:]
        r = f()
        h.check('same problem after writing to the result',
                same(h, list(calls), c1), note=nm)
        h.check('same answer after writing to the result', same(h, r, k1),
                note=nm)


def history(h, kind, spec, other, names=None, status='fractional'):
    """a used model answers what a new one does"""
    a = make(h, kind, spec)
    used = a.m
    b = make(h, kind, other, m=used, tag='b')
    fresh = make(h, kind, spec).m
    a.kind = b.kind = kind
    calls = solver(h, status, a.lat)
    rel = marginals(h, a, fresh)
    relb = marginals(h, b) and tuple(
        h.np.ones(v.shape) for v in marginals(h, b))
    want = []
    for nm, f in ops(h, a, fresh, rel, names):
        del calls[:]
        r = f()
        want.append((copy(r), list(calls)))
    # everything else first, in another order
    calls.favour = b.lat
    for nm, f in reversed(ops(h, b, used, relb, names)):
        f()
    calls.favour = a.lat
    for (nm, f), (r1, c1) in zip(ops(h, a, used, rel, names), want):
        del calls[:]
        r = f()
        h.check('same problem as a new model', same(h, list(calls), c1),
                note=nm)
        h.check('same answer as a new model', same(h, r, r1), note=nm)


def flat(h, cls, S, cw, history):
    """the unstructured models"""
    import pystruct.models as M
    np = h.np
    F = 2
    c = None if not cw else [h.real('c%d' % i, 0, 8) for i in range(S)]
    if cls == 'BinaryClf':
        mk = lambda: M.BinaryClf(F)
        ys = [1, -1]
    else:
        mk = lambda: M.MultiClassClf(
            F, S, class_weight=None if c is None else list(c))
        ys = [S - 1, 0]
    m = mk()
    X, w = h.reals('x', (2, F)), h.reals('w', m.size_joint_feature)
    Y = np.array(ys)
    X2, w2 = h.reals('z', (1, F)), h.reals('v', m.size_joint_feature)
    state = (X, Y, w, X2, w2)
    before = copy(state)
    o = [('joint_feature', lambda m: m.joint_feature(X[0], ys[0])),
         ('batch_joint_feature', lambda m: m.batch_joint_feature(X, Y)),
         ('loss', lambda m: m.loss(ys[0], ys[1])),
         ('batch_loss', lambda m: m.batch_loss(Y, Y[::-1])),
         ('max_loss', lambda m: m.max_loss(Y[0])),
         ('inference', lambda m: m.inference(X[0], w)),
         ('augmented',
          lambda m: m.loss_augmented_inference(X[0], ys[0], w)),
         ('batch_inference', lambda m: m.batch_inference(X, w)),
         ('batch_augmented',
          lambda m: m.batch_loss_augmented_inference(X, Y, w))]
    if history:
        o = [e for e in o if e[0] in ('inference', 'batch_augmented',
                                      'batch_joint_feature')]
        m.batch_inference(X2, w2)
        m.batch_joint_feature(X2, Y[:1])
        m.batch_loss_augmented_inference(X2, Y[:1], w2)
    for nm, f in o:
        r = f(mk())
        k = copy(r)
        h.check('arguments kept', same(h, state, before), note=nm)
        h.check('same answer again', same(h, f(m), k), note=nm)
        scramble(r)
        h.check('returned arrays are not the arguments',
                same(h, state, before), note=nm)
        h.check('same answer after writing to the result',
                same(h, f(m), k), note=nm)


def dispatch(h, method, n, S, edges, shared):
    """inference itself keeps the potentials"""
    from pystruct.inference import inference_dispatch, compute_energy
    from vf.hooks import HOOKS
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', (S, S) if shared else (len(edges), S, S))
    state = (U, P, E)
    before = copy(state)
    calls = solver(h, 'integral')
    opts = {}
    if isinstance(method, (list, tuple)):
        opts = dict(method[1])
        m = (method[0], dict(opts))
    else:
        m = method

    def lp(c, G, hh, A, b):
        x = np.zeros(len(c))
        x[:] = h.num('1') / S ** 2
        x[:n * S] = h.num('1') / S
        calls.append([copy(v) for v in (c, G, hh, A, b)])
        return {'x': x, 'status': 'optimal', 'primal objective': 0.25}
    HOOKS.lp = lp
    kw = [dict(), dict(return_energy=True)]
    if m == 'lp' or m == 'ad3':
        kw.append(dict(relaxed=True))
    if m in ('unary', 'max-product'):
        kw.pop()
    for k in kw:
        del calls[:]
        r = inference_dispatch(U, P, E, m, **k)
        c1, k1 = list(calls), copy(r)
        h.check('potentials kept', same(h, state, before), note=str(k))
        del calls[:]
        scramble(r)
        h.check('results are not the potentials', same(h, state, before),
                note=str(k))
        r = inference_dispatch(U, P, E, m, **k)
        h.check('same problem again', same(h, list(calls), c1), note=str(k))
        h.check('same labels again', same(h, r, k1), note=str(k))
        if opts:
            h.check('options kept', h.cond(m[1] == opts))
    y = np.zeros(n, dtype='int64')
    e = compute_energy(U, P, E, y)
    h.check('energy: potentials kept', same(h, state, before))
    h.check('energy again', h.eq(compute_energy(U, P, E, y), e))


def learner(h, cls, n_jobs=1, shuffle=None, N=3, extra=()):
    """training, predicting and scoring keep the data"""
    import pystruct.learners as L
    import pystruct.models as M
    from vf.hooks import HOOKS
    np = h.np
    X = h.reals('x', (N, 1))
    Y = np.array([i % 2 for i in range(N)])
    m = M.MultiClassClf(1, 2)
    state = (X, Y)
    HOOKS.perm = lambda n: list(range(n))[::-1]

    def qp(P, q, G, hh, A, b):
        k = len(q)
        v = [0.5 / k] * k
        return {'x': v, 'z': [0] * len(hh), 'y': [0], 'status': 'optimal',
                'primal objective': 0.25}
    HOOKS.qp = qp
    kw = {'max_iter': 1, 'n_jobs': n_jobs}
    if shuffle is not None:
        kw['shuffle'] = shuffle
    kw.update(dict(extra))
    if cls in ('StructuredPerceptron',):
        c = getattr(L, cls)(m, **kw)
    elif cls == 'FrankWolfeSSVM':
        kw.pop('shuffle', None)
        c = L.FrankWolfeSSVM(m, random_state=0,
                              line_search=False, **kw)
    else:
        c = getattr(L, cls)(m, C=1, **kw)
    before = copy(state)
    data = [X, Y]
    c.fit(X, Y)
    h.check('fit keeps the data', same(h, state, before))
    c.w = h.reals('w', m.size_joint_feature)
    w = c.w.copy()
    p = c.predict(X)
    h.check('predict keeps the data and the weights',
            h.and_(same(h, state, before), h.eq(c.w, w)))
    c.score(X, Y)
    h.check('score keeps the data and the weights',
            h.and_(same(h, state, before), h.eq(c.w, w)))
    h.check('predictions again', same(h, c.predict(X), p))
    h.check('lists are the same', h.cond(data[0] is X and data[1] is Y))


G4 = [[0, 1], [2, 0], [0, 3]]
P3 = [[1, 0], [1, 2]]
SPECS = {
    'graph': (dict(S=2, F=1, n=3, edges=P3, cw=[1, 3]),
              dict(S=2, F=1, n=2, edges=[[0, 1]], cw=[1, 3])),
    'graph directed': (dict(S=3, F=2, n=2, edges=[[1, 0]], directed=True),
                       dict(S=3, F=2, n=2, edges=[[0, 1]], directed=True)),
    'chain': (dict(S=2, F=2, n=3), dict(S=2, F=2, n=2)),
    'edgefeat': (dict(S=2, F=1, Fe=2, n=3, edges=P3, sym=(0,), anti=(1,),
                      cw=[2, 1]),
                 dict(S=2, F=1, Fe=2, n=3, edges=[[0, 1], [2, 1]], sym=(0,),
                      anti=(1,), cw=[2, 1])),
    'grid': (dict(S=2, F=1, r=1, c=4), dict(S=2, F=1, r=2, c=2)),
    'grid 8': (dict(S=2, F=1, r=2, c=2, nb=8),
               dict(S=2, F=1, r=1, c=4, nb=8)),
    'dirgrid': (dict(S=2, F=1, r=2, c=1), dict(S=2, F=1, r=1, c=2)),
    'dirgrid 8': (dict(S=2, F=1, r=2, c=2, nb=8),
                  dict(S=2, F=1, r=2, c=1, nb=8)),
    'multilabel': (dict(L=3, F=2, edges=P3), dict(L=3, F=2, edges=P3)),
    'latgraph': (dict(L=2, spl=[2, 1], F=1, n=2, edges=[[1, 0]]),
                 dict(L=2, spl=[2, 1], F=1, n=3, edges=P3)),
    'latgrid': (dict(L=2, spl=2, F=1, r=1, c=2),
                dict(L=2, spl=2, F=1, r=2, c=1)),
    'latdirgrid': (dict(L=2, spl=[1, 2], F=1, r=1, c=2),
                   dict(L=2, spl=[1, 2], F=1, r=2, c=1)),
    'latnode': (dict(L=2, Sh=2, F=1, n=2, nh=1, edges=[[0, 2], [2, 1]],
                     cw=[1, 2]),
                dict(L=2, Sh=2, F=1, n=1, nh=2, edges=[[0, 2], [0, 1]],
                     cw=[1, 2])),
    'latnode lnf': (dict(L=2, Sh=1, F=1, n=1, nh=1, edges=[[0, 1]],
                         lnf=True, cw=[1, 1]),
                    dict(L=2, Sh=1, F=1, n=2, nh=1, edges=[[0, 2]],
                         lnf=True, cw=[1, 1])),
    'eflatnode': (dict(L=2, Sh=2, F=1, Fe=2, n=2, nh=1,
                       edges=[[0, 2], [2, 1]], cw=[1, 2]),
                  dict(L=2, Sh=2, F=1, Fe=2, n=1, nh=2,
                       edges=[[0, 2], [0, 1]], cw=[1, 2])),
    'typed': (NT['two'], dict(NT['two'], nodes=(1, 2),
                              edges={'0,1': [[0, 1]], '1,1': [[1, 0]]})),
    'typed rev': (NT['two-rev'], dict(NT['two-rev'], nodes=(1, 1),
                                      edges={'1,0': [[0, 0]]})),
}


def configs(tier):
    C = []

    def add(fn, nm, **k):
        C.append(dict(k, name='%s %s' % (fn, nm), fn=fn))
    for k in sorted(SPECS):
        a, b = SPECS[k]
        kind = k.split()[0]
        add('kept', k, kind=kind, spec=a)
        add('kept', k + ' integral', kind=kind, spec=b, status='integral')
        add('history', k, kind=kind, spec=a, other=b)
        if a != b:
            add('history', k + ' swapped', kind=kind, spec=b, other=a)
    for hist in (False, True):
        add('flat', 'BinaryClf %s' % hist, cls='BinaryClf', S=2, cw=False,
            history=hist)
        add('flat', 'MultiClassClf 2 cw %s' % hist, cls='MultiClassClf',
            S=2, cw=True, history=hist)
    add('flat', 'MultiClassClf 3', cls='MultiClassClf', S=3, cw=False,
        history=False)
    for m in ('ad3', 'lp', ['ad3', {'branch_and_bound': True}]):
        for sh in (False, True):
            add('dispatch', '%s %s' % (m, sh), method=m, n=3, S=2, edges=P3,
                shared=sh)
            add('dispatch', '%s cycle %s' % (m, sh), method=m, n=3, S=3,
                edges=GRAPHS['cyc3'][1], shared=sh)
    for sh in (False, True):
        add('dispatch', 'max-product chain %s' % sh, method='max-product',
            n=3, S=2, edges=[[0, 1], [1, 2]], shared=sh)
        add('dispatch', 'max-product tree %s' % sh, method='max-product',
            n=3, S=2, edges=[[2, 0], [1, 2]], shared=sh)
        add('dispatch', 'max-product loop %s' % sh,
            method=['max-product', {'max_iter': 1}], n=3, S=2,
            edges=GRAPHS['cyc3'][1], shared=sh)
    for cls in ('OneSlackSSVM', 'NSlackSSVM', 'SubgradientSSVM',
                'FrankWolfeSSVM', 'StructuredPerceptron'):
        for j in (1, 2):
            if j == 2 and cls == 'FrankWolfeSSVM':
                continue
            add('learner', '%s %d' % (cls, j), cls=cls, n_jobs=j)
    add('learner', 'SubgradientSSVM shuffle', cls='SubgradientSSVM',
        shuffle=True)
    add('learner', 'SubgradientSSVM sequential', cls='SubgradientSSVM',
        extra=dict(batch_size=1))
    add('learner', 'FrankWolfeSSVM batch', cls='FrankWolfeSSVM',
        extra=dict(batch_mode=True))
    add('learner', 'NSlackSSVM batches', cls='NSlackSSVM',
        extra=dict(batch_size=2))
    add('learner', 'NSlackSSVM shrinking', cls='NSlackSSVM', n_jobs=1,
        extra=dict(switch_to='ad3'))
    add('learner', 'OneSlackSSVM cache', cls='OneSlackSSVM',
        extra=dict(inference_cache=2))
    add('dispatch', 'unary', method='unary', n=2, S=3, edges=[],
        shared=True)
    return C
