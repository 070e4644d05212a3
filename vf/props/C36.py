"""OpenGM and QPBO, where they are installed, get the problem as it is, and
what is installed decides which methods are listed and chosen."""
import types
from .common import build, dot, Inst, few, large, _ring, _E9
from .mapc import on_line

BOUNDS = ('up to 4 nodes, 3 edges and 3 states; every real potential (for '
          'QPBO up to 1000 in size); potentials on a line or given features, '
          'and listed labelings, for up to 270 nodes, 280 edges, 130 states; '
          'every answer of the back end, every '
          'documented OpenGM algorithm, every combination of installed '
          'packages')
OUTSIDE = ('the back ends themselves, which are not installed here: their '
           'interface is modelled by a recorder; algorithms that are not '
           'documented')
ALGS = {'bp': 'BeliefPropagation', 'dd': 'DualDecompositionSubgradient',
        'trws': 'TrwsExternal', 'trw': 'TreeReweightedBp', 'gibbs': 'Gibbs',
        'lf': 'LazyFlipper', 'fm': 'AlphaExpansionFusion',
        'dyn': 'DynamicProgramming', 'gc': 'GraphCut',
        'alphaexp': 'AlphaExpansion', 'mqpbo': 'Mqpbo'}


class Model(object):
    """opengm.gm: the factors it was given"""

    def __init__(self, h, states, log):
        self.h, self.log = h, log
        self.states = [int(s) for s in states]
        self.functions = []
        self.factors = []        # (function, variables)
        log.append(self)

    def reserveFactors(self, n):
        pass

    def reserveFunctions(self, n, kind):
        pass

    def finalize(self):
        pass

    def addFunction(self, f):
        f = self.h.np.asarray(f)
        self.h.check('value type', self.h.cond(f.dtype.kind == 'f'))
        self.functions.append(f.copy())
        return len(self.functions) - 1

    def addFunctions(self, fs):
        return [self.addFunction(f) for f in fs]

    def addFactor(self, fid, vis, finalize=True):
        vis = [vis] if not hasattr(vis, '__len__') and \
            not getattr(vis, 'shape', ()) else vis
        self.factors.append((self.functions[fid], [int(v) for v in vis]))

    def addFactors(self, fids, vis, finalize=True):
        vis = self.h.np.asarray(vis)
        self.h.check('index type', self.h.cond(vis.dtype.kind in 'iu'))
        if len(fids) == 1 and len(vis) != 1:
            fids = list(fids) * len(vis)
        self.h.check('factors', self.h.cond(len(fids) == len(vis)))
        for f, v in zip(fids, vis):
            self.addFactor(f, v)

    def energy(self, y):
        e = []
        for f, vis in self.factors:
            self.h.check('arity', self.h.cond(
                len(f.shape) == len(vis) and
                all(0 <= v < len(self.states) for v in vis) and
                tuple(f.shape) == tuple(self.states[v] for v in vis)))
            e.append(f[tuple(y[v] for v in vis)])
        return self.h.sumr(e) if e else 0

    def evaluate(self, y):
        self.log.append('evaluate')
        return self.energy([self.h.pick(v) for v in y])


def fake_opengm(h, log, ans):
    """ans(gm): the labels"""
    np = h.np
    m = types.ModuleType('opengm')
    m.label_type = np.uint64
    m.index_type = np.uint64
    m.value_type = np.float64
    m.gm = lambda states, *a, **k: Model(h, states, log)
    inf = types.SimpleNamespace()

    def make(name):
        class Alg(object):
            def __init__(self, gm, *a, **k):
                self.gm = gm
                self.done = False
                log.append(('alg', name))

            def setStartingPoint(self, init):
                h.check('start before inference', h.cond(not self.done))
                log.append(('start', init))

            def infer(self, *a, **k):
                self.done = True
                log.append(('infer', list(self.gm.factors)))

            def arg(self):
                h.check('answer after inference', h.cond(self.done))
                return ans(self.gm)
        return Alg
    for name in list(ALGS.values()) + ['Icm', 'Loc']:
        setattr(inf, name, make(name))
    m.inference = inf
    return m


def labels(h, n, S):
    if n * S > 30:
        # a large instance: given labels
        return [S - 1 - (i * i + i // 3) % S for i in range(n)]
    return [h.int('ans_%d' % i, 0, S - 1) for i in range(n)]


def grid(S, n):
    if n * S > 30:
        g = Inst()
        g.n, g.allowed = n, [list(range(S))] * n
        return few(g, 64, 20)
    out = [()]
    for i in range(n):
        out = [o + (s,) for o in out for s in range(S)]
    return out


def potentials(h, n, S, edges, shared, lim=None):
    np = h.np
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    if n * S > 30:
        U = on_line(h, (n, S), n + S, 19)
        P = on_line(h, (S, S) if shared else (len(edges), S, S), n, 23)
        return U, P, [P if shared else P[i] for i in range(len(edges))], E
    U = h.reals('u', (n, S), *([-lim, lim] if lim else []))
    P = h.reals('p', (S, S) if shared else (len(edges), S, S),
                *([-lim, lim] if lim else []))
    PW = [P if shared else P[i] for i in range(len(edges))]
    return U, P, PW, E


def total(h, U, PW, edges, y):
    return h.sumr([U[i, y[i]] for i in range(len(y))] +
                  [p[y[a], y[b]] for p, (a, b) in zip(PW, edges)])


def ogm(h, n, S, edges, shared=False, alg=None, init=False, energy=False,
        how='dispatch', relaxed=False):
    from pystruct.inference import inference_dispatch
    from vf.hooks import HOOKS
    np = h.np
    U, P, PW, E = potentials(h, n, S, edges, shared)
    U0, P0, E0 = U.copy(), P.copy(), E.copy()
    log = []
    ans = labels(h, n, S)
    HOOKS.module('opengm', fake_opengm(
        h, log, lambda gm: np.array(ans, dtype='int64').astype(np.uint64)))
    opts = {}
    if alg is not None:
        opts['alg'] = alg
    if init:
        opts['init'] = np.array([S - 1] + [0] * (n - 1))
    y0 = opts['init'].copy() if init else None
    if how == 'dispatch':
        r = inference_dispatch(U, P, E, 'ogm', return_energy=energy, **opts)
    else:
        r = inference_dispatch(U, P, E, ('ogm', opts), return_energy=energy,
                               relaxed=relaxed)
    if energy:
        h.check('pair', h.cond(isinstance(r, tuple) and len(r) == 2))
        r, en = r
    h.check('labels', h.cond(tuple(r.shape) == (n,)))
    h.check('labels are signed integers', h.cond(r.dtype.kind == 'i'))
    h.check('answer', h.and_(*[h.eq(r[i], ans[i]) for i in range(n)]))
    gm = log[0]
    h.check('states', h.cond(gm.states == [S] * n))
    h.check('one model', h.cond(
        len([m for m in log if isinstance(m, Model)]) == 1))
    def logged(what):
        return [m[1] for m in log if isinstance(m, tuple) and m[0] == what]
    h.check('algorithm', h.cond(logged('alg') == [ALGS[alg or 'dd']]))
    st = logged('start')
    h.check('starting point', h.cond(len(st) == (1 if init else 0)))
    if init:
        h.check('starting point', h.eq(np.array(st[0]), y0))
    runs = logged('infer')
    h.check('one inference', h.cond(len(runs) == 1))
    h.check('all factors before inference',
            h.cond(len(runs[0]) == len(gm.factors)))
    h.check('energy of every labeling', h.and_(*[
        h.eq(gm.energy(y), -total(h, U0, PW, edges, y))
        for y in grid(S, n)]))
    if energy:
        y = [h.pick(v) for v in r]
        h.check('energy', h.eq(en, -total(h, U0, PW, edges, y)))
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0), h.eq(E, E0)))
    h.observe('y', r)


def near(h, got, want):
    d = got - want
    return h.and_(h.lt(d, 1), h.lt(-1, d))


def recorder(h, seen, ans, n):
    np = h.np
    m = types.ModuleType('pyqpbo')

    def alpha_expansion_general_graph(edges, unary_cost, pairwise_cost,
                                      n_iter=5, verbose=False,
                                      random_seed=None):
        for a in (edges, unary_cost, pairwise_cost):
            h.check('32-bit integers', h.cond(a.dtype == np.int32))
        h.check('buffers', h.cond(
            len(edges.shape) == 2 and len(unary_cost.shape) == 2 and
            len(pairwise_cost.shape) == 3))
        seen.append((edges.copy(), unary_cost.copy(), pairwise_cost.copy(),
                     random_seed))
        return np.array(ans, dtype='int64').astype(np.int32)
    m.alpha_expansion_general_graph = alpha_expansion_general_graph
    return m


def qpbo(h, n, S, edges, shared=False, shape=None, how='dispatch'):
    from pystruct.inference import inference_dispatch
    from vf.hooks import HOOKS
    np = h.np
    U, P, PW, E = potentials(h, n, S, edges, shared, lim=1000)
    seen = []
    ans = labels(h, n, S)
    HOOKS.module('pyqpbo', recorder(h, seen, ans, n))
    sh = tuple(shape or (n,))
    V = U.reshape(sh + (S,)).copy()
    U0, P0, E0 = V.copy(), P.copy(), E.copy()
    r = inference_dispatch(V, P, E, 'qpbo' if how == 'dispatch' else
                           ('qpbo', {}))
    h.check('labels', h.cond(tuple(r.shape) == sh))
    h.check('answer', h.and_(*[h.eq(r.ravel()[i], ans[i])
                               for i in range(n)]))
    h.check('one inference', h.cond(len(seen) == 1))
    e, u, p, seed = seen[0]
    h.check('edges', h.eq(e, E0))
    h.check('shapes', h.cond(tuple(u.shape) == (n, S) and
                             tuple(p.shape) == (len(edges), S, S)))
    h.check('unary costs', h.and_(*[
        near(h, u[i, s], -1000 * U[i, s]) for i in range(n)
        for s in range(S)]))
    h.check('pairwise costs', h.and_(*[
        near(h, p[i, s, t], -1000 * PW[i][s, t]) for i in range(len(edges))
        for s in range(S) for t in range(S)]))
    h.check('fixed seed', h.cond(seed is not None))
    # the same problem again: the same call
    r2 = inference_dispatch(V, P, E, 'qpbo')
    e2, u2, p2, seed2 = seen[1]
    h.check('repeatable', h.and_(h.eq(u, u2), h.eq(p, p2), h.eq(e, e2),
                                 h.cond(seed == seed2)))
    h.check('inputs kept', h.and_(h.eq(V, U0), h.eq(P, P0), h.eq(E, E0)))
    h.observe('y', r)


def model(h, method, spec, op='inference', energy=False):
    """through a model: scores of the model (plus loss)"""
    from vf.hooks import HOOKS
    np = h.np
    g = build(h, method=method, **spec)
    n, S = g.n, g.S
    ans = labels(h, n, S)
    log, seen = [], []
    if method == 'ogm':
        HOOKS.module('opengm', fake_opengm(
            h, log, lambda gm: np.array(ans, dtype='int64')
            .astype(np.uint64)))
    else:
        HOOKS.module('pyqpbo', recorder(h, seen, ans, n))
        for v in list(g.w.ravel()) + list(np.asarray(g.x[0]).ravel()):
            h.assume(h.and_(h.le(-4, v), h.le(v, 4)))
    y0 = g.mk([a[0] for a in g.allowed])
    kw = dict(return_energy=True) if energy else {}
    if op == 'inference':
        r = g.m.inference(g.x, g.w, **kw)
    else:
        r = g.m.loss_augmented_inference(g.x, y0, g.w, **kw)
    if energy:
        r, en = r
        y = [h.pick(v) for v in r]
        want = dot(h, g.w, g.m.joint_feature(g.x, g.mk(list(y))))
        if op != 'inference':
            want = want + g.m.loss(y0, g.mk(list(y)))
        h.check('energy', h.eq(en, -want))
    h.check('answer', h.and_(*[h.eq(r.ravel()[i], ans[i])
                               for i in range(n)]))
    for y in grid(S, n):
        want = dot(h, g.w, g.m.joint_feature(g.x, g.mk(list(y))))
        if op != 'inference':
            want = want + g.m.loss(y0, g.mk(list(y)))
        if method == 'ogm':
            h.check('energy of every labeling',
                    h.eq(log[0].energy(y), -want))
        else:
            e, u, p, _ = seen[0]
            got = h.sumr([u[i, y[i]] for i in range(n)] +
                         [p[i, y[int(a)], y[int(b)]]
                          for i, (a, b) in enumerate(e)])
            d = got + 1000 * want
            k = n + len(e)
            h.check('cost of every labeling',
                    h.and_(h.lt(d, k), h.lt(-k, d)))


def misfit(h):
    from pystruct.inference import inference_dispatch
    from vf.hooks import HOOKS
    np = h.np
    U = h.reals('u', (3, 2))
    E = np.array([[0, 1], [1, 2]])
    log, seen = [], []
    HOOKS.module('opengm', fake_opengm(h, log, lambda gm: np.zeros(3)))
    HOOKS.module('pyqpbo', recorder(h, seen, [0, 0, 0], 3))
    for P in (np.zeros((3, 2, 2)), np.zeros((2, 3, 3)), np.zeros((3, 3)),
              np.zeros((1, 2, 2)), np.zeros((2, 2, 3))):
        for m in ('ogm', 'qpbo'):
            e = h.raises(lambda: inference_dispatch(U, P, E, m), ValueError)
            h.check('misfit rejected', h.cond(e is not None), note=m)


PREFER = {None: ['ad3', 'max-product', 'lp'],
          'typed': ['ad3+', 'ad3'],
          'chain': ['max-product']}


def installed(h):
    """which methods are listed, and which one models choose by default"""
    from pystruct.inference import get_installed, inference_dispatch
    import pystruct.models as M
    from vf.hooks import HOOKS
    np = h.np
    has = {}
    for name in ('ad3', 'opengm', 'pyqpbo'):
        has[name] = bool(h.fork(h.is_true(h.bool('has_' + name))))
    if not has['ad3']:
        HOOKS.module('ad3', None)

    def ad3(u, e, p, *a):
        if isinstance(u, list):
            return [np.ones((len(v), v.shape[1])) for v in u], [], 0., \
                'integral'
        return np.ones((len(u), u.shape[1])), \
            np.ones((len(e), u.shape[1] ** 2)), 0., 'integral'
    HOOKS.ad3 = HOOKS.ad3c = ad3

    def lp(c, G, hh, A, b):
        return {'x': np.ones(len(c)), 'status': 'optimal',
                'primal objective': 0.}
    HOOKS.lp = lp
    HOOKS.module('opengm', fake_opengm(
        h, [], lambda gm: np.zeros(len(gm.states), dtype=np.uint64))
        if has['opengm'] else None)
    HOOKS.module('pyqpbo', recorder(h, [], [0], 1)
                 if has['pyqpbo'] else None)
    need = {'max-product': True, 'lp': True, 'ad3': has['ad3'],
            'ad3+': has['ad3'], 'qpbo': has['pyqpbo'], 'ogm': has['opengm']}
    order = ['max-product', 'ad3', 'ad3+', 'qpbo', 'ogm', 'lp']
    h.check('all', h.cond(get_installed() ==
                          [m for m in order if need[m]]))
    for flt in (['ogm', 'qpbo'], ['ad3'], ['lp', 'ad3'],
                ['ad3+', 'ad3'], ['qpbo', 'max-product', 'ad3'], []):
        h.check('in the given order', h.cond(
            get_installed(list(flt)) == [m for m in flt if need[m]]),
            note=str(flt))
    U = h.reals('u', (1, 2))
    P = np.zeros((0, 2, 2))
    E = np.zeros((0, 2), dtype='int64')
    for m in ('ad3', 'qpbo', 'ogm'):
        if not need[m]:
            e = h.raises(lambda: inference_dispatch(U, P, E, m), ImportError)
            h.check('missing package is an ImportError',
                    h.cond(e is not None), note=m)
    first = [m for m in PREFER[None] if need[m]][0]
    for m in (M.GraphCRF(n_states=2, n_features=2),
              M.GridCRF(n_states=2, n_features=2),
              M.EdgeFeatureGraphCRF(n_states=2, n_features=2,
                                    n_edge_features=1),
              M.LatentGraphCRF(n_labels=2, n_features=2,
                               n_states_per_label=1),
              M.LatentNodeCRF(n_labels=2, n_features=2,
                              n_hidden_states=2),
              M.MultiLabelClf(n_labels=2, n_features=2)):
        h.check('default method', h.cond(m.inference_method == first),
                note=type(m).__name__)
    h.check('default method', h.cond(
        M.ChainCRF(n_states=2, n_features=2).inference_method ==
        'max-product'), note='chain')
    if has['ad3']:
        t = M.NodeTypeEdgeFeatureGraphCRF(2, [2, 2], [1, 1],
                                          [[1, 1], [1, 1]],
                                          inference_method=None)
        h.check('default method', h.cond(t.inference_method == 'ad3+'),
                note='typed')


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    graphs = [(1, 2, []), (2, 3, [[0, 1]]), (2, 2, [[1, 0]]),
              (3, 2, [[0, 2], [2, 1], [0, 1]]),
              (2, 2, [[0, 1], [0, 1], [1, 0]])]
    if big:
        graphs += [(3, 3, [[2, 0], [0, 1]]),
                   (4, 2, [[3, 1], [1, 2], [0, 3]]),
                   (4, 3, [[0, 1], [1, 2], [2, 3], [3, 0]])]
    for n, S, e in graphs:
        for shared in (False, True):
            for en in (False, True):
                add('ogm', n=n, S=S, edges=e, shared=shared, energy=en)
            add('qpbo', n=n, S=S, edges=e, shared=shared)
    add('qpbo', n=4, S=2, edges=[[0, 1], [2, 3], [0, 2], [1, 3]],
        shape=[2, 2])
    add('qpbo', n=3, S=2, edges=[[0, 1], [1, 2]], shape=[3, 1], shared=True,
        how='tuple')
    for a in ALGS:
        for init in (False, True):
            add('ogm', n=2, S=2, edges=[[0, 1]], alg=a, init=init,
                how='dispatch' if init else 'tuple')
    add('ogm', n=2, S=3, edges=[[1, 0]], init=True, energy=True, how='tuple',
        relaxed=True)
    for k, (n, S, e) in enumerate((
            (9, 4, _E9), (140, 2, _ring(140)[:150]),
            (3, 130, [[0, 1], [2, 1]]), (5, 7, [[4, 0], [1, 3], [2, 1]]))):
        sh = S > 100 or k == 3
        for what in ('ogm', 'qpbo'):
            C.append(dict(name='large %s n=%d S=%d' % (what, n, S), fn=what,
                          n=n, S=S, edges=e, shared=sh,
                          **(dict(init=True, energy=True, how='tuple')
                             if what == 'ogm' else {})))
    for nm, s in large():
        if s['kind'] in ('graph', 'chain', 'edgefeat') and \
                s.get('S', 0) < 100:
            for op in ('inference', 'lai'):
                for what in ('ogm', 'qpbo'):
                    if s['n'] == 9 and \
                            s['kind'] == 'edgefeat':
                        continue
                    C.append(dict(name='model %s %s %s' % (what, op, nm),
                                  fn='model', method=what, spec=s, op=op,
                                  energy=what == 'ogm'))
    specs = [dict(kind='graph', n=2, S=2, edges=[[1, 0]]),
             dict(kind='graph', n=3, S=2, edges=[[1, 2], [0, 2]],
                  directed=True),
             dict(kind='chain', n=3, S=2),
             dict(kind='edgefeat', n=2, S=2, edges=[[1, 0]], Fe=2)]
    for spec in specs:
        for op in ('inference', 'lai'):
            for en in (False, True):
                add('model', method='ogm', spec=spec, op=op, energy=en)
            add('model', method='qpbo', spec=spec, op=op)
    add('misfit')
    add('installed')
    return C
