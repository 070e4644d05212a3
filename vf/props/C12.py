"""Inference dispatch: every method gets the problem it was given, and its
answer is decoded the same way everywhere (labels per node, relaxed
marginals on request, energy, requested failures)."""
import itertools
from .common import (build, build_nt, given, NT, NT_WIDE, NT_LARGE, wide,
                     WIDE_HIDDEN, large, LARGE_HIDDEN)
from .mapc import is_map, on_line

BOUNDS = ('up to 4 nodes, 4 states, 3 node types; every answer of the '
          'third-party solver (marginals, value) and each of its statuses; '
          'every real potential; '
          'plus wide instances: 6 states, features or edge features, 6 '
          'nodes with 8 edges, 5 node types; up to 30 nodes, 8 states, 14 '
          'edges, 6 node types for given potentials and marginals on a line; also up to 270 nodes with 2 '
          'states and 540 edges')
OUTSIDE = ('the solvers themselves; pyqpbo and OpenGM, which are not '
           'installed here; larger graphs')
STATUS = ['integral', 'fractional', 'unsolved']


def answer(h, shape, eshape, seen, status, line=None):
    """solver with an arbitrary answer, or marginals on a line"""
    if line is not None:
        mu = on_line(h, shape, line, 11)
    else:
        mu = h.reals('mu', shape)
    pm = h.reals('pm', eshape)
    val = h.real('val')

    def ad3(*a):
        seen.append(a)
        return mu.copy(), pm.copy(), val, status
    from vf.hooks import HOOKS
    HOOKS.ad3 = HOOKS.ad3c = ad3
    return mu, pm, val


def decoded(h, y, mu, n, S, start=0, label='label'):
    for i in range(n):
        v = h.pick(y[i])
        h.check(label + ' valid', h.cond(start <= v < start + S))
        for s in range(S):
            h.check(label, h.le(mu[i, s], mu[i, v - start]))


def expect(h, run, mu, pm, val, status, relaxed, energy, exc, shape):
    """run(**kw): the call under test"""
    import pystruct.inference as I
    e = h.raises(run, I.InferenceException)
    want = exc and not relaxed and status != 'integral'
    h.check('failure reported', h.cond((e is not None) == bool(want)))
    if want or e is not None:
        return
    r = run()
    if energy:
        h.check('pair', h.cond(isinstance(r, tuple) and len(r) == 2))
        r, en = r
        h.check('energy', h.eq(en, -val))
    n = 1
    for s in shape:
        n *= s
    S = mu.shape[1]
    if relaxed and status != 'integral':
        h.check('relaxed', h.cond(isinstance(r, tuple) and len(r) == 2))
        h.check('relaxed nodes', h.eq(r[0], mu.reshape(shape + (S,))))
        h.check('relaxed edges', h.eq(r[1], pm))
    else:
        h.check('labels', h.cond(not isinstance(r, tuple) and
                                 tuple(r.shape) == shape))
        decoded(h, r.ravel(), mu, n, S)


def dispatch(h, n, S, edges, method, status, relaxed, energy, exc, shared,
             bb=False, line=None):
    from pystruct.inference import inference_dispatch
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', (S, S) if shared else (len(edges), S, S))
    PW = P
    if shared:
        PW = np.array([P for _ in edges]).reshape(len(edges), S, S)
    seen = []
    mu, pm, val = answer(h, (n, S), (len(edges), S * S), seen, status,
                         line)
    opts = {}
    if exc is not None:
        opts['inference_exception'] = exc
    if bb:
        opts['branch_and_bound'] = True
    cons = None
    if method == 'ad3+' and bb:
        cons = [('XOR', [0], [0], [False])]
    kw = dict(opts)
    U0, P0, E0 = U.copy(), PW.copy(), E.copy()
    if cons:
        kw['constraints'] = cons

    def run():
        return inference_dispatch(
            U, P, E, (method, opts) if bb else method, relaxed=relaxed,
            return_energy=energy, **({k: v for k, v in kw.items()
                                      if not bb or k == 'constraints'}))
    keys = dict(opts)
    expect(h, run, mu, pm, val, status, relaxed, energy, exc, (n,))
    for a in seen:
        h.check('problem', h.and_(h.eq(a[0], U0), h.eq(a[1], E0),
                                  h.eq(a[2], P0)))
        h.check('exact', h.cond(bool(a[-1]['exact']) == bb))
        if method == 'ad3+':
            h.check('constraints', h.cond(a[3] == cons))
    h.check('options kept', h.cond(opts == keys))
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(E, E0)))
    h.observe('u', U)


def multi(h, inst, method, status, relaxed, energy, exc, op='inference',
          cons=False, line=None):
    import pystruct.inference as I
    np = h.np
    g = build_nt(h, method=method, wfree=line is None, **(
        NT.get(inst) or NT_WIDE.get(inst) or NT_LARGE[inst]))
    if line is None:
        mus = [h.reals('mu_%d' % t, (g.nodes[t], g.states[t]))
               for t in range(g.T)]
    else:
        g.w = given(h, (int(g.m.size_joint_feature),), line)
        mus = [on_line(h, (g.nodes[t], g.states[t]), line + t, 11, t == 1)
               for t in range(g.T)]
    pms = []
    val = h.real('val')
    seen = []

    def ad3(*a):
        seen.append(a)
        return ([m.copy() for m in mus], pms, val, status)
    from vf.hooks import HOOKS
    HOOKS.ad3 = HOOKS.ad3c = ad3
    if exc:
        g.m.setInferenceException(True)
    c = [('XOR', [[0], []], [[0], []], [[False], []])] if cons else None
    y0 = np.array([a[0] for a in g.allowed], dtype='int64')

    def run():
        kw = dict(relaxed=relaxed, return_energy=energy)
        if cons:
            kw['constraints'] = c
        if op == 'inference':
            return g.m.inference(g.x, g.w, **kw)
        return g.m.loss_augmented_inference(g.x, y0, g.w, **kw)
    e = h.raises(run, I.InferenceException)
    want = exc and not relaxed and status != 'integral'
    h.check('failure reported', h.cond((e is not None) == bool(want)))
    if e is not None:
        return
    r = run()
    if energy:
        h.check('pair', h.cond(isinstance(r, tuple) and len(r) == 2))
        r, en = r
        h.check('energy', h.eq(en, -val))
    if cons:
        h.check('constraints', h.cond(seen[0][3] == c))
    if relaxed and status != 'integral':
        h.check('relaxed', h.cond(isinstance(r, tuple) and len(r) == 2
                                  and len(r[0]) == g.T))
        for t in range(g.T):
            h.check('relaxed nodes', h.eq(r[0][t], mus[t]))
        h.check('relaxed edges', h.cond(len(r[1]) == 0))
        return
    h.check('labels', h.cond(tuple(r.shape) == (g.n,)))
    off = 0
    for t in range(g.T):
        decoded(h, r[off:off + g.nodes[t]], mus[t], g.nodes[t], g.states[t],
                g.start[t])
        off += g.nodes[t]
    # and back to one list per type
    by = g.m.unflattenY(g.x, r)
    h.check('per type', h.cond(len(by) == g.T))
    off = 0
    for t in range(g.T):
        for i in range(g.nodes[t]):
            h.check('per type', h.cond(by[t][i] + g.start[t] == r[off + i]))
        off += g.nodes[t]


def model(h, op, status, relaxed, energy, spec, method='ad3', line=None):
    g = build(h, method=method, wfree=line is None, **spec)
    if line is not None:
        g.w = given(h, (g.m.size_joint_feature,), line)
    seen = []
    x = g.m._get_edges(g.x)
    mu, pm, val = answer(h, (g.n, g.S), (len(x), g.S ** 2), seen, status,
                         line)
    y0 = g.mk([a[0] for a in g.allowed])

    def run():
        kw = dict(relaxed=relaxed, return_energy=energy)
        if op == 'inference':
            return g.m.inference(g.x, g.w, **kw)
        return g.m.loss_augmented_inference(g.x, y0, g.w, **kw)
    expect(h, run, mu, pm, val, status, relaxed, energy, False,
           g.shape or (g.n,))


def unary(h, n, S, edges, shared=False):
    from pystruct.inference import inference_dispatch
    np = h.np
    U = h.reals('u', (n, S))
    E = np.array(edges, dtype='int64').reshape(-1, 2)
    P = h.reals('p', (S, S) if shared else (len(edges), S, S))
    y = inference_dispatch(U, P, E, 'unary')
    h.observe('y', y)
    is_map(h, U, np.zeros((len(edges), S, S)), edges, y, n, S)


def rejects(h):
    """potentials that do not fit the graph, and unknown methods"""
    from pystruct.inference import inference_dispatch, compute_energy
    np = h.np
    U = h.reals('u', (3, 2))
    E = np.array([[0, 1], [1, 2]])
    for P in (np.zeros((3, 2, 2)), np.zeros((2, 3, 3)), np.zeros((3, 3)),
              np.zeros((1, 2, 2)), np.zeros((2, 2, 3))):
        for m in ('ad3', 'ad3+', 'lp', 'max-product', 'unary'):
            e = h.raises(lambda: inference_dispatch(U, P, E, m), ValueError)
            h.check('misfit rejected', h.cond(e is not None), note=m)
        e = h.raises(lambda: compute_energy(U, P, E, np.array([0, 1, 0])),
                     ValueError)
        h.check('misfit rejected', h.cond(e is not None), note='energy')
    e = h.raises(lambda: inference_dispatch(U, np.zeros((2, 2)), E, 'best'),
                 ValueError)
    h.check('unknown method rejected', h.cond(e is not None))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    B = (False, True)
    for method in ('ad3', 'ad3+'):
        for st in STATUS:
            for rel in B:
                for en in B:
                    for exc in (None, True) if not en or big else (True,):
                        add('dispatch', n=2, S=3, edges=[[1, 0]],
                            method=method, status=st, relaxed=rel, energy=en,
                            exc=exc, shared=False)
            if method == 'ad3' or st == 'integral':
                add('dispatch', n=3, S=2, edges=[[0, 2], [2, 1]],
                    method=method, status=st, relaxed=False, energy=True,
                    exc=False, shared=True)
            for rel in B:
                add('dispatch', n=2, S=2, edges=[[0, 1]], method=method,
                    status=st, relaxed=rel, energy=True, exc=None,
                    shared=False, bb=True)
    for inst in ('two', 'two-rev', 'none', 'three', 'one', 'equal',
                 'first-none', 'mid-zero'):
        for method in ('ad3', 'ad3+'):
            for st in STATUS[:2] if not big else STATUS:
                for rel in B:
                    for op in ('inference', 'lai'):
                        if op == 'lai' and inst not in ('two', 'three') \
                                and not big:
                            continue
                        add('multi', inst=inst, method=method, status=st,
                            relaxed=rel, energy=inst in ('two', 'three'),
                            exc=False, op=op)
    for st in STATUS:
        for rel in B:
            for method in ('ad3', 'ad3+'):
                add('multi', inst='two', method=method, status=st,
                    relaxed=rel, energy=False, exc=True)
    add('multi', inst='two', method='ad3+', status='integral', relaxed=False,
        energy=True, exc=False, cons=True)
    specs = [dict(kind='graph', n=2, S=3, edges=[[1, 0]]),
             dict(kind='graph', n=3, S=2, edges=[[1, 2]], directed=True),
             dict(kind='chain', n=3, S=2),
             dict(kind='edgefeat', n=2, S=3, edges=[[1, 0]], Fe=2),
             dict(kind='grid', r=2, c=1, S=3), dict(kind='grid', r=1, c=2,
                                                    S=2),
             dict(kind='grid', r=3, c=1, S=2),
             dict(kind='dirgrid', r=1, c=2, S=3, nb=8),
             dict(kind='dirgrid', r=3, c=1, S=2),
             dict(kind='multilabel', L=3, edges=[[0, 1]], F=2),
             dict(kind='latgraph', n=2, L=2, spl=[2, 1], edges=[[0, 1]]),
             dict(kind='latgrid', r=2, c=1, L=2, spl=[1, 2]),
             dict(kind='latdirgrid', r=1, c=2, L=2, spl=[2, 1]),
             dict(kind='latnode', n=2, nh=1, L=2, Sh=1,
                  edges=[[0, 2], [2, 1]]),
             dict(kind='eflatnode', n=1, nh=1, L=2, Sh=1, edges=[[0, 1]])]
    if big:
        specs += [dict(kind='grid', r=2, c=2, S=2),
                  dict(kind='dirgrid', r=2, c=2, S=2, nb=8),
                  dict(kind='latgrid', r=2, c=2, L=2, spl=[1, 1])]
    for i, spec in enumerate(specs):
        for op in ('inference', 'lai'):
            for st, rel in (('integral', False), ('fractional', True),
                            ('fractional', False), ('integral', True)):
                for en in B:
                    add('model', op=op, status=st, relaxed=rel, energy=en,
                        spec=spec)
    for nm, s in wide(most=6) + wide(WIDE_HIDDEN[:4:2], most=5):
        for st, rel in (('integral', False), ('fractional', True)):
            C.append(dict(name='model wide %s %s' % (nm, st), fn='model',
                          op='inference', status=st, relaxed=rel, energy=True,
                          spec=s))
    for inst in NT_WIDE:
        for st, rel in (('integral', False), ('fractional', True)):
            add('multi', inst=inst, method='ad3', status=st, relaxed=rel,
                energy=True, exc=False)
    for n, S, E in ((1, 3, []), (3, 2, [[0, 1], [2, 1], [0, 2]]),
                    (2, 4, [[1, 0]])):
        add('unary', n=n, S=S, edges=E)
        add('unary', n=n, S=S, edges=E, shared=True)
    add('rejects')
    for k, (n, S, m) in enumerate(((9, 5, 14), (12, 3, 6), (7, 8, 4))):
        E = [[(3 * e + k) % n, (3 * e + k + 1 + e % 5) % n]
             for e in range(m)]
        for st, rel in (('integral', False), ('fractional', False),
                        ('fractional', True), ('unsolved', True)):
            for method in ('ad3', 'ad3+'):
                C.append(dict(name='line dispatch %d %s %s %s' % (
                    k, st, rel, method), fn='dispatch', n=n, S=S, edges=E,
                    method=method, status=st, relaxed=rel, energy=True,
                    exc=False, shared=k == 1, line=k))
    for k, (nm, s) in enumerate(large() + large(LARGE_HIDDEN)):
        if s.get('S', 0) > 100:
            continue
        for op in ('inference', 'lai'):
            for st, rel in (('integral', False), ('fractional', True)):
                C.append(dict(name='line model %s %s %s' % (nm, op, st),
                              fn='model', op=op, status=st, relaxed=rel,
                              energy=k % 2 == 1, spec=s, line=k))
    for inst in NT_LARGE:
        for op in ('inference', 'lai'):
            for st, rel in (('integral', False), ('fractional', True)):
                add('multi', inst=inst, method='ad3', status=st, relaxed=rel,
                    energy=op == 'lai', exc=False, op=op, line=3)
    return C
