"""Joint features of relaxed labelings: the linear extension, consistent with
integral labelings."""
from .common import (build, build_nt, few, typed_specs, score, score_nt, dot, GRAPHS,
                     NT, NT_WIDE, NT_LARGE, wide, WIDE_HIDDEN, large,
                     LARGE_HIDDEN)

BOUNDS = ('up to 4 nodes, 3 states, 2 features; every real weight and '
          'feature value; every relaxed labeling: arbitrary real unary and '
          'pairwise marginals (multi-label: unary marginals that sum to one); '
          'plus wide instances: 6 states, features or edge features, 6 '
          'nodes with 8 edges, grids up to 3x3, 5 node types; '
          'up to 30 nodes, 14 edges, 10 states, 12 nodes of 6 types with '
          'given features, every real weight and marginal; also up to 270 nodes with 2 '
          'states and 540 edges; features given as integers, booleans or '
          'single precision')
OUTSIDE = 'larger graphs; rounding'


def pwshape(h, g, form, P):
    """marginals per edge (m, S*S), or accumulated over edges (S, S)"""
    if form == 'acc':
        return P.reshape(-1, g.S, g.S).sum(axis=0)
    if form == 'cube':
        return P.reshape(-1, g.S, g.S)
    return P


def relaxed(h, form='edge', **spec):
    g = build(h, **spec)
    np = h.np
    U, E, PW, kw = h.capture('ad3', lambda: g.m.inference(g.x, g.w))
    m = len(E)
    ok = lambda i, s: s in g.allowed[i]
    mu = np.zeros((g.n, g.S))
    for i in range(g.n):
        for s in range(g.S):
            if ok(i, s):
                mu[i, s] = h.real('mu_%d_%d' % (i, s))
        if g.kind == 'multilabel':
            mu[i, 1] = 1 - mu[i, 0]
    P = np.zeros((m, g.S * g.S))
    for e in range(m):
        for s in range(g.S):
            for t in range(g.S):
                P[e, s * g.S + t] = h.real('p_%d_%d_%d' % (e, s, t))
    mu0, P0 = mu.copy(), P.copy()
    um = mu.reshape(g.shape + (g.S,)) if g.shape else mu
    f = g.m.joint_feature(g.x, (um, pwshape(h, g, form, P)))
    h.check('size', h.cond(f.shape == (g.m.size_joint_feature,)))
    ts = [mu0[i, s] * U[i, s] for i in range(g.n) for s in range(g.S)
          if ok(i, s)]
    ts += [P0[e, s * g.S + t] * PW[e, s, t] for e in range(m)
           for s in range(g.S) for t in range(g.S)]
    h.check('expected-score', h.eq(dot(h, g.w, f), h.sumr(ts)))
    h.check('marginals-unchanged', h.and_(h.eq(mu, mu0), h.eq(P, P0)))
    h.observe('f', f)
    # integral labelings
    for y in few(g):
        oh = np.zeros((g.n, g.S))
        for i in range(g.n):
            oh[i, y[i]] = 1
        op = np.zeros((m, g.S * g.S))
        for e in range(m):
            op[e, y[int(E[e][0])] * g.S + y[int(E[e][1])]] = 1
        ou = oh.reshape(g.shape + (g.S,)) if g.shape else oh
        h.check('integral', h.eq(
            g.m.joint_feature(g.x, (ou, pwshape(h, g, form, op))),
            g.m.joint_feature(g.x, g.mk(y))), note=str(y))


def relaxed_nt(h, inst, method):
    g = build_nt(h, method=method, **inst)
    np = h.np
    hook = 'ad3' if method == 'ad3' else 'ad3c'
    U, E, PW = h.capture(hook, lambda: g.m.inference(g.x, g.w))[:3]
    mu, P, ts = [], [], []
    for t in range(g.T):
        a = h.reals('mu_%d' % t, (g.nodes[t], g.states[t]))
        mu.append(a)
        for i in range(g.nodes[t]):
            for s in range(g.states[t]):
                ts.append(a[i, s] * U[t][i, s])
    k = 0
    for a in range(g.T):
        for b in range(g.T):
            q = g.states[a] * g.states[b]
            p = h.reals('p_%d_%d' % (a, b), (len(E[k]), q))
            P.append(p)
            for e in range(len(E[k])):
                for j in range(q):
                    ts.append(p[e, j] *
                              PW[k][e, j // g.states[b], j % g.states[b]])
            k += 1
    f = g.m.joint_feature(g.x, (mu, P))
    h.check('size', h.cond(f.shape == (g.m.size_joint_feature,)))
    h.check('expected-score', h.eq(dot(h, g.w, f), h.sumr(ts)))
    h.observe('f', f)
    off = [sum(g.nodes[:t]) for t in range(g.T)]
    for y in few(g):
        om = []
        for t in range(g.T):
            a = np.zeros((g.nodes[t], g.states[t]))
            for i in range(g.nodes[t]):
                a[i, y[off[t] + i] - g.start[t]] = 1
            om.append(a)
        op, k = [], 0
        for a in range(g.T):
            for b in range(g.T):
                p = np.zeros((len(E[k]), g.states[a] * g.states[b]))
                for e in range(len(E[k])):
                    s = y[off[a] + int(E[k][e][0])] - g.start[a]
                    t = y[off[b] + int(E[k][e][1])] - g.start[b]
                    p[e, s * g.states[b] + t] = 1
                op.append(p)
                k += 1
        h.check('integral', h.eq(g.m.joint_feature(g.x, (om, op)),
                                 g.m.joint_feature(g.x, g.mk(y))),
                note=str(y))


def configs(tier):
    C = []

    def add(**k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        C.append(dict(name='relaxed ' + nm, fn='relaxed', **{
            a: b for a, b in k.items() if a != 'g'}))
    big = tier != 'quick'
    for gname in ('edge-rev', 'path3-mixed', 'cyc3-mixed', 'iso3') + (
            ('star4', 'cyc4') if big else ()):
        n, E = GRAPHS[gname]
        S = 3 if n == 2 else 2
        for form in ('edge', 'acc', 'cube'):
            for d in (False, True):
                add(kind='graph', g=gname, n=n, edges=E, S=S, F=2,
                    directed=d, form=form)
        add(kind='edgefeat', g=gname, n=n, edges=E, S=S, F=1, Fe=2)
        add(kind='edgefeat', g=gname, n=n, edges=E, S=2, F=1, Fe=3, sym=[0],
            anti=[2])
        add(kind='multilabel', g=gname, L=n, edges=E, F=2)
        add(kind='multilabel', g=gname, L=n, edges=E, F=2, form='cube')
        add(kind='latgraph', g=gname, n=n, edges=E, L=2, spl=[1, 2], F=1)
    add(kind='multilabel', g='free', L=2, edges=[], F=2)
    for d in (False, True):
        add(kind='chain', n=3, S=2, F=2, directed=d)
        add(kind='chain', n=2, S=3, F=1, directed=d, form='acc')
    for r, c in ((1, 2), (2, 1), (2, 2)) + (((2, 3),) if big else ()):
        for nb in (4, 8):
            S = 3 if r * c <= 2 else 2
            add(kind='grid', r=r, c=c, nb=nb, S=S, F=2)
            add(kind='dirgrid', r=r, c=c, nb=nb, S=S, F=1)
            add(kind='latgrid', r=r, c=c, nb=nb, L=2, spl=[2, 1], F=1)
            add(kind='latdirgrid', r=r, c=c, nb=nb, L=2, spl=[1, 2], F=1)
    for n, nh, E in ((1, 1, [[0, 1]]), (2, 1, [[0, 2], [2, 1]]),
                     (1, 2, [[0, 2], [1, 0], [2, 1]])):
        for lnf in (False, True):
            add(kind='latnode', n=n, nh=nh, edges=E, L=2, Sh=2, F=1, lnf=lnf)
            add(kind='eflatnode', n=n, nh=nh, edges=E, L=2, Sh=2, F=1, Fe=2,
                lnf=lnf, sym=[0] if lnf else [])
    for s in typed_specs(xval=3):
        if s['ytype'] != 'uint8' or s['xtype']:
            add(**s)
    for k in NT:
        for method in ('ad3', 'ad3+'):
            C.append(dict(name='types %s %s' % (k, method), fn='relaxed_nt',
                          inst=NT[k], method=method))
    for nm, s in (wide() + wide(WIDE_HIDDEN) + large() +
                  large(LARGE_HIDDEN)):
        if s.get('S', 0) > 100:
            continue
        C.append(dict(name='relaxed ' + nm, fn='relaxed', **s))
    for k, inst in list(NT_WIDE.items()) + list(NT_LARGE.items()):
        C.append(dict(name='types ' + k, fn='relaxed_nt', inst=inst,
                      method='ad3'))
    return C
