"""Where the weights are: absolute layout of joint feature vectors."""
from .common import (build, build_nt, few, GRAPHS, NT, wide,
                     WIDE_HIDDEN, NT_WIDE, NT_LARGE, large, LARGE_HIDDEN,
                     typed_specs, spec_name, TYPES, paired,
                     NT_PAIRED)
from .C03 import GR

BOUNDS = ('up to 4 nodes (grids up to 3x2, 8-connected), 4 states, 4 labels, '
          '3 node features, 3 edge features, 4 node types; listed graphs and '
          'every pair of end points of one and two edges; every real feature '
          'value, every (admissible) labeling; '
          'plus wide instances: 6 states, features or edge features, 6 '
          'nodes with 8 edges, parallel edges, grids up to 2x4 and 3x3, 5 '
          'node types; '
          'up to 30 nodes, 14 edges, 10 states, 12 nodes of 6 types with '
          'listed labelings, every real feature; also up to 270 nodes with 2 '
          'states and 540 edges, or 130 states; features given as integers, booleans or single '
          'precision and labels of narrow or unsigned types')
OUTSIDE = 'larger inputs; relaxed labelings (C04); rounding'


def when(h, c, v):
    if isinstance(c, bool):
        return v if c else h.num('0')
    return h.ite(c, v, h.num('0'))


def both(h, a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return h.and_(a, b)


def either(h, a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a or b
    return h.or_(a, b)


def blocks(h, g, x, y, X, E, EF, S, sym=(), anti=(), nin=None, nvis=None):
    """state by state the summed features of the nodes in that state, then
    per edge feature the sums over edges from state a to state b"""
    np = h.np
    X, EF = X.astype('float64'), EF.astype('float64')
    F = X.shape[1]
    out = []
    n = X.shape[0] if nvis is None else nvis
    for s in range(S if nin is None else nin):
        for f in range(F):
            out.append(h.sumr([when(h, y[i] == s, X[i, f])
                               for i in range(n)]))
    for k in range(EF.shape[1]):
        M = [[h.sumr([when(h, both(h, y[int(E[e][0])] == a,
                                   y[int(E[e][1])] == b), EF[e, k])
                      for e in range(len(E))])
              for b in range(S)] for a in range(S)]
        for a in range(S):
            for b in range(S):
                v = M[a][b]
                if k in sym:
                    v = (M[a][b] + M[b][a]) / h.num('2')
                elif k in anti:
                    v = (M[a][b] - M[b][a]) / h.num('2')
                out.append(v)
    return out


def counts(h, y, X, E, S, directed, nin=None, nvis=None):
    np = h.np
    out = blocks(h, None, None, y, X, E, np.zeros((len(E), 0)), S, nin=nin,
                 nvis=nvis)
    if directed:
        for a in range(S):
            for b in range(S):
                out.append(h.sumr([
                    when(h, both(h, y[int(p)] == a, y[int(q)] == b),
                         h.num('1')) for p, q in E]))
    else:
        # one weight per unordered pair: lower triangle, row by row
        for a in range(S):
            for b in range(a + 1):
                out.append(h.sumr([
                    when(h, either(h, both(h, y[int(p)] == a,
                                           y[int(q)] == b),
                                   both(h, y[int(p)] == b,
                                        y[int(q)] == a)),
                         h.num('1')) for p, q in E]))
    return out


def grid_kinds(r, c, nb):
    at = lambda i, j: i * c + j
    right = [(at(i, j), at(i, j + 1)) for i in range(r) for j in range(c - 1)]
    down = [(at(i, j), at(i + 1, j)) for i in range(r - 1) for j in range(c)]
    kinds = [right, down]
    if nb == 8:
        up = [(at(i, j), at(i - 1, j + 1)) for i in range(1, r)
              for j in range(c - 1)]
        dn = [(at(i, j), at(i + 1, j + 1)) for i in range(r - 1)
              for j in range(c - 1)]
        kinds += [up, dn]
    return kinds


def expected(h, g, y, spec):
    np = h.np
    kind = g.kind
    if kind in ('graph', 'latgraph'):
        return counts(h, y, g.x[0], g.x[1], g.S, spec.get('directed', False))
    if kind == 'chain':
        E = [(i, i + 1) for i in range(g.n - 1)]
        return counts(h, y, g.x, E, g.S, spec.get('directed', False))
    if kind in ('grid', 'latgrid', 'dirgrid', 'latdirgrid'):
        r, c, F = g.x.shape
        X = np.array([[g.x[i, j, f] for f in range(F)]
                      for i in range(r) for j in range(c)]).reshape(-1, F)
        kinds = grid_kinds(r, c, spec.get('nb', 4))
        E = [e for k in kinds for e in k]
        if kind in ('grid', 'latgrid'):
            return counts(h, y, X, E, g.S, False)
        EF = np.zeros((len(E), len(kinds)))
        p = 0
        for i, k in enumerate(kinds):
            for _ in k:
                EF[p, i] = 1
                p += 1
        return blocks(h, g, None, y, X, E, EF, g.S)
    if kind == 'edgefeat':
        return blocks(h, g, None, y, g.x[0], g.x[1], g.x[2], g.S,
                      spec.get('sym', ()), spec.get('anti', ()))
    if kind == 'multilabel':
        out = []
        x = g.x.astype('float64')
        for l in range(g.n):
            for f in range(x.shape[0]):
                out.append(when(h, y[l] == 1, x[f] * 2) - x[f])
        for p, q in g.m.edges:
            for a in range(2):
                for b in range(2):
                    out.append(when(h, both(h, y[int(p)] == a,
                                            y[int(q)] == b), h.num('1')))
        return out
    if kind in ('latnode', 'eflatnode'):
        lnf = spec.get('lnf', False)
        nin = g.S if lnf else g.L
        nvis = g.n if lnf else g.n - g.nh
        if kind == 'latnode':
            return counts(h, y, g.x[0], g.x[1], g.S, False, nin, nvis)
        return blocks(h, g, None, y, g.x[0], g.x[1], g.x[2], g.S,
                      spec.get('sym', ()), spec.get('anti', ()), nin, nvis)
    raise KeyError(kind)


def layout(h, **spec):
    g = build(h, **spec)
    for y in few(g):
        f = g.m.joint_feature(g.x, g.mk(y))
        ref = expected(h, g, y, spec)
        h.check('size', h.cond(f.shape == (len(ref),)))
        h.check('entries', h.and_(*[h.eq(a, b) for a, b in zip(f, ref)]),
                note=str(y))
    h.observe('f', f)


def layout_sym(h, **spec):
    """one symbolic labeling"""
    np = h.np
    g = build(h, **spec)
    y = h.ints('y', g.n, 0, g.S - 1)
    for i in range(g.n):
        h.assume(h.and_(y[i] >= g.allowed[i][0], y[i] <= g.allowed[i][-1]))
    f = g.m.joint_feature(g.x, g.mk(y))
    ref = expected(h, g, [y[i] for i in range(g.n)], spec)
    h.check('size', h.cond(f.shape == (len(ref),)))
    h.check('entries', h.and_(*[h.eq(a, b) for a, b in zip(f, ref)]))
    h.observe('f', f)


def typed(h, inst, method='ad3'):
    g = build_nt(h, wfree=False, method=method, **inst)
    nf, es, fs = g.x
    nf, fs = [[None if a is None else a.astype('float64') for a in l]
              for l in (nf, fs)]
    for y in few(g):
        ref = []
        loc = []
        off = [sum(g.nodes[:t]) for t in range(g.T)]
        for t in range(g.T):
            ys = [y[off[t] + i] - g.start[t] for i in range(g.nodes[t])]
            loc.append(ys)
            for s in range(g.states[t]):
                for f in range(inst['feats'][t]):
                    ref.append(h.sumr([nf[t][i, f]
                                       for i in range(g.nodes[t])
                                       if ys[i] == s]))
        for a in range(g.T):
            for b in range(g.T):
                E, EF = es[a * g.T + b], fs[a * g.T + b]
                for k in range(inst['ef'][a][b]):
                    for s in range(g.states[a]):
                        for t in range(g.states[b]):
                            ref.append(h.sumr(
                                [EF[e, k] for e in range(len(E))
                                 if loc[a][int(E[e][0])] == s and
                                 loc[b][int(E[e][1])] == t])
                                if E is not None else h.num('0'))
        f = g.m.joint_feature(g.x, g.mk(y))
        h.check('size', h.cond(f.shape == (len(ref),)))
        h.check('entries', h.and_(*[h.eq(a, b) for a, b in zip(f, ref)]),
                note=str(y))
    h.observe('f', f)


def clf(h, K, F):
    """unstructured models"""
    import pystruct.models as M
    np = h.np
    m = M.MultiClassClf(n_features=F, n_classes=K)
    x = h.reals('x', (F,))
    for y in range(K):
        f = m.joint_feature(x, y)
        ref = [x[i] if k == y else h.num('0')
               for k in range(K) for i in range(F)]
        h.check('size', h.cond(f.shape == (len(ref),)))
        h.check('entries', h.and_(*[h.eq(a, b) for a, b in zip(f, ref)]),
                note=str(y))
    b = M.BinaryClf(n_features=F)
    for y in (-1, 1):
        f = b.joint_feature(x, y)
        h.check('binary', h.and_(*[h.eq(a * 2, c if y > 0 else -c)
                                   for a, c in zip(f, x)]), note=str(y))
        h.check('size', h.cond(f.shape == (F,)))
    h.observe('f', f)


def configs(tier):
    C = []

    def add(fn='layout', **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        C.append(dict(name=fn + ' ' + nm, fn=fn, **{
            a: b for a, b in k.items() if a != 'g'}, wfree=False))
        if isinstance(k.get('edges'), int):
            return
        C.append(dict(name='layout_sym ' + nm, fn='layout_sym', **{
            a: b for a, b in k.items() if a != 'g'}, wfree=False))
    big = tier != 'quick'
    for gname in ('one', 'edge-rev', 'path3-mixed', 'cyc3-mixed', 'star4'):
        n, E = GRAPHS[gname]
        for d in (False, True):
            add(kind='graph', g=gname, n=n, edges=E, S=3 if n < 4 else 2,
                F=2, directed=d)
    for d in (False, True):
        add(kind='graph', g='edge4', n=2, edges=[[1, 0]], S=4, F=3,
            directed=d)
        add(kind='graph', g='any2', n=3, edges=2, S=2, F=1, directed=d)
        for n, S in ((1, 3), (3, 3), (4, 2)):
            add(kind='chain', n=n, S=S, F=2, directed=d)
    for gname in ('edge-rev', 'path3-mixed', 'cyc3', 'two-free'):
        n, E = GRAPHS[gname]
        add(kind='edgefeat', g=gname, n=n, edges=E, S=3, F=2, Fe=2)
        add(kind='edgefeat', g=gname, n=n, edges=E, S=2, F=1, Fe=3, sym=[0],
            anti=[2])
    add(kind='edgefeat', g='any1', n=3, edges=1, S=2, F=1, Fe=2)
    for r, c in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)):
        for nb in (4, 8):
            for kind in ('grid', 'dirgrid'):
                add(kind=kind, r=r, c=c, nb=nb, S=3 if r * c <= 4 else 2,
                    F=2 if r * c <= 4 else 1)
                if r * c <= 4:
                    add(kind='lat' + kind, r=r, c=c, nb=nb, L=2, spl=[2, 1],
                        F=1)
    for gname in ('two-free', 'edge-rev', 'path3-mixed', 'cyc3', 'star4'):
        n, E = GRAPHS[gname]
        add(kind='multilabel', g=gname, L=n, edges=E, F=2)
    add(kind='multilabel', g='any2', L=3, edges=2, F=1)
    n, E = GRAPHS['path3-mixed']
    add(kind='latgraph', g='path3-mixed', n=n, edges=E, L=2, spl=[1, 2], F=2)
    for g, (n, nh, E) in GR.items():
        for lnf in (False, True):
            add(kind='latnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=2, F=2,
                lnf=lnf)
            add(kind='eflatnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=2, F=1,
                Fe=2, lnf=lnf)
    n, nh, E = GR['vvh']
    add(kind='latnode', g='vvh', n=n, nh=nh, edges=E, L=3, Sh=1, F=1)
    add(kind='eflatnode', g='vvh', n=n, nh=nh, edges=E, L=2, Sh=1, F=1, Fe=2,
        sym=[1], anti=[0], lnf=True)
    for nm, s in (wide() + wide(WIDE_HIDDEN) + large(fixed=False) +
                  large(LARGE_HIDDEN, False)):
        C.append(dict(name='layout ' + nm, fn='layout', wfree=False, **s))
    for s in typed_specs([('int64', 'int64'), ('bool', 'uint8'),
                          ('float32', 'int16')]):
        C.append(dict(name='layout ' + spec_name(s), fn='layout',
                      wfree=False, **s))
    for xt, yt in TYPES:
        C.append(dict(name='typed %s %s' % (xt, yt), fn='typed',
                      inst=dict(NT['two'], xtype=xt, ytype=yt)))
    for k in NT:
        C.append(dict(name='typed ' + k, fn='typed', inst=NT[k]))
    for k, inst in list(NT_WIDE.items()) + list(NT_LARGE.items()):
        C.append(dict(name='typed ' + k, fn='typed',
                      inst=dict(inst, xval=None)))
    for K, F in ((6, 4), (2, 1), (3, 2), (4, 3)):
        C.append(dict(name='clf %d %d' % (K, F), fn='clf', K=K, F=F))
    if big:
        for gname in ('k4', 'cyc4', 'forest4'):
            n, E = GRAPHS[gname]
            for d in (False, True):
                add(kind='graph', g=gname, n=n, edges=E, S=3, F=2,
                    directed=d)
            add(kind='edgefeat', g=gname, n=n, edges=E, S=3, F=1, Fe=2,
                sym=[1])
        for nb in (4, 8):
            for kind in ('grid', 'dirgrid'):
                add(kind=kind, r=3, c=3, nb=nb, S=2, F=1)
                add(kind='lat' + kind, r=3, c=2, nb=nb, L=2, spl=[2, 1], F=1)
        add(kind='graph', g='any3', n=3, edges=3, S=3, F=1)
        add(kind='edgefeat', g='any2', n=4, edges=2, S=2, F=1, Fe=2, sym=[0])
    for s in paired(wfree=False):
        C.append(dict(name='layout ' + spec_name(s), fn='layout', **s))
    for k, inst in enumerate(NT_PAIRED):
        C.append(dict(name='typed pairs %d' % k, fn='typed', inst=inst))
    return C
