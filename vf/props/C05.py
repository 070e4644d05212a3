"""Loss-augmented potentials = score + loss."""
from .common import (build, build_nt, few, score, score_nt, dot, GRAPHS,
                     NT, NT_WIDE, NT_LARGE, wide, WIDE_HIDDEN, large,
                     LARGE_HIDDEN, varied, typed_specs, TYPES)

BOUNDS = ('up to 4 nodes, 4 states, 2 features; every real weight and '
          'feature value, every true labeling, every candidate labeling; '
          'class weights: none, every real vector in [0, 8], integer lists; '
          'plus wide instances: 6 states, features or edge features, 6 '
          'nodes with 8 edges, 5 node types; '
          'up to 30 nodes, 14 edges, 10 states, 12 nodes of 6 types with '
          'given features and listed labelings, every real weight and '
          'class weight; also up to 270 nodes with 2 '
          'states and 540 edges, or 130 states; '
          'features given as integers, booleans or single '
          'precision and labels of narrow or unsigned types')
OUTSIDE = 'larger graphs; negative class weights; rounding'


def truth(h, g):
    """a symbolic admissible labeling"""
    y = h.np.zeros(g.n, dtype='int64')
    for i in range(g.n):
        y[i] = h.int('y_%d' % i, g.allowed[i][0], g.allowed[i][-1])
    return y


def augmented(h, fork=False, given=None, **spec):
    """given: a fixed true labeling"""
    g = build(h, **spec)
    if given is not None:
        y = varied(h, g, given)
    elif fork:
        y = h.np.array([h.pick(h.int('y_%d' % i, a[0], a[-1]))
                        for i, a in enumerate(g.allowed)], dtype='int64')
    else:
        y = truth(h, g)
    Y = g.mk(y.copy())
    U, E, PW, kw = h.capture(
        'ad3', lambda: g.m.loss_augmented_inference(g.x, Y, g.w))
    h.observe('U', U)
    for y_hat in few(g):
        h_hat = g.mk(y_hat)
        f = g.m.joint_feature(g.x, h_hat)
        loss = g.m.loss(g.mk(y), h_hat)
        h.check('score-plus-loss', h.eq(
            score(h, U, PW, E, y_hat), dot(h, g.w, f) + loss),
            note=str(y_hat))
        if g.cw is not None or True:
            # the loss itself: weighted count of wrong labels
            ts = []
            for i in range(g.n):
                ts.append(term(h, g, y, y_hat, i))
            h.check('loss', h.eq(loss, h.sumr(ts)), note=str(y_hat))


def term(h, g, y, y_hat, i):
    lab = getattr(g, 'label_of', None)
    if g.kind in ('latnode', 'eflatnode') and i >= g.n - g.nh:
        return 0
    out = 0
    for s in g.allowed[i]:
        a = lab[s] if lab else s
        b = lab[y_hat[i]] if lab else y_hat[i]
        if a != b:
            cw = g.cw[a] if g.cw is not None else 1
            out = h.ite(y[i] == s, cw, out)
    return out


def augmented_nt(h, inst, method, cw=None, given=None):
    g = build_nt(h, method=method, cw=cw, **inst)
    y = truth(h, g) if given is None else varied(h, g, given)
    hook = 'ad3' if method == 'ad3' else 'ad3c'
    got = h.capture(hook, lambda: g.m.loss_augmented_inference(
        g.x, g.mk(y.copy()), g.w))
    U, E, PW = got[:3]
    flatcw = None if g.cw is None else [c for l in g.cw for c in l]
    for y_hat in few(g):
        h_hat = g.mk(y_hat)
        f = g.m.joint_feature(g.x, h_hat)
        ts = []
        for i in range(g.n):
            out = 0
            for s in g.allowed[i]:
                if s != y_hat[i]:
                    out = h.ite(y[i] == s, 1 if flatcw is None else
                                flatcw[s], out)
            ts.append(out)
        loss = h.sumr(ts)
        h.check('score-plus-loss', h.eq(
            score_nt(h, g, U, E, PW, y_hat), dot(h, g.w, f) + loss),
            note=str(y_hat))
        h.check('loss', h.eq(g.m.loss(g.mk(y), h_hat), loss), note=str(y_hat))
    h.observe('f', f)


def configs(tier):
    C = []

    def add(**k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        C.append(dict(name='aug ' + nm, fn='augmented', **{
            a: b for a, b in k.items() if a != 'g'}))
    big = tier != 'quick'
    CW = (None, 'sym', 'int')

    def cw(k, n):
        return list(range(2, 2 + n)) if k == 'int' else k
    for gname in ('edge-rev', 'path3-mixed', 'iso3', 'one') + (
            ('star4', 'cyc3') if big else ()):
        n, E = GRAPHS[gname]
        for S in (2, 3) if n <= 2 or big else (2,):
            for k in CW:
                add(kind='graph', g=gname, n=n, edges=E, S=S, F=2,
                    directed=True, cw=cw(k, S))
                add(kind='edgefeat', g=gname, n=n, edges=E, S=S, F=1, Fe=2,
                    cw=cw(k, S))
            add(kind='graph', g=gname, n=n, edges=E, S=S, F=1, cw='sym')
    add(kind='graph', g='edge', n=2, edges=[[0, 1]], S=4, F=1, cw='sym')
    for k in CW:
        add(kind='chain', n=3, S=2, F=2, directed=True, cw=cw(k, 2))
        add(kind='chain', n=2, S=3, F=1, directed=False, cw=cw(k, 3))
    for r, c in ((1, 2), (2, 1), (2, 2)):
        for nb in (4, 8):
            S = 3 if r * c <= 2 else 2
            add(kind='grid', r=r, c=c, nb=nb, S=S, F=2)
            add(kind='dirgrid', r=r, c=c, nb=nb, S=S, F=1)
            add(kind='latgrid', r=r, c=c, nb=nb, L=2, spl=[2, 1], F=1)
            add(kind='latdirgrid', r=r, c=c, nb=nb, L=2, spl=[1, 2], F=1)
        for kind in ('grid', 'dirgrid', 'latgrid', 'latdirgrid'):
            k = dict(L=2, spl=[2, 1]) if kind[0] == 'l' else dict(S=2)
            if r > 1 and c > 1:
                add(kind=kind, r=r, c=c, F=2, layout='F', **k)
    add(kind='grid', r=2, c=2, nb=4, S=2, F=1, cw='sym')
    for gname in ('two-free', 'one', 'path3-mixed', 'iso3', 'cyc3'):
        n, E = GRAPHS[gname]
        add(kind='multilabel', g=gname, L=n, edges=E, F=2)
    for gname in ('edge-rev', 'path3-mixed', 'iso3'):
        n, E = GRAPHS[gname]
        add(kind='latgraph', g=gname, n=n, edges=E, L=2, spl=[1, 2], F=1)
        if n == 2 or big:
            add(kind='latgraph', g=gname, n=n, edges=E, L=2, spl=2, F=1)
            add(kind='latgraph', g=gname, n=n, edges=E, L=3, spl=[1, 2, 1],
                F=1)
    for n, nh, E in ((1, 1, [[0, 1]]), (2, 1, [[0, 2], [2, 1]]),
                     (1, 2, [[0, 2], [1, 0], [2, 1]])):
        for lnf in (False, True):
            for k in CW:
                add(kind='latnode', n=n, nh=nh, edges=E, L=2, Sh=2, F=1,
                    lnf=lnf, cw=cw(k, 2), fork=True)
                add(kind='eflatnode', n=n, nh=nh, edges=E, L=2, Sh=2, F=1,
                    Fe=1, lnf=lnf, cw=cw(k, 2), fork=True)
    add(kind='latnode', n=2, nh=1, edges=[[0, 2], [2, 1]], L=3, Sh=2, F=1,
        cw='sym', fork=True)
    ic = {'two': [[1, 2], [3, 4, 5]], 'equal': [[1, 2], [3, 1]],
          'one': [[2, 1, 3]]}
    for k in NT:
        for method in ('ad3', 'ad3+'):
            for w in ('sym', None, ic.get(k)):
                if w is None and method == 'ad3+':
                    continue
                C.append(dict(name='types %s %s %s' % (k, method, w),
                              fn='augmented_nt', inst=NT[k], method=method,
                              cw=w))
    for nm, s in wide(most=6):
        C.append(dict(name='aug ' + nm, fn='augmented', **s))
        if s['kind'] in ('graph', 'chain', 'edgefeat'):
            C.append(dict(name='aug cw ' + nm, fn='augmented', cw='sym', **s))
    for nm, s in wide(WIDE_HIDDEN, most=5):
        C.append(dict(name='aug ' + nm, fn='augmented', fork=True, cw='sym',
                      **s))
    for k in NT_WIDE:
        for w in ('sym', None):
            C.append(dict(name='types %s %s' % (k, w), fn='augmented_nt',
                          inst=NT_WIDE[k], method='ad3', cw=w))
    for nm, s in large():
        for given in (2, 3) if big else (2,):
            C.append(dict(name='aug %s truth %d' % (nm, given),
                          fn='augmented', given=given, **s))
            if s['kind'] in ('graph', 'chain', 'edgefeat', 'grid') and \
                    s.get('S', 0) < 100:
                C.append(dict(name='aug cw %s truth %d' % (nm, given),
                              fn='augmented', given=given, cw='sym', **s))
    for nm, s in large(LARGE_HIDDEN):
        C.append(dict(name='aug ' + nm, fn='augmented', given=1, cw='sym',
                      **s))
    for k in NT_LARGE:
        for w in ('sym', None) if k != 'huge-states' else (None,):
            C.append(dict(name='types %s %s' % (k, w), fn='augmented_nt',
                          inst=NT_LARGE[k], method='ad3', cw=w, given=3))
    for s in typed_specs(xval=3):
        add(given=2, **s)
    for s in typed_specs([(None, 'uint8'), (None, 'int16')]):
        if s['kind'] in ('chain', 'multilabel', 'grid', 'latnode'):
            add(**s)
    for xt, yt in TYPES:
        C.append(dict(name='types of %s %s' % (xt, yt), fn='augmented_nt',
                      inst=dict(NT['two'], xval=3, xtype=xt, ytype=yt),
                      method='ad3', given=1, cw=[[2, 5], [1, 3, 4]]))
    seen = set()
    return [c for c in C if not (c['name'] in seen or seen.add(c['name']))]
