"""Score = potentials for the models with hidden nodes (admissible
labelings)."""
from .common import (build, few, score, dot, wide, WIDE_HIDDEN, large,
                     LARGE_HIDDEN, typed_specs)

BOUNDS = ('up to 3 visible and 2 hidden nodes, 3 labels, 3 hidden states, '
          '2 node features, 2 edge features; every real weight and feature '
          'value; every labeling that keeps visible nodes in visible states '
          'and hidden nodes in hidden states; '
          'plus wide instances: 5 labels and 4 hidden states, 4 visible '
          'and 2 hidden nodes, 5 edge features; '
          '6 visible and 5 hidden nodes with given features and listed '
          'labelings, every real weight; also 140 visible and 130 '
          'hidden nodes with 270 edges; features given as integers, booleans '
          'or single precision and labels of narrow or unsigned types')
OUTSIDE = ('larger graphs; inadmissible labelings; (anti)symmetric edge '
           'weights without the declared symmetry; rounding')


def agree(h, **spec):
    g = build(h, **spec)
    U, E, PW, kw = h.capture('ad3', lambda: g.m.inference(g.x, g.w))
    h.check('unary-shape', h.cond(U.shape == (g.n, g.S)))
    h.check('pairwise-shape', h.cond(PW.shape == (len(E), g.S, g.S)))
    h.observe('PW', PW)
    for y in few(g):
        f = g.m.joint_feature(g.x, g.mk(y))
        h.check('size', h.cond(f.shape == (g.m.size_joint_feature,)))
        h.check('score', h.eq(dot(h, g.w, f), score(h, U, PW, E, y)),
                note=str(y))
    h.observe('f', f)


GR = {
    'vh': (1, 1, [[0, 1]]),
    'hv': (1, 1, [[1, 0]]),
    'vvh': (2, 1, [[0, 2], [2, 1]]),
    'vvh-vis': (2, 1, [[1, 0], [0, 2]]),
    'vhh': (1, 2, [[0, 2], [1, 0], [2, 1]]),
    'vvhh': (2, 2, [[0, 2], [3, 1], [3, 2], [0, 1]]),
    'none': (2, 0, [[1, 0]]),
    'far': (2, 1, [[1, 2]]),
    'noedge': (1, 1, []),
}


def configs(tier):
    C = []

    def add(**k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'edges')
        C.append(dict(name='agree ' + nm, fn='agree', **{
            a: b for a, b in k.items() if a != 'g'}))
    for g, (n, nh, E) in GR.items():
        for lnf in (False, True):
            add(kind='latnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=2, F=2,
                lnf=lnf)
            add(kind='eflatnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=2, F=1,
                Fe=2, lnf=lnf)
            if n + nh <= 3:
                add(kind='latnode', g=g, n=n, nh=nh, edges=E, L=3, Sh=2,
                    F=1, lnf=lnf)
                add(kind='latnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=1,
                    F=1, lnf=lnf)
                add(kind='eflatnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=3,
                    F=2, Fe=1, lnf=lnf)
                add(kind='eflatnode', g=g, n=n, nh=nh, edges=E, L=2, Sh=2,
                    F=1, Fe=2, lnf=lnf, sym=[1], anti=[0])
    add(kind='latnode', g='any2', n=2, nh=1, edges=2, L=2, Sh=2, F=1)
    add(kind='eflatnode', g='any1', n=2, nh=1, edges=1, L=2, Sh=2, F=1, Fe=1)
    for nm, s in wide(WIDE_HIDDEN) + large(LARGE_HIDDEN):
        C.append(dict(name='agree ' + nm, fn='agree', **s))
    for s in typed_specs(xval=3):
        if 'lat' in s['kind']:
            add(**s)
    if tier != 'quick':
        add(kind='latnode', g='any2', n=2, nh=2, edges=2, L=2, Sh=2, F=1,
            lnf=True)
        add(kind='eflatnode', g='any2', n=2, nh=1, edges=2, L=2, Sh=2, F=1,
            Fe=2, sym=[0], anti=[1])
        n, nh, E = GR['vvhh']
        add(kind='latnode', g='vvhh', n=n, nh=nh, edges=E, L=3, Sh=3, F=2)
        add(kind='eflatnode', g='vvhh', n=n, nh=nh, edges=E, L=3, Sh=2, F=2,
            Fe=2)
    return C
