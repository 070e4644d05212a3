"""Score of a labeling = potentials handed to inference, several node types."""
from .common import build_nt, few, score_nt, dot, NT, NT_WIDE, NT_LARGE, TYPES, NT_PAIRED

BOUNDS = ('1 to 4 node types, up to 3 states and 2 features per type, up to '
          '4 nodes and 5 edges, missing types and missing edge kinds; every '
          'real weight and feature value; every labeling; '
          'plus wide instances: 5 states, 6 features, 6 nodes with 9 '
          'edges, 5 types; '
          '12 nodes of 3 and 6 types, 20 edges, with given features and '
          'listed labelings, every real weight; also up to 270 nodes with 2 '
          'states and 540 edges, or 130 states; '
          'features given as integers, booleans or single '
          'precision and labels of narrow or unsigned types')
OUTSIDE = 'larger graphs; floating-point rounding'


def agree(h, inst, method):
    g = build_nt(h, method=method, **inst)
    hook = 'ad3' if method == 'ad3' else 'ad3c'
    got = h.capture(hook, lambda: g.m.inference(g.x, g.w))
    U, E, PW = got[:3]
    h.observe('U', [U[t] for t in range(g.T)])
    for y in few(g):
        f = g.m.joint_feature(g.x, g.mk(y))
        h.check('size', h.cond(f.shape == (g.m.size_joint_feature,)))
        h.check('score', h.eq(dot(h, g.w, f), score_nt(h, g, U, E, PW, y)),
                note=str(y))
    h.observe('f', f)


def anyedge(h, states, nodes):
    """one edge between any two nodes of any two types"""
    T = len(states)
    a = h.pick(h.int('ta', 0, T - 1))
    b = h.pick(h.int('tb', 0, T - 1))
    p = h.pick(h.int('p', 0, nodes[a] - 1))
    q = h.pick(h.int('q', 0, nodes[b] - 1))
    if a == b and p == q:
        h.assume(False)
    agree(h, dict(states=states, feats=[1] * T, nodes=nodes,
                  ef=[[1] * T] * T, edges={'%d,%d' % (a, b): [[p, q]]}),
          'ad3')


def configs(tier):
    C = []
    for k in NT:
        for method in ('ad3', 'ad3+'):
            C.append(dict(name='agree %s %s' % (k, method), fn='agree',
                          inst=NT[k], method=method))
    for k in NT_LARGE:
        for method in ('ad3', 'ad3+'):
            C.append(dict(name='agree %s %s' % (k, method), fn='agree',
                          inst=NT_LARGE[k], method=method))
    for k in NT_WIDE:
        C.append(dict(name='agree %s' % k, fn='agree', inst=NT_WIDE[k],
                      method='ad3'))
    C.append(dict(name='anyedge 2,3', fn='anyedge', states=(2, 3),
                  nodes=(2, 2)))
    C.append(dict(name='anyedge 2,1,2', fn='anyedge', states=(2, 1, 2),
                  nodes=(1, 2, 1)))
    for xt, yt in TYPES:
        C.append(dict(name='agree types of %s %s' % (xt, yt), fn='agree',
                      inst=dict(NT['two'], xval=3, xtype=xt, ytype=yt),
                      method='ad3'))
    for k, inst in enumerate(NT_PAIRED):
        C.append(dict(name='agree pairs %d' % k, fn='agree', inst=inst,
                      method='ad3'))
    if tier != 'quick':
        C.append(dict(name='anyedge 3,2', fn='anyedge', states=(3, 2),
                      nodes=(2, 3), cost=5))
        C.append(dict(name='anyedge 2,2,3', fn='anyedge', states=(2, 2, 3),
                      nodes=(2, 1, 2), cost=5))
        big = dict(states=(3, 3), feats=(2, 2), nodes=(2, 2),
                   ef=((2, 3), (3, 2)),
                   edges={'0,0': [[0, 1]], '0,1': [[1, 0], [0, 1]],
                          '1,0': [[0, 1]], '1,1': [[1, 0]]})
        for method in ('ad3', 'ad3+'):
            C.append(dict(name='agree big %s' % method, fn='agree',
                          inst=big, method=method, cost=5))
    return C
