"""Typed models: labels by type, validation of samples and arguments."""
from .common import build_nt, NT

BOUNDS = ('1 to 3 node types, up to 3 states, up to 5 nodes; every integer '
          'label, edge end, number of features; malformations one or two at '
          'a time; labels of narrow types, up to 270 states in all')
OUTSIDE = 'samples that are not tuples of arrays; larger samples'

SIZES = {
    'one': dict(states=(3,), nodes=(2,)),
    'two': dict(states=(2, 3), nodes=(2, 1)),
    'gap': dict(states=(2, 1, 2), nodes=(1, 0, 2)),
    'last': dict(states=(2, 3), nodes=(2, 0)),
    'first': dict(states=(3, 2), nodes=(0, 2)),
}


def model(h, states, feats=None, ef=None, **k):
    import pystruct.models as M
    T = len(states)
    return M.NodeTypeEdgeFeatureGraphCRF(
        T, list(states), list(feats or [1] * T),
        [list(r) for r in (ef or [[1] * T] * T)], **k)


def sample(h, nodes, feats=None, ef=None, edges=None, none=False):
    np = h.np
    T = len(nodes)
    feats = feats or [1] * T
    ef = ef or [[1] * T] * T
    nf = [None if none and n == 0 else np.ones((n, f))
          for n, f in zip(nodes, feats)]
    es, fs = [], []
    for a in range(T):
        for b in range(T):
            e = (edges or {}).get('%d,%d' % (a, b))
            if e is None and none:
                es.append(None)
                fs.append(None)
            else:
                e = e or []
                es.append(np.array(e, dtype='int64').reshape(-1, 2))
                fs.append(np.ones((len(e), ef[a][b])))
    return nf, es, fs


def flatten(h, states, nodes, none=False, lists=False,
            dtype='int64'):
    """labels by type -> one array -> labels by type"""
    np = h.np
    m = model(h, states)
    x = sample(h, nodes, none=none)
    Y = [h.ints('y%d' % t, n, 0, states[t] - 1)
         for t, n in enumerate(nodes)]
    given = [[Y[t][i] for i in range(n)] for t, n in enumerate(nodes)] \
        if lists else [y.astype(dtype) for y in Y]
    flat = m.flattenY(given)
    n = sum(nodes)
    h.check('length', h.cond(flat.shape == (n,)))
    p = 0
    for t in range(len(nodes)):
        for i in range(nodes[t]):
            h.check('a code per type and label',
                    h.eq(flat[p], Y[t][i] + sum(states[:t])))
            p += 1
    h.observe('flat', flat)
    if not lists:
        for a, b in zip(given, Y):
            h.check('given labels kept', h.eq(a, b))
    codes = flat.copy()
    # every flat labeling of that kind is accepted
    h.check('accepted', h.cond(h.raises(
        lambda: m.initialize([x], [flat]), Exception) is None))
    h.check('accepted', h.cond(h.raises(
        lambda: m.initialize(x, flat), Exception) is None))
    back = m.unflattenY(x, flat)
    h.check('labels per type', h.cond(len(back) == len(nodes)))
    for t in range(len(nodes)):
        h.check('shape', h.cond(back[t].shape == (nodes[t],)))
        h.check('round trip', h.eq(back[t], Y[t]))
    h.check('flat labels kept', h.eq(flat, codes))
    for k in (n - 1, n + 1):
        if k >= 0:
            y = np.array([0] * k, dtype='int64')
            h.check('wrong length', h.cond(h.raises(
                lambda: m.unflattenY(x, y), ValueError) is not None))


def labels(h, states, nodes, none=False, extra=0, how='list'):
    """exactly the labelings with a label of the own type per node pass"""
    from pystruct.models.typed_crf import InconsistentLabel
    np = h.np
    m = model(h, states)
    x = sample(h, nodes, none=none)
    n = sum(nodes) + extra
    y = h.ints('y', n, -2, sum(states) + 1)
    ok = [h.cond(extra == 0)]
    p = 0
    for t in range(len(nodes)):
        lo = sum(states[:t])
        for i in range(nodes[t]):
            if p < n:
                ok.append(h.and_(y[p] >= lo, y[p] < lo + states[t]))
            p += 1
    good = sample(h, nodes)
    gy = np.array([sum(states[:t]) for t in range(len(nodes))
                   for _ in range(nodes[t])], dtype='int64')
    f = {'list': lambda: m.initialize([x], [y]),
         'second': lambda: m.initialize([good, x], [gy, y]),
         'single': lambda: m.initialize(x, y),
         'jf': lambda: m.joint_feature(x, y)}[how]
    r = h.raises(f, ValueError, InconsistentLabel)
    h.check('wrong labels are rejected, right ones accepted',
            h.cond(r is None) == h.and_(*ok) if False else
            (h.and_(*ok) if r is None else h.not_(h.and_(*ok))))


def ends(h, states, nodes, pair, n_edges=1, how='list'):
    """exactly the edges between nodes that exist pass"""
    np = h.np
    m = model(h, states)
    nf, es, fs = sample(h, nodes)
    T = len(nodes)
    e = h.ints('e', (n_edges, 2), -2, max(nodes) + 1)
    k = pair[0] * T + pair[1]
    es[k] = e
    fs[k] = np.ones((n_edges, 1))
    x = (nf, es, fs)
    ok = []
    for i in range(n_edges):
        ok += [e[i, 0] >= 0, e[i, 0] < nodes[pair[0]],
               e[i, 1] >= 0, e[i, 1] < nodes[pair[1]]]
    gy = np.array([sum(states[:t]) for t in range(len(nodes))
                   for _ in range(nodes[t])], dtype='int64')
    f = {'list': lambda: m.initialize([x], [gy]),
         'nolabels': lambda: m.initialize([x]),
         'single': lambda: m.initialize(x, gy)}[how]
    r = h.raises(f, ValueError)
    h.check('edges to no node are rejected, others accepted',
            (h.and_(*ok) if r is None else h.not_(h.and_(*ok))))


def shapes(h, states, nodes, what):
    """numbers of arrays, rows and columns have to fit"""
    np = h.np
    T = len(states)
    feats, ef = [2] * T, [[2] * T] * T
    m = model(h, states, feats, ef)
    edges = {'%d,%d' % (a, b): [[0, 0]] for a in range(T) for b in range(T)
             if nodes[a] and nodes[b] and a != b}
    nf, es, fs = sample(h, nodes, feats, ef, edges)
    ok = True
    if what == 'node features':
        t = h.pick(h.int('type', 0, T - 1))
        k = h.pick(h.int('columns', 0, 4))
        nf[t] = np.ones((nodes[t], k))
        ok = k == 2
    elif what == 'edge features':
        p = h.pick(h.int('pair', 0, T * T - 1))
        k = h.pick(h.int('columns', 0, 4))
        r = h.pick(h.int('rows', 0, 3))
        fs[p] = np.ones((r, k))
        ok = k == 2 and r == len(es[p])
    elif what == 'edge columns':
        p = h.pick(h.int('pair', 0, T * T - 1))
        k = h.pick(h.int('columns', 1, 4))
        es[p] = np.zeros((1, k), dtype='int64')
        fs[p] = np.ones((1, 2))
        a, b = p // T, p % T
        ok = k == 2 and bool(nodes[a] and nodes[b])
    elif what == 'flat edges':
        p = h.pick(h.int('pair', 0, T * T - 1))
        es[p] = np.zeros(2, dtype='int64')
        fs[p] = np.ones((1, 2))
        ok = False
    elif what == 'flat edge features':
        p = h.pick(h.int('pair', 0, T * T - 1))
        es[p] = np.zeros((1, 2), dtype='int64')
        fs[p] = np.ones(2)
        ok = False
    elif what == 'missing edge features':
        p = h.pick(h.int('pair', 0, T * T - 1))
        fs[p] = None
        ok = len(es[p]) == 0
    elif what == 'missing edges':
        p = h.pick(h.int('pair', 0, T * T - 1))
        es[p] = None
        ok = len(fs[p]) == 0
    else:
        # number of arrays
        i = h.pick(h.int('which', 0, 2))
        L = (nf, es, fs)[i]
        k = h.pick(h.int('arrays', 0, len(L) + 2))
        ok = k == len(L)
        extra = [np.ones((0, 2)) if i != 1 else np.zeros((0, 2), 'int64')]
        L[:] = (L + extra * 2)[:k]
    h.assume(all(f is None or f.ndim != 2 or True for f in fs))
    x = (nf, es, fs)
    for f in (lambda: m.initialize([x]), lambda: m.initialize(x)):
        r = h.raises(f, ValueError)
        h.check('malformed samples are rejected, others accepted',
                h.cond((r is None) == bool(ok)), note=what)


def args(h, T):
    """constructor arguments"""
    np = h.np
    import pystruct.models as M
    ns = h.pick(h.int('states', 1, 3))
    nfe = h.pick(h.int('features', 1, 3))
    side = h.pick(h.int('side', 1, 3))
    e = [[h.int('ef%d%d' % (a, b), 0, 3) for b in range(side)]
         for a in range(side)]
    sym = h.and_(*[h.eq(e[a][b], e[b][a])
                   for a in range(side) for b in range(side)])
    E = np.array([[h.pick(v) for v in r] for r in e]) \
        if side <= 2 and (ns == nfe == T or side == 1) else None
    if E is None:
        E = np.ones((side, side), dtype='int64')
        sym = h.true()
    r = h.raises(lambda: M.NodeTypeEdgeFeatureGraphCRF(
        T, [2, 3, 1][:ns], [1, 2, 3][:nfe], E), ValueError)
    ok = h.and_(h.cond(ns == T), h.cond(nfe == T), h.cond(side == T), sym)
    h.check('inconsistent arguments are rejected, others accepted',
            (ok if r is None else h.not_(ok)))


def sizes(h, T):
    """a weight per feature and label, or pair of labels"""
    states = [h.pick(h.int('s%d' % t, 1, 3)) for t in range(T)]
    feats = [h.pick(h.int('f%d' % t, 1, 2)) for t in range(T)]
    ef = [[0] * T for _ in range(T)]
    for a in range(T):
        for b in range(a, T):
            ef[a][b] = ef[b][a] = h.pick(h.int('e%d%d' % (a, b), 0, 2))
    m = model(h, states, feats, ef)
    h.check('number of weights', h.cond(
        int(m.size_joint_feature) == sum(
            s * f for s, f in zip(states, feats)) + sum(
            ef[a][b] * states[a] * states[b]
            for a in range(T) for b in range(T))))


def weights(h, states):
    """class weights: one per label of every type"""
    T = len(states)
    k = h.pick(h.int('lists', 1, 3))
    n = [h.pick(h.int('len%d' % t, 1, 3)) for t in range(k)]
    cw = [[h.real('c%d_%d' % (t, i), 0, 9) for i in range(n[t])]
          for t in range(k)]
    ok = k == T and all(a == b for a, b in zip(n, states))
    out = []
    r = h.raises(lambda: out.append(model(h, states, l_class_weight=cw)),
                 ValueError)
    h.check('class weights that do not fit are rejected, others accepted',
            h.cond((r is None) == ok))
    if out:
        h.check('class weights by code', h.eq(
            out[0].class_weight, h.np.array([v for c in cw for v in c])))


def method(h):
    """only ad3 can do several types"""
    import pystruct.models as M
    names = ['max-product', 'lp', 'qpbo', 'unary', 'ogm', 'foo',
             ('ad3', {'branch_and_bound': True})]
    n = names[h.pick(h.int('name', 0, len(names) - 1))]
    h.check('other inference methods are rejected', h.cond(h.raises(
        lambda: model(h, (2, 2), inference_method=n), Exception)
        is not None))
    for k in ('ad3', 'ad3+'):
        m = model(h, (2, 2), inference_method=k)
        h.check('inference method', h.cond(m.inference_method == k))


def configs(tier):
    C = []

    def add(fn, **k):
        C.append(dict(name=' '.join([fn] + [
            '%s=%s' % (a, k[a]) for a in k if a not in ('budget',)]),
            fn=fn, **k))
    for s in SIZES.values():
        add('flatten', **s)
        add('flatten', none=True, **s)
        add('labels', **s)
        add('labels', how='jf', none=True, **s)
    add('flatten', lists=True, **SIZES['two'])
    for dt in ('uint8', 'int8', 'int16', 'int32'):
        add('flatten', dtype=dt, **SIZES['two'])
        add('flatten', dtype=dt, states=(90, 90, 90), nodes=(2, 1, 2))
    for how in ('second', 'single'):
        add('labels', how=how, **SIZES['two'])
    for x in (-1, 1):
        add('labels', extra=x, **SIZES['two'])
    for pair in ((0, 0), (0, 1), (1, 0), (1, 1)):
        add('ends', pair=pair, states=(2, 2), nodes=(1, 3))
    add('ends', pair=(0, 1), states=(2, 2), nodes=(2, 1), n_edges=2)
    add('ends', pair=(2, 0), states=(2, 2, 1), nodes=(1, 0, 2),
        how='single')
    add('ends', pair=(1, 0), states=(2, 2, 1), nodes=(1, 0, 2),
        how='nolabels')
    for what in ('node features', 'edge features', 'edge columns',
                 'flat edges', 'flat edge features', 'missing edges',
                 'missing edge features', 'arrays'):
        add('shapes', what=what, states=(2, 2), nodes=(1, 2))
        add('shapes', what=what, states=(2, 2), nodes=(2, 0))
    for T in (1, 2, 3):
        add('args', T=T)
    for T in (1, 2):
        add('sizes', T=T)
    add('weights', states=(2, 1))
    add('weights', states=(3,))
    add('weights', states=(1, 2, 1))
    add('method')
    return C
