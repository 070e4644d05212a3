"""initialize, sizes, and rejection of arguments that do not fit."""

BOUNDS = ('all models; labels: every integer labeling of up to 4 nodes with 3 '
          'labels; 1 to 3 features, edge features, hidden states; weights '
          'one too short or too long; class weights of 1 to 4 entries; fit '
          'of the learners on 2 or 3 samples')
OUTSIDE = ('more samples or labels; data that is no array; malformed samples '
           'after the first one')


def data(h, kind, f, e=2, n=2, tag='', K=3, lo=0, N=1):
    """(X, Y, list of symbolic labels): samples with f features"""
    np = h.np
    N = 3 if kind == 'flat' else N
    ys = [h.ints('y%s%d' % (tag, i), n, lo, lo + K - 1) for i in range(N)]
    edges = np.array([[0, 1]])
    flat = [y[i] for y in ys for i in range(n)]
    if kind == 'graph':
        return [(np.ones((n, f)), edges) for _ in ys], ys, flat
    if kind == 'edge':
        return [(np.ones((n, f)), edges, np.ones((1, e)))
                for _ in ys], ys, flat
    if kind == 'chain':
        return [np.ones((n, f)) for _ in ys], ys, flat
    if kind == 'grid':
        return [np.ones((1, n, f)) for _ in ys], \
            [y.reshape(1, n) for y in ys], flat
    if kind == 'node':
        return [(np.ones((n, f)), np.array([[0, n]]), 1)
                for _ in ys], ys, flat
    if kind == 'node edge':
        return [(np.ones((n, f)), np.array([[0, n]]), np.ones((1, e)), 1)
                for _ in ys], ys, flat
    if kind == 'flat':
        return np.ones((N, f)), np.array([y[0] for y in ys]), \
            [y[0] for y in ys]
    assert 0


SYM = lambda S: S * (S + 1) // 2
MODELS = {
    # name: kind, size(S, F, E)
    'GraphCRF': ('graph', lambda S, F: S * F + SYM(S), {}),
    'GraphCRF directed': ('graph', lambda S, F: S * F + S * S,
                          dict(directed=True)),
    'ChainCRF': ('chain', lambda S, F: S * F + S * S, {}),
    'ChainCRF undirected': ('chain', lambda S, F: S * F + SYM(S),
                            dict(directed=False)),
    'GridCRF': ('grid', lambda S, F: S * F + SYM(S), {}),
    'GridCRF 8': ('grid', lambda S, F: S * F + SYM(S),
                  dict(neighborhood=8)),
    'DirectionalGridCRF': ('grid', lambda S, F: S * F + 2 * S * S, {}),
    'DirectionalGridCRF 8': ('grid', lambda S, F: S * F + 4 * S * S,
                             dict(neighborhood=8)),
    'MultiClassClf': ('flat', lambda S, F: S * F, {}),
}
LATENT = {
    'LatentGraphCRF': ('graph', lambda S, F: S * F + SYM(S), {}),
    'LatentGridCRF': ('grid', lambda S, F: S * F + SYM(S), {}),
    'LatentDirectionalGridCRF': ('grid', lambda S, F: S * F + 2 * S * S,
                                 {}),
}


def construct(h, name, table, **k):
    import pystruct.models as M
    kind, size, kw = table[name]
    cls = getattr(M, name.split()[0])
    if kind != 'flat':
        k.setdefault('inference_method', 'max-product')
    return cls(**dict(kw, **k)), kind, size


def distinct(h, ys):
    """how many distinct labels, by forking"""
    seen = []
    for y in ys:
        if not any([h.fork(h.eq(y, s)) for s in seen]):
            seen.append(y)
    return len(seen)


def opt(h, name, lo, hi):
    """None or a number"""
    v = h.pick(h.int(name, lo - 1, hi))
    return None if v < lo else v


def infer(h, model, n=2, N=1):
    """sizes come from the data, or have to fit it"""
    nf, ns = opt(h, 'n_features', 1, 2), opt(h, 'n_states', 1, 3)
    f = h.pick(h.int('features', 1, 2))
    states = 'n_classes' if model == 'MultiClassClf' else 'n_states'
    m, kind, size = construct(h, model, MODELS,
                              **{'n_features': nf, states: ns})
    if nf and ns:
        h.check('size if declared', h.cond(
            m.size_joint_feature == size(ns, nf)))
    X, Y, ys = data(h, kind, f, n=n, N=N)
    S = distinct(h, ys)
    ok = nf in (None, f) and ns in (None, S)
    r = h.raises(lambda: m.initialize(X, Y), ValueError)
    h.check('data that does not fit is rejected, other accepted',
            h.cond((r is None) == ok))
    if r is None and ok:
        h.check('numbers of states and features', h.cond(
            m.n_states == S and m.n_features == f))
        h.check('size', h.cond(m.size_joint_feature == size(S, f)))
        h.check('class weights', h.eq(m.class_weight, h.np.ones(S)))
        # once more with the same data
        h.check('again', h.cond(h.raises(
            lambda: m.initialize(X, Y), ValueError) is None))
        X, Y, ys = data(h, kind, 3, tag='b', n=n, K=1)
        h.check('other features later', h.cond(h.raises(
            lambda: m.initialize(X, Y), ValueError) is not None))


def infer_edges(h, given):
    """edge features too"""
    import pystruct.models as M
    nf = opt(h, 'n_features', 1, 2)
    ne = opt(h, 'n_edge_features', 1, 3)
    f, e = h.pick(h.int('features', 1, 2)), h.pick(h.int('edge', 1, 3))
    m = M.EdgeFeatureGraphCRF(2 if given else None, nf, ne,
                              inference_method='max-product')
    X, Y, ys = data(h, 'edge', f, e, K=3)
    S = distinct(h, ys)
    ok = nf in (None, f) and ne in (None, e) and (not given or S == 2)
    r = h.raises(lambda: m.initialize(X, Y), ValueError)
    h.check('data that does not fit is rejected, other accepted',
            h.cond((r is None) == ok))
    if r is None and ok:
        h.check('numbers of states and features', h.cond(
            m.n_states == S and m.n_features == f and
            m.n_edge_features == e))
        h.check('size', h.cond(m.size_joint_feature == S * f + e * S * S))


def symmetric(h, late):
    """(anti)symmetric edge features exist and are not both"""
    import pystruct.models as M
    E = h.pick(h.int('edge', 1, 3))
    k, l = h.pick(h.int('n_sym', 0, 2)), h.pick(h.int('n_anti', 0, 2))
    sym = [h.pick(h.int('sym%d' % i, 0, 3)) for i in range(k)]
    anti = [h.pick(h.int('anti%d' % i, 0, 3)) for i in range(l)]
    ok = all(i < E for i in sym + anti) and not set(sym) & set(anti)

    def f():
        m = M.EdgeFeatureGraphCRF(
            2, 1, None if late else E, symmetric_edge_features=sym,
            antisymmetric_edge_features=anti,
            inference_method='max-product')
        if late:
            X, Y, ys = data(h, 'edge', 1, E)
            Y = [h.np.array([0, 1])]
            m.initialize(X, Y)
    h.check('wrong kinds of edge features are rejected, right ones accepted',
            h.cond((h.raises(f, ValueError) is None) == ok))


def latent(h, model, per):
    """hidden states per label"""
    nf, nl = opt(h, 'n_features', 1, 2), opt(h, 'n_labels', 1, 3)
    f = h.pick(h.int('features', 1, 2))
    sp = list(per) if isinstance(per, (list, tuple)) else per
    out = []
    r = h.raises(lambda: out.append(construct(
        h, model, LATENT, n_features=nf, n_labels=nl,
        n_states_per_label=sp)), ValueError)
    fits = lambda n: not isinstance(sp, list) or len(sp) == n
    if nf and nl:
        h.check('hidden states that do not fit are rejected, other accepted',
                h.cond((r is None) == fits(nl)))
    if r is not None:
        h.check('rejected for a reason', h.cond(bool(nf and nl)))
        return
    m, kind, size = out[0]
    X, Y, ys = data(h, kind, f)
    L = distinct(h, ys)
    ok = nf in (None, f) and nl in (None, L) and fits(L)
    r = h.raises(lambda: m.initialize(X, Y), ValueError)
    h.check('data that does not fit is rejected, other accepted',
            h.cond((r is None) == ok))
    if r is None and ok:
        k = sp if isinstance(sp, list) else [sp] * L
        S = sum(k)
        h.check('number of hidden states', h.cond(
            m.n_states == S and m.n_labels == L and m.n_features == f))
        h.check('size', h.cond(m.size_joint_feature == size(S, f)))
        want = [l for l in range(L) for _ in range(k[l])]
        h.check('labels of the hidden states', h.cond(
            [int(m.label_from_latent(h.np.array([s]))[0])
             for s in range(S)] == want))


def nodes(h, edge, lf):
    """models with hidden nodes"""
    import pystruct.models as M
    H = h.pick(h.int('hidden', 1, 2))
    f = h.pick(h.int('features', 1, 2))
    nl = opt(h, 'n_labels', 2, 3) if not edge else h.pick(
        h.int('n_labels', 1, 3))
    nf = opt(h, 'n_features', 1, 2) if not edge else h.pick(
        h.int('n_features', 1, 2))
    kw = dict(n_labels=nl, n_features=nf, n_hidden_states=H,
              latent_node_features=lf, inference_method='max-product')
    if edge:
        E = h.pick(h.int('edge', 1, 2))
        m = M.EdgeFeatureLatentNodeCRF(n_edge_features=E, **kw)
    else:
        m = M.LatentNodeCRF(**kw)
    X, Y, ys = data(h, 'node edge' if edge else 'node', f)
    L = distinct(h, ys)

    def size(L, f):
        S = L + H
        return (S if lf else L) * f + (E * S * S if edge else SYM(S))
    if nl and nf:
        h.check('size if declared', h.cond(
            m.size_joint_feature == size(nl, nf)))
    ok = nl in (None, L) and nf in (None, f)
    r = h.raises(lambda: m.initialize(X, Y), ValueError)
    h.check('data that does not fit is rejected, other accepted',
            h.cond((r is None) == ok))
    if r is None and ok:
        h.check('numbers', h.cond(m.n_states == L + H and m.n_labels == L
                                  and m.n_features == f))
        h.check('size', h.cond(m.size_joint_feature == size(L, f)))


def multilabel(h, n_edges):
    """one row of labels per sample"""
    import pystruct.models as M
    np = h.np
    nf, nl = opt(h, 'n_features', 1, 2), opt(h, 'n_labels', 1, 3)
    f, l = h.pick(h.int('features', 1, 2)), h.pick(h.int('labels', 1, 3))
    E = None if n_edges is None else np.zeros((n_edges, 2), dtype='int64')
    m = M.MultiLabelClf(n_labels=nl, n_features=nf, edges=E,
                        inference_method='max-product')
    X, Y = np.ones((2, f)), np.zeros((2, l), dtype='int64')
    ok = nf in (None, f) and nl in (None, l)
    r = h.raises(lambda: m.initialize(X, Y), ValueError)
    h.check('data that does not fit is rejected, other accepted',
            h.cond((r is None) == ok))
    if r is None and ok:
        h.check('size', h.cond(m.size_joint_feature ==
                               f * l + 4 * (n_edges or 0) and
                               m.n_labels == l and m.n_features == f))


def binary(h):
    import pystruct.models as M
    np = h.np
    nf = opt(h, 'n_features', 1, 3)
    f = h.pick(h.int('features', 1, 3))
    m = M.BinaryClf(nf)
    r = h.raises(lambda: m.initialize(np.ones((2, f)), np.array([1, -1])),
                 ValueError)
    h.check('data that does not fit is rejected, other accepted',
            h.cond((r is None) == (nf in (None, f))))
    if r is None:
        h.check('size', h.cond(m.size_joint_feature == f))


def weights(h, model, late):
    """class weights: one per state"""
    k = h.pick(h.int('entries', 1, 4))
    cw = [h.real('c%d' % i, 0, 9) for i in range(k)]
    S = h.pick(h.int('states', 2, 3))
    np = h.np
    states = 'n_classes' if model == 'MultiClassClf' else 'n_states'
    given = {0: np.array(cw), 1: list(cw)}[h.pick(h.int('list', 0, 1))]

    def f():
        m, kind, size = construct(
            h, model, MODELS, n_features=None if late else 1,
            class_weight=given, **{states: S})
        out.append(m)
        if late:
            X, Y, _ = data(h, kind, 1, n=3)
            v = np.array(list(range(S)) + [0] * (3 - S))
            if kind == 'flat':
                X, Y = np.ones((3, 1)), v
            else:
                Y = [v.reshape(Y[0].shape)]
            m.initialize(X, Y)
    out = []
    r = h.raises(f, ValueError)
    h.check('class weights that do not fit are rejected, others accepted',
            h.cond((r is None) == (k == S)))
    if r is None:
        h.check('class weights', h.eq(out[0].class_weight, np.array(cw)))


def shapes(h, model, table='MODELS'):
    """weights and samples of another size are rejected"""
    np = h.np
    t = globals()[table]
    kw = {'n_classes' if model == 'MultiClassClf' else
          'n_labels' if table == 'LATENT' else 'n_states': 2,
          'n_features': 2}
    m, kind, size = construct(h, model, t, **kw)
    D = m.size_joint_feature
    d = h.pick(h.int('more', -1, 1))
    f = h.pick(h.int('features', 1, 3))
    X, Y, _ = data(h, kind, f, K=2)
    x, y = X[0], Y[0]
    if kind != 'flat':
        y = np.zeros(y.shape, dtype='int64')
    else:
        y = 0
    w = h.reals('w', D + d, -4, 4)
    ok = d == 0 and f == 2
    if not ok:
        h.check('weights or features of another size', h.cond(h.raises(
            lambda: m.inference(x, w), ValueError) is not None))
        h.check('weights or features of another size', h.cond(h.raises(
            lambda: m.loss_augmented_inference(x, y, w), ValueError)
            is not None))
    r = h.raises(lambda: m.joint_feature(x, y), ValueError)
    if kind != 'flat':
        h.check('features of another size', h.cond((r is None) == (f == 2)))


def edge_shapes(h):
    """edge features: one row per edge"""
    import pystruct.models as M
    np = h.np
    m = M.EdgeFeatureGraphCRF(2, 1, 2, inference_method='max-product')
    rows, cols = h.pick(h.int('rows', 0, 3)), h.pick(h.int('cols', 1, 3))
    x = (np.ones((2, 1)), np.array([[0, 1]]), np.ones((rows, cols)))
    y = np.array([0, 1])
    w = h.reals('w', 10, -4, 4)
    ok = rows == 1 and cols == 2
    h.check('edge features of another size', h.cond((h.raises(
        lambda: m.joint_feature(x, y), ValueError) is None) == ok))
    if not ok:
        h.check('edge features of another size', h.cond(h.raises(
            lambda: m.inference(x, w), ValueError) is not None))


FIT = ('OneSlackSSVM', 'NSlackSSVM', 'SubgradientSSVM', 'FrankWolfeSSVM',
       'FrankWolfeSSVM batch', 'StructuredPerceptron', 'SubgradientLatentSSVM',
       'LatentSSVM')


def fit(h, learner, given, N=2, d=2, refit=False):
    """fit initializes the model with its data, unless told otherwise"""
    from . import table, C28
    from vf.hooks import HOOKS
    HOOKS.perm = lambda n: list(range(n))
    HOOKS.normal = lambda *a: h.np.zeros(d)
    cls = learner.split()[0]
    lat = 'Latent' in cls
    s = table.make(h, N, 2, d, script=[0] * 99)
    m = s.m
    m.latent = lambda x, y, w: y
    m.init_latent = lambda X, Y: list(Y)
    m.label_from_latent = lambda y: y
    m.base_loss = m.loss
    log = []
    init = m.initialize

    def initialize(X, Y):
        log.append((list(X), list(Y)))
        return init(X, Y)
    m.initialize = initialize
    for n in ('joint_feature', 'inference', 'loss_augmented_inference',
              'loss'):
        def wrap(f):
            def g(*a, **k):
                h.check('before the model is used', h.cond(
                    bool(log) or not given))
                return f(*a, **k)
            return g
        setattr(m, n, wrap(getattr(m, n)))
    k = dict(batch_mode=True) if 'batch' in learner else {}
    if cls == 'LatentSSVM':
        clf = C28.learner(cls, m, max_iter=2)
    else:
        clf = C28.learner(cls, m, max_iter=2, **k)
    # given None: by default
    if not given and given is not None:
        init(s.X, s.Y)
    kw = {} if given is None else {'initialize': given}
    for i in range(2 if refit else 1):
        if i:
            log[:] = []
        clf.fit(s.X, s.YL, **kw)
        h.check('initialized once for the data, unless told otherwise',
                h.cond(log == ([] if given is False else [(s.X, s.Y)])))
    w = (clf.base_ssvm if cls == 'LatentSSVM' else clf).w
    h.check('weights of the size of the model', h.cond(w.shape == (d,)))


def configs(tier):
    C = []

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k if a != 'budget')
        C.append(dict({'name': fn + ' ' + nm}, fn=fn,
                      **{('model' if a == 'name' else a): k[a] for a in k}))
    for n in MODELS:
        add('infer', name=n)
        add('shapes', name=n)
        if n.split()[0] in ('GraphCRF', 'ChainCRF', 'MultiClassClf'):
            add('weights', name=n, late=False)
            add('weights', name=n, late=True)
    add('infer', name='GraphCRF', n=2, N=2)
    add('infer', name='ChainCRF', n=3)
    add('infer', name='DirectionalGridCRF', n=1, N=3)
    for l in FIT:
        for g in (None, True, False):
            add('fit', learner=l, given=g)
        add('fit', learner=l, given=None, N=3, d=3, refit=True)
    for n in LATENT:
        add('latent', name=n, per=1)
        add('latent', name=n, per=2)
        add('latent', name=n, per=(2, 1))
        add('shapes', name=n, table='LATENT')
    add('latent', name='LatentGraphCRF', per=(1, 3, 2))
    add('infer_edges', given=False)
    add('infer_edges', given=True)
    add('edge_shapes')
    add('symmetric', late=False)
    add('symmetric', late=True)
    for lf in (False, True):
        add('nodes', edge=False, lf=lf)
        add('nodes', edge=True, lf=lf)
    for k in (None, 0, 2):
        add('multilabel', n_edges=k)
    add('binary')
    return C
