"""Model instances with symbolic weights and features, shared by the
property harnesses."""
import itertools


class Inst(object):
    """m: the model; x, w: input and weights; n: number of nodes;
    allowed: admissible labels per node; mk(labels): y as a caller passes it"""
    pass


def wsym(h, name, S, Fe, sym=(), anti=(), real=None):
    """pairwise weights (Fe, S, S) respecting the declared symmetries"""
    np = h.np
    real = real or h.real
    out = []
    for f in range(Fe):
        M = [[None] * S for _ in range(S)]
        for a in range(S):
            for b in range(S):
                if f in sym and b < a:
                    M[a][b] = M[b][a]
                elif f in anti and b < a:
                    M[a][b] = -M[b][a]
                elif f in anti and a == b:
                    M[a][b] = np.float64(0)
                else:
                    M[a][b] = real('%s_%d_%d_%d' % (name, f, a, b))
        out.append(M)
    return out


def flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            for y in flat(x):
                yield y
        else:
            yield x


def int_edges(h, edges, n=None, dtype='int64'):
    """edges: list of pairs, or the number of edges with free end points"""
    np = h.np
    if isinstance(edges, int):
        E = []
        for e in range(edges):
            a = h.pick(h.int('edge%d_a' % e, 0, n - 1))
            b = h.pick(h.int('edge%d_b' % e, 0, n - 1))
            if a == b:
                h.assume(False)
            E.append([a, b])
        edges = E
    return np.array(edges, dtype=dtype).reshape(-1, 2)


def class_weight(h, cw, n):
    """cw: None, 'sym' or 'sympos' (reals in the tested range) or a list"""
    if cw is None:
        return None
    if cw == 'sym':
        return [h.real('cw_%d' % i, 0, 8) for i in range(n)]
    return list(cw)


def given(h, shape, seed, top=5):
    """numbers without a pattern that the code could rely on"""
    k = 1
    for e in shape:
        k *= e
    q = 1 + seed % 3
    return h.np.array([float((i * i * q + 2 * i + i // 3 * seed + seed) % top
                             - top // 2) for i in range(k)]).reshape(shape)


def of_type(h, shape, name, xval, xtype):
    """features of another type than float64: whole numbers, free or given"""
    np = h.np
    if isinstance(xval, int):
        a = given(h, shape, xval)
        return (a > 0) if xtype == 'bool' else abs(a).astype(xtype)
    if xtype == 'bool':
        return h.ints(name, shape, 0, 1) == 1
    if xtype == 'float32':     # small whole numbers: sums are exact
        return h.ints(name, shape, -9, 9).astype('float32')
    return h.ints(name, shape, 0 if xtype[0] == 'u' else -9, 9, xtype)


def build(h, kind, S=2, F=1, n=2, edges=(), Fe=1, sym=(), anti=(), r=1, c=2,
          nb=4, directed=False, method='ad3', cw=None, L=2, spl=2, nh=1,
          Sh=2, lnf=False, tag='', m=None, free_w=False, wfree=True,
          dtype='int64', lo=None, hi=None, xval=None, layout='C',
          xtype=None, ytype='int64', ro=False):
    """ro: arrays that cannot be written to; layout: memory layout of features and labelings; free_w: weights need not respect the declared edge symmetries"""
    import pystruct.models as M
    np = h.np
    g = Inst()
    g.kind = kind
    def X(*shape):
        if xtype is not None:
            return of_type(h, shape, 'x' + tag, xval, xtype)
        if isinstance(xval, int):
            return given(h, shape, xval)
        if xval == 'eye':     # unary potentials are free weights
            k = 1
            for e in shape[:-1]:
                k *= e
            return np.eye(k, shape[-1]).reshape(*shape)
        return lay(h.reals('x' + tag, shape, lo, hi))

    def lay(a):
        return np.asfortranarray(a) if layout == 'F' else a

    def EF(m):
        if xtype is not None:
            return of_type(h, (m, Fe), 'ef' + tag,
                           None if xval is None else xval + 1, xtype)
        if isinstance(xval, int):
            return given(h, (m, Fe), xval + 1)
        if xval == 'eye':
            return np.eye(m, Fe)
        return h.reals('ef' + tag, (m, Fe), lo, hi)
    real = lambda nm: h.real(nm, lo, hi)
    cwv = class_weight(h, cw, {'multilabel': 2}.get(kind, S))
    g.cw = cwv
    kw = {} if cw is None else {'class_weight': cwv}
    g.shape = None
    if isinstance(spl, list):
        spl = list(spl)
    if kind == 'graph':
        g.m = m or M.GraphCRF(n_states=S, n_features=F, directed=directed,
                              inference_method=method, **kw)
        E = int_edges(h, edges, n, dtype)
        g.x = (X(n, F), E)
    elif kind == 'chain':
        g.m = m or M.ChainCRF(n_states=S, n_features=F, directed=directed,
                              inference_method=method, **kw)
        g.x = X(n, F)
    elif kind == 'edgefeat':
        g.m = m or M.EdgeFeatureGraphCRF(
            n_states=S, n_features=F, n_edge_features=Fe,
            inference_method=method, symmetric_edge_features=list(sym),
            antisymmetric_edge_features=list(anti), **kw)
        E = int_edges(h, edges, n, dtype)
        g.x = (X(n, F), E, EF(len(E)))
    elif kind == 'grid':
        g.m = m or M.GridCRF(n_states=S, n_features=F, neighborhood=nb,
                             inference_method=method)
        if cw is not None:
            g.m.class_weight = np.array(cwv, dtype=float)
        g.x = X(r, c, F)
        n, g.shape = r * c, (r, c)
    elif kind == 'dirgrid':
        g.m = m or M.DirectionalGridCRF(
            n_states=S, n_features=F, neighborhood=nb,
            inference_method=method)
        g.x = X(r, c, F)
        n, g.shape = r * c, (r, c)
    elif kind == 'multilabel':
        E = int_edges(h, edges, L, dtype)
        g.m = m or M.MultiLabelClf(n_labels=L, n_features=F, edges=E,
                                   inference_method=method)
        g.x = X(F)
        n, S = L, 2
    elif kind == 'latgraph':
        g.m = m or M.LatentGraphCRF(n_labels=L, n_features=F,
                                    n_states_per_label=spl,
                                    inference_method=method)
        E = int_edges(h, edges, n, dtype)
        g.x = (X(n, F), E)
        S = spl * L if isinstance(spl, int) else sum(spl)
    elif kind in ('latgrid', 'latdirgrid'):
        K = M.LatentGridCRF if kind == 'latgrid' else \
            M.LatentDirectionalGridCRF
        g.m = m or K(n_labels=L, n_features=F, n_states_per_label=spl,
                     neighborhood=nb, inference_method=method)
        g.x = X(r, c, F)
        n, g.shape = r * c, (r, c)
        S = spl * L if isinstance(spl, int) else sum(spl)
    elif kind in ('latnode', 'eflatnode'):
        S = L + Sh
        cwv = class_weight(h, cw, L)
        g.cw = cwv
        kw = {} if cw is None else {'class_weight': cwv}
        E = int_edges(h, edges, n + nh, dtype)
        feat = X(n + nh if lnf else n, F)
        if kind == 'latnode':
            g.m = m or M.LatentNodeCRF(
                n_labels=L, n_features=F, n_hidden_states=Sh,
                inference_method=method, latent_node_features=lnf, **kw)
            g.x = (feat, E, nh)
        else:
            g.m = m or M.EdgeFeatureLatentNodeCRF(
                n_labels=L, n_features=F, n_edge_features=Fe,
                n_hidden_states=Sh, inference_method=method,
                latent_node_features=lnf,
                symmetric_edge_features=list(sym),
                antisymmetric_edge_features=list(anti), **kw)
            g.x = (feat, E, EF(len(E)), nh)
        g.nh = nh
    else:
        raise KeyError(kind)
    if kind in ('latnode', 'eflatnode'):
        g.allowed = [list(range(L))] * n + [list(range(L, S))] * nh
        n = n + nh
    else:
        g.allowed = [list(range(S))] * n
    g.n, g.S = n, S
    g.L, g.spl = L, spl
    # hidden state -> label
    if kind.startswith('lat') and kind != 'latnode':
        cnt = [spl] * L if isinstance(spl, int) else spl
        g.label_of = [l for l in range(L) for _ in range(cnt[l])]
    # weights
    if wfree:
        size = g.m.size_joint_feature
        if (sym or anti) and not free_w:
            nin = (L + (Sh if lnf else 0)) if kind == 'eflatnode' else S
            u = [real('w_%d' % i) for i in range(nin * F)]
            p = wsym(h, 'wp', S, Fe, sym, anti, real)
            g.w = np.array(u + list(flat(p)), dtype=float)
        else:
            g.w = h.reals('w', (size,), lo, hi)

    def mk(y):
        if hasattr(y, 'reshape'):
            a = y if ytype == 'int64' else y.astype(ytype)
        else:
            a = np.array(list(y), dtype=ytype)
        a = lay(a.reshape(g.shape)) if g.shape else a
        if ro:
            a = a.copy()
            a.flags.writeable = False
        return a
    if ro:
        for a in g.x if isinstance(g.x, tuple) else (g.x,):
            if hasattr(a, 'flags'):
                a.flags.writeable = False
        if wfree:
            g.w.flags.writeable = False
    g.mk = mk
    return g


def labelings(g):
    return [tuple(y) for y in itertools.product(*g.allowed)]


# narrow or boolean features, labels of unsigned types
TYPES = [('int64', 'int64'), ('uint8', 'uint8'), ('bool', 'int32'),
         ('int8', 'uint32'), ('float32', 'int8'), ('int32', 'int16'),
         (None, 'uint8')]
_P = [[0, 1], [2, 1]]


def typed_specs(types=None, **k0):
    """small instances with features and labels of other types"""
    out = []
    for xt, yt in types or TYPES:
        k = dict(xtype=xt, ytype=yt, **k0)
        out += [
            dict(kind='graph', n=3, edges=_P, S=2, F=2, **k),
            dict(kind='graph', n=3, edges=_P, S=3, F=1, directed=True, **k),
            dict(kind='chain', n=3, S=2, F=2, **k),
            dict(kind='edgefeat', n=3, edges=_P, S=2, F=1, Fe=2, **k),
            dict(kind='edgefeat', n=3, edges=_P, S=2, F=1, Fe=2, sym=[0],
                 anti=[1], **k),
            dict(kind='grid', r=2, c=2, S=2, F=2, **k),
            dict(kind='dirgrid', r=2, c=2, S=2, F=1, **k),
            dict(kind='multilabel', L=3, F=2, edges=[[0, 1], [2, 1]], **k),
            dict(kind='latgraph', n=2, L=2, spl=2, F=1, edges=[[0, 1]], **k),
            dict(kind='latnode', n=2, L=2, nh=1, Sh=2, F=1,
                 edges=[[0, 2], [1, 2]], **k),
            dict(kind='eflatnode', n=2, L=2, nh=1, Sh=2, F=1, Fe=1,
                 lnf=True, edges=[[0, 2], [1, 2]], **k),
            dict(kind='eflatnode', n=2, L=2, nh=1, Sh=2, F=1, Fe=2,
                 sym=[0], anti=[1], edges=[[0, 2], [1, 2]], **k)]
    out += [dict(s, ro=True) for s in out[-12:]]
    return out


# more pairs of states than a narrow label can count
def paired(**k):
    return [dict(kind='edgefeat', n=3, edges=_P, S=S, F=1, Fe=2, xval=2,
                 ytype=yt, **k)
            for S, yt in ((20, 'uint8'), (13, 'int8'))]


NT_PAIRED = [dict(states=st, feats=(1, 1), nodes=(2, 2), ytype=yt, xval=2,
                  ef=((1, 1), (1, 2)),
                  edges={'0,0': [[1, 0]], '0,1': [[0, 1]], '1,1': [[0, 1]],
                         '1,0': [[1, 0]]})
             for st, yt in (((18, 20), 'uint8'), ((14, 12), 'int8'))]


def spec_name(s):
    return ' '.join('%s=%s' % (a, s[a]) for a in s if a != 'edges')


def few(g, most=300, rounds=40):
    """all labelings of a small instance; of a large one, every label of
    every node on top of a varied labeling, and some more varied ones"""
    tot = 1
    for a in g.allowed:
        tot *= len(a)
    if tot <= most:
        return labelings(g)
    out, k = [], 1

    def nxt():
        ys = []
        for i, a in enumerate(g.allowed):
            state[0] = (state[0] * 1103515245 + 12345) % 2 ** 31
            ys.append(a[(state[0] >> 12) % len(a)])
        return ys
    state = [77]
    base = nxt()
    out.append(tuple(base))
    if len(base) > 100 or sum(len(a) for a in g.allowed) > 250:
        # a huge one: labels that many nodes share, and varied ones
        return out + [tuple(a[c] for a in g.allowed) for c in (0, -1)] + \
            [tuple(nxt()) for _ in range(4)]
    for i, a in enumerate(g.allowed):
        for s in a:
            if s != base[i]:
                out.append(tuple(base[:i] + [s] + base[i + 1:]))
    return out + [tuple(nxt()) for _ in range(rounds)]


def varied(h, g, seed):
    """a labeling without a pattern"""
    return h.np.array([a[(seed + i * i + i // 3) % len(a)]
                       for i, a in enumerate(g.allowed)], dtype='int64')


def score(h, U, PW, E, y):
    """score of the assignment y under the potentials a solver receives"""
    ts = [U[i, int(y[i])] for i in range(len(y))]
    for e in range(len(E)):
        a, b = int(E[e][0]), int(E[e][1])
        ts.append(PW[e, int(y[a]), int(y[b])])
    return h.sumr(ts)


def dot(h, w, f):
    w, f = list(w.ravel()), list(f.ravel())
    assert len(w) == len(f)
    return h.sumr([a * b for a, b in zip(w, f)])


# graphs on n nodes: name -> (n, edges)
GRAPHS = {
    'one': (1, []),
    'two-free': (2, []),
    'edge': (2, [[0, 1]]),
    'edge-rev': (2, [[1, 0]]),
    'path3': (3, [[0, 1], [1, 2]]),
    'path3-mixed': (3, [[1, 0], [1, 2]]),
    'path3-perm': (3, [[2, 0], [1, 2]]),
    'iso3': (3, [[2, 1]]),
    'iso3-first': (3, [[1, 2]]),
    'cyc3': (3, [[0, 1], [1, 2], [2, 0]]),
    'cyc3-mixed': (3, [[1, 0], [1, 2], [0, 2]]),
    'star4': (4, [[0, 1], [2, 0], [0, 3]]),
    'cyc4': (4, [[0, 1], [1, 2], [3, 2], [0, 3]]),
    'forest4': (4, [[3, 0], [1, 2]]),
    'k4': (4, [[0, 1], [2, 0], [0, 3], [2, 1], [1, 3], [3, 2]]),
}


# ------------------------------------------------------------ several types
def build_nt(h, states=(2, 3), feats=(1, 2), nodes=(2, 1), ef=((1, 1), (1, 2)),
             edges=None, method='ad3', cw=None, tag='', m=None, none=(),
             wfree=True, dtype='int64', lo=None, hi=None, xval=None,
             xtype=None, ytype='int64'):
    """edges: {'0,1': [[a, b], ..]}; pairs not named have no edge.
    none: pairs / types given as None ('e0,1', 'n1')"""
    import pystruct.models as M
    np = h.np
    g = Inst()
    T = len(states)
    cwv = None
    if cw == 'sym':
        cwv = [[h.real('cw_%d_%d' % (t, s), 0, 8) for s in range(states[t])]
               for t in range(T)]
    elif cw is not None:
        cwv = [list(c) for c in cw]
    g.cw = cwv
    g.m = m or M.NodeTypeEdgeFeatureGraphCRF(
        T, list(states), list(feats), [list(r) for r in ef],
        inference_method=method, l_class_weight=cwv)


    def X(name, shape, k):
        if xtype is not None:
            return of_type(h, shape, name,
                           None if xval is None else xval + k, xtype)
        if xval is not None:
            return given(h, shape, xval + k)
        return h.reals(name, shape, lo, hi)
    nf = []
    for t in range(T):
        if 'n%d' % t in none:
            nf.append(None)
            assert nodes[t] == 0
        else:
            nf.append(X('x%s_%d' % (tag, t), (nodes[t], feats[t]), t))
    es, fs = [], []
    g.edges = []
    off = [sum(nodes[:t]) for t in range(T)]
    for a in range(T):
        for b in range(T):
            k = '%d,%d' % (a, b)
            e = (edges or {}).get(k, [])
            if 'e' + k in none:
                assert not e
                es.append(None)
                fs.append(None)
                continue
            es.append(np.array(e, dtype=dtype).reshape(-1, 2))
            fs.append(X('ef%s_%d_%d' % (tag, a, b), (len(e), ef[a][b]),
                        a + 2 * b + 1))
            for p, q in e:
                g.edges.append((off[a] + p, off[b] + q))
    g.x = (nf, es, fs)
    g.n = sum(nodes)
    g.T = T
    g.start = [sum(states[:t]) for t in range(T + 1)]
    g.states, g.nodes = list(states), list(nodes)
    g.type_of = [t for t in range(T) for _ in range(nodes[t])]
    g.allowed = [list(range(g.start[t], g.start[t + 1])) for t in g.type_of]
    g.S = sum(states)
    if wfree:
        g.w = h.reals('w', (int(g.m.size_joint_feature),), lo, hi)
    g.mk = lambda y: y.astype(ytype) if hasattr(y, 'astype') else \
        np.array(list(y), dtype=ytype)
    return g


def score_nt(h, g, U, E, PW, y):
    """score under the per-type potentials handed to the solver"""
    ts = []
    off = [sum(g.nodes[:t]) for t in range(g.T)]
    for t in range(g.T):
        for i in range(g.nodes[t]):
            ts.append(U[t][i, int(y[off[t] + i]) - g.start[t]])
    k = 0
    for a in range(g.T):
        for b in range(g.T):
            for e in range(len(E[k])):
                p, q = int(E[k][e][0]), int(E[k][e][1])
                ts.append(PW[k][e, int(y[off[a] + p]) - g.start[a],
                                int(y[off[b] + q]) - g.start[b]])
            k += 1
    return h.sumr(ts)


NT = {
    'two': dict(states=(2, 3), feats=(1, 2), nodes=(2, 1),
                ef=((1, 1), (1, 2)),
                edges={'0,0': [[1, 0]], '0,1': [[0, 0]], '1,0': [[0, 1]]}),
    'two-rev': dict(states=(3, 2), feats=(2, 1), nodes=(1, 2),
                    ef=((1, 2), (2, 1)),
                    edges={'0,1': [[0, 1], [0, 0]], '1,1': [[1, 0]]}),
    'equal': dict(states=(2, 2), feats=(1, 1), nodes=(2, 2),
                  ef=((1, 1), (1, 1)),
                  edges={'0,0': [[0, 1]], '0,1': [[1, 0], [0, 1]],
                         '1,0': [[0, 1]], '1,1': [[1, 0]]}),
    'nopair': dict(states=(2, 2), feats=(1, 2), nodes=(2, 1),
                   ef=((2, 0), (0, 0)), edges={'0,0': [[0, 1]]}),
    'none': dict(states=(2, 2), feats=(1, 2), nodes=(2, 0),
                 ef=((1, 1), (1, 1)), edges={'0,0': [[1, 0]]},
                 none=('n1', 'e0,1', 'e1,0', 'e1,1')),
    'first-none': dict(states=(3, 2), feats=(1, 2), nodes=(0, 2),
                       ef=((1, 1), (1, 1)), edges={'1,1': [[1, 0]]},
                       none=('n0', 'e0,0', 'e0,1', 'e1,0')),
    'mid-zero': dict(states=(2, 3, 2), feats=(1, 1, 1), nodes=(1, 0, 1),
                     ef=((1, 1, 1),) * 3, edges={'2,0': [[0, 0]]}),
    'noedge': dict(states=(2, 3), feats=(1, 1), nodes=(1, 1),
                   ef=((1, 1), (1, 1)), edges={}),
    'one': dict(states=(3,), feats=(2,), nodes=(2,), ef=((2,),),
                edges={'0,0': [[1, 0]]}),
    'three': dict(states=(2, 1, 2), feats=(1, 2, 1), nodes=(1, 1, 1),
                  ef=((1, 2, 1), (2, 1, 1), (1, 1, 1)),
                  edges={'0,1': [[0, 0]], '2,0': [[0, 0]],
                         '1,2': [[0, 0]]}),
    'four': dict(states=(1, 2, 1, 2), feats=(1, 1, 1, 1),
                 nodes=(1, 1, 1, 1), ef=((1,) * 4,) * 4,
                 edges={'0,3': [[0, 0]], '3,1': [[0, 0]],
                        '1,2': [[0, 0]]}),
}


# many states, features, edge features, nodes or edges, one at a time
_E6 = [[0, 1], [2, 1], [2, 3], [4, 3], [5, 4], [5, 0], [1, 4], [0, 3]]
_E5 = [[1, 0], [1, 2], [3, 2], [3, 4], [4, 0], [0, 2], [1, 3]]
WIDE = [dict(kind='graph', n=2, S=6, F=6, edges=[[1, 0]], directed=d)
        for d in (False, True)] + \
       [dict(kind='graph', n=6, S=2, F=1, edges=_E6, directed=d)
        for d in (False, True)] + \
       [dict(kind='graph', n=2, S=3, F=1, edges=[[0, 1], [0, 1], [1, 0]],
             directed=d) for d in (False, True)] + [
    dict(kind='chain', n=6, S=2, F=1),
    dict(kind='chain', n=2, S=6, F=5, directed=True),
    dict(kind='edgefeat', n=2, S=5, F=5, edges=[[1, 0]], Fe=6),
    dict(kind='edgefeat', n=2, S=5, F=1, edges=[[0, 1]], Fe=6,
         sym=[0, 4], anti=[2, 5]),
    dict(kind='edgefeat', n=5, S=2, F=1, edges=_E5, Fe=2),
    dict(kind='edgefeat', n=2, S=3, F=1, edges=[[0, 1], [0, 1], [1, 0]],
         Fe=2),
    dict(kind='grid', r=1, c=6, S=2, F=1, nb=4),
    dict(kind='grid', r=5, c=1, S=2, F=1, nb=8),
    dict(kind='grid', r=2, c=1, S=5, F=5, nb=8),
    dict(kind='dirgrid', r=1, c=5, S=2, F=1, nb=8),
    dict(kind='dirgrid', r=6, c=1, S=2, F=1, nb=4),
    dict(kind='dirgrid', r=1, c=2, S=5, F=5, nb=8),
    dict(kind='dirgrid', r=4, c=2, S=2, F=1, nb=8),
    dict(kind='dirgrid', r=2, c=4, S=2, F=1, nb=4),
    dict(kind='grid', r=3, c=3, S=2, F=1, nb=8),
    dict(kind='multilabel', L=6, F=1, edges=_E6),
    dict(kind='multilabel', L=2, F=6, edges=[[1, 0], [0, 1]]),
    dict(kind='latgraph', n=2, L=4, spl=[3, 1, 2, 1], F=2,
         edges=[[1, 0]]),
    dict(kind='latgrid', r=1, c=2, L=3, spl=[3, 1, 2], F=1, nb=4),
    dict(kind='latdirgrid', r=2, c=1, L=3, spl=[1, 3, 2], F=1, nb=8)]
WIDE_HIDDEN = [dict(kind=k, n=n, nh=nh, L=L, Sh=Sh, F=F, lnf=lnf, edges=E,
                    **(dict(Fe=5) if k == 'eflatnode' else {}))
               for k in ('latnode', 'eflatnode') for lnf in (False, True)
               for n, nh, L, Sh, F, E in (
                   (1, 1, 5, 4, 4, [[0, 1]]),
                   (4, 2, 2, 2, 1, [[0, 4], [4, 1], [5, 2], [3, 5], [4, 5],
                                    [0, 3]]))]


def wide(specs=None, most=9):
    """(name, spec)"""
    return [(' '.join('%s=%s' % (a, s[a]) for a in s if a != 'edges') +
             ' wide%d' % i, dict(s)) for i, s in enumerate(specs or WIDE)
            if s.get('r', 1) * s.get('c', 1) <= most and
            s.get('n', 0) + s.get('nh', 0) <= most]


NT_WIDE = {
    'wide-states': dict(states=(5, 4), feats=(4, 6), nodes=(1, 1),
                        ef=((5, 6), (6, 5)),
                        edges={'0,1': [[0, 0]], '1,0': [[0, 0]]}),
    'wide-nodes': dict(states=(2, 2), feats=(1, 1), nodes=(3, 3),
                       ef=((1, 2), (2, 1)),
                       edges={'0,0': [[0, 2], [2, 1]],
                              '0,1': [[2, 0], [0, 2], [1, 1]],
                              '1,0': [[2, 0], [0, 1]],
                              '1,1': [[2, 1], [0, 2], [0, 2]]}),
    'wide-types': dict(states=(2, 1, 3, 1, 2), feats=(1, 2, 1, 1, 3),
                       nodes=(1, 1, 1, 1, 1), ef=((1,) * 5,) * 5,
                       edges={'0,4': [[0, 0]], '4,2': [[0, 0]],
                              '2,0': [[0, 0]], '3,1': [[0, 0]]}),
}


# large: given features, free weights
_E9 = [[0, 1], [2, 1], [2, 3], [4, 3], [5, 4], [5, 0], [1, 4], [0, 3],
       [6, 2], [7, 6], [8, 7], [8, 0], [5, 8], [3, 6]]
_E11 = [[0, 6], [1, 6], [7, 1], [2, 7], [8, 2], [3, 8], [3, 9], [10, 4],
        [5, 10], [6, 7], [9, 8], [10, 9], [0, 1], [4, 5]]
LARGE = [dict(kind='graph', n=9, S=4, F=5, edges=_E9, directed=d)
         for d in (False, True)] + \
        [dict(kind='chain', n=14, S=3, F=3, directed=d)
         for d in (False, True)] + [
    dict(kind='edgefeat', n=9, S=3, F=3, edges=_E9, Fe=5),
    dict(kind='edgefeat', n=9, S=4, F=2, edges=_E9, Fe=4, sym=[1],
         anti=[3]),
    dict(kind='grid', r=5, c=6, S=2, F=3, nb=8),
    dict(kind='grid', r=3, c=7, S=4, F=2, nb=4),
    dict(kind='dirgrid', r=6, c=5, S=2, F=2, nb=8),
    dict(kind='dirgrid', r=7, c=3, S=4, F=1, nb=4),
    dict(kind='multilabel', L=9, F=5, edges=_E9),
    dict(kind='latgraph', n=9, L=4, spl=[3, 1, 2, 4], F=3, edges=_E9),
    dict(kind='latgrid', r=4, c=5, L=3, spl=[2, 1, 3], F=2, nb=8),
    dict(kind='latdirgrid', r=5, c=4, L=3, spl=2, F=2, nb=4)]
LARGE_HIDDEN = [dict(kind=k, n=6, nh=5, L=4, Sh=3, F=3, lnf=lnf, edges=_E11,
                     **(dict(Fe=4) if k == 'eflatnode' else {}))
                for k in ('latnode', 'eflatnode') for lnf in (False, True)]


# more nodes, edges or states than fit into a byte
def _ring(n, skip=()):
    return [[i, (i + 1) % n] if i % 3 else [(i + 1) % n, i]
            for i in range(n) if i not in skip] + \
        [[i, (i * 7 + 3) % n] for i in range(n) if (i * 7 + 3) % n != i]


HUGE = [dict(kind='graph', n=140, S=2, F=1, edges=_ring(140), directed=d)
        for d in (False, True)] + [
    dict(kind='chain', n=270, S=2, F=1),
    dict(kind='graph', n=3, S=130, F=1, edges=[[1, 0], [1, 2]],
         directed=True),
    dict(kind='edgefeat', n=140, S=2, F=1, edges=_ring(140), Fe=1),
    dict(kind='grid', r=17, c=16, S=2, F=1, nb=8),
    dict(kind='dirgrid', r=16, c=17, S=2, F=1, nb=4),
    dict(kind='multilabel', L=140, F=1, edges=_ring(140)),
    dict(kind='latgraph', n=140, L=2, spl=2, F=1, edges=_ring(140))]
LARGE_HIDDEN += [dict(kind='latnode', n=140, nh=130, L=2, Sh=2, F=1, lnf=False,
                    edges=_ring(270)[:270]),
               dict(kind='eflatnode', n=140, nh=130, L=2, Sh=2, F=1,
                    lnf=True, edges=_ring(270)[:270], Fe=1)]


def large(specs=None, fixed=True):
    """(name, spec)"""
    return [('large%d %s' % (i, s['kind']),
             dict(s, xval=i + 1) if fixed else dict(s))
            for i, s in enumerate(specs or LARGE + HUGE)]


NT_LARGE = {
    'large': dict(states=(4, 3, 2), feats=(3, 2, 4), nodes=(4, 3, 5),
                  ef=((2, 1, 3), (1, 2, 2), (3, 2, 1)), xval=3,
                  edges={'0,0': [[0, 2], [3, 1], [2, 3]],
                         '0,1': [[3, 0], [0, 2], [1, 1]],
                         '0,2': [[2, 4], [0, 0]],
                         '1,0': [[2, 0], [0, 3]],
                         '1,2': [[2, 3], [1, 1], [0, 4]],
                         '2,0': [[4, 3], [0, 1]],
                         '2,1': [[3, 2]],
                         '2,2': [[2, 1], [0, 4], [3, 0], [1, 4]]}),
    'large-types': dict(states=(2, 3, 1, 4, 2, 3), feats=(1, 2, 1, 3, 1, 2),
                        nodes=(2, 2, 1, 2, 3, 1), ef=[[1 + (a + b) % 2 for b in range(6)]
                            for a in range(6)],
                        xval=4,
                        edges={'0,5': [[1, 0], [0, 0]], '5,3': [[0, 1]],
                               '3,3': [[1, 0]], '4,4': [[2, 0], [1, 2]],
                               '2,1': [[0, 1]], '1,4': [[1, 2], [0, 0]],
                               '3,2': [[0, 0], [1, 0]]})}
_R = [[(5 * i) % 140, (3 * i + 1) % 130] for i in range(150)]
NT_LARGE['huge'] = dict(
    states=(2, 2), feats=(1, 2), nodes=(140, 130), ef=((1, 1), (1, 1)),
    xval=5, edges={'0,0': _ring(140), '0,1': _R,
                   '1,0': [[b, a] for a, b in _R[::2]]})
# numbers of nodes that fit the type of the edges per type only
NT_LARGE['huge-narrow'] = dict(
    states=(2, 2), feats=(1, 1), nodes=(140, 140), ef=((1, 1), (1, 1)),
    xval=7, dtype='uint8', edges={'0,1': _R, '1,1': _ring(140)})
NT_LARGE['huge-states'] = dict(
    states=(130, 3), feats=(1, 1), nodes=(2, 2), ef=((1, 1), (1, 1)), xval=6,
    edges={'0,1': [[0, 1], [1, 1]], '1,0': [[0, 1]], '1,1': [[1, 0]]})
