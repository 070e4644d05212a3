"""Shared: an answer of an inference routine is compared with every
labeling."""
import itertools


def score(h, U, PW, E, y):
    ts = [U[i, y[i]] for i in range(len(y))]
    for e in range(len(E)):
        ts.append(PW[e, y[int(E[e][0])], y[int(E[e][1])]])
    return h.sumr(ts)


def is_map(h, U, PW, E, y, n, S, label='maximizer'):
    """y: array of n labels, one of the best"""
    h.check(label + ': shape', h.cond(tuple(y.shape) == (n,)))
    lab = []
    for i in range(n):
        v = y[i]
        h.check(label + ': valid label', h.and_(0 <= v, v < S))
        lab.append(h.pick(v))
    best = score(h, U, PW, E, lab)
    for z in itertools.product(range(S), repeat=n):
        if list(z) != lab:
            h.check(label, h.le(score(h, U, PW, E, z), best), note=str(z))
    return best


def exact_solver(h, seen=None):
    """a solver that returns one of the best labelings, whichever"""
    from vf.hooks import HOOKS

    def ad3(U, E, PW, *rest):
        U0, PW0 = U.copy(), PW.copy()
        n, S = U.shape
        k = len(seen) if seen is not None else 0
        y = [h.pick(h.int('sol%d_%d' % (k, i), 0, S - 1)) for i in range(n)]
        best = score(h, U0, PW0, E, y)
        for z in itertools.product(range(S), repeat=n):
            if list(z) != y:
                h.assume(h.le(score(h, U0, PW0, E, z), best))
        mu = h.np.zeros((n, S))
        for i in range(n):
            mu[i, y[i]] = 1
        pm = h.np.zeros((len(E), S * S))
        for e in range(len(E)):
            pm[e, y[int(E[e][0])] * S + y[int(E[e][1])]] = 1
        if seen is not None:
            seen.append(y)
        return mu, pm, best, 'integral'
    HOOKS.ad3 = ad3


def argmax_solver(h, last=False):
    """a solver that returns the first (or last) best labeling"""
    from vf.hooks import HOOKS

    def ad3(U, E, PW, *rest):
        n, S = U.shape
        best = lab = None
        zs = list(itertools.product(range(S), repeat=n))
        for z in zs[::-1] if last else zs:
            v = score(h, U, PW, E, z)
            if lab is None or h.fork(best < v):
                best, lab = v, z
        mu = h.np.zeros((n, S))
        for i in range(n):
            mu[i, lab[i]] = 1
        pm = h.np.zeros((len(E), S * S))
        for e in range(len(E)):
            pm[e, lab[int(E[e][0])] * S + lab[int(E[e][1])]] = 1
        return mu, pm, best, 'integral'
    HOOKS.ad3 = ad3


def on_line(h, shape, seed, top=7, free=True, r0=4):
    """potentials that are affine in one real number t"""
    np = h.np
    size = 1
    for k in shape:
        size *= k
    q = 1 + seed % 5
    a = [float((i * i * q + 3 * i + i // 5 * seed + seed) % top - top // 2)
         for i in range(size)]
    r = np.array(a).reshape(shape)
    if free:
        # a few entries move
        b = [0.] * size
        if free == 'one':
            b[(size - 2 - seed % 3) % size] = 1.
        else:
            for k in range(2):
                b[(size // 2 + (seed + 1) * 7 * k + seed) % size] += 1. - 3 * k
        r = r + np.array(b).reshape(shape) * h.line('t', -r0, r0)
    return r


def forest_best(h, U, PW, edges, n, S):
    """the best score of all labelings of a forest"""
    adj = [[] for _ in range(n)]
    for e, (a, b) in enumerate(edges):
        adj[a].append((b, e, False))
        adj[b].append((a, e, True))

    def top(vs):
        m = vs[0]
        for v in vs[1:]:
            if h.fork(m < v):
                m = v
        return m
    seen = [False] * n
    total = 0

    def up(i, par):
        seen[i] = True
        msg = [U[i, s] for s in range(S)]
        for j, e, rev in adj[i]:
            if e == par:
                continue
            m = up(j, e)
            for s in range(S):
                msg[s] = msg[s] + top([
                    m[r] + (PW[e, r, s] if rev else PW[e, s, r])
                    for r in range(S)])
        return msg
    for i in range(n):
        if not seen[i]:
            total = total + top(up(i, None))
    return total


def large(h, n, S, edges, seed, shared=False, top=7, dtype='int64',
          free=True):
    """a large forest with potentials on a line"""
    from pystruct.inference import inference_dispatch
    np = h.np
    U = on_line(h, (n, S), seed, top, free)
    m = len(edges)
    P = on_line(h, (S, S) if shared else (m, S, S), seed + 1, top,
                free and not shared)
    E = np.array(edges, dtype=dtype).reshape(-1, 2)
    U0, P0 = U.copy(), P.copy()
    y = inference_dispatch(U, P, E, 'max-product')
    h.check('inputs kept', h.and_(h.eq(U, U0), h.eq(P, P0)))
    h.check('shape', h.cond(tuple(y.shape) == (n,)))
    lab = [h.pick(v) for v in y]
    h.check('valid labels', h.cond(all(0 <= v < S for v in lab)))
    PW = np.array([P0 for _ in edges]).reshape(m, S, S) if shared else P0
    best = forest_best(h, U0, PW, edges, n, S)
    h.check('maximizer', h.le(best, score(h, U0, PW, E, lab)))
    h.observe('y', y)
