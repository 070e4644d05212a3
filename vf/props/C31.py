"""Synthetic grid data: clean labels, noisy observations of them."""
BOUNDS = ('one and two samples; the built-in sizes where they cannot be '
          'chosen, grids of 5x5 to 8x8 otherwise; every noise level and '
          'every normal draw, up to 2 redrawn pixels per sample at every '
          'position and 5, 9 and 30 at given positions, listed and all first positions of the shapes')
OUTSIDE = 'larger grids, more samples; rounding; the random generator itself'


class Draws(object):
    """random numbers: normal draws are free; positions are chosen one by
    one (the first ones may be given), the redrawn pixels are free"""

    def __init__(self, h, fix=(), most=8, free=None, walk=0):
        from vf.hooks import HOOKS
        from vf.harness import Stop
        self.h, self.z, self.seeds, self.n = h, [], [], 0
        self.free = []
        np = h.np

        def normal(loc, scale, size):
            shape = () if size is None else \
                tuple(int(s) for s in (size if hasattr(size, '__len__')
                                       else (size,)))
            n = 1
            for s in shape:
                n *= s
            if not self.seeds:
                self.seeds.append('none')
            zs = []
            for _ in range(n):
                zs.append(h.real('z%d' % len(self.z), -8, 8))
                self.z.append(zs[-1])
            if size is None:
                return loc + scale * zs[0]
            return loc + scale * np.array(zs, dtype=float).reshape(shape)

        def randint(lo, hi, size):
            if not self.seeds:
                self.seeds.append('none')
            lo, hi = int(lo), int(hi)
            shape = () if size is None else \
                tuple(int(s) for s in (size if hasattr(size, '__len__')
                                       else (size,)))
            n = 1
            for s in shape:
                n *= s
            if walk and len(shape) == 2:
                # given positions, the same ones every time: the pixels
                # drawn for them are free
                vs = [lo + (walk * k * k + k + i * (k // 2)) % (hi - lo)
                      for k in range(shape[0]) for i in range(2)]
            elif shape == (2,) and (free is None or self.n < free):
                # a position
                k = self.n
                self.n += 1
                if k >= most:
                    h.assume(False)
                if k < len(fix) and fix[k] is not None:
                    vs = list(fix[k])
                else:
                    vs = [h.pick(h.int('p%d_%d' % (k, i), lo, hi - 1))
                          for i in range(2)]
            else:
                vs = []
                for _ in range(n):
                    vs.append(h.int('r%d' % len(self.free), lo, hi - 1))
                    self.free.append(vs[-1])
            if size is None:
                return vs[0]
            return np.array(vs, dtype='int64').reshape(shape)

        def uniform(lo, hi, size):
            assert size is None
            return np.float64(h.pick(h.int('coin%d' % self.n, 0, 1)) * 0.5
                              + 0.25)
        HOOKS.normal, HOOKS.randint = normal, randint
        HOOKS.uniform = uniform
        HOOKS.seed = lambda s: self.seeds.append(s)


def seeded(h, D, seed):
    if seed == 'none':
        return
    h.check('reproducible', h.cond(bool(D.seeds) and D.seeds[0] == seed),
            note=str(D.seeds[:1]))


def noisy(h, gen, n=1, seed='none', **kw):
    """signal plus noise times normal draws"""
    import pystruct.datasets.synthetic_grids as G
    np = h.np
    D = Draws(h)
    noise = h.real('noise', 0, 8)
    if gen == 'generate_blocks' and seed != 0 or \
            gen == 'generate_blocks_multinomial' and seed != 'none':
        kw['seed'] = seed
    X, Y = getattr(G, gen)(n_samples=n, noise=noise, **kw)
    seeded(h, D, seed)
    sx = kw.get('size_x', 12)
    R, C, K = {'generate_blocks': (10, 12, 2),
               'generate_checker': (11, 13, 2),
               'generate_big_checker': (9, 9, 2),
               'generate_blocks_multinomial': (sx - 2, sx, 3),
               'generate_checker_multinomial': (sx - 2, sx, 3),
               'generate_big_checker_extended': (18, 18, 4)}[gen]
    f, k = kw.get('field_size', 3), kw.get('n_fields')
    if k is not None:
        R = C = f * k
    h.check('shape of X', h.cond(X.shape == (n, R, C, K)))
    h.check('shape of Y', h.cond(Y.shape == (n, R, C)))
    i8 = iter(D.z)

    def label(i, j):
        if gen == 'generate_blocks':
            return int(j >= 6)
        if gen == 'generate_checker':
            return int((i + j) % 2)
        if gen == 'generate_big_checker':
            return int((i // f + j // f) % 2 == 0)
        if gen == 'generate_blocks_multinomial':
            return 0 if j < sx // 3 else 2 if j >= sx - sx // 3 else 1
        if gen == 'generate_checker_multinomial':
            return (0 if i % 2 == 0 else 1) if (i + j) % 2 == 0 else 2
        even = (i // f + j // f) % 2 == 0
        if i % 3 == 1 and j % 3 == 1:
            return 3 if even else 1
        return 2 if even else 0
    for s in range(n):
        ok, ob = [], []
        for i in range(R):
            for j in range(C):
                l = label(i, j)
                ok.append(h.eq(Y[s, i, j], l))
                if K == 2:
                    z = next(i8)
                    if gen == 'generate_big_checker':
                        sig = -1 if l else 1
                        ob.append(h.eq(X[s, i, j, 0], sig + noise * z))
                        ob.append(h.eq(X[s, i, j, 1], -(sig + noise * z)))
                    else:
                        sig = 1 if l else -1
                        ob.append(h.eq(X[s, i, j, 0], -(sig + noise * z)))
                        ob.append(h.eq(X[s, i, j, 1],
                                       0 if gen == 'generate_checker'
                                       else sig + noise * z))
                    continue
                for c in range(K):
                    z = next(i8)
                    v = int(c == l)
                    if gen == 'generate_checker_multinomial':
                        v = 0 if c == 2 else 1 if c == l else -1
                    w = v + noise * z
                    if gen == 'generate_big_checker_extended':
                        w = w * 100
                    ob.append(h.eq(X[s, i, j, c], w))
        h.check('labels', h.and_(*ok))
        h.check('observations', h.and_(*ob))
    h.observe('Y', Y[0, 0])
    h.observe('X', X[0, 0, 0])


def plus(R, t, l, v):
    """the cells of a cross whose box starts at (t, l), inside the grid"""
    S = {}
    for d in range(3):
        if t + 1 < R and l + d < R:
            S[t + 1, l + d] = v
        if t + d < R and l + 1 < R:
            S[t + d, l + 1] = v
    return S


def shapes(gen, R, t, l, box=3, sep=True):
    """all ways to draw a shape at (t, l)"""
    if gen == 'generate_easy':
        return [{(t + a, l + b): 1 for a in range(box) for b in range(box)}]
    if gen == 'generate_bars':
        return [{(t + a, l): 2 if sep else 1 for a in range(box)},
                {(t, l + a): 1 for a in range(box)}]
    if gen == 'generate_square_with_hole':
        return [{(t + a, l + b): 1 for a in range(3) for b in range(3)
                 if (a, b) != (1, 1)}]
    if gen == 'generate_crosses':
        return [plus(R, t, l, 1)]
    if gen == 'generate_xs':
        return [{(t + a, l + b): 1 for a, b in
                 ((1, 1), (2, 2), (3, 3), (1, 3), (3, 1))}]
    if gen == 'generate_easy_explicit':
        S = {}
        for a in range(3):
            for b in range(3):
                S[t + a, l + b] = 1 + (a == 1) + (b == 1)
        S[t + 1, l + 1] = 3
        return [{k: min(v, 2) if k != (t + 1, l + 1) else 3
                 for k, v in S.items()}]
    if gen == 'generate_crosses_explicit':
        S = plus(R, t, l, 1)
        S[t + 1, l + 1] = 2
        return [S]
    S = plus(R, t, l, 2)
    S[t + 1, l + 1] = 3
    return [S]


def drawn(h, gen, n=1, noise=1, fix=(), most=8, free=None, seed=0,
          far=None, count=1, lo=1, hi=None, size=8, walk=0, **kw):
    """shapes, and pixels of the observation drawn anew
    far: shapes are at least that far from the one before"""
    import pystruct.datasets.synthetic_grids as G
    np = h.np
    D = Draws(h, fix, most, free, walk)
    if gen == 'generate_crosses_explicit':
        kw['size'] = size
    if seed != 0:
        kw['random_seed' if gen == 'generate_bars' else 'seed'] = seed
    X, Y = getattr(G, gen)(n_samples=n, noise=noise, **kw)
    seeded(h, D, seed)
    R = size
    box = kw.get('box_size', kw.get('bars_size', 3))
    sep = kw.get('separate_labels', True)
    K = X.shape[-1]
    h.check('shape of X', h.cond(X.shape[:-1] == (n, R, R)))
    h.check('shape of Y', h.cond(Y.shape == (n, R, R)))
    want = {'generate_easy': 2, 'generate_square_with_hole': 2,
            'generate_crosses': 2, 'generate_xs': 2,
            'generate_easy_explicit': 4, 'generate_crosses_explicit': 3,
            'generate_crosses_latent': 2,
            'generate_bars': 3 if sep else 2}[gen]
    h.check('one feature per label', h.cond(K == want))
    for s in range(n):
        y = [[int(Y[s, i, j]) for j in range(R)] for i in range(R)]
        ok = valid(gen, R, y, box, sep, lo, hi, far, count)
        h.check('labels', h.cond(ok), note=str(y))
        # observed: what X tells apart
        wrong, shown = [], []
        for i in range(R):
            for j in range(R):
                def row(v):
                    if gen == 'generate_easy_explicit':
                        return [1, 0, 0, 0] if v == 0 else [0, 1, 1, 1]
                    if gen == 'generate_crosses_explicit':
                        return [1, 0, 0] if v == 0 else [0, 1, 1]
                    if gen == 'generate_crosses_latent':
                        v = int(v > 0)
                    return [int(c == v) for c in range(K)]
                is_ = lambda v: h.and_(*[h.eq(X[s, i, j, c], e)
                                         for c, e in enumerate(row(v))])
                rows = {tuple(row(v)): v for v in range(want)}
                shown.append(h.or_(*[is_(v) for v in rows.values()]))
                wrong.append(h.ite(is_(y[i][j]), 0, 1))
        h.check('pixels show one label', h.and_(*shown))
        h.check('at most noise pixels are wrong',
                h.le(h.sumr(wrong), noise))
    h.observe('Y', Y)
    h.observe('X', X)


def valid(gen, R, y, box, sep, lo, hi, far, count):
    """is y made of 1 to count shapes, each far from the one before"""
    far = far or (0, False)
    got = {(i, j): y[i][j] for i in range(R) for j in range(R) if y[i][j]}
    pos = [(t, l) for t in range(lo, hi) for l in range(lo, hi)]
    one = {}
    for p in pos:
        for S in shapes(gen, R, p[0], p[1], box, sep):
            if got == S:
                if count == 1 or not far[1]:
                    return True
            one.setdefault(p, []).append(S)
    if count == 1:
        return False
    for p in pos:
        for q in pos:
            if far[0] and not (abs(p[0] - q[0]) > far[0] or
                               abs(p[1] - q[1]) > far[0]):
                continue
            for S in one[p]:
                for T in one[q]:
                    if got == S | T:
                        return True
    return False


def simple(h, n=1, flips=1, seed=0):
    import pystruct.datasets.synthetic_grids as G
    D = Draws(h, free=1)
    X, Y = G.make_simple_2x2(seed=seed, n_flips=flips, n_samples=n)
    seeded(h, D, seed)
    h.check('samples', h.cond(len(X) == n and len(Y) == n))
    for x, y in zip(X, Y):
        h.check('shape', h.cond(x.shape == (4, 4) and y.shape == (4, 4)))
        yy = [[int(v) for v in r] for r in y]
        h.check('labels', h.cond(yy in [
            [[int(i // 2 == a and j // 2 == b) for j in range(4)]
             for i in range(4)] for a in range(2) for b in range(2)]))
        wrong, pm = [], []
        for i in range(4):
            for j in range(4):
                pm.append(h.or_(h.eq(x[i, j], 1), h.eq(x[i, j], -1)))
                wrong.append(h.ite(h.eq(x[i, j], 2 * yy[i][j] - 1), 0, 1))
        h.check('observations are -1 and 1', h.and_(*pm))
        h.check('at most n_flips pixels are wrong',
                h.le(h.sumr(wrong), flips))
        h.observe('x', x)
        h.observe('y', y)


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    add('noisy', gen='generate_blocks', seed=0)
    add('noisy', gen='generate_blocks', seed=3, n=2)
    add('noisy', gen='generate_checker', seed=0)
    add('noisy', gen='generate_big_checker', seed=0, n=2)
    add('noisy', gen='generate_big_checker', seed=0, n_fields=2,
        field_size=2)
    add('noisy', gen='generate_big_checker', seed=0, n_fields=4,
        field_size=1)
    for sx in (6, 7, 12):
        add('noisy', gen='generate_blocks_multinomial', size_x=sx)
        add('noisy', gen='generate_checker_multinomial', size_x=sx)
    add('noisy', gen='generate_blocks_multinomial', size_x=6, n=2, seed=5)
    add('noisy', gen='generate_big_checker_extended')
    for fl in (0, 1, 2):
        add('simple', flips=fl)
    add('simple', flips=1, n=2, seed=7)
    return C + more(big)


def more(big):
    C = []

    def add(gen, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name='drawn %s %s' % (gen, nm), fn='drawn', gen=gen,
                      **k))
    # all positions, nothing redrawn
    add('generate_easy', noise=0, box_size=2, total_size=6, size=6, hi=4,
        free=2, count=2, far=(3, False))
    for f in ([1, 2], [5, 5], [3, 1]):
        add('generate_easy', noise=0, box_size=3, total_size=9, size=9,
            hi=6, free=2, count=2, far=(3, False), fix=[f])
    for sep in (True, False):
        add('generate_bars', noise=0, bars_size=2, total_size=5, size=5,
            hi=3, free=2, count=2, far=(3, False), separate_labels=sep)
        for f in ([1, 5], [4, 2]):
            add('generate_bars', noise=0, bars_size=3, total_size=9, size=9,
                hi=6, free=2, count=2, far=(3, False), separate_labels=sep,
                fix=[f])
    add('generate_square_with_hole', noise=0, size=8, hi=5, free=1)
    add('generate_square_with_hole', noise=0, total_size=6, size=6, hi=3,
        free=1)
    add('generate_crosses', noise=0, total_size=6, n_crosses=1, size=6,
        hi=3, free=1)
    for f in ([1, 4], [4, 2]):
        add('generate_crosses', noise=0, total_size=8, n_crosses=2, size=8,
                hi=5, count=2, far=(2, True), fix=[f], most=2)
    add('generate_crosses', noise=0, total_size=8, n_crosses=2, size=8,
        hi=5, count=2, far=(2, True), fix=[[1, 4], [2, 3]], most=3)
    add('generate_xs', noise=0, size=8, hi=5, free=1)
    add('generate_easy_explicit', noise=0, size=9, hi=6, free=1)
    add('generate_crosses_explicit', noise=0, size=6, hi=5, n_crosses=1,
        free=1)
    for f in ([1, 5], [5, 5]):
        add('generate_crosses_explicit', size=7, hi=6, n_crosses=2,
            noise=0, count=2, far=(2, True), fix=[f], most=2)
    for f in ([0, 5], [2, 3]):
        add('generate_crosses_latent', size=8, lo=0, hi=6, noise=0, free=2,
            count=2, fix=[f])
    # pixels redrawn anywhere
    for noise in (1, 2):
        add('generate_easy', noise=noise, box_size=2, total_size=5, size=5,
            hi=3, free=2, count=2, far=(3, False), fix=[[1, 2], [2, 2]])
        add('generate_bars', noise=noise, bars_size=2, total_size=5, size=5,
            hi=3, free=2, count=2, far=(3, False), fix=[[1, 2], [2, 2]])
        add('generate_square_with_hole', noise=noise, total_size=6, size=6,
            hi=3, free=1, fix=[[1, 2]])
        add('generate_crosses', noise=noise, total_size=6, n_crosses=1,
            size=6, hi=3, free=1, fix=[[2, 1]])
        add('generate_crosses_explicit', noise=noise, size=6, hi=5,
            n_crosses=1, free=1, fix=[[2, 4]])
    add('generate_xs', noise=1, size=8, hi=5, free=1, fix=[[3, 2]])
    add('generate_easy_explicit', noise=1, size=9, hi=6, free=1,
        fix=[[3, 2]])
    add('generate_crosses_latent', size=8, lo=0, hi=6, noise=1, free=2,
        count=2, fix=[[1, 2], [4, 4]])
    # many pixels redrawn, at given places
    for noise in (5, 9, 30):
        for walk in (1, 3):
            if noise != 30 and walk == 3:
                continue
            k = dict(noise=noise, walk=walk)
            add('generate_easy', box_size=3, total_size=8, size=8,
                hi=5, free=2, count=2, far=(3, False), fix=[[1, 2], [4, 4]],
                **k)
            add('generate_bars', bars_size=3, total_size=8, size=8,
                hi=5, free=2, count=2, far=(3, False), fix=[[1, 2], [4, 4]],
                **k)
            add('generate_square_with_hole', total_size=8, size=8,
                hi=5, free=1, fix=[[1, 2]], **k)
            add('generate_crosses', total_size=8, n_crosses=2,
                size=8, hi=5, fix=[[1, 2], [4, 4]], count=2, most=2,
                far=(2, True), **k)
            add('generate_xs', size=8, hi=5, free=1, fix=[[3, 2]], **k)
            add('generate_easy_explicit', size=9, hi=6, free=1,
                fix=[[3, 2]], **k)
            add('generate_crosses_explicit', size=9, hi=8,
                n_crosses=2, most=2, fix=[[2, 4], [7, 7]], count=2,
                far=(2, True), **k)
            add('generate_crosses_latent', size=8, lo=0, hi=6, free=2,
                count=2, fix=[[1, 2], [4, 4]], **k)
    for gen in ('generate_easy', 'generate_bars', 'generate_crosses'):
        add(gen, noise=9, walk=1, total_size=8, size=8, hi=5, n=3,
            count=2, far=(3, False) if gen != 'generate_crosses' else None,
            fix=[[1, 2], [2, 2], [2, 1], [4, 1], [2, 2], [1, 1]],
            **({'n_crosses': 1} if gen == 'generate_crosses' else {}))
    for gen in ('generate_easy', 'generate_bars', 'generate_crosses'):
        add(gen, noise=0, total_size=6, size=6, hi=3, count=2, n=2, seed=7,
            far=(3, False) if gen != 'generate_crosses' else None,
            fix=[[1, 2], [2, 2], [2, 1], [1, 1]],
            **({'n_crosses': 1} if gen == 'generate_crosses' else {}))
    if big:
        add('generate_xs', noise=2, size=8, hi=5, free=1, fix=[[3, 2]])
        add('generate_easy_explicit', noise=2, size=9, hi=6, free=1,
            fix=[[3, 2]])
        add('generate_crosses_latent', size=8, lo=0, hi=6, noise=2, free=2,
            count=2, fix=[[1, 2], [4, 4]])
        add('generate_easy', noise=2, box_size=3, total_size=8, size=8,
            hi=5, free=2, count=2, far=(3, False), fix=[[1, 2], [2, 2]])
    return C
