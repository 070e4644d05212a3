"""Unstructured classifiers are exact: prediction and loss-augmented
prediction maximise what they say, one sample at a time or in a batch."""

from .mapc import on_line

BOUNDS = ('2 to 4 classes, up to 3 features, batches of up to 3 samples; '
          'every real weight vector and sample, every label, every positive '
          'class weight vector up to 8; with given samples up to 12 classes, '
          '9 features and 12 samples; 140 classes or samples with weights on '
          'a line; features given as integers, booleans or single precision '
          'and labels of narrow or unsigned types')
OUTSIDE = 'more classes or larger batches; rounding'

TYPES = [('int64', 'int64'), ('uint8', 'uint8'), ('bool', 'int32'),
         ('int8', 'uint32'), ('float32', 'int8'), ('int32', 'int16')]


def dot(h, a, b):
    a, b = list(a.ravel()), list(b.ravel())
    assert len(a) == len(b)
    return h.sumr([p * q for p, q in zip(a, b)])


def labs(h, name, N, n, kind, given=None, dtype='int64'):
    out = h.np.zeros(N, dtype=dtype)
    for i in range(N):
        v = given[i] if given is not None else \
            h.pick(h.int('%s_%d' % (name, i), 0, n - 1))
        out[i] = 2 * v - 1 if kind == 'binary' else v
    return out


def make(h, kind, n, F, cw=None, rescale=False):
    import pystruct.models as M
    if kind == 'binary':
        return M.BinaryClf(n_features=F), [-1, 1], None
    g = None
    if cw == 'sym':
        g = [h.real('cw_%d' % i, 0, 8) for i in range(n)]
        for c in g:
            h.assume(h.lt(0, c))
    elif cw is not None:
        g = list(cw)
    return M.MultiClassClf(n_features=F, n_classes=n, class_weight=g,
                           rescale_C=rescale), list(range(n)), g


def best(h, label, opts, val, got):
    """got is one of opts and has the largest val"""
    np = h.np
    h.check(label + ': a label', h.or_(*[got == o for o in opts]))
    v = val(opts[0])
    for o in opts[1:]:
        v = h.ite(got == o, val(o), v)
    for o in opts:
        h.check(label, h.le(val(o), v), note='better label %s' % o)
    return v


def scalar(v):
    return v.item() if hasattr(v, 'item') else v


def plain(h, kind, n, F):
    m, opts, _ = make(h, kind, n, F)
    x, w = h.reals('x', F), h.reals('w', m.size_joint_feature)
    sc = {o: dot(h, w, m.joint_feature(x, o)) for o in opts}
    y = m.inference(x, w)
    v = best(h, 'prediction', opts, lambda o: sc[o], scalar(y))
    yr = m.inference(x, w, relaxed=True)
    best(h, 'prediction', opts, lambda o: sc[o], scalar(yr))
    if kind == 'multi':
        y2, e = m.inference(x, w, return_energy=True)
        best(h, 'prediction', opts, lambda o: sc[o], scalar(y2))
        h.check('energy', h.eq(e, v))
    h.observe('sc', [sc[o] for o in opts])


def batch(h, kind, n, F, N):
    m, opts, _ = make(h, kind, n, F)
    X, w = h.reals('x', (N, F)), h.reals('w', m.size_joint_feature)
    Y = m.batch_inference(X, w)
    h.check('batch length', h.cond(len(Y) == N))
    for i in range(N):
        sc = {o: dot(h, w, m.joint_feature(X[i], o)) for o in opts}
        best(h, 'batch prediction', opts, lambda o: sc[o], scalar(Y[i]))


def aug(h, kind, n, F, N, cw=None, rescale=False, single=True):
    m, opts, g = make(h, kind, n, F, cw, rescale)
    X, w = h.reals('x', (N, F)), h.reals('w', m.size_joint_feature)
    Y = labs(h, 'y', N, n, kind)
    Y0 = [int(y) for y in Y]
    if not single:
        B = m.batch_loss_augmented_inference(X, Y, w)
        h.check('batch length', h.cond(len(B) == N))
    for i in range(N):
        y = Y0[i]
        val = {}
        for o in opts:
            if rescale:
                f = m.joint_feature(X[i], o, y)
            else:
                f = m.joint_feature(X[i], o)
            val[o] = dot(h, w, f) + m.loss(y, o)
            # what the documentation says it is
            plainf = [0] * (len(opts) * F)
            c = 1 if g is None else g[y]
            s = dot(h, X[i], w[o * F:(o + 1) * F]) if kind == 'multi' else \
                dot(h, X[i], w) * o / 2
            if rescale:
                want = c * (s + (o != y))
            else:
                want = s + c * (o != y)
            h.check('score plus loss', h.eq(val[o], want))
        if single:
            r = m.loss_augmented_inference(X[i], y, w)
            best(h, 'augmented', opts, lambda o: val[o], scalar(r))
            # usable by a learner
            f = m.joint_feature(X[i], r, y) if rescale else \
                m.joint_feature(X[i], r)
            if kind == 'multi':
                r2, e = m.loss_augmented_inference(X[i], y, w,
                                                   return_energy=True)
                v = best(h, 'augmented', opts, lambda o: val[o], scalar(r2))
                if not rescale:
                    h.check('energy', h.eq(e, v))
        else:
            best(h, 'augmented batch', opts, lambda o: val[o], scalar(B[i]))
    h.observe('val', [val[o] for o in opts])


def bjf(h, kind, n, F, N, cw=None, rescale=False):
    m, opts, g = make(h, kind, n, F, cw, rescale)
    np = h.np
    X = h.reals('x', (N, F))
    Z, Y = labs(h, 'z', N, n, kind), labs(h, 'y', N, n, kind)
    if rescale:
        f = m.batch_joint_feature(X, Z, Y)
        fs = [m.joint_feature(X[i], int(Z[i]), int(Y[i])) for i in range(N)]
    else:
        f = m.batch_joint_feature(X, Z)
        fs = [m.joint_feature(X[i], int(Z[i])) for i in range(N)]
    want = np.zeros(m.size_joint_feature)
    for g_ in fs:
        want = want + g_
    h.check('batch joint feature', h.eq(f, want))
    for i in range(N):
        full = np.zeros(m.size_joint_feature)
        z = int(Z[i])
        if kind == 'binary':
            full = X[i] * z / 2
        else:
            c = g[int(Y[i])] if rescale and g is not None else 1
            full[z * F:(z + 1) * F] = X[i] * c
        h.check('joint feature', h.eq(fs[i], full))
    b = m.batch_loss(Y, Z)
    for i in range(N):
        h.check('batch loss', h.eq(b[i], m.loss(int(Y[i]), int(Z[i]))))
    h.observe('f', f)


def samples(h, N, F, k):
    """given samples: small distinct numbers, ties and zeros among them"""
    return h.np.array([[float((i * k + j * (k + 2) + i * j) % 5 - 2)
                        for j in range(F)] for i in range(N)])


def cast(h, X, xtype):
    return X > 0 if xtype == 'bool' else \
        (abs(X) if xtype[0] == 'u' else X).astype(xtype)


def wide(h, kind, n, F, N, k=1, cw=None, rescale=False, line=False,
         xtype=None, ytype='int64', ro=False):
    """many classes, features and samples: given samples (of another type),
    free weights (or weights on a line)"""
    m, opts, g = make(h, kind, n, F, cw, rescale)
    np = h.np
    X = samples(h, N, F, k)
    Xg = X if xtype is None else cast(h, X, xtype)
    X = Xg.astype('float64')
    w = on_line(h, (m.size_joint_feature,), k, 997, True, 1) if line else \
        h.reals('w', m.size_joint_feature)
    Y = labs(h, 'y', N, n, kind, [(i * k + i // 2) % n for i in range(N)],
             ytype)
    Z = labs(h, 'z', N, n, kind, [(i + k) % n for i in range(N)],
             ytype)
    if ro:
        for a in (Xg, Y, Z):
            a.flags.writeable = False
    P = m.batch_inference(Xg, w)
    B = m.batch_loss_augmented_inference(Xg, Y, w)
    h.check('batch length', h.cond(len(B) == N and len(P) == N))
    f = m.batch_joint_feature(Xg, Z, Y)
    want = [0] * m.size_joint_feature
    bl = m.batch_loss(Y, Z)
    for i in range(N):
        y, z = int(Y[i]), int(Z[i])
        c = 1 if g is None else g[y]

        def sc(o):
            if kind == 'multi':
                return dot(h, X[i], w[o * F:(o + 1) * F])
            return dot(h, X[i], w) * o / 2

        def val(o):
            if rescale:
                return sc(o) + (o != y)
            return sc(o) + c * (o != y)
        best(h, 'prediction', opts, sc, scalar(m.inference(Xg[i], w)))
        best(h, 'batch prediction', opts, sc, scalar(P[i]))
        best(h, 'augmented', opts, val,
             scalar(m.loss_augmented_inference(Xg[i], y, w)))
        best(h, 'augmented batch', opts, val, scalar(B[i]))
        fs = m.joint_feature(Xg[i], z, y) if rescale else \
            m.joint_feature(Xg[i], z)
        full = [0] * m.size_joint_feature
        if kind == 'binary':
            full = [v * z / 2 for v in X[i]]
        else:
            for j in range(F):
                full[z * F + j] = X[i][j] * (c if rescale else 1)
        h.check('joint feature', h.and_(*[h.eq(a, b)
                                          for a, b in zip(fs, full)]))
        want = [a + b for a, b in zip(want, full)]
        h.check('batch loss', h.eq(bl[i], m.loss(y, z)))
    h.check('batch joint feature', h.and_(*[h.eq(a, b)
                                            for a, b in zip(f, want)]))


def configs(tier):
    C = []
    big = tier != 'quick'

    def add(fn, **k):
        nm = ' '.join('%s=%s' % (a, k[a]) for a in k)
        C.append(dict(name=fn + ' ' + nm, fn=fn, **k))
    Fs = (1, 2, 3)
    kinds = [('binary', 2), ('multi', 2), ('multi', 3), ('multi', 4)]
    for kind, n in kinds:
        for F in Fs:
            if F == 3 and n > 2 and not big:
                continue
            add('plain', kind=kind, n=n, F=F)
        for N in (1, 2) + ((3,) if big or n == 2 else ()):
            add('batch', kind=kind, n=n, F=1 if N > 1 else 2, N=N)
        cws = [(None, False)]
        if kind == 'multi':
            cws += [('sym', False), ('sym', True), (None, True),
                    ([3, 1, 2, 5][:n], False), ([2, 5, 1, 3][:n], True)]
        for cw, rs in cws:
            for F in (1, 2) if not (n == 4 and cw == 'sym') or big else (1,):
                add('aug', kind=kind, n=n, F=F, N=1, cw=cw, rescale=rs,
                    single=True)
                add('aug', kind=kind, n=n, F=F, N=1, cw=cw, rescale=rs,
                    single=False)
            add('aug', kind=kind, n=n, F=1, N=2, cw=cw, rescale=rs,
                single=False)
            if n <= 3 or big:
                for N in (1, 2, 3):
                    if N == 3 and n > 2 and not big:
                        continue
                    add('bjf', kind=kind, n=n, F=2, N=N, cw=cw, rescale=rs)
    for kind, n, F, N in (('binary', 2, 6, 5), ('binary', 2, 9, 12),
                          ('multi', 2, 5, 7), ('multi', 6, 4, 5),
                          ('multi', 7, 3, 9), ('multi', 12, 2, 3),
                          ('multi', 140, 1, 3), ('binary', 2, 1, 140),
                          ('multi', 3, 1, 135)):
        cws = [(None, False)]
        if kind == 'multi':
            c = ([3, 1, 2, 5, .5, 4, 7, 1, 2, 3, .25, 6] * 12)[:n]
            cws += [(c, True), (c, False), (None, True)]
            if n + N < 100:
                cws.append(('sym', False))
        for cw, rs in cws:
            for k in (1, 2):
                add('wide', kind=kind, n=n, F=F, N=N, k=k, cw=cw,
                    rescale=rs,
                    **(dict(line=True) if n > 100 or N > 100 else {}))
    for xt, yt in TYPES:
        for kind, n, cw, rs in (('binary', 2, None, False),
                                ('multi', 3, None, False),
                                ('multi', 3, [3, 1, 2], False),
                                ('multi', 3, [3, 1, 2], True)):
            if kind == 'multi' or yt[0] != 'u':
                add('wide', kind=kind, n=n, F=2, N=4, k=1, cw=cw, rescale=rs,
                    xtype=xt, ytype=yt)
                if xt in ('int64', 'float32'):
                    add('wide', kind=kind, n=n, F=2, N=4, k=1, cw=cw,
                        rescale=rs, ytype=yt, ro=True)
    return C
