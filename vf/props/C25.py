"""Symmetric matrices survive compression."""

BOUNDS = 'matrices of up to 6x6 entries, every real entry'
OUTSIDE = 'larger matrices'


def roundtrip(h, n, nmax=6):
    from pystruct.utils import compress_sym, expand_sym
    np = h.np
    v = h.reals('v', n * (n + 1) // 2)
    v0 = v.copy()
    A = expand_sym(v)
    h.check('input kept', h.eq(v, v0))
    h.check('square', h.cond(A.shape == (n, n)))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            h.check('lower triangle', h.eq(A[i, j], v[k]))
            h.check('symmetric', h.eq(A[j, i], v[k]))
            k += 1
    A0 = A.copy()
    h.check('compressing returns it', h.eq(
        compress_sym(A, make_symmetric=False), v))
    h.check('input kept', h.eq(A, A0))
    h.observe('A', A)


def compress(h, n):
    """any matrix: both triangles are accumulated"""
    from pystruct.utils import compress_sym, expand_sym
    A = h.reals('a', (n, n))
    A0 = A.copy()
    v = compress_sym(A)
    h.check('input kept', h.eq(A, A0))
    h.check('length', h.cond(v.shape == (n * (n + 1) // 2,)))
    B = expand_sym(v)
    for i in range(n):
        for j in range(n):
            h.check('accumulated', h.eq(
                B[i, j], A[i, i] if i == j else A[i, j] + A[j, i]))
    w = compress_sym(A, make_symmetric=False)
    k = 0
    for i in range(n):
        for j in range(i + 1):
            h.check('lower triangle', h.eq(w[k], A[i, j]))
            k += 1
    # the product a symmetric weight table needs
    u = h.reals('u', n * (n + 1) // 2)
    W = expand_sym(u)
    lhs = h.sumr([u[k] * v[k] for k in range(len(u))])
    rhs = h.sumr([W[i, j] * A[i, j] for i in range(n) for j in range(n)])
    h.check('inner product', h.eq(lhs, rhs))


def configs(tier):
    N = 6 if tier == 'quick' else 9
    return [dict(name='%s %d' % (f, n), fn=f, n=n)
            for f in ('roundtrip', 'compress') for n in range(1, N + 1)]
