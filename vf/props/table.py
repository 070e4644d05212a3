"""A structured model given by tables: joint features and losses are free
variables, and its inference answers are arbitrary (or exact, with any ties).
It stands for every model a learner may be given.

Sample i has the labels i*K .. i*K+K-1; the pairing of inputs and labels
matters: a joint feature of a foreign label is an unrelated variable."""


class State(object):
    pass


def make(h, N, K, d, rescale=False, exact=False, latent=False, labels=None,
         tag='', zero_feat=(), script=None,
         lossconst=None, jfconst=None, coded=None):
    """script: the answers of inference, in order (then label 0);
    lossconst, jfconst: functions giving constant losses / features
    (None: free);
    coded: labels are arrays ('array'), or pairs of marginals ('relaxed',
    the answers of inference only; 'typed': a list of marginals per type;
    'mixed', 'mixed-typed': only those for odd labels);
    latent: the labels of a sample are hidden completions; completion k
    projects to label labels[k]"""
    from pystruct.models.base import StructuredModel
    np = h.np
    s = State()
    s.N, s.K, s.d = N, K, d
    s.jf, s.ls, s.calls = {}, {}, []
    s.n = 0
    s.exact = exact

    def enc(y, truth=False):
        if not coded:
            return y
        k = y % K
        if coded in ('typed', 'mixed-typed') and not truth and \
                (coded == 'typed' or y % 2):
            U = [np.zeros((1, 3)), np.zeros((1, 2))]
            U[0][0, k % 2], U[1][0, k // 2] = 1, 1
            return (U, [np.zeros((0, 9)), np.array([[float(y // K), 0.]]),
                        np.array([[1.]])])
        if coded in ('relaxed', 'mixed') and not truth and \
                (coded == 'relaxed' or y % 2):
            U = np.zeros((2, 3))
            U[0, k % 2], U[1, k // 2] = 1, 1
            return (U, np.array([[float(y // K), 0.], [0., 1.]]))
        return np.array([k % 2, k // 2, y // K], dtype='int64')

    def dec(y):
        if not coded or y is None or isinstance(y, int):
            return y
        if isinstance(y, tuple):
            U, P = y
            if isinstance(U, list):
                return int(P[1][0, 0]) * K + 2 * int(np.argmax(U[1][0])) + \
                    int(np.argmax(U[0][0]))
            return int(P[0, 0]) * K + 2 * int(np.argmax(U[1])) + \
                int(np.argmax(U[0]))
        return int(y[2]) * K + 2 * int(y[1]) + int(y[0])

    def jf(x, y, yt=None):
        y, yt = dec(y), dec(yt)
        k = (x, y, yt)
        if k not in s.jf:
            if k[:2] in zero_feat:
                s.jf[k] = np.zeros(d)
            elif jfconst is not None:
                s.jf[k] = np.array(jfconst(*k), dtype=float)
            else:
                s.jf[k] = h.reals(
                    'jf%s_%s' % (tag, '_'.join(str(e) for e in k)), d)
        return s.jf[k]

    def key(y):
        return labels[y] if labels else y

    def loss(y, z):
        y, z = dec(y), dec(z)
        k = (key(y), key(z))
        if k not in s.ls:
            if k[0] == k[1]:
                s.ls[k] = np.float64(0)
            elif lossconst is not None and lossconst(*k) is not None:
                s.ls[k] = np.float64(lossconst(*k))
            else:
                s.ls[k] = h.real('loss%s_%d_%d' % ((tag,) + k), 0, 64)
        return s.ls[k]

    def score(x, y, w, yt=None, l=0):
        f = jf(x, y, yt)
        return h.sumr([w[i] * f[i] for i in range(d)]) + l

    def ask(kind, x, w, val, opts):
        s.n += 1
        if script is not None:
            r = script[s.n - 1] if s.n <= len(script) else 0
        else:
            r = h.pick(h.int('%s%s_%d' % (kind, tag, s.n), 0,
                             len(opts) - 1))
        if s.exact:
            v = val(opts[r])
            for o in opts:
                if o != opts[r]:
                    h.assume(h.le(val(o), v))
        r = opts[r]
        s.calls.append((kind, x, r, w.copy()))
        return r

    class Table(StructuredModel):
        inference_method = 'first'
        inference_calls = 0
        rescale_C = rescale

        def __init__(self):
            self.size_joint_feature = None
            self.initialized = 0

        def initialize(self, X, Y):
            self.initialized += 1
            self.size_joint_feature = d

        def joint_feature(self, x, y, y_true=None):
            return jf(x, y, y_true).copy()

        def loss(self, y, y_hat):
            return loss(y, y_hat)

        def continuous_loss(self, y, U):
            y = dec(y)
            return loss(y, y // K * K + 2 * int(np.argmax(U[1])) +
                        int(np.argmax(U[0])))

        def max_loss(self, y):
            return 100.0

        def inference(self, x, w, relaxed=None, constraints=None):
            self.inference_calls += 1
            return enc(ask('inf', x, w, lambda o: score(x, o, w),
                           [x * K + k for k in range(K)]))

        def loss_augmented_inference(self, x, y, w, relaxed=None):
            self.inference_calls += 1
            yt = y if rescale else None
            return enc(ask('lai', x, w,
                           lambda o: score(x, o, w, yt, loss(y, o)),
                           [x * K + k for k in range(K)]))

    s.m = Table()
    s.jfv, s.loss, s.score = jf, loss, score
    s.X = list(range(N))
    s.Y = [i * K for i in range(N)]
    s.YL = [enc(y, True) for y in s.Y]
    s.enc, s.dec = enc, dec

    def delta(i, y):
        yt = s.Y[i] if rescale else None
        return jf(i, s.Y[i], yt) - jf(i, y, yt)
    s.delta = delta

    def violation(i, y, w):
        D = delta(i, y)
        return loss(s.Y[i], y) - h.sumr([w[k] * D[k] for k in range(d)])
    s.violation = violation
    return s


def sq(h, w):
    return h.sumr([w[i] * w[i] for i in range(len(w))])


def dot(h, a, b):
    return h.sumr([a[i] * b[i] for i in range(len(a))])


def pos(h, v):
    return h.ite(v > 0, v, 0)
