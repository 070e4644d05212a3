"""What the third-party solvers answer.

The same hook functions serve the symbolic rendering and the concrete replay;
a property harness installs them.  `np` is the numpy surface of the mode.
"""
import copy
import sys

_NO = object()


class UnmodelledCall(BaseException):
    pass


class Hooks(object):
    def __init__(self):
        self.np = None
        self.options = None          # cvxopt.solvers.options of the mode
        self.replaced = {}
        self.reset()

    def reset(self):
        self.ad3 = None              # f(unaries, edges, pairwise, kw)
        self.ad3c = None             # f(unaries, edges, pairwise, constr, kw)
        self.qp = None               # f(P, q, G, h, A, b)
        self.lp = None               # f(c, G, h, A, b)
        self.km_fit = None           # f(n_clusters, X)
        self.km_predict = None       # f(n_clusters, X, call_no)
        self.perm = None             # f(n) -> list of int
        self.randint = None
        self.normal = None
        self.fmin = None
        self.seed = None             # f(seed)
        self.uniform = None
        self.dump = None             # f(obj): may raise
        self.n_cpu = 2
        self.saved = []
        for name, old in self.replaced.items():
            if old is _NO:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        self.replaced = {}

    def module(self, name, m):
        """from now on this is what importing name gives (None: it is not
        installed)"""
        if name not in self.replaced:
            self.replaced[name] = sys.modules.get(name, _NO)
        sys.modules[name] = m

    def call(self, name, *a):
        f = getattr(self, name)
        if f is None:
            raise UnmodelledCall(name)
        return f(*a)


HOOKS = Hooks()


class Parallel(object):
    """joblib.Parallel: sequential, but with several jobs the work happens on
    copies, as it does in worker processes"""

    def __init__(self, n_jobs=None, verbose=0, **kw):
        self.n_jobs = n_jobs

    def __call__(self, tasks):
        out = []
        for f, a, k in tasks:
            if self.n_jobs not in (None, 1, 0):
                a, k = copy.deepcopy((a, k))
            out.append(f(*a, **k))
        return out


def delayed(f, check_pickle=None):
    def g(*a, **k):
        return f, a, k
    return g


def cpu_count():
    return HOOKS.n_cpu


class Rng(object):
    def __init__(self, seed=None):
        pass

    def shuffle(self, x):
        p = HOOKS.call('perm', len(x))
        vals = [x[i] for i in p]
        for i, v in enumerate(vals):
            x[i] = v

    def permutation(self, n):
        np = HOOKS.np
        if hasattr(n, '__len__'):
            p = HOOKS.call('perm', len(n))
            return np.array([n[i] for i in p])
        return np.array(HOOKS.call('perm', int(n)))

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        return HOOKS.call('randint', low, high, size)

    def normal(self, loc=0, scale=1, size=None):
        return HOOKS.call('normal', loc, scale, size)

    def uniform(self, low=0, high=1, size=None):
        return HOOKS.call('uniform', low, high, size)

    def rand(self, *s):
        return HOOKS.call('uniform', 0, 1, s or None)

    def randn(self, *s):
        return HOOKS.call('normal', 0, 1, s or None)

    def standard_normal(self, size=None):
        return HOOKS.call('normal', 0, 1, size)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return HOOKS.call('randint', low, high + 1, size)

    def seed(self, s=None):
        if HOOKS.seed is not None:
            HOOKS.seed(s)

    def RandomState(self, s=None):
        self.seed(s)
        return self

    def random_sample(self, size=None):
        return HOOKS.call('uniform', 0, 1, size)

    def choice(self, a, size=None, **k):
        n = a if isinstance(a, int) else len(a)
        i = HOOKS.call('randint', 0, n, size)
        return i if isinstance(a, int) else a[i]

    random = random_sample


_RNG = Rng()


def check_random_state(s=None):
    return _RNG


def shuffle(*arrays, **kw):
    p = HOOKS.call('perm', len(arrays[0]))
    out = []
    for a in arrays:
        if isinstance(a, (list, tuple)):
            out.append([a[i] for i in p])
        else:
            out.append(a[HOOKS.np.array(p, dtype='int64')])
    return out if len(out) > 1 else out[0]


def gen_even_slices(n, n_packs, n_samples=None):
    n, n_packs = int(n), int(n_packs)
    start = 0
    if n_packs < 1:
        raise ValueError("gen_even_slices got n_packs=%s, must be >=1"
                         % n_packs)
    for pack in range(n_packs):
        this = n // n_packs
        if pack < n % n_packs:
            this += 1
        if this > 0:
            end = start + this
            if n_samples is not None:
                end = min(n_samples, end)
            yield slice(start, end, None)
            start = end


class KMeans(object):
    def __init__(self, n_clusters=8, **kw):
        if 'k' in kw:
            raise TypeError("unexpected keyword argument 'k'")
        self.n_clusters = n_clusters
        self.calls = 0

    def fit(self, X, y=None):
        if len(X) < int(self.n_clusters):
            raise ValueError("n_samples=%d should be >= n_clusters"
                             % len(X))
        self.tag = HOOKS.call('km_fit', int(self.n_clusters), X)
        return self

    def predict(self, X):
        self.calls += 1
        return HOOKS.call('km_predict', int(self.n_clusters), X,
                          (self.tag, self.calls))

    def fit_predict(self, X, y=None):
        return self.fit(X).predict(X)


def fmin(func, x0, args=(), **kw):
    return HOOKS.call('fmin', func, x0, kw)


def ad3_check(unaries, edges, pw):
    if isinstance(unaries, list):
        assert len(unaries) ** 2 == len(edges)
        assert len(edges) == len(pw)
        ns = [u.shape[1] for u in unaries]
        k = 0
        for i in range(len(ns)):
            for j in range(len(ns)):
                for e in range(len(edges[k])):
                    pw[k][e]
                k += 1
        return
    if unaries.shape[1] != pw.shape[1]:
        raise ValueError("incompatible shapes of unaries and edge_weights.")
    if pw.shape[1] != pw.shape[2]:
        raise ValueError("Edge weights need to be of shape "
                         "(n_edges, n_states, n_states)!")
    if pw.shape[0] != edges.shape[0]:
        raise ValueError("Number of edge weights different from number of"
                         "edges")
