"""Logging and backups."""
from . import table

BOUNDS = ('every iteration number up to 60 and save_every up to 12; learners: '
          'up to 2 samples, 3 iterations, any joint features or losses; '
          'every real weight stored')
OUTSIDE = 'what pickle itself does; failures of the file system'


class Thing(object):
    """a learner without inference cache"""


class Boom(Exception):
    pass


def every(h, file):
    """saved exactly at multiples of save_every"""
    from vf.hooks import HOOKS
    from pystruct.utils import SaveLogger
    it = h.int('iteration', 0, 60)
    k = h.pick(h.int('save_every', 1, 12))
    log = SaveLogger(file, save_every=k)
    log(Thing(), it)
    n = len(HOOKS.saved)
    h.check('saved at multiples of save_every', h.cond(n == 1)
            if h.fork(h.eq(it % k, 0)) else h.cond(n == 0))
    for f in HOOKS.saved:
        h.check('name', h.cond(f[0] == file))


def named(h):
    """the iteration is part of the name"""
    from vf.hooks import HOOKS
    from pystruct.utils import SaveLogger
    it = h.pick(h.int('iteration', 0, 12))
    k = h.pick(h.int('save_every', 1, 5))
    log = SaveLogger('a%db', save_every=k)
    log(Thing(), it)
    h.check('name', h.cond([f[0] for f in HOOKS.saved] ==
                           (['a%sb' % it] if it % k == 0 else [])))
    log(Thing(), 'final')
    h.check('final', h.cond([f[0] for f in HOOKS.saved][-1:] ==
                            ['afinalb']))
    default = SaveLogger('d')
    del HOOKS.saved[:]
    default(Thing(), it)
    h.check('every tenth iteration by default', h.cond(
        bool(HOOKS.saved) == (it % 10 == 0)))
    default(Thing(), 'final')
    h.check('final', h.cond(HOOKS.saved[-1][0] == 'd'))


def stored(h, what, fail=False):
    """a backup is the learner, without the inference cache"""
    from vf.hooks import HOOKS
    from pystruct.utils import SaveLogger
    import pystruct.learners as L
    import pystruct.models as M
    np = h.np
    w = h.reals('w', 4)
    seen = []

    def dump(obj):
        seen.append(getattr(obj, 'inference_cache_', 'none'))
        if fail:
            raise Boom()
    HOOKS.dump = dump
    if what == 'thing':
        clf = Thing()
    else:
        clf = L.OneSlackSSVM(M.MultiClassClf(2, 2), inference_cache=3)
        clf.inference_cache_ = cache = [[1, 2], [3]]
        clf.alphas = al = h.reals('alpha', 2)
    clf.w = w.copy()
    log = SaveLogger('backup', save_every=h.pick(h.int('every', 1, 3)))
    r = h.raises(lambda: log(clf, 'final'), Boom)
    h.check('failures are reported', h.cond((r is not None) == fail))
    h.check('stored once', h.cond(len(seen) == 1))
    h.check('weights kept', h.eq(clf.w, w))
    if what != 'thing':
        h.check('cache not stored', h.cond(seen == [None]))
        h.check('cache kept', h.cond(clf.inference_cache_ is cache and
                                     cache == [[1, 2], [3]]))
    else:
        h.check('no cache made up', h.cond(
            not hasattr(clf, 'inference_cache_')))
    if fail:
        return
    c = log.load()
    h.check('load returns a copy', h.cond(c is not clf))
    h.check('same class', h.cond(type(c) is type(clf)))
    h.check('weights', h.eq(c.w, w))
    if what != 'thing':
        h.check('other attributes', h.eq(c.alphas, al))
        h.check('cache', h.cond(c.inference_cache_ is None))
    # the last backup counts
    clf.w = v = h.reals('v', 4)
    log(clf, 0)
    h.check('overwritten', h.eq(log.load().w, v))


def learner(h, cls, N=2, K=2, d=1, iters=3, feat=None, loss=None, script=None,
            current=True, limit=1, **kw):
    """0, 1, 2, ..., 'final': after each iteration, and at the end"""
    import pystruct.learners as L
    from vf.hooks import HOOKS
    from .qp import Solver
    np = h.np
    s = table.make(h, N, K, d, script=script,
                   jfconst=None if feat is None else
                   (lambda x, y, yt=None: feat[y]),
                   lossconst=None if loss is None else
                   (lambda y, z: loss[z]))
    ev = []
    orig = s.m.loss_augmented_inference

    def lai(x, y, w, relaxed=None):
        ev.append(('lai', w.copy()))
        return orig(x, y, w, relaxed)
    s.m.loss_augmented_inference = lai
    if 'Slack' in cls:
        def qp(P, q, G, hh, A, b):
            n = len(q)
            a = h.reals('alpha%d' % len(ev), n, 0, 2)
            return dict(x=a, z=np.zeros(len(hh)), y=np.zeros(1),
                        status='optimal', **{'primal objective': 0.0})
        HOOKS.qp = qp

    def log(clf, it=0):
        h.check('logs itself', h.cond(clf is me))
        ev.append(('log', it, clf.w.copy()))
    me = getattr(L, cls)(s.m, max_iter=iters, logger=log, **kw)
    me.fit(s.X, s.Y)
    logs = [e for e in ev if e[0] == 'log']
    n = len(logs) - 1
    h.check('iterations in order, then final', h.cond(
        [e[1] for e in logs] == list(range(n)) + ['final']))
    h.check('final weights', h.eq(logs[-1][2], me.w))
    h.check('final is the end', h.cond(ev[-1][0] == 'log'))
    h.check('at most max_iter', h.cond(n <= iters))
    run = 0
    first = None
    for e in ev:
        if e[0] == 'log':
            h.check('after every iteration', h.cond(
                run <= (limit + (e[1] == 'final')) * N))
            run, first = 0, e[2]
            continue
        run += 1
        if first is not None and current:
            h.check('the weights of the iteration', h.eq(first, e[1]))
            first = None


def latent(h, iters=3):
    """LatentSSVM logs every round, with the weights of the round"""
    import pystruct.learners as L
    from .C23 import make, recorder
    N, K, d = 1, 4, 1
    s = make(h, N, K, d)
    calls, logs = [], []
    inner = recorder(h, L.OneSlackSSVM, calls, d)(s.m)

    def log(clf, it=0):
        h.check('logs itself', h.cond(clf is me))
        logs.append((it, clf.w.copy(), len(calls)))
    me = L.LatentSSVM(inner, latent_iter=iters, logger=log)
    s.m.init_latent = lambda X, Y: [h.pick(h.int('init', 0, 1))]
    me.fit(s.X, s.truth)
    h.check('every round', h.cond(
        [e[0] for e in logs] == list(range(len(calls)))))
    for e in logs:
        h.check('the weights of the round', h.and_(
            h.cond(e[2] == e[0] + 1), h.eq(e[1], calls[e[0]][5])))


def configs(tier):
    C = []

    def add(fn, **k):
        C.append(dict(name=' '.join([fn] + [
            '%s=%s' % (a, k[a]) for a in k if a not in ('budget',)]),
            fn=fn, **k))
    add('every', file='model.pickle')
    add('named')
    for what in ('thing', 'learner'):
        add('stored', what=what)
        add('stored', what=what, fail=True)
    F1 = [[1], [-2], [3], [2]]
    for cls in ('NSlackSSVM', 'OneSlackSSVM'):
        add('learner', cls=cls, feat=F1, C=1, script=[1] * 7)
        add('learner', cls=cls, N=1, iters=2, script=[1, 1, 0, 1])
    add('learner', cls='FrankWolfeSSVM', feat=F1, batch_mode=True,
        line_search=False, iters=3, script=[1, 1, 0, 1, 1, 1])
    add('learner', cls='FrankWolfeSSVM', feat=F1, do_averaging=False,
        line_search=False, iters=3, script=[1, 1, 0, 1, 1, 1], limit=2,
        sample_method='seq')
    add('learner', cls='SubgradientSSVM', feat=F1, iters=3, limit=2,
        script=[1, 1, 0, 1, 1, 1, 0, 1], loss=[0, 1, 0, 2])
    add('learner', cls='SubgradientSSVM', feat=F1, iters=2, limit=2,
        batch_size=2, script=[1, 1, 0, 1, 1, 1, 0, 1])
    add('learner', cls='SubgradientSSVM', feat=F1, iters=2, limit=2,
        n_jobs=2, script=[1, 1, 0, 1, 1, 1, 0, 1])
    add('latent')
    return C
