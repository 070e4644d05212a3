"""Concrete worker: the real pystruct on real numpy, one JSON job per line."""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
import json
from fractions import Fraction


def patch():
    import importlib.machinery
    import importlib.util
    import numpy
    from vf import hooks
    from vf.hooks import HOOKS
    so = os.environ.get('VF_SO_DIR')
    # /repo first, compiled extensions possibly from the scratch build
    sys.path.insert(0, REPO)

    if so:
        class F(object):
            @staticmethod
            def find_spec(name, path=None, target=None):
                short = {'pystruct.models.utils': 'utils',
                         'pystruct.inference._viterbi': '_viterbi'}.get(name)
                if short is None:
                    return None
                p = os.path.join(so, short + '.so')
                if not os.path.exists(p):
                    return None
                return importlib.util.spec_from_file_location(name, p)
        sys.meta_path.insert(0, F)
    import joblib
    import sklearn.utils
    import sklearn.cluster
    import scipy.optimize
    import cvxopt
    import cvxopt.solvers
    import ad3
    joblib.Parallel = hooks.Parallel
    joblib.delayed = hooks.delayed
    joblib.cpu_count = hooks.cpu_count
    sklearn.utils.gen_even_slices = hooks.gen_even_slices
    sklearn.utils.shuffle = hooks.shuffle
    sklearn.utils.check_random_state = hooks.check_random_state
    sklearn.cluster.KMeans = hooks.KMeans
    scipy.optimize.fmin = hooks.fmin
    real_ad3, real_ad3c = ad3.general_graph, ad3.general_constrained_graph

    def gg(unaries, edges, edge_weights, verbose=1, n_iterations=1000,
           eta=.1, exact=False):
        hooks.ad3_check(unaries, edges, edge_weights)
        return HOOKS.call('ad3', unaries, edges, edge_weights,
                          dict(exact=exact))

    def gcg(unaries, edges, edge_weights, constraints, verbose=1,
            n_iterations=1000, eta=.1, exact=False):
        hooks.ad3_check(unaries, edges, edge_weights)
        return HOOKS.call('ad3c', unaries, edges, edge_weights, constraints,
                          dict(exact=exact))
    ad3.general_graph, ad3.general_constrained_graph = gg, gcg
    HOOKS.real_ad3 = real_ad3
    real_qp, real_lp = cvxopt.solvers.qp, cvxopt.solvers.lp
    HOOKS.real_qp, HOOKS.real_lp = real_qp, real_lp

    def arr(m):
        if m is None:
            return None
        return numpy.array(cvxopt.matrix(m), dtype=float)

    def vec(m):
        return None if m is None else arr(m).reshape(-1, order='F')

    def chk(ok, msg):
        if not ok:
            raise TypeError(msg)

    def sol(r):
        r = dict(r)
        if r.get('x') is not None and \
                not isinstance(r['x'], cvxopt.matrix):
            r['x'] = cvxopt.matrix(numpy.asarray(r['x'], dtype=float)
                                   .reshape(-1, 1))
        return r

    def qp(P, q, G=None, h=None, A=None, b=None, solver=None, **k):
        for n, m in (('P', P), ('q', q), ('G', G), ('h', h), ('A', A),
                     ('b', b)):
            chk(m is None or m.typecode == 'd',
                "'%s' must be a 'd' matrix" % n)
        n = P.size[0]
        chk(P.size == (n, n) and q.size == (n, 1), "'q' size")
        chk(G is None or (G.size[1] == n and h.size == (G.size[0], 1)),
            "'G' size")
        chk(A is None or (A.size[1] == n and b.size == (A.size[0], 1)),
            "'A' size")
        return sol(HOOKS.call('qp', arr(P), vec(q), arr(G), vec(h), arr(A),
                              vec(b)))

    def lp(c, G, h, A=None, b=None, *a, **k):
        for n, m in (('c', c), ('G', G), ('h', h), ('A', A), ('b', b)):
            chk(m is None or m.typecode == 'd',
                "'%s' must be a 'd' matrix" % n)
        n = c.size[0]
        chk(c.size == (n, 1) and G.size[1] == n and
            h.size == (G.size[0], 1) and
            (A is None or (A.size[1] == n and b.size == (A.size[0], 1))),
            'lp: incompatible sizes')
        return sol(HOOKS.call('lp', vec(c), arr(G), vec(h), arr(A), vec(b)))
    cvxopt.solvers.qp, cvxopt.solvers.lp = qp, lp
    R = hooks._RNG
    for n in ('normal', 'uniform', 'randint', 'rand', 'randn', 'shuffle',
              'permutation', 'seed', 'standard_normal', 'random_integers',
              'random_sample', 'random'):
        setattr(numpy.random, n, getattr(R, n))
    import pickle
    real_dump = pickle.dump

    def dump(obj, f, *a, **k):
        if HOOKS.dump is not None:
            HOOKS.dump(obj)
        real_dump(obj, f, *a, **k)
        HOOKS.saved.append((f.name, None))
    pickle.dump = dump
    HOOKS.np = numpy
    HOOKS.options = cvxopt.solvers.options
    HOOKS.defaults = dict(cvxopt.solvers.options)


def de(v):
    if isinstance(v, dict):
        return Fraction(int(v['q'][0]), int(v['q'][1]))
    return v


def one(job):
    import importlib
    from vf.harness import conc_run
    import cvxopt.solvers as cs
    from vf.hooks import HOOKS
    cs.options.clear()
    cs.options.update(HOOKS.defaults)
    mod = importlib.import_module('vf.props.' + job['prop'])
    cfg = job['cfg']
    params = {k: v for k, v in cfg.items()
              if k not in ('fn', 'name', 'budget', 'max_paths')}
    import random
    import tempfile
    d = tempfile.mkdtemp(prefix='vfc')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        return conc_run(getattr(mod, cfg['fn']), params,
                        {k: de(v) for k, v in job['assign'].items()})
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def main():
    from vf.hooks import UnmodelledCall
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)           # stray prints go to stderr
    patch()
    import tempfile
    sys.pycache_prefix = tempfile.mkdtemp(prefix='vfpyc')
    import pystruct
    assert os.path.realpath(os.path.dirname(pystruct.__file__)) == \
        os.path.realpath(os.path.join(REPO, 'pystruct')), pystruct.__file__
    import pystruct.models, pystruct.learners, pystruct.utils
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        try:
            r = one(json.loads(line))
        except (Exception, UnmodelledCall):
            import traceback
            r = {'worker_error': traceback.format_exc()}
        out.write(json.dumps(r, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
