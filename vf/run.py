"""python -m vf.run <property> [quick|thorough]"""
import sys
sys.dont_write_bytecode = True
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
PY = sys.executable
EXTS = [('src/utils.pyx', 'pystruct/models/utils', 'utils'),
        ('pystruct/inference/_viterbi.pyx', 'pystruct/inference/_viterbi',
         '_viterbi')]

FAULTS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL,
          signal.SIGFPE)


# ------------------------------------------------------------ extensions
def stamp_ok():
    """are the compiled extensions in /repo built from the current .pyx?"""
    import sysconfig
    import Cython
    import numpy
    suf = sysconfig.get_config_var('EXT_SUFFIX')
    for pyx, target, short in EXTS:
        so = os.path.join(REPO, target + suf)
        st = os.path.join(REPO, 'build', 'vp', short + '.stamp')
        try:
            data = open(os.path.join(REPO, pyx), 'rb').read()
            key = '%s %s %s %s ' % (sys.version, Cython.__version__,
                                    numpy.__version__, pyx)
            dg = hashlib.sha256(key.encode() + data).hexdigest()
            want = dg + ' ' + hashlib.sha256(
                open(so, 'rb').read()).hexdigest()
            if open(st).read() != want:
                return False
        except OSError:
            return False
    return True


def build(out, checked):
    import sysconfig
    import numpy
    os.makedirs(out, exist_ok=True)
    procs = []
    for pyx, target, short in EXTS:
        src = open(os.path.join(REPO, pyx)).read()
        if checked:
            src = re.sub(r'boundscheck\s*(=|\()\s*False',
                         lambda m: 'boundscheck' + m.group(1) + 'True', src)
        d = os.path.join(out, 'src')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, short + '.pyx')
        with open(p, 'w') as f:
            f.write(src)
        c = os.path.join(d, short + '.c')
        cmd = '%s -m cython -2 -o %s %s && gcc -shared -fPIC -pthread -O1 ' \
              '-fwrapv -w -I%s -I%s %s -o %s' % (
                  PY, c, p, sysconfig.get_paths()['include'],
                  numpy.get_include(), c, os.path.join(out, short + '.so'))
        procs.append(subprocess.Popen(['bash', '-c', cmd],
                                      stdout=subprocess.DEVNULL,
                                      stderr=subprocess.PIPE))
    for p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError('extension build failed: ' +
                               err.decode()[-800:])
    return out


class Builds(object):
    def __init__(self, scratch):
        self.scratch = scratch
        self.lock = threading.Lock()
        self.dirs = {}

    def get(self, checked):
        with self.lock:
            if checked not in self.dirs:
                if not checked and stamp_ok():
                    self.dirs[checked] = ''
                else:
                    self.dirs[checked] = build(os.path.join(
                        self.scratch, 'so%d' % checked), checked)
            return self.dirs[checked]


class Worker(object):
    def __init__(self, builds, checked=False):
        self.builds = builds
        self.checked = checked
        self.p = None

    def start(self):
        env = dict(os.environ)
        env['VF_SO_DIR'] = self.builds.get(self.checked)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['TMPDIR'] = self.builds.scratch
        self.p = subprocess.Popen(
            [PY, '-W', 'ignore', '-m', 'vf.conc'], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, bufsize=1)

    def ask(self, job, timeout=90):
        if self.p is None:
            self.start()
        if not getattr(self, 'ready', None) is self.p:
            if self._read(120) != 'ready':
                self.stop()
                return {'import_failed': True}
            self.ready = self.p
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self._read(timeout)
        except OSError:
            line = ''
        if not line:
            if line is None:
                self.stop()
                return {'hang': True}
            try:
                rc = self.p.wait(10)
            except subprocess.TimeoutExpired:
                rc = None
            self.stop()
            if rc is not None and -rc in FAULTS:
                return {'crash': True, 'rc': rc}
            # ended for want of memory, or by the machinery itself
            return {'worker_error': 'ended with %s' % rc}
        return json.loads(line)

    def _read(self, timeout):
        box = []

        def rd(p):
            box.append(p.stdout.readline())
        t = threading.Thread(target=rd, args=(self.p,), daemon=True)
        t.start()
        t.join(timeout)
        if not box:
            return None
        return box[0].strip()

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
        self.p = None
        self.ready = None


# ------------------------------------------------------------ known findings
def known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def match_known(ks, prop, config, label, detail):
    for k in ks:
        if k.get('property') == prop and k.get('kind') == 'known' and \
                re.fullmatch(k['config'], config) and \
                re.fullmatch(k['label'], label) and \
                re.search(k.get('detail', ''), detail or ''):
            return k
    return None


# ------------------------------------------------------------ symbolic pool
_MOD = [None]


def _task(a):
    from . import engine
    cfg, limits = a
    try:
        if os.environ.get('VF_PROF'):
            import cProfile
            p = cProfile.Profile()
            r = p.runcall(engine.run_config, _MOD[0], cfg, limits)
            p.dump_stats(os.environ['VF_PROF'])
            return r
        return engine.run_config(_MOD[0], cfg, limits)
    except BaseException:
        import traceback
        return {'config': cfg['name'], 'complete': False, 'labels': {},
                'stats': {'queries': 0, 'solver_s': 0, 'forks': 0,
                          'paths': 0}, 'cands': [], 'vals': [], 'gaps': {},
                'ended': {}, 'inconclusive': 0,
                'error': traceback.format_exc(), 'executed': [],
                'wall': 0, 'tb': None}


def near(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if a != a and b != b:
        return True
    if a in (float('inf'), -float('inf')) or \
            b in (float('inf'), -float('inf')):
        return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def show(assign, n=12):
    out = {}
    for k in list(assign)[:n]:
        v = assign[k]
        if isinstance(v, dict):
            v = '%s/%s' % tuple(v['q']) if v['q'][1] != '1' else v['q'][0]
        out[k] = v
    return out


def setup():
    """the interpreter, the solver and the package are there"""
    import z3
    scratch = tempfile.mkdtemp(prefix='vf-setup-')
    try:
        w = Worker(Builds(scratch))
        r = w.ask({'type': 'ping', 'prop': 'C01', 'cfg': {
            'name': 'x', 'fn': 'agree', 'kind': 'graph', 'n': 1, 'S': 2,
            'edges': []}, 'assign': {}})
        w.stop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('z3', z3.get_version_string(), 'worker', sorted(r))
    return 0


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        w = Worker(Builds(scratch), d['label'] == 'memory-fault')
        r = w.ask({'type': 'cand', 'prop': d['property'], 'cfg': d['cfg'],
                   'assign': d['assign']})
        w.stop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    bad = bool(r.get('failed') or r.get('exc') or r.get('crash'))
    print(json.dumps({k: v for k, v in r.items() if k != 'observed'},
                     indent=1))
    print('inputs', show(d['assign'], 100))
    if bad:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return int(bad)


def main():
    if sys.argv[1] == '--setup':
        from . import sym  # noqa: puts z3 on the path
        rc = setup()
        sys.stdout.flush()
        os._exit(rc)
    if sys.argv[1] == '--replay':
        rc = replay(sys.argv[2])
        sys.stdout.flush()
        os._exit(rc)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    only = os.environ.get('VF_ONLY')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try:
        rc = run(prop, tier, only, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, only, seed, t0, scratch):
    total = float(os.environ.get('VF_TOTAL', 0)) or \
        (150.0 if tier == 'quick' else 840.0)
    builds = Builds(scratch)
    jobs = queue.Queue()
    verdicts = []
    found = threading.Event()
    dbg = bool(os.environ.get('VF_DEBUG'))

    from . import loader
    loader.install()
    imp_err = None
    try:
        import pystruct.models, pystruct.learners, pystruct.utils
        import pystruct.inference, pystruct.datasets
        import pystruct.utils.logging
    except BaseException as e:
        import traceback
        imp_err = traceback.format_exc()
    mod = importlib.import_module('vf.props.' + prop)
    _MOD[0] = mod
    cfgs = mod.configs(tier)
    names = [c['name'] for c in cfgs]
    assert len(set(names)) == len(names), 'duplicate config names'
    if only:
        cfgs = [c for c in cfgs if re.search(only, c['name'])]
    if imp_err:
        print('symbolic import failed:\n' + imp_err)
        cfgs_run = []
    else:
        cfgs_run = cfgs
    limits = {'budget': 30 if tier == 'quick' else 200,
              'validate': 2 if tier == 'quick' else 4,
              'hard_deadline': t0 + total * 0.8, 'branches': 6000}
    limits.update(getattr(mod, 'LIMITS', {}).get(tier, {}))
    results = []
    by_name = {c['name']: c for c in cfgs}
    ks = known()
    known_hits = {}

    nw = 3
    workers = [Worker(builds) for _ in range(nw)]
    checked = Worker(builds, True)
    clock = threading.Lock()
    stopping = threading.Event()

    def handle(w, job):
        w0 = w
        if job['type'] == 'cand' and job['label'] == 'memory-fault':
            with clock:
                r = checked.ask(job)
        else:
            r = w.ask(job)
        return r

    def loop(w):
        while True:
            job = jobs.get()
            if job is None:
                break
            if stopping.is_set():
                continue
            try:
                r = handle(w, job)
            except Exception as e:
                r = {'worker_error': repr(e)}
            verdicts.append((job, r))
            judge(job, r)
        w.stop()

    violations = []
    unrepro = []
    mismatches = []
    stat = {'validated': 0, 'replayed': 0}

    def judge(job, r):
        if r.get('worker_error') or r.get('import_failed') or r.get('hang'):
            unrepro.append((job, r))
            return
        fails = [l for l, n in r.get('failed', [])]
        notes = dict(r.get('failed', []))
        exc = r.get('exc')
        bad = None
        if r.get('crash'):
            bad = ('memory-fault', 'process died (%s)' % r.get('rc'))
        elif fails:
            lab = job.get('label')
            lab = lab if lab in fails else fails[0]
            bad = (lab, notes.get(lab))
        elif exc:
            if job.get('label') == 'memory-fault':
                bad = ('memory-fault', exc)
            else:
                bad = ('exception', exc + ' in ' + str(r.get('where')))
        stat['replayed'] += 1
        if job['type'] == 'val' and not bad:
            if job['kind'] == 'normal':
                if r.get('stopped'):
                    mismatches.append((job, r))
                elif near(job['observed'],
                          [list(o) for o in r['observed']]):
                    stat['validated'] += 1
                else:
                    mismatches.append((job, r))
            return
        if not bad:
            unrepro.append((job, r))
            return
        k = match_known(ks, prop, job['cfg']['name'], bad[0], str(bad[1]))
        if k:
            known_hits.setdefault(k['what'], 0)
            known_hits[k['what']] += 1
            return
        violations.append((job, bad, r))
        found.set()

    threads = [threading.Thread(target=loop, args=(w,), daemon=True)
               for w in workers]
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(min(8, max(1, len(cfgs_run)))) if cfgs_run else None
    for w in workers:        # pay the import while the solvers work
        try:
            w.start()
        except Exception as e:
            print('worker start failed', e)
    for t in threads:
        t.start()
    if pool:
        order = sorted(cfgs_run, key=lambda c: -c.get('cost', 1))
        for c in order:
            c.pop('cost', None)
        it = pool.imap_unordered(_task, [(c, limits) for c in order])
        n = 0
        while n < len(order):
            try:
                res = it.next(timeout=1.0)
            except mp.TimeoutError:
                if found.is_set() and not dbg:
                    break
                if time.time() - t0 > total:
                    break
                continue
            n += 1
            results.append(res)
            cfg = by_name[res['config']]
            for c in res['cands']:
                jobs.put({'type': 'cand', 'prop': prop, 'cfg': cfg,
                          'assign': c['assign'], 'label': c['label'],
                          'note': c['note']})
            for v in res['vals']:
                jobs.put({'type': 'val', 'prop': prop, 'cfg': cfg,
                          'assign': v['assign'], 'kind': v['kind'],
                          'observed': [list(o) for o in v['observed']]})
            if found.is_set() and not dbg:
                break
        pool.terminate()
    else:
        # nothing could be encoded: the concrete side still reports a
        # package that does not import
        pass
    for _ in threads:
        jobs.put(None)
    tmax = t0 + total + 60
    for t in threads:
        while t.is_alive():
            t.join(0.5)
            if (found.is_set() and not dbg and violations) or \
                    time.time() > tmax:
                stopping.set()
                break
    for w in workers:
        w.stop()
    checked.stop()

    return report(prop, tier, seed, t0, mod, cfgs, results, violations,
                  unrepro, mismatches, stat, known_hits, imp_err, dbg)


def report(prop, tier, seed, t0, mod, cfgs, results, violations, unrepro,
           mismatches, stat, known_hits, imp_err, dbg):
    tot = {'queries': 0, 'solver_s': 0.0, 'forks': 0, 'paths': 0}
    labels = {}
    ended = {}
    gaps = {}
    executed = set()
    inconcl = 0
    incomplete = []
    for r in results:
        for k in tot:
            tot[k] += r['stats'][k]
        for l, st in r['labels'].items():
            d = labels.setdefault(l, {})
            for k, v in st.items():
                d[k] = d.get(k, 0) + v
        for k, v in r['ended'].items():
            ended[k] = ended.get(k, 0) + v
        for k, v in r['gaps'].items():
            gaps[k] = gaps.get(k, 0) + v
        executed.update(r['executed'])
        inconcl += r['inconclusive']
        if not r['complete']:
            incomplete.append(r['config'])
        if r['error']:
            gaps[r['config'] + ': ' + r['error'].strip().split('\n')[-1]] = 1
            if dbg:
                print(r['error'])
        if dbg:
            print('  %-40s %s paths=%d q=%d solver=%.1fs wall=%.1fs %s' % (
                r['config'], 'ok ' if r['complete'] else 'INC',
                r['stats']['paths'], r['stats']['queries'],
                r['stats']['solver_s'], r['wall'],
                {l: {k: v for k, v in s.items() if v}
                 for l, s in r['labels'].items()}))
            if r['tb']:
                print(r['tb'][-1800:])
    decided = sum(d.get('unsat', 0) + d.get('sat', 0)
                  for d in labels.values())
    by_simpl = sum(d.get('const', 0) for d in labels.values())
    done = {r['config'] for r in results}
    missing = [c['name'] for c in cfgs if c['name'] not in done]
    paths = sum(v for k, v in ended.items() if k not in ('cut',))
    vac = [l for l, d in labels.items() if not d.get('reached')]
    evd = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': paths,
            'transitions': tot['forks'],
            'traces_validated_against_impl': stat['validated'],
            'samples': [],
            'functions_encoded': sorted(executed),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'configurations': [c['name'] for c in cfgs],
            'configurations_incomplete': incomplete,
            'configurations_not_reached': missing,
            'queries_discharged': tot['queries'],
            'solver_s': round(tot['solver_s'], 2),
            'assertions_decided_by_solver': decided,
            'assertions_decided_by_simplification': by_simpl,
            'assertions_inconclusive': inconcl,
            'assertions': labels,
            'path_ends': ended,
            'not_encodable': gaps,
            'counterexamples_not_reproduced': len(unrepro),
            'trace_mismatches': len(mismatches),
            'exhaustive': not incomplete and not missing and not inconcl
            and not gaps,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'exact real arithmetic stands for floating point; a '
            'counterexample counts once it reproduces in floating point',
            'third-party solvers are represented by the answers stated in '
            'DESIGN.md'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    smp = evd['coverage']['samples']
    for job, bad, r in violations[:2]:
        smp.append({'config': job['cfg']['name'], 'violates': bad[0],
                    'inputs': show(job['assign'])})
    for r in results[:40]:
        if r['vals'] and len(smp) < 4:
            smp.append({'config': r['config'],
                        'path_witness': show(r['vals'][0]['assign'])})
    if not smp:
        smp.append({'configs': [c['name'] for c in cfgs][:5]})
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, default=str)
    print('%s %s: %d configs (%d incomplete, %d not reached), %d paths, '
          '%d queries, %.1f s solver, %d+%d assertions decided, '
          '%d inconclusive, %d traces validated, %.1f s' % (
              prop, tier, len(cfgs), len(incomplete), len(missing), paths,
              tot['queries'], tot['solver_s'], decided, by_simpl, inconcl,
              stat['validated'], time.time() - t0))
    for g, n in sorted(gaps.items())[:8]:
        print('  not encodable (%d paths): %s' % (n, g))
    for job, r in unrepro[:6]:
        print('  NOTE counterexample not reproduced: %s %s %s %s' % (
            job['cfg']['name'], job.get('label'), job.get('note'),
            {k: r.get(k) for k in ('stopped', 'exc', 'worker_error', 'hang',
                                   'import_failed') if r.get(k)}))
    for job, r in mismatches[:6]:
        print('  NOTE trace mismatch: %s' % job['cfg']['name'])
        if dbg:
            print('     assign', show(job['assign'], 60))
            print('     sym ', job['observed'])
            print('     conc', r.get('observed'), r.get('stopped'))
    for l in vac:
        print('  NOTE never reached: %s' % l)
    for what in sorted(known_hits):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if violations:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, (job, bad, r) in enumerate(violations):
            key = (job['cfg']['name'], bad[0])
            if key in seen and not dbg:
                continue
            seen.add(key)
            if len(seen) > 5 and not dbg:
                break
            p = os.path.join(d, '%s-%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump({'property': prop, 'cfg': job['cfg'],
                           'assign': job['assign'], 'label': bad[0],
                           'detail': bad[1], 'tb': r.get('tb')}, f, indent=1,
                          default=str)
            print('  %s: %s fails: %s; inputs %s' % (
                job['cfg']['name'], bad[0], bad[1], show(job['assign'], 30)))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if not decided and not by_simpl and not known_hits:
        print('nothing decided')
        return 2
    return 0


if __name__ == '__main__':
    main()
