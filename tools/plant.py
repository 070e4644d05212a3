"""plant bugs: tools/plant.py make SPEC.py | try ID... | tests ID... | matrix

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs,
breaks)].  Works in scratch copies of /repo only."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')


def copy(id):
    d = '/tmp/plant/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def build_ext(d):
    import vf.run as R
    import sysconfig
    suf = sysconfig.get_config_var('EXT_SUFFIX')
    R.REPO = d
    out = R.build('/tmp/plant/so', False)
    for pyx, target, short in R.EXTS:
        shutil.copy(os.path.join(out, short + '.so'),
                    os.path.join(d, target + suf))


def apply(id):
    d = copy(id)
    p = os.path.join(HERE, 'seeded', id, 'patch.diff')
    subprocess.check_call(['git', 'apply', p], cwd=d)
    if '.pyx' in open(p).read():
        build_ext(d)
    return d


def demo(id, cwd):
    r = subprocess.run(['bash', os.path.join(HERE, 'seeded', id, 'demo.sh')],
                       cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout[-300:]


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    import re
    only = os.environ.get("ONLY", "")
    for b in ns["BUGS"]:
        if not re.search(only, b["id"]):
            continue
        d = copy(b['id'])
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=d, text=True)
        o = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(o + '/demo.sh', 'w').write(
            '#!/bin/bash\n# exit 0 on the unchanged tree, 1 with the '
            'change\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': b['prop'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d)
        trial(b['id'])


def trial(id, check=True):
    prop = json.load(open(os.path.join(HERE, 'seeded', id, 'meta.json')))[
        'property']
    d = apply(id)
    a = demo(id, '/repo')
    b = demo(id, d)
    msg = '%s [%s] demo clean=%d patched=%d' % (id, prop, a[0], b[0])
    if a[0] != 0 or b[0] == 0:
        msg += ' BAD DEMO ' + a[1] + ' | ' + b[1]
    if check:
        r = subprocess.run(['./check', prop, 'quick'], cwd=HERE,
                           env=dict(ENV, VF_REPO=d), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if ' fails: ' in l]
        msg += ' check=%d %s' % (r.returncode, v[0][:160] if v else '')
        if r.returncode != 1:
            msg += ' *** MISSED ***\n' + r.stdout[-600:]
    print(msg, flush=True)
    shutil.rmtree(d)


def tests(id):
    d = apply(id)
    rep = '/tmp/plant/%s.xml' % id
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n',
                    '6', '--timeout=600', '--disable-warnings', '--tb=no',
                    '--continue-on-collection-errors',
                    '-o', 'junit_family=xunit2', '--junitxml=' + rep,
                    'pystruct'], cwd=d, env=ENV, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    out = '/tmp/plant/%s.json' % id
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out,
                    'junit:' + rep], stdout=subprocess.DEVNULL)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open(out))['passed'])
    miss = sorted(x for x in base - got if not x.startswith('doc'))
    print('%s tests: %s' % (id, 'ok' if not miss else 'FAIL %s' % miss[:5]),
          flush=True)
    shutil.rmtree(d)
    return not miss


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args[0])
    else:
        ids = args or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        for i in ids:
            if cmd == 'try':
                trial(i)
            elif cmd == 'tests':
                tests(i)
