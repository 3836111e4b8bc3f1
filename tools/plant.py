"""Development aid: write seeded/<id>/ from tools/plants/*.py and confirm each planted bug.

python3 tools/plant.py gen [id...]      write patch.diff, demo.sh, demo.py, meta.json
python3 tools/plant.py run [id...]      apply to /repo, run demo and the property's check, undo
python3 tools/plant.py test id...       additionally run the test suite with the patch applied

A plant file defines BUGS: list of dicts id, property, file, edits [(old, new)...], demo, needs, breaks.
"""
import json
import os
import subprocess
import sys
import glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'plants', '*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for b in ns['BUGS']:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def sh(*c, **kw):
    return subprocess.run(c, capture_output=True, text=True, **kw)


def clean():
    assert sh('git', '-C', R, 'status', '--porcelain').stdout == '', 'dirty repo'


def gen(b):
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        edits = b['edits']
        for e in edits:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', R, 'diff').stdout
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# exit 0 when the property holds for this input\n'
        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 QISKIT_IN_PARALLEL=FALSE\n'
        'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(i):
    r = sh('bash', os.path.join(V, 'seeded', i, 'demo.sh'), cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def run(b, test=False):
    i = b['id']
    clean()
    c0, o0 = demo(i)
    ap = sh('git', '-C', R, 'apply', os.path.join(V, 'seeded', i, 'patch.diff'))
    try:
        assert ap.returncode == 0, ap.stderr
        c1, o1 = demo(i)
        ck = sh('python3', os.path.join(V, 'sa', 'run.py'), b['property'])
        res = ''
        if test:
            env = dict(os.environ, OPENBLAS_CORETYPE='Haswell')
            sh('bash', '/opt/vp/test.sh', '/tmp/plant_out.json', env=env)
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            out = json.load(open('/tmp/plant_out.json'))
            passed = set(out.get('passed', []))
            miss = [t for t in base if t not in passed]
            bl = sh('bash', '/opt/vp/build.sh')
            res = ' tests:%s build:%s' % ('ok' if not miss else miss[:3], bl.returncode)
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    print('%-28s %s demo %d/%d check %s%s' % (
        i, b['property'], c0, c1, {0: 'MISSED', 1: 'caught'}.get(ck.returncode, 'BROKEN'), res),
        '' if c0 == 0 and c1 else '   DEMO: %s | %s' % (o0, o1), flush=True)
    if ck.returncode == 1 and '-v' in sys.argv:
        print(ck.stdout[:600])


def main():
    bugs = load()
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(bugs)
    for i in ids:
        if sys.argv[1] == 'gen':
            gen(bugs[i])
        else:
            run(bugs[i], sys.argv[1] == 'test')


main()
