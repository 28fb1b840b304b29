#!/usr/bin/env python3
"""Development aid: confirm a planted change in a scratch copy and keep it under seeded/.
plant.py SPEC.py [--check] ; SPEC defines PROP, NEEDS, WHAT, EDITS=[(file, old, new)], DEMO."""
import json, os, subprocess, sys, shutil, runpy
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=cwd, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    spec = sys.argv[1]
    i = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    w = '/tmp/plantwork/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/plantwork', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        base = subprocess.run('git blame -s -- ' + ' '.join(set(f for f, _, _ in s['EDITS'])), cwd=w, shell=True, capture_output=True)
        d = '/tmp/plantwork/%s.seed' % i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(s['DEMO'].lstrip())
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['WHAT']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout)
        if any(f.endswith('.pyx') for f, _, _ in s['EDITS']):
            r = sh('%s setup.py build_ext --inplace --force' % PY, w)
            assert r.returncode == 0, r.stderr
        r0 = sh('bash %s/demo.sh' % d, '/repo')
        r1 = sh('bash %s/demo.sh' % d, w)
        if r0.returncode != 0 or r1.returncode == 0:
            print(i, 'DEMO BAD clean=%d patched=%d' % (r0.returncode, r1.returncode), r0.stderr[-600:], r1.stdout[-300:])
            return 1
        r = sh(PY + ' -m pytest -q -p no:cacheprovider -p no:xdist --timeout=120 --continue-on-collection-errors -o python_files="test_*.py *_test.py testPlot.py" tests', w)
        last = r.stdout.strip().split('\n')[-1]
        if r.returncode != 0:
            print(i, 'TESTS FAIL', last)
            return 1
        dst = os.path.join(HERE, 'seeded', i)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(d, dst)
        res = 'planted'
        r = sh('%s run.py --property %s' % (PY, s['PROP']), HERE, {'PACAL_REPO': w, 'VERIF_EVIDENCE': '/tmp/plantwork/%s.ev' % i})
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, v[0][:200] if v else r.stdout[-200:] + r.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
