"""Runs the harnesses of one property in forked workers, prints VIOLATION /
KNOWN-FINDING lines and writes the evidence file."""
import argparse
import contextlib
import importlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

LEVEL = {}


def load_known(here):
    p = os.path.join(here, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def setup_kernels(here, repo):
    """the compiled kernels rebuilt from the current source; symbolic data goes
    through the same source translated to Python"""
    import numpy as np
    from engine import pyx, patch
    import pacal.interpolation as I
    import pacal.depvars.sparse_grids as G
    path = os.path.join(repo, 'pacal', 'bary_interp.pyx')
    KERNELS['module'] = m = pyx.build(path, here)
    try:
        def empty(shape, dtype=None):
            r = np.empty(shape, dtype=object)
            r.fill(float('nan'))
            return r
        ns, py = pyx.functions(path, empty)
    except Exception as e:
        KERNELS['error'] = str(e)
        return
    KERNELS['py'] = ns
    for mod, nm in ((I, 'bary_interp'), (G, 'c_dense_grid_interp')):
        orig = getattr(mod, nm, None)
        if orig is None or nm not in ns:
            continue
        new = getattr(m, nm, None) if m is not None else None
        if new is not None:
            setattr(mod, nm, new)
        cur = getattr(mod, nm)

        def wrap(*a, cur=cur, tr=ns[nm]):
            if patch.anysym(a):
                return tr(*a)
            return cur(*a)
        patch.EXTRA.append((cur, wrap))


KERNELS = {}


def setup_pacal(scratch, repo):
    os.environ['MPLCONFIGDIR'] = scratch
    import warnings
    warnings.simplefilter('ignore')
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        import pacal
        import pacal.stats.iid_ops, pacal.stats.noncentral_distr  # noqa
        import pacal.depvars.copulas, pacal.depvars.nddistr, pacal.depvars.models, pacal.depvars.sparse_grids  # noqa
        from pacal import params
    params.general.parallel = False
    params.general.warn_on_dependent = False
    for sec in ('models', 'interpolation_nd', 'segments', 'integration_finite'):
        s = getattr(params, sec, None)
        if s is not None:
            for a in ('debug_info', 'debug_plot'):
                if hasattr(s, a):
                    setattr(s, a, False)
    src = os.path.realpath(pacal.__file__)
    if not src.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError('pacal imported from %s, not %s' % (src, repo))


def child(hs, tier, path, seed):
    from engine import harness
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = harness.run_symbolic(hs, tier, seed)
    except BaseException as e:
        res = {'harness': hs.name, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(path + '.tmp', path)
    os._exit(0)


def run_all(hss, tier, scratch, seed, nproc=8, stop=None):
    """each harness in a forked process of its own"""
    todo = list(enumerate(hss))
    live = {}
    results = {}
    while todo or live:
        while todo and len(live) < nproc:
            i, hs = todo.pop(0)
            path = os.path.join(scratch, 'r%d' % i)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                child(hs, tier, path, seed)
            cap = hs.budget if tier == 'quick' else hs.thorough.get('budget', hs.budget * 8)
            live[pid] = (i, hs, path, time.time() + cap * 1.6 + 20)
        time.sleep(0.02)
        for pid in list(live):
            i, hs, path, dl = live[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                if time.time() > dl:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    results[i] = {'harness': hs.name, 'error': 'killed at time limit'}
                    del live[pid]
                continue
            del live[pid]
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results[i] = pickle.load(f)
            else:
                results[i] = {'harness': hs.name, 'error': 'worker died, status %d' % st}
            if stop is not None and stop(results[i]):
                for q in live:
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(q, 0)
                return [results.get(i, {'harness': hs.name, 'error': 'not run'}) for i, hs in enumerate(hss)]
    return [results[i] for i in range(len(hss))]


def replay(path, here, repo):
    rec = json.load(open(path))
    mod = importlib.import_module('checks.' + rec['property'].lower())
    from engine import harness
    for hs in mod.HARNESSES:
        if hs.name == rec['harness']:
            r = harness.run_concrete(hs, rec['values'], rec['choices'], rec.get('variant', 0))
            if r is None:
                print('outside the assumptions')
                return 0
            bad = [x for x in r[0]]
            for lab, msg in bad:
                print('REPRODUCED %s/%s: %s' % (hs.name, lab, msg))
            return 1 if bad else 0
    print('no such harness')
    return 0


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-x', action='store_true', help='stop at the first violation')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args(argv)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pacalverif.')
    try:
        setup_pacal(scratch, repo)
        setup_kernels(here, repo)
        if a.setup:
            print('engine ready; kernels', 'built' if KERNELS.get('module') is not None else 'not built: %s' % KERNELS.get('error'))
            return 0
        if a.replay:
            return replay(a.replay, here, repo)
        return _main(a, here, repo, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, here, repo, scratch, t0):
    prop = a.property
    mod = importlib.import_module('checks.' + prop.lower())
    hss = [h for h in mod.HARNESSES if (a.tier == 'thorough' or h.quick)]
    if a.harness:
        hss = [h for h in hss if a.harness in h.name]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = [k for k in load_known(here) if k['property'] == prop]
    # longest first
    order = sorted(range(len(hss)), key=lambda i: -hss[i].budget)
    fresh = lambda r: any(not any(k['harness'] == r['harness'] and k['label'] == lab for k in known) for lab in r.get('confirmed', ()))
    res = run_all([hss[i] for i in order], a.tier, scratch, seed, a.j, fresh if a.x else None)
    res.sort(key=lambda r: r['harness'])
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(here, 'evidence')
    os.makedirs(evd, exist_ok=True)
    violations, knowns = [], []
    disch = total = unk = refu = 0
    queries = paths = wit = 0
    solver = 0.0
    incon = []
    sample = []
    for r in res:
        if 'error' in r:
            incon.append('%s: %s' % (r['harness'], r['error']))
            if a.v:
                print(r.get('tb', ''))
            continue
        queries += r['queries']
        paths += r['paths']
        wit += r['witness_runs']
        solver += r['solver_s']
        for lab, o in sorted(r['obligations'].items()):
            total += o['discharged'] + o['tolerance'] + o['inconclusive'] + o['refuted']
            disch += o['discharged'] + o['tolerance']
            unk += o['inconclusive']
            refu += o['refuted']
            if o['inconclusive']:
                incon.append('%s/%s: %d unknown' % (r['harness'], lab, o['inconclusive']))
        for lab, n in r['unreproduced'].items():
            if lab not in r['confirmed']:
                incon.append('%s/%s: %d solver model(s) did not reproduce on the real code' % (r['harness'], lab, n))
        for k, n in r['unsupported'].items():
            incon.append('%s: %d path(s) cut: %s' % (r['harness'], n, k))
        if r['truncated']:
            incon.append('%s: path/time budget reached after %d paths' % (r['harness'], r['paths']))
        for k, n in r['harness_errors'].items():
            incon.append('%s: replay harness error: %s' % (r['harness'], k))
        if not r['reached']:
            incon.append('%s: no assertion reached' % r['harness'])
        for lab, c in sorted(r['confirmed'].items()):
            kf = None
            for k in known:
                if k['harness'] == r['harness'] and k['label'] == lab:
                    kf = k
                    break
            if kf is not None:
                knowns.append(kf)
                continue
            rec = {'property': prop, 'harness': r['harness'], 'label': lab, 'values': c['values'],
                   'choices': c['choices'], 'variant': c['variant'], 'msg': c['msg'], 'found_by': c['why'],
                   'replay_cmd': 'cd %s && /opt/venv/bin/python run.py --replay <this file>' % here}
            rp = os.path.join(evd, 'replay_%s_%s_%d.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in r['harness'] + '_' + lab)[:80], len(violations)))
            json.dump(rec, open(rp, 'w'), indent=1)
            violations.append((rec, rp))
        if a.v:
            print('%-34s paths %4d q %5d solver %6.1fs wall %6.1fs %s%s' % (
                r['harness'], r['paths'], r['queries'], r['solver_s'], r['wall_s'],
                ' '.join('%s:%s' % (k, '/'.join(map(str, v.values()))) for k, v in r['obligations'].items() if a.harness or sum(list(v.values())[1:])) or 'ok %d' % sum(v['discharged'] for v in r['obligations'].values()), ' TRUNC' if r['truncated'] else ''))
        for lab, o in r['obligations'].items():
            if len(sample) < 40:
                sample.append({'harness': r['harness'], 'obligation': lab, **o})
    seen = set()
    for k in knowns:
        t = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
        if t not in seen:
            print(t)
            seen.add(t)
    for rec, rp in violations:
        print('VIOLATION property=%s replay=%s  # %s/%s %s' % (prop, rp, rec['harness'], rec['label'], rec['msg'][:200]))
    if a.v:
        for i in incon:
            print('INCONCLUSIVE', i)
    wall = time.time() - t0
    meta = getattr(mod, 'META', {})
    level = meta.get('level', 'other')
    bounds = [{'harness': h.name, 'bounds': h.bounds, 'functions': h.encoded} for h in hss]
    expl = ('Symbolic execution of the real functions in %s (re-read on every run); each obligation is decided by Z3 '
            'over all values within the stated bounds. %d obligations over %d paths and %d harnesses: %d discharged, '
            '%d refuted by a model, %d undecided; %d queries, %.1f s solver time; %d solver models (path witnesses and '
            'counterexample candidates) replayed on the unmodified code.' %
            (repo, total, paths, len(hss), disch, refu, unk, queries, solver, wit))
    cov = {'explanation': expl, 'witnesses_replayed': wit,
           'obligations': total, 'discharged': disch, 'undecided': unk, 'refuted': refu,
           'solver_s': round(solver, 2), 'queries': queries, 'paths': paths,
           'harnesses': bounds, 'inconclusive': incon[:200], 'samples': sample or [{'note': 'none'}]}
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(violations),
          'assumptions': list(meta.get('assumptions', [])) + GLOBAL_ASSUMPTIONS}
    if not a.harness:
        json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d undecided, %d paths, %d queries, %.1fs solver, %.1fs wall' % (
        prop, disch, total, unk, paths, queries, solver, wall))
    return 1 if violations else 0


GLOBAL_ASSUMPTIONS = [
    'floats are modelled as reals; rounding is outside the claim (the replay of every witness runs in floats)',
    'exp, log, sqrt, trigonometric and density functions are uninterpreted with their defining axioms',
    'results hold within the bounds listed per harness only',
]
