#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]
check.py --replay FILE
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
for k, v in (('MPLBACKEND', 'agg'), ('SDL_VIDEODRIVER', 'dummy'), ('SDL_AUDIODRIVER', 'dummy'),
             ('PYTHONDONTWRITEBYTECODE', '1'), ('OMP_NUM_THREADS', '1'), ('MKL_NUM_THREADS', '1'),
             ('OPENBLAS_NUM_THREADS', '1'), ('TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD', '1'), ('PYTHONHASHSEED', '0')):
    if os.environ.get(k) != v:
        os.environ[k] = v
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)

ASSUME = [
    'floating point numbers are mathematical reals; equalities found only up to rounding are decided with a margin of '
    '5e-3 inside |input| <= 64 and counted separately (proved_up_to_rounding)',
    'exp, log, sin, cos, tanh, arctan and non-integer powers are uninterpreted functions with sign, range, '
    'monotonicity and congruence axioms',
    'every draw of np.random / torch random functions is an arbitrary value of its documented range',
    'int32/int64 arithmetic does not overflow',
    'gradients of torch graphs are not modelled (backward is a recorded no-op)',
]


def quiet():
    """keep the import chatter of third-party packages out of the report"""
    import contextlib
    import io
    sys.stdout.flush()
    err = os.dup(2)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.dup2(null, 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            import mushroom_rl.environments         # noqa: F401
    except Exception:       # noqa: BLE001
        pass
    finally:
        os.dup2(err, 2)
        os.dup2(out, 1)
        for f in (err, out, null):
            os.close(f)


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e.get('status') == 'known':
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    import warnings
    warnings.simplefilter('ignore')
    quiet()
    import symx                                     # noqa: F401
    from symx import runner
    import torch
    torch.set_num_threads(1)
    import mushroom_rl
    if not os.path.realpath(mushroom_rl.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('ERROR: mushroom_rl not imported from', REPO)
        return 2
    from props import PROPS
    if a.replay:
        return replay(a, runner, PROPS)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    crash = []
    for m in PROPS[a.prop]:
        try:
            importlib.import_module('props.' + m)
        except Exception as e:      # noqa: BLE001
            crash.append('import of harness %s failed: %r' % (m, e))
    scs = runner.instances(a.prop, tier)
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    known = load_known()
    hard = 780 if tier == 'quick' else 3600 * 3
    results = runner.run_all(scs, seed, known, a.jobs, hard)
    return report(a, runner, results, scs, tier, seed, t0, known, crash)


def report(a, runner, results, scs, tier, seed, t0, known, crash):
    tot = {}
    viol, spurious, unknown, unsup, errors, funcs = [], [], [], [], list(crash), set()
    kn = []
    samples = []
    per = []
    agg = dict(proved=0, tolproved=0, witnesses=0, decisions=0)
    for r in sorted(results, key=lambda r: r['scenario']):
        if 'crash' in r:
            errors.append('%s: %s' % (r['scenario'], r['crash'][-1500:]))
            continue
        if 'timeout' in r:
            unknown.append(r['scenario'] + ': worker exceeded its time budget (inconclusive)')
            per.append({'scenario': r['scenario'], 'exhausted': False, 'timeout': True})
            continue
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k in agg:
            agg[k] += r[k]
        viol += [dict(v, scenario=r['scenario']) for v in r['violations']]
        for s in r['spurious']:
            (unknown if s['abstract'] else spurious).append('%s: %s' % (r['scenario'], s if not s['abstract'] else
                                                            'candidate through an abstracted function did not replay: '
                                                            + s['label']))
        unknown += ['%s: %s' % (r['scenario'], u) for u in r['unknown']]
        unsup += ['%s: %s' % (r['scenario'], u) for u in sorted(set(r['unsupported']))]
        errors += ['%s: %s' % (r['scenario'], u) for u in sorted(set(r['errors']))]
        kn += r['known']
        funcs |= set(r['functions'])
        if r['samples']:
            samples.append({'scenario': r['scenario'], 'case': r['samples'][-1]})
        mm = r['witness_mismatch']
        per.append({'scenario': r['scenario'], 'paths': r['stats']['paths'], 'exhausted': r['exhausted'],
                    'assertions': r['labels'], 'proved': r['proved'], 'proved_up_to_rounding': r['tolproved'],
                    'unsupported_paths': r['stats']['unsupported'], 'witnesses': r['witnesses'],
                    'witness_mismatch': mm[:3], 'bounds': r['bounds'], 'wall_s': r['wall_s']})
        if a.v:
            print('%-70s paths=%-5d proved=%-6d tol=%-3d wit=%-3d exh=%s uns=%d unk=%d spur=%d viol=%d known=%d mm=%d %.1fs'
                  % (r['scenario'], r['stats']['paths'], r['proved'], r['tolproved'], r['witnesses'], r['exhausted'],
                     r['stats']['unsupported'], len(r['unknown']), len(r['spurious']), len(r['violations']),
                     len(r['known']), len(mm), r['wall_s']))
            for u in sorted(set(r['unsupported']))[:5]:
                print('     unsupported:', u)
            for m in mm[:2]:
                print('     mismatch:', m)
            if r['proved'] == 0 and not r['tolproved'] and not r['violations']:
                print('     VACUOUS')
            if r['reach'] == 0 and not r['violations']:
                print('     no reachability witness')
    rdir = os.path.join(EVID, 'replays')
    lines = []
    for i, v in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s_%d.json' % (a.prop, i))
        json.dump({'property': a.prop, 'tier': tier, 'scenario': v['scenario'], 'label': v['label'],
                   'detail': v['detail'], 'inputs': v['values'], 'kind': v['kind']}, open(p, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('%s: %s (%s)' % (v['scenario'], v['label'], v['detail']))
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': agg['decisions'],
            'traces_validated_against_impl': agg['witnesses'],
            'samples': samples[:6] or ['none'],
            'explanation': 'states = symbolic paths of the real code explored; transitions = solver-decided branch '
                           'decisions along them; every assertion is decided by z3 over all inputs of the path',
            'functions_encoded': sorted(funcs), 'queries': tot.get('queries', 0),
            'solver_s': round(tot.get('solver_s', 0), 2), 'assertions_proved': agg['proved'],
            'proved_up_to_rounding': agg['tolproved'], 'infeasible_paths': tot.get('infeasible', 0),
            'unsupported_paths': tot.get('unsupported', 0), 'realised_runs': tot.get('realised', 0),
            'truncated': tot.get('truncated', 0), 'replays': tot.get('replays', 0),
            'inconclusive': sorted(set(unknown))[:40] + sorted(set(unsup))[:40], 'errors': errors[:10],
            'non_reproducing_counterexamples': spurious[:10],
            'scenarios': per, 'solver': 'z3 ' + __import__('z3').get_version_string(),
            'known_findings': sorted(set(kn)),
        },
        'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if not a.only:
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, a.prop + '.json'), 'w'), indent=1, default=str)
    for k in sorted(set(kn)):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    print('%s %s: scenarios=%d paths=%d proved=%d (+%d up to rounding) queries=%d solver=%.1fs witnesses=%d '
          'unsupported=%d inconclusive=%d wall=%.1fs' % (
              a.prop, tier, len(scs), tot.get('paths', 0), agg['proved'], agg['tolproved'], tot.get('queries', 0),
              tot.get('solver_s', 0), agg['witnesses'], tot.get('unsupported', 0), len(set(unknown)),
              time.time() - t0))
    if a.v:
        for u in sorted(set(unknown)):
            print('inconclusive:', u)
    for e in errors:
        print('ERROR:', e)
    for s in spurious:
        print('INCONCLUSIVE: counterexample does not reproduce on the real code:', s)
    for l in lines:
        print(l)
    if viol:
        return 1
    if not per or (errors and not agg['proved']):
        return 2
    return 0


def replay(a, runner, PROPS):
    d = json.load(open(a.replay))
    for m in PROPS[d['property']]:
        importlib.import_module('props.' + m)
    for s in runner.instances(d['property'], 'thorough'):
        if s.name == d['scenario']:
            if d['kind'] == 'goal':
                r = runner.explore(s)
                print('outcome:', r['violations'])
                return 1 if r['violations'] else 0
            out, info, _ = runner.run_concrete(s, runner.unjs(d['inputs']))
            print('inputs:', d['inputs'])
            print('outcome:', out, info)
            return 1 if out in ('violation', 'exception') else 0
    print('scenario not found')
    return 2


if __name__ == '__main__':
    sys.exit(main())
