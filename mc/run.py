#!/opt/venv/bin/python
"""python -m mc.run <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only SCENARIO]"""
import argparse
import importlib
import json
import os
import sys
import time

_t0 = time.monotonic()
_mono = time.monotonic

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONASYNCIODEBUG'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.pop('PYTHONASYNCIODEBUG', None)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

# deterministic surroundings: the environment of the check must not configure the tracer
for k in list(os.environ):
    if k.startswith('JAEGER_'):
        del os.environ[k]


def jsonable(v):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [jsonable(x) for x in v]
    return repr(v)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--cap', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from mc import explore
    mod = importlib.import_module('mc.checks.%s' % a.prop.lower())
    scs = mod.scenarios(a.tier)
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    if a.replay:
        return replay(a, mod, explore)
    cap = a.cap or (getattr(mod, 'CAP', 240) if a.tier == 'quick' else getattr(mod, 'CAP_THOROUGH', 3000))
    # bootstrap errors (the tree does not import) are seen before any worker starts
    ex = explore.Explorer(scs, cap)
    res = ex.run()
    return report(a, mod, res, scs, seed, explore)


def report(a, mod, res, scs, seed, explore):
    prop = a.prop
    rdir = os.path.join(VERIF, 'replays')
    viol = []
    unsure = []
    for name, devs, v, same in res.violations:
        (viol if same else unsure).append((name, devs, v))
    # an unreproducible violation is an error of the harness, unless a reproducible one exists
    errors = list(res.errors)
    for name, devs, v in unsure:
        errors.append((name, devs, 'violation did not replay: %s' % v['msg']))
    status = 0
    if viol:
        os.makedirs(rdir, exist_ok=True)
        viol.sort(key=lambda t: (len(t[1]), len(t[2].get('notes', []))))
        name, devs, v = viol[0]
        path = os.path.join(rdir, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': a.tier, 'scenario': name,
                       'deviations': [list(d) for d in devs], 'message': v['msg'],
                       'detail': jsonable(v['detail']), 'notes': v.get('notes', []),
                       'traceback': v['tb'],
                       'replay_with': 'mc/run.py %s --tier %s --replay %s' % (prop, a.tier, path),
                       'others': [{'scenario': n, 'message': w['msg']} for n, _, w in viol[1:8]]},
                      f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  scenario %s: %s' % (name, v['msg']))
        for n in v.get('notes', [])[-25:]:
            print('    | %s' % n)
        if v['detail']:
            print('    detail: %s' % json.dumps(jsonable(v['detail']))[:1500])
        if a.v:
            print(v['tb'])
            for n2, d2, w in viol[1:8]:
                print('  also %s: %s' % (n2, w['msg']))
        status = 1
    elif errors:
        for name, devs, e in errors[:3]:
            print('ERROR scenario=%s deviations=%s\n%s' % (name, devs, e))
        status = 2
    for key, m in sorted(res.known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, m))
    level = getattr(mod, 'LEVEL', 'model_checking')
    exhaustive = not res.capped and not viol and not errors and \
        all(p['pending'] == 0 for p in res.per_scenario.values())
    cov = {
        'states': res.states,
        'transitions': res.steps + res.choices,
        'traces_validated_against_impl': res.execs,
        'inputs_judged': res.cases,
        'exhaustive': exhaustive,
        'rule': getattr(mod, 'RULE', ''),
        'scenarios': res.per_scenario,
        'distinct_outcomes': res.outcomes,
        'samples': res.samples[:8] or [{'scenario': s.name, 'deviations': []} for s in scs[:2]],
        'bounds': getattr(mod, 'BOUNDS', ''),
        'explanation': 'states = distinct canonical states the scenarios recorded; transitions = '
                       'scheduling points, modelled operations and environment choices taken; '
                       'traces_validated_against_impl = executions of the real code compared step '
                       'by step or at the end with the reference model.',
    }
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
          'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(_mono() - _t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    print('%s %s: %d executions, %d inputs, %d states, %d transitions, %d scenarios, %s, %.1fs'
          % (prop, a.tier, res.execs, res.cases, res.states, res.steps + res.choices, len(scs),
             'exhaustive within bounds' if exhaustive else 'NOT exhaustive', _mono() - _t0))
    if a.v or a.only:
        for n, p in sorted(res.per_scenario.items()):
            print('   %-40s %s %s' % (n, p, res.outcomes.get(n, '')))
    return status


def replay(a, mod, explore):
    r = json.load(open(a.replay))
    scs = [s for s in mod.scenarios(r.get('tier', a.tier)) if s.name == r['scenario']]
    if not scs:
        print('no scenario %s' % r['scenario'])
        return 2
    from mc import env, sched
    env.bootstrap()
    if scs[0].sched:
        sched.setup(env.PKG)
    x, viol, err = explore.run_once(scs[0], tuple(tuple(d) for d in r['deviations']))
    for n in x.notes:
        print('  | %s' % n)
    if err:
        print(err)
        return 2
    if viol:
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        print('  %s\n%s' % (viol['msg'], viol['tb']))
        return 1
    print('replayed without violation')
    return 0


if __name__ == '__main__':
    sys.exit(main())
