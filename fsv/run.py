"""Runner: python -m fsv.run <property> [quick|thorough].  Exit 0 held, 1 violation (with a replay file), 2 no answer."""
import concurrent.futures
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fsv import env, cnf  # noqa: E402
from fsv.core import Violation, NoAnswer, Ctx, plain  # noqa: E402


def known_findings():
    path = os.path.join(ROOT, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                head, _, what = line[len('known: '):].partition(' ')
                key, _, text = what.partition(' ')
                res.append((head.split('=', 1)[1], key.split('=', 1)[1], text))
    return res


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    code = 0
    violation = None
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module('fsv.checks.' + prop.lower())
        ctx.bounds = getattr(mod, 'BOUNDS', {}).get(tier, '')
        mod.run(ctx)
        if ctx.errors:
            print('\n'.join(ctx.errors))
            code = 2
        elif ctx.obligations == 0:
            print('NO ANSWER: nothing was decided')
            code = 2
    except Violation as v:
        violation = v
        code = 1
    except Exception:
        traceback.print_exc()
        code = 2
    listed = {k[1]: k[2] for k in known_findings() if k[0] == prop}
    seen = set()
    for key, v in ctx.findings:
        if key not in listed:
            ctx.violations.append(v)
        elif key not in seen:
            seen.add(key)
            print(f'KNOWN-FINDING: property={prop} {listed[key]}')
    if ctx.violations and violation is None:
        violation = ctx.violations[0]
        code = 1
    replay = None
    if violation is not None:
        listed = [k for k in known_findings() if k[0] == prop and k[1] == violation.data.get('finding')]
        if listed:
            print(f'KNOWN-FINDING: property={prop} {listed[0][2]}')
            code = 0
        else:
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            replay = os.path.join(ROOT, 'replays', prop + '.json')
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'what': violation.what, 'data': plain(violation.data)}, f, indent=1)
            print(f'{prop}: {violation.what}')
            for k in ('config', 'layout', 'input', 'got', 'expected'):
                if k in violation.data:
                    print(f'  {k}:\n{violation.data[k]}' if k == 'layout' else f'  {k}: {violation.data[k]}')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    st = dict(cnf.STATS)
    cov = {
        'explanation': ctx.explanation or (getattr(sys.modules.get('fsv.checks.' + prop.lower()), '__doc__', '') or '').strip(),
        'functions_encoded': sorted(ctx.functions),
        'bounds': ctx.bounds,
        'configurations': ctx.configs,
        'obligations': ctx.obligations,
        'queries': st['queries'] + ctx.smt.get('queries', 0),
        'queries_unsat': st['unsat'] + ctx.smt.get('unsat', 0),
        'queries_sat': st['sat'] + ctx.smt.get('sat', 0),
        'solver_s': round(st['solver_s'] + ctx.smt.get('solver_s', 0.0), 3),
        'largest_query_clauses': st['clauses_max'],
        'vacuity_witnesses': ctx.witnesses,
        'paths': ctx.paths,
        'second_solver_agreements': st['cross'],
        'samples': ctx.samples[:5],
    }
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
                   'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 3),
                   'violations': 1 if replay else 0}, f, indent=1)
    if replay:
        print(f'VIOLATION property={prop} replay={replay}')
    elif code == 0:
        print(f'{prop} held: {ctx.obligations} obligations, {cov["queries"]} queries, {cov["solver_s"]} s solver, '
              f'{ctx.witnesses} witnesses, {time.time() - t0:.1f} s')
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
