#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--list]

Decides one property of /repo's current working tree.  Exit 0: it holds for every input
within the bounds; exit 1 and a VIOLATION line: a counterexample, reproduced on the real
code; exit 2: no answer.
"""
import argparse
import importlib
import json
import os
import sys
import time

VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and sys.prefix != '/opt/venv':
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'})

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symact import env                                    # noqa: E402
from symact import registry                               # noqa: E402

BUDGET = {'quick': 780, 'thorough': 3300}


def known_findings():
    """[(property, case, goal)] of the genuine defects that are recorded and not repaired."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if line.startswith('known: '):
            f = dict(p.split('=', 1) for p in line[7:].split(' | '))
            out.append((f['property'], f['case'], f['goal'], f.get('what', '')))
    return out


def selftest():
    """The solvers are there and agree on queries whose answer is known; every encoding is exercised."""
    from symact import ir, solve
    x, y = ir.var('x', 'f32'), ir.var('y', 'f32')
    fin = [ir.mk('le', ir.mk('abs', v), ir.const(8, 'f32')) for v in (x, y)]
    tests = [([*fin, ir.Not(ir.mk('eq', x + y, y + x))], 'fp', 'unsat'), ([*fin, ir.Not(ir.mk('eq', (x + y) - y, x))], 'fp', 'sat'),
             ([ir.Not(ir.mk('eq', (x + y) - y, x))], 're', 'unsat'), ([ir.mk('lt', x * x, ir.const(0, 'f32'))], 're', 'unsat')]
    bad = 0
    for terms, mode, want in tests:
        q = solve.Query(terms, mode)
        for nm in ('z3', 'z3b', 'cvc5'):
            v, _ = solve._solve([(nm, q.text, q.get())], 60)
            print(nm, mode, v, 'expected', want)
            bad += v not in (want, 'unknown')
    from symact import primtest
    bad += primtest.check()
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    o = ap.parse_args()
    if o.selftest:
        return selftest()
    t0 = time.time()
    try:
        from symact import harness, solve, jaxpr
        mod, fns, entry = registry.PROPS[o.property]
        solve.DEADLINE[0] = t0 + BUDGET[o.tier]
        m = importlib.import_module('symact.props.' + mod)
        cases = [c for f in fns for c in getattr(m, f)(o.tier)]
    except Exception as e:          # the library cannot even be imported
        import traceback
        traceback.print_exc()
        print(f'NO-ANSWER property={o.property} {type(e).__name__}: {e}')
        return 2
    if o.list:
        for c in cases:
            print(c.name, c.mode, {n: (i.shape, i.dt, i.dom) for n, i in c.inputs.items()})
        return 0
    if o.replay:
        d = json.load(open(o.replay))
        case = next(c for c in cases if c.name == d['case'])
        vals = harness.decode(case, d['inputs'])
        bad = harness.failing(case, vals, d.get('jit', False))
        print(json.dumps({'case': case.name, 'jit': d.get('jit', False), 'broken now': bad}, indent=1))
        if bad:
            print(f'VIOLATION property={o.property} replay={o.replay}')
        return 1 if bad else 0
    rep = harness.Report(o.property, o.tier)
    harness.run_cases(rep, cases, validate=2 if o.tier == 'quick' else 6)
    kn = known_findings()
    fresh, old = [], []
    for v in rep.violations:
        hit = [k for k in kn if k[0] == o.property and k[1] == v['case'] and k[2] == v['goal']]
        (old if hit else fresh).append((v, hit))
    for v, hit in old:
        print(f'KNOWN-FINDING: property={o.property} {hit[0][3] or v["goal"]}')
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for k, (v, _) in enumerate(fresh):
        path = os.path.join('replays', f'{o.property}-{k}.json')
        json.dump(v, open(os.path.join(HERE, path), 'w'), indent=1)
        print(f'{v["case"]}: {v["goal"]}\n  broken on the real code ({"jit" if v["jit"] else "eager"}): {v["broken"][:3]}')
        print(f'VIOLATION property={o.property} replay={path}')
    for name, why in rep.inconclusive[:20]:
        print(f'NO-ANSWER {name}: {why[:600]}')
    write_evidence(o, rep, cases, entry, time.time() - t0, len(fresh))
    print(f'{o.property} {o.tier}: {rep.cases} cases, {rep.paths} paths, {rep.goals} goals, {rep.discharged} discharged, '
          f'{solve.STATS["queries"]} solver runs, {solve.STATS["solver_s"]:.1f} s solving, {time.time() - t0:.1f} s')
    return 1 if fresh else 2 if rep.inconclusive else 0


def write_evidence(o, rep, cases, entry, wall, nviol):
    from symact import solve, jaxpr
    samples = []
    for c in cases[:: max(1, len(cases) // 6)]:
        samples.append({'case': c.name, 'encoding': 'IEEE-754 and bit-vectors' if c.mode == 'fp' else 'reals and integers',
                        'symbolic': {n: {'shape': list(i.shape), 'dtype': i.dt, 'domain': str(i.dom)} for n, i in c.inputs.items()}})
    cov = {
        'states': rep.paths, 'transitions': rep.prims, 'traces_validated_against_impl': rep.validated, 'samples': samples[:8],
        'explanation': 'Bounded symbolic execution. states: symbolic paths of the real code (each stands for every input that takes it); '
                       'transitions: primitive operations of the traced programs turned into terms; traces_validated_against_impl: '
                       'concrete runs of the real code compared with the evaluated terms.',
        'functions_encoded': entry, 'cases': rep.cases, 'goals': rep.goals, 'goals_discharged': rep.discharged,
        'solver_runs': solve.STATS['queries'], 'solver_verdicts': {k: solve.STATS[k] for k in ('unsat', 'sat', 'unknown')},
        'identical_queries_shared': solve.STATS['cached'], 'decided_by_folding': solve.STATS['trivial'],
        'solver_seconds': round(solve.STATS['solver_s'], 2), 'longest_solver_run_s': round(solve.STATS['max_s'], 2),
        'precondition_witnesses': rep.witnesses, 'counterexamples_replayed': rep.replays,
        'primitives': dict(sorted(jaxpr.COVER.items())), 'groups': rep.groups,
        'unwinding': sorted({c.unroll for c in cases}), 'no_answer': [n for n, _ in rep.inconclusive][:50],
        'undecided_soft_goals': [f'{n} {w}'[:300] for n, w in rep.notes][:50],
    }
    ev = {'property': o.property, 'tier': o.tier, 'seed': env.SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': registry.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{o.property}.json'), 'w'), indent=1)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)      # a replay that never returned may still be running
