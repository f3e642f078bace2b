#!/usr/bin/env python3
"""Decide one property on /repo's current tree.

  python3-vt check.py --property C05 [--tier quick|thorough]

1. The verification conditions of the property's contracts are generated from the
   source the interpreter would run, and discharged by the solvers (pyvc, contracts/).
2. The executable contracts are evaluated on the real code over generated inputs
   (oracle/): the CPython cross-check of the verifier, the bounded stand-in for what it
   cannot reach, and the search for an input behind a failed obligation.

Exit 0: held. Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import argparse
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from oracle import run  # noqa: E402  (puts /repo/python on the path)


def known_findings():
    known = []
    try:
        with open(os.path.join(VERIF, 'KNOWN-FINDINGS')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    known.append(json.loads(line[7:]))
    except FileNotFoundError:
        pass
    return known


def write_replay(prop, data):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{prop}-{os.getpid()}.json')
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, ensure_ascii=False, default=str)
    return os.path.relpath(path, VERIF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args()
    started = time.time()
    prop, tier = a.property, a.tier

    from contracts import registry
    proof = registry.verify(prop, tier)
    violations = []

    if a.no_oracle:
        res = dict(evaluations=0, distinct=0, samples=[], failure=None, crash=None)
    else:
        res = run.explore(prop, a.seed, tier, scale=a.scale)
    failed = [o for o in proof['obligations'] if o['status'] == 'failed']
    if failed and res['failure'] is None and not a.no_oracle and res['crash'] is None:
        # an obligation failed: search harder for an input that shows it
        more = run.explore(prop, a.seed + 1000003, tier, scale=(4.0 if tier == 'quick' else 1.0))
        res['evaluations'] += more['evaluations']
        res['distinct'] += more['distinct']
        res['failure'] = more['failure']
    if res['failure'] is not None:
        if not any(k['property'] == prop and k.get('case') == res['failure']['case'] for k in known_findings()):
            violations.append((res['failure']['message'], {'property': prop, 'message': res['failure']['message'], 'case': res['failure']['case'],
                               'failed_obligations': [o['name'] for o in failed], 'how': 'python3-vt /verif/oracle/run.py replay <this file>'}, ''))
    elif failed:
        violations.append((f"obligation {failed[0]['name']} is not discharged", {'property': prop, 'failed_obligations': failed,
                           'how': f'python3-vt /verif/check.py --property {prop} --no-oracle'}, ' no-failing-input-found'))
    for k in known_findings():
        if k['property'] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    try:
        from tools import assumptions
        n, k, broken = assumptions.sample(a.seed, 2500)
        assumed = {'documents': n, 'instructions': k, 'violated': sorted(broken)}
        proof['bounded'] += [f'what the contracts assume of instructions ({b}) does not hold of every document' for b in sorted(broken)]
    except Exception as e:
        assumed = {'error': str(e)}
    discharged = [o for o in proof['obligations'] if o['status'] == 'discharged']
    meta = registry.META[prop]
    coverage = {
        'obligations': len(proof['obligations']),
        'discharged': len(discharged),
        'checker_cmd': f'python3-vt /verif/check.py --property {prop} --no-oracle',
        'trusted_base': registry.TRUSTED + meta.get('trusted', []),
        'functions_under_contract': proof['functions'],
        'by_back_end': proof['back_ends'],
        'solver_s': round(proof['solver_s'], 2),
        'obligation_names': sorted({o['name'] for o in proof['obligations']}),
        'bounded_stand_ins': proof['bounded'],
        'assumptions_evaluated': assumed,
        'evaluations': res['evaluations'],
        'distinct_nontrivial': res['distinct'],
        'rule': 'bounded part: documents (and query programs, positions, locales, reporters) generated by oracle/gen.py from the seed, judged by the executable contracts '
                'of oracle/spec.py and oracle/model.py; counted distinct by text and program, non-trivial if the text is not blank',
        'samples': res['samples'][:2] or [{'obligation': o['name']} for o in proof['obligations'][:2]],
    }
    evidence = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': meta['level'], 'coverage': coverage,
                'assumptions': proof['assumptions'] + meta.get('assumptions', []), 'wall_s': round(time.time() - started, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)

    print(f"{prop}: {len(discharged)}/{len(proof['obligations'])} obligations discharged in {len(proof['functions'])} functions"
          f" ({proof['solver_s']:.1f} s solver), {len(proof['bounded'])} bounded stand-ins, {res['evaluations']} executions, {time.time() - started:.1f} s")
    for b in proof['bounded']:
        print(f"  bounded: {b}")
    if res['crash'] and not violations:
        # the real code broke the harness itself (e.g. it cannot be imported): nothing was decided
        print(res['crash'])
        violations.append(('the code cannot be exercised: ' + res['crash'].strip().splitlines()[-1], {'property': prop, 'message': res['crash']}, ' no-failing-input-found'))
    if violations:
        message, data, tail = violations[0]
        print(message)
        print(f'VIOLATION property={prop} replay={write_replay(prop, data)}{tail}')
        return 1
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
