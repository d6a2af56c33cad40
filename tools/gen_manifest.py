#!/usr/bin/env python3
"""Writes MANIFEST.json; the claimed checks are the modules in props/."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {
    'C30': 'pure functions of their input tensors: no schedule, time, I/O or '
    'multi-party behaviour for a simulator to control',
    'C31': 'a pure function from a network to two numbers (its history and '
    'failure behaviour is C19); the analytic count has no schedule, time or '
    'I/O to simulate',
    'C32': 'static analysis of one network in one call: no schedule, time, '
    'I/O or multi-party behaviour; the result under histories of choices is '
    'covered by C06',
    'C33': 'one-shot dict-to-dict scripts without schedule, time or partial '
    'state; nothing for fault injection to act on',
    'C34': 'fits third-party regressors on in-memory arrays; no schedule or '
    'time to control, and the encoders fail on the installed numpy (np.int), '
    'so it cannot run here',
}
NOTE = {}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(V, 'props', i.lower() + '.py')
        if os.path.exists(f):
            t = ast.parse(open(f).read())
            g = {}
            for n in t.body:
                if isinstance(n, ast.Assign) and isinstance(
                        n.targets[0], ast.Tuple):
                    for a, b in zip(n.targets[0].elts,
                                    getattr(n.value, 'elts', [])):
                        if isinstance(b, ast.Constant):
                            g[a.id] = b.value
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name):
                    try:
                        g[n.targets[0].id] = ast.literal_eval(n.value)
                    except ValueError:
                        pass
            if g.get('DRAFT'):
                na.append(dict(property=i, reason='check under construction'))
                continue
            fault = g['LEVEL'] == 'fault_enumeration'
            c = g.get('COMPONENTS')
            note = ('Seeded search over simulated executions, not '
                    'exhaustive: quick %d runs, thorough %d; every violation '
                    'is minimised and replayed exactly in a fresh process. '
                    % (g['QUICK'], g['THOROUGH']))
            stub = None
            for n in t.body:
                if isinstance(n, ast.Assign) and \
                        getattr(n.targets[0], 'id', '') == 'COMPONENTS':
                    for k in n.value.keywords:
                        if k.arg == 'stub':
                            stub = ast.literal_eval(k.value)
            note += f'Stubbed: {stub}. Assumes: ' + '; '.join(
                g.get('ASSUMPTIONS', [])) + '.'
            checks.append(dict(
                property=i, quick_cmd=f'./check.py {i}',
                thorough_cmd=f'./check.py {i} --tier thorough',
                evidence_file=f'evidence/{i}.json',
                technique='deterministic simulation with '
                + ('fault injection' if fault else
                   'seeded history/schedule search'),
                level=g['LEVEL'], level_note=note))
        else:
            na.append(dict(property=i, reason=PURE.get(
                i, 'check not built yet')))
    m = dict(version=1, setup_cmd='./check.py selfcheck', checks=checks,
             not_applicable=na,
             notes='One engine (simkit/), one module per property (props/). '
             './check.py ID --replay FILE replays a violation. No hooks in '
             '/repo are needed: every seam is patched from outside.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
