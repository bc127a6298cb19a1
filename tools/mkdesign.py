"""Writes DESIGN.md from the prose below, properties.jsonl, known_findings.json, seeded/ and the evidence of a run on the unchanged tree
(run all checks first, then: /opt/venv/bin/python tools/mkdesign.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
head = open(os.path.join(V, 'tools/design_head.md')).read()
how, cur = {}, None
for l in open(os.path.join(V, 'tools/design_how.md')):
    if l.startswith('## '):
        cur = l[3:].strip(); how[cur] = ''
    elif cur:
        how[cur] += l
det = json.load(open(os.path.join(V, 'tools/detect.json')))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
out = [head.rstrip(), '', '# Properties', '']
for p in props:
    i = p['id']
    ef = os.path.join(V, 'evidence', i + '.json')
    out += [f"## {i} {p['title']}", '', how.get(i, '').strip(), '']
    if os.path.exists(ef):
        e = json.load(open(ef)); c = e['coverage']
        fs = [x.replace('kd.model.', '') for x in c['functions_under_contract']]
        own = [x for x in fs]
        groups = c['obligation_groups']
        gtext = ', '.join(f'{g} ({n})' for g, n in groups.items()) if len(groups) <= 26 else \
            ', '.join(f'{g} ({n})' for g, n in groups.items() if not g.startswith('frame of')) + f"; {sum(1 for g in groups if g.startswith('frame of'))} frame groups re-run from other checks ({sum(n for g, n in groups.items() if g.startswith('frame of'))})"
        out += [f"- Functions under contract ({len(fs)}): " + (', '.join(f'`{x}`' for x in fs) if len(fs) <= 45 else 'listed in the evidence file (the functions of C06-C11, C13, C15, C16, C18, C21-C24, C28, C29, C31 in frame mode, and the fit/training functions)'),
                f"- Obligations at the time of writing (quick): {c['discharged']}/{c['obligations']} discharged, {c['paths']} paths, {c['solver_seconds']:.0f} s solver, {e['wall_s']:.0f} s wall; groups: {gtext}",
                f"- Bounded run-time contracts: {', '.join(k for k in c['bounded_contracts'] if k != '<lambda>') or 'enumerated configurations'} - {c['rule']}"]
        if e['assumptions']:
            out += ['- Assumptions left unchecked: ' + '; '.join(e['assumptions'])]
    for s, m in seeds.get(i, []):
        out += [f"- Seeded `{s}` ({m['what_it_breaks']}; needs: {m['needs']}): {det.get(s, 'not run')}"]
    out += ['']
kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
out += ['# Genuine defects found', '', f"All {len(kf)} were repaired with a `fix:` commit in /repo (list in known_findings.json; no finding is left open, so no check prints KNOWN-FINDING):", '']
out += ['- ' + f['what'] for f in kf]
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines; without prose:', [p['id'] for p in props if not how.get(p['id'], '').strip()])
