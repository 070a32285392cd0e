#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 bin/props.py` after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, obs, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs, note=note, na=na))


exec(open(os.path.join(V, 'bin', 'props_data.py')).read())
P.sort(key=lambda p: p['id'])
TECH = 'symbolic execution of the LLVM IR compiled from /repo with SMT (z3) verdicts over all values within bounds; native replay of counterexamples'
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['obs'], 'hook_needed': None}}) + '\n')
m = {
    'version': 1, 'setup_cmd': 'python3 bin/check.py --build',
    'checks': [{
        'property': p['id'], 'quick_cmd': f"python3 bin/check.py {p['id']} --tier quick", 'thorough_cmd': f"python3 bin/check.py {p['id']} --tier thorough",
        'technique': TECH, 'level': 'model_checking',
        'level_note': p['note'] or 'Every path of the harness within the stated bounds is executed symbolically over the real code and each assertion decided by the solver; nothing is claimed beyond the bounds (listed per entry in the evidence and in DESIGN.md).',
    } for p in P if not p['na']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
    'notes': 'One engine (engine/) executes LLVM IR that rustc emits for harness/ + /repo at every run; harness entries live in harness/src/cNN.rs. See DESIGN.md.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# ------------------------------------------------------------------ generated parts of DESIGN.md
import re, glob
ents = {}
for fn in sorted(glob.glob(V + '/harness/src/c[0-9]*.rs')):
    for m_ in re.finditer(r'entry!\s*\{\s*((?:\s*///[^\n]*\n)+)\s*(h_(c\d+)_\w+)', open(fn).read()):
        doc = ' '.join(l.strip()[3:].strip() for l in m_[1].strip().splitlines() if 'reach:' not in l)
        ents.setdefault(m_[3].upper(), []).append((m_[2], doc))
out = []
for p in P:
    out.append(f"### {p['id']} {p['title']}")
    if p['na']:
        out.append(f"Not applicable: {p['na']}\n")
        continue
    out.append((p['note'] or '') + ('\n' if p['note'] else ''))
    out.append('Why tests do not settle it: ' + p['why'] + '\n')
    for n, d in ents.get(p['id'], []):
        out.append(f"* `{n}`{' (thorough only)' if n.endswith('_t') else ''}: {d}")
    out.append('')
sd = ['| planted bug | property | needs | result |', '|---|---|---|---|']
res = json.load(open(V + '/bin/seed_results.json')) if os.path.exists(V + '/bin/seed_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; j = json.load(open(d))
    sd.append(f"| {i} | {j['property']} | {j['needs']} | {res.get(i, '')} |")
kf = json.load(open(V + '/known_findings.json'))
fd = [f"* {k['property']} (`{k['entry']}`): {k['what']}" for k in kf['known']] + [f'* {f}' for f in kf['fixed']]
t = open(V + '/DESIGN.md').read()
for k, v in (('findings', fd), ('props', out), ('seeds', sd)):
    a, b = f'<!-- gen:{k} -->', f'<!-- end:{k} -->'
    t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(v) + '\n' + t[t.index(b):]
open(V + '/DESIGN.md', 'w').write(t)
