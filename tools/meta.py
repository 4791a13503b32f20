#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (development tool; no check runs it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props
root = os.path.dirname(here)
with open(root + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in props.P:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"bash /verif/run.sh {p['id']} quick", 'thorough_cmd': f"bash /verif/run.sh {p['id']} thorough",
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na, 'notes': props.NOTES}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
# DESIGN.md
def read(n):
    p = f'{here}/design/{n}.md'
    return open(p).read() if os.path.exists(p) else ''
out = read('head')
for p in props.P:
    if p.get('na'): continue
    out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Method:* {p['technique']}. *Limits:* {p['note']}.\n" + ('\n' + read(p['id']) if read(p['id']) else '')
nas = [p for p in props.P if p.get('na')]
if nas:
    out += '\n## Not applicable\n\n' + ''.join(f"- **{p['id']} {p['title']}** – {p['na']}\n" for p in nas)
out += read('tail')
sd = os.path.join(root, 'seeded')
out += '\n| change | property | what it breaks |\n|---|---|---|\n'
for d in sorted(os.listdir(sd)):
    m = json.load(open(f'{sd}/{d}/meta.json'))
    out += f"| {d} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) |\n"
out += '\n## Defects repaired and known\n\n'
for l in open(root + '/known_findings.txt'):
    if l.startswith(('fixed:', 'known:')): out += '- ' + l.strip() + '\n'
open(root + '/DESIGN.md', 'w').write(out)
