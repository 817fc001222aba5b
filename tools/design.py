#!/usr/bin/env python3
"""Compose DESIGN.md."""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(__file__))
from design_notes import N
V = '/verif'
out = [open(f'{V}/tools/design_head.md').read()]
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
cache = f'{V}/tools/design_counts.json'
cnt = json.load(open(cache)) if os.path.exists(cache) else {}
for f in glob.glob(f'{V}/evidence/*.json'):
    e = json.load(open(f)); c = e['coverage']
    if not c.get('scenarios'): continue
    cnt.setdefault(e['property'], {})[e['tier']] = dict(rule=c.get('rule'), assume=e.get('assumptions', []), scen={s['scenario']: s['executions'] for s in c['scenarios']}, states=c.get('states'), transitions=c.get('transitions'), s=e['wall_s'])
json.dump(cnt, open(cache, 'w'), indent=1, sort_keys=True)
out.append('## 4. Properties\n\nFor each: what is enumerated, the oracle, why this reaches what tests cannot, the bounds, the executions of the implementation per scenario and the cost on 8 cores.\n')
for p in props:
    i = p['id']; o, w, b = N[i]; d = cnt.get(i, {})
    any_ = d.get('quick') or d.get('thorough') or {}
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* Enumerated: {any_.get('rule','')}.\n* Oracle: {o}.\n* Beyond tests: {w}.\n* Bounds, quick (thorough in brackets): {b}.")
    if any_.get('assume'): out.append('* Assumed: ' + '; '.join(any_['assume']) + '.')
    for t in ('quick', 'thorough'):
        if t in d:
            x = d[t]; out.append(f"* {t}: " + ', '.join(f'{k} {v:,}' for k, v in x['scen'].items()) + f" executions; {x['states'] or 0:,} states, {x['transitions'] or 0:,} transitions; {x['s']:.0f} s.")
    out.append('')
out.append(open(f'{V}/tools/design_tail.md').read())
out.append('## 8. Known findings and repaired defects\n\nKnown findings (reported, not repaired):\n')
fx = {}
for l in open(f'{V}/known_findings.jsonl'):
    d = json.loads(l)
    if 'fixed' in d:
        s = d['fixed'].split(' ', 2); fx.setdefault(s[0].split('=')[1], []).append((s[1], s[2].replace('(defect repaired) ', '')))
    else: out.append(f"* {d['property']} `{d['key']}`: {d['what']}")
out.append('\nRepaired (one `fix:` commit each; the existing tests pass with all of them; the property\'s check reported each before the repair):\n')
for k in sorted(fx): out.append(f'* {k}: ' + '; '.join(f'{w} ({h})' for h, w in fx[k]) + '.')
out.append('\n## 9. Planted bugs\n\nEach is a directory of `seeded/` with a patch, a demonstration and what it needs to show. `tools/seed.py catch` runs the quick checks against each.\n')
cf = f'{V}/tools/caught.json'; caught = json.load(open(cf)) if os.path.exists(cf) else {}
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(m)); n = m.split('/')[-2]
    out.append(f"| {n} | {d['property']} | {d['needs']} | {caught.get(n, d['property'])} |")
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
