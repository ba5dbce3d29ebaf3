#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md = tools/design_head.md + bounds table (checks_def) + table of planted bugs (seeded/*/meta.json)."""
import json, glob, os
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
out = [open(f'{V}/tools/design_head.md').read().rstrip()]
props = {}
for l in open(f'{V}/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d['title']
out.append('\n## Harnesses and bounds (generated from checks.json)\n')
for c in json.load(open(f'{V}/checks.json')):
    out.append(f"**{c['property']}** {props[c['property']]}\n")
    for h in c['harnesses']:
        def par(d): return ', '.join(f'{k}={v}' for k, v in (d or {}).items())
        q, t = par(h.get('quick')), par(h.get('thorough'))
        b = f" [quick {q}{'; thorough ' + t if t else ''}]" if q else (f' [thorough {t}]' if t else '')
        if h.get('tiers'): b += f" ({h['tiers']} only)"
        out.append(f"- `{h['pkg']}.{h['name']}`: {h.get('bounds','')}{b}")
    out.append('')
out.append('\n## Planted bugs and the checks that catch them\n')
out.append('Every one is caught by the quick check of its own property (last run of `tools/seed.py --check`); the property is therefore also the check.\n')
out.append('| planted bug | property = check that catches it | what it breaks |\n|---|---|---|')
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(f)); out.append(f"| {f.split('/')[-2]} | {d['property']} | {d['what_it_breaks']} |")
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
