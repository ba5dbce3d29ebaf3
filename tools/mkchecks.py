#!/usr/bin/env python3
"""Writes checks.json (what the engine runs per property) and MANIFEST.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
TECH = ("bounded symbolic execution of the real Go code (go/ssa regenerated from /repo on every run) with every branch, "
        "assertion and trap decided by z3 over all inputs within the bounds; counterexamples replayed on the compiled code")
BASE = ["go/ssa represents the compiled program; the engine's instruction semantics are validated by running sampled paths natively",
        "map iteration order as stated per harness; no allocation failure; single-process memory model"]
C = []
def check(prop, hs, note, budget=400, tbudget=6000, assume=()):
    C.append(dict(property=prop, harnesses=hs, budget_quick_s=budget, budget_thorough_s=tbudget, assumptions=BASE + list(assume), note=note))
def h(pkg, name, bounds, quick=None, thorough=None, **kw):
    d = dict(pkg=pkg, name=name, quick=quick or {}, thorough=thorough or {}, bounds=bounds)
    d.update(kw)
    return d

exec(open('tools/checks_def.py').read())

NA = {}
exec(open('tools/na_def.py').read())
checks = []
for c in C:
    n = c.pop('note')
    p = c['property']
    checks.append(dict(property=p, quick_cmd=f'bash check.sh {p} quick', thorough_cmd=f'bash check.sh {p} thorough',
                       technique=TECH, level='model_checking', level_note=n))
C.sort(key=lambda c: c['property']); checks.sort(key=lambda c: c['property'])
json.dump(C, open('checks.json', 'w'), indent=1); open('checks.json', 'a').write('\n')
claimed = {c['property'] for c in checks}
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in claimed]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
