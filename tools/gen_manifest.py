#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks/registry.py."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT)
import run
sys.modules['vrun'] = run
checks = run.load_checks()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
           notes='No hooks in /repo are needed: the library is header-only and every property is observed through '
                 'its public interface. See DESIGN.md; known-findings.txt lists repaired defects.')
for p in props:
    c = checks.get(p['id'])
    if c is None:
        man['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
        continue
    man['checks'].append(dict(property=p['id'],
        quick_cmd='python3 run.py %s --tier quick' % p['id'],
        thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=getattr(c, 'technique', 'property-based testing'), level='exploration',
        level_note=getattr(c, 'level_note', 'Held on every generated case of the run; absence of violations is not '
            'proved. Trusts the compilers, sanitizers and the oracle in checks/.')))
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'checks,', len(man['not_applicable']), 'not claimed')
