#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from contracts import registry
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in registry.PROPS:
        P = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check.py %s' % i, thorough_cmd='./check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=P.get('technique', 'contract-based deductive verification of the real code (verification conditions from its LLVM IR, discharged by z3/cvc5), with a bounded sanitized search that replays failures'),
                           level=P.get('level', 'proof'), level_note=P['note']))
na = [dict(property=i, reason=registry.NA.get(i, 'no contract for it in the framework yet')) for i in ids if i not in registry.PROPS]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: contracts are attached to the IR clang makes from the unmodified sources on every run. Fixes of genuine defects are listed in known_findings.txt.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
