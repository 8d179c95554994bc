#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='bounded symbolic execution of the compiled code with unwinding (rustc LLVM IR, translated to C, CBMC, SAT)' if p['crate'] == 'unwind'
        else 'bounded symbolic execution of the compiled code (Kani/CBMC, SAT)', level='other',
        level_note='Decided for all values within the bounds, nothing beyond them: ' + p['bounds'] + ('. Trusts rustc, lib/l2c.py, CBMC and the oracle in harness/unwind.' if p['crate'] == 'unwind' else '. Trusts Kani, CBMC and the oracle in harness/src.') + ''.join(' ' + x for x in p.get('assume', []))))
na = [dict(property=i, reason=props.NA.get(i, 'not built yet')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
    notes='No hooks: the harnesses use the public API only. Known findings and repairs: known_findings.txt.'),
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
