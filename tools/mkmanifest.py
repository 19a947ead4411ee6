#!/usr/bin/env python3
import json, os
import props as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, c in sorted(P.PROPS.items()):
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
        technique=c.get('technique', 'contract-based deductive verification: Verus contracts woven into the source extracted from /repo on every run'),
        level=c.get('level', 'proof'),
        level_note=c.get('note', 'Every function reached from the public operations of this property carries a contract; Verus/z3 discharges all obligations for all inputs, any length. Trusted: extraction desugaring, standard library contracts (spec/01_shim.rs), 64-bit usize. A bounded concrete cross-check on the real code runs beside it and is not counted as proof.' + (' Functions deep in the call cone that another listed check verifies keep their contract here without being proved again; the evidence names them.' if c.get('elsewhere') else ''))))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(P.NOT_YET.items())],
    notes='No hooks in /repo. Contracts: /verif/spec; extractor: /verif/extract; concrete replay harness: /verif/harness; driver: /verif/check.py. Genuine defects found were repaired (known-findings.txt).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
