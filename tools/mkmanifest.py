#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the engine's spec table."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
spec = open(V + '/engine/specs.go').read()
claimed = set(re.findall(r'"(C\d\d)"', spec))
NA = {
 'C25': 'whether a generated file compiles is decided by the Go type checker over unbounded program text produced from unbounded schemas: there is no assertion over the generator that an SMT solver could settle short of encoding the compiler. What can be encoded of it (accessor names, types, numbers, table size) is C19, C20 and C22. Two shapes of schema for which it is known to fail are described in DESIGN.md.',
}
NOTE = {}
exec(open(V + '/tools/notes.py').read()) if os.path.exists(V + '/tools/notes.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the Go SSA of the real code, obligations decided by SMT (z3, cvc5), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': NOTE.get(i, 'every value within the bounds stated in the evidence; the shape of a message (number of records, tag, varint and prefix lengths) is split exhaustively up to the bound, everything else is symbolic'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
