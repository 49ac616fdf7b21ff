#!/usr/bin/env python3
# Regenerates MANIFEST.json from sim/checks.json and properties.jsonl.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
meta = json.load(open(os.path.join(here, 'sim', 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
NA = {
    'P30': 'A pure function of its operands: no scheduling, time, I/O, crash or fault takes part, so a simulator has nothing to control; it belongs to property-based testing or proof.',
    'P32': 'A pure function of an expression compared with itself evaluated later: no nondeterminism or fault takes part.',
}
checks = []
for p in props:
    m = meta.get(p['id'])
    if not m:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py ' + p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'deterministic simulation with fault injection: ' + m['technique'],
        'level': m['level'],
        'level_note': m['note'],
    })
na = []
for p in props:
    if p['id'] in meta:
        continue
    na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check registered yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the public API already has seams for the allocator, the snapshot stream, host functions, external types and time slicing; file access is intercepted at link time with --wrap.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
