#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run by hand when a check changes."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import REG  # noqa: E402
props = [json.loads(x) for x in open(os.path.join(HERE, '..', 'properties.jsonl'))]
NA = {
    'C20': 'register preservation is decided by hand-written assembly in the installed Boost.Context binary, which is not source in /repo and cannot be encoded from it (symbolic reasoning over the compiler IR has no registers)',
    'C21': 'segmented stacks need -fsplit-stack and a Boost.Context built with BOOST_USE_SEGMENTED_STACKS; the installed library has no such symbols, and stack growth happens in libgcc assembly, so there is no code of /repo to encode and no way to replay',
}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    r = REG[i]
    checks.append({
        'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'bounded symbolic execution of the LLVM IR compiled from /repo (own engine, contexts and C++ exceptions modelled), assertions decided by z3 (QF_BV), counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Holds for every value and every choice within the bounds, nothing outside. Bounds: %s.%s Trusted: engine, clang front end, z3, the contracts assumed for Boost.Context switching, the C++ runtime and the allocator; g++ -O3 builds of sampled paths are compared with the symbolic ones.'
                      % (r['bounds']['quick'], (' Outside: %s.' % r['outside']) if r.get('outside') else ''),
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo. C18 has a known finding (KNOWN_FINDINGS.json).'}
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
