#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.py."""
import json, os, sys, importlib.util, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
ch = []; na = []
for p in props:
    f = V + '/checks/%s.py' % p
    if not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet'))); continue
    spec = importlib.util.spec_from_file_location(p, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); P = m.P
    e = sorted(set(j['engine'] for j in P['jobs']))
    eng = ' and '.join({'dv': 'dv (deductive VC generator over the LLVM IR of the real code, z3)', 'cbmc': 'CBMC code contracts (goto-cc on the real code, complete unwinding)'}[x] for x in e)
    ch.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 tools/run_check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 tools/run_check.py %s' % p,
                   level=P['level'], technique='contract-based deductive verification of the real functions: ' + (eng or 'contracts executed on the real code'),
                   level_note=P.get('note', 'pre/postconditions in harness/%s discharged function by function on every run from /repo\'s sources; failed obligations are replayed on the real code' % ', '.join(P['harness']))))
json.dump(dict(version=1, setup_cmd='true', checks=ch, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(ch), 'checks', len(na), 'not applicable')
