#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = sys.argv[1:]
NOTE = {
	'spec': 'symbolic execution of the real headers against an independent reference for all message bytes at each listed length; lengths beyond the bounds only with the last bytes symbolic',
	'eq': 'symbolic execution of the real headers, all message bytes and object states symbolic at each listed size',
	'C17': 'every load, store, shift, signed operation and branch of the executed call sequences is an obligation; sizes bounded',
	'C18': 'block count N symbolic, total length up to 2^61 bytes (2^60 for BLAKE-384/512); single calls of up to 2^61 bytes are followed until they have read 2-3 blocks; message blocks before the last ones are summarised by the state after one block',
	'C19': 'the IR for each target and language mode is executed symbolically and compared with the reference; targets other than x86-64 are not run natively',
	'C20': 'the real main.cpp runs symbolically against models of the file, stream and print calls; sizes bounded',
}
def note(p):
	if p in NOTE: return NOTE[p]
	return NOTE['spec'] if p <= 'C10' else NOTE['eq']
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -c "from driver import core; core.build_engine()"', 'checks': [], 'not_applicable': []}
for p in props:
	if p in CLAIMED:
		m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
			'technique': 'symbolic execution of the LLVM IR of the real code; equivalence and safety decided by term normal forms and z3', 'level': 'model_checking', 'level_note': note(p)})
	else: m['not_applicable'].append({'property': p, 'reason': 'no check yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
