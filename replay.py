#!/usr/bin/env python3
"""replay.py FILE: run a counterexample written by a check against /repo's current code."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import core

def main():
	path = os.path.abspath(sys.argv[1])
	f = {'extra': '', 'variant': '14'}; inp = {}
	for l in open(path):
		w = l.split()
		if not w or w[0].startswith('#'): continue
		if w[0] == 'unit': f['unit'] = (w[1], w[2])
		elif w[0] == 'input': inp[w[1]] = w[2] if len(w) > 2 else ''
		else: f[w[0]] = l.split(None, 1)[1].strip() if len(w) > 1 else ''
	R = core.Run('replay', 'quick')
	try:
		j = core.Job(f['unit'][1], f['entry'], [int(x) for x in f['params'].split(',') if x], f['variant'], '', 120, f['extra'].split())
		j.unit = f['unit']
		ok, how, _ = core.confirm(R, j, {'kind': 'uninit', 'inputs': inp})
	finally: R.close()
	print(('REPRODUCED: ' if ok else 'not reproduced: ') + how)
	return 1 if ok else 0

sys.exit(main())
