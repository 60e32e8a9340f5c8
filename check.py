#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decide one property on /repo's current tree."""
import json, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import core, plan, trace
from driver.core import log

def main():
	prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
	limit = float(os.environ.get('VP_LIMIT', 600 if tier == 'quick' else 3 * 3600))
	R = core.Run(prop, tier)
	try: code = run(R, prop, tier, limit)
	finally: R.close()
	sys.exit(code)

def known(prop):
	p = os.path.join(core.VERIF, 'KNOWN_FINDINGS.jsonl')
	out = []
	if os.path.exists(p):
		for l in open(p):
			l = l.strip()
			if l.startswith('{'):
				d = json.loads(l)
				if d.get('property') == prop and d.get('status') == 'known': out.append(d)
	return out

def run(R, prop, tier, limit):
	t0 = time.time()
	jobs = plan.jobs(prop, tier)
	log('%s %s: %d jobs' % (prop, tier, len(jobs)))
	deadline = core.START + limit
	kf = known(prop); kfseen = set()
	lock = threading.Lock()
	retry = []
	state = {'done': 0, 'last': time.time()}
	def violation(j, d):
		for k in kf:
			if k['label'] == j.label and k['msg'] == d.get('msg'):
				with lock:
					if k['label'] not in kfseen: kfseen.add(k['label']); print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
				return
		with lock:
			if len(R.violations) >= 3: R.violations.append((j, d, 'not replayed (enough violations reported)', None)); return
		ok, how, path = core.confirm(R, j, d)
		with lock:
			if ok:
				R.violations.append((j, d, how, path))
				print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
				log('  %s: %s: %s [%s]; %s' % (j.label, d.get('kind'), d.get('msg'), d.get('where', '')[:200], how))
				if len(R.violations) >= 3: R.stop = True
			else:
				R.unreplayed.append((j, d, how)); log('  not reproduced: %s: %s %s; %s' % (j.label, d.get('kind'), d.get('msg'), how))
	def handler(j, d):
		st = d.get('status')
		if st == 'ok' and (not d.get('ended') or 'compared' not in d.get('covers', [])): st = 'vacuous'; d['msg'] = 'end of the harness not reached'
		with lock:
			R.results.append((j, d, st)); state['done'] += 1
			if time.time() - state['last'] > 30: state['last'] = time.time(); log('%d/%d jobs, %d undecided' % (state['done'], len(jobs), len(R.undecided)))
		if st == 'violation': violation(j, d)
		elif st != 'ok':
			with lock: R.undecided.append((j, st, d.get('msg', '')))
			if st in ('timeout', 'inconclusive', 'error', 'unsupported', 'vacuous') and not R.stop: retry.append(j)
	core.run_jobs(R, jobs, deadline, handler)
	# undecided jobs: once more with fewer symbolic message bytes
	if retry and not R.violations:
		again = []
		for j in retry[:30]:
			if len(j.params) < 10: continue
			for cap in (6, 1):
				p = list(j.params)
				if p[9] and p[9] <= cap: continue
				p[9] = cap
				again.append(core.Job(j.unit, j.entry, p, j.variant, j.opts, 10, j.extra))
		base = {(j.unit, j.entry, tuple(j.params[:9]), tuple(j.params[10:])): j for j in retry}
		def h2(j, d):
			if d.get('status') == 'violation': violation(j, d)
			elif d.get('status') == 'ok':
				with lock: R.reduced.append(j.label)
			with lock: R.results.append((j, d, d.get('status')))
		core.run_jobs(R, again, min(deadline + 60, time.time() + 60), h2)
	# engine and compiled code agree on concrete runs
	if not R.violations:
		try: trace.validate(R, prop, tier)
		except Exception as e: R.toolErrors.append('trace validation: ' + str(e)[:300])
	return finish(R, prop, tier, t0)

def finish(R, prop, tier, t0):
	ok = [(j, d) for j, d, st in R.results if st == 'ok']
	tot = lambda k: sum(int(d.get(k, 0) or 0) for _, d in ok)
	skipped = sum(1 for j, st, m in R.undecided if st == 'skipped')
	cov = {
		'states': tot('terms'), 'transitions': tot('instrs'), 'traces_validated_against_impl': R.traces,
		'samples': [{'job': j.label, 'terms': d.get('terms'), 'instructions': d.get('instrs'), 'queries': d.get('queries'), 'verdict': 'holds'} for j, d in ok[:: max(1, len(ok) // 8)][:8]],
		'states_meaning': 'distinct symbolic terms built', 'transitions_meaning': 'LLVM instructions executed symbolically',
		'jobs': len(R.results), 'jobs_decided_hold': len(ok), 'jobs_undecided': [{'job': j.label, 'status': st, 'why': m[:200]} for j, st, m in R.undecided if st != 'skipped'][:60],
		'jobs_skipped_out_of_time': skipped, 'jobs_decided_with_fewer_symbolic_bytes': R.reduced[:60],
		'assertions': tot('asserts'), 'memory_and_ub_obligations': tot('obligations'), 'forks': tot('forks'), 'state_merges': tot('merges'),
		'solver_queries': tot('queries'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'), 'equivalence_merges': tot('merged'),
		'equal_after_simplification': tot('identical'), 'equal_by_normal_form': tot('affine'), 'lemmas_discharged': tot('lemmas'), 'lemma_hits': tot('lemmaHits'),
		'solver_s': round(sum(float(d.get('solverSecs', 0) or 0) for _, d in ok), 2), 'engine_cpu_s': round(sum(float(d.get('secs', 0) or 0) for _, d in ok), 1),
		'functions_encoded': sorted(f for f in R.funcs if 'Chocobo1' in f or 'Hash' in f)[:400], 'functions_encoded_total': len(R.funcs),
		'units': sorted({'%s/%s' % (j.unit[1], j.variant) for j, _ in ok}),
		'bounds': bounds(ok), 'build_errors': R.build_errors[:10], 'tool_errors': R.toolErrors[:10],
		'violations': [{'job': j.label, 'kind': d.get('kind'), 'msg': d.get('msg'), 'replay': how} for j, d, how, p in R.violations],
		'counterexamples_not_reproduced': [{'job': j.label, 'msg': d.get('msg'), 'replay': how} for j, d, how in R.unreplayed][:20],
	}
	ev = {'property': prop, 'tier': tier, 'seed': core.SEED, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
	os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
	json.dump(ev, open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
	log('%s: %d jobs hold, %d violations, %d undecided (%d skipped), %d traces; %d queries, %.1f s solver' % (prop, len(ok), len(R.violations), len(R.undecided), skipped, R.traces, cov['solver_queries'], cov['solver_s']))
	for j, st, m in R.undecided[:12]:
		if st != 'skipped': log('  undecided: %s: %s %s' % (j.label, st, m[:160]))
	for e in R.build_errors[:3] + R.toolErrors[:3]: log('  ' + e[:400])
	if R.violations: return 1
	if R.toolErrors or R.build_errors or not ok: return 2
	return 0

def bounds(ok):
	b = {}
	for j, _ in ok:
		e = b.setdefault(j.unit[1] + ' ' + j.entry, [0, 0, 0]); e[0] += 1
		if j.params: e[1] = max(e[1], j.params[0]); e[2] = max(e[2], j.params[1] if len(j.params) > 1 else 0)
	return {k: 'jobs %d, largest first/second size %d/%d' % tuple(v) for k, v in sorted(b.items())}

main()
