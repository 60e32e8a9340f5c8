"""The symbolic executor is validated against the compiled code: the same harness on the same concrete input has to
record the same values when interpreted and when run natively."""
import concurrent.futures as cf, hashlib, os, random, subprocess
from . import core, plan

LIB = {'md5': 'md5', 'sha1': 'sha1', 'sha2_224': 'sha224', 'sha2_256': 'sha256', 'sha2_384': 'sha384', 'sha2_512': 'sha512', 'sha3_224': 'sha3_224', 'sha3_256': 'sha3_256', 'sha3_384': 'sha3_384', 'sha3_512': 'sha3_512', 'blake2': 'blake2b', 'blake2s': 'blake2s'}

def cli(R, rnd):
	"""the modelled program prints what the real one prints"""
	import re
	names = re.findall(r'\{"(-[a-z0-9_-]+)", (\w+)\}', open(os.path.join(core.VERIF, 'harness', 'cli.cpp')).read())
	exe = os.path.join(R.dir, 'hash')
	r = subprocess.run([core.CLANG, '-std=c++14', '-O1', '-w', os.path.join(core.REPO, 'src', 'program', 'main.cpp'), '-o', exe], capture_output=True, text=True)
	if r.returncode: R.toolErrors.append('trace validation: the program does not build: ' + r.stderr[:300]); return
	cases = [(o, 37) for o in range(len(names))] + [(14, (1 << 20) + 5), (20, 1 << 20), (40, (1 << 20) + 1)]
	if len(names) != len(plan.CLI): R.toolErrors.append('trace validation: option tables differ')
	def one(w):
		o, L = w
		data = bytes(rnd.randrange(256) for _ in range(20))
		data = (bytes((i * 7 + (i >> 8) + (i >> 16) * 5 + (i >> 24) * 3 + 1) & 255 for i in range(L - 20)) + data)
		d = os.path.join(R.dir, 'cli-%d-%d' % (o, L)); os.makedirs(d)
		open(os.path.join(d, 'in.bin'), 'wb').write(data)
		mid = {'PLAIN': [], 'LENGTH': ['24'], 'CUSTOM': ['24', 'xyz']}[names[o][1]]
		real = subprocess.run([exe, names[o][0]] + mid + ['in.bin'], cwd=d, capture_output=True, timeout=60).stdout
		std = subprocess.run([exe, names[o][0]] + mid + ['-'], cwd=d, input=data, capture_output=True, timeout=60).stdout
		os.unlink(os.path.join(d, 'in.bin'))
		j = core.Job(('file', 'cli'), 'e_clirec', [o, L, 0, 0, 0, 0, 0, 0, 0, 20], opts='instrs=4000000000', timeout=120, conc={'file': data[-20:].hex()})
		wk = core.Worker(R.engine, R.ll(j.unit, j.variant)); x = wk.ask(j.line(), 120); wk.kill()
		if x.get('status') != 'ok' or not x.get('records'): return '%s: %s %s' % (names[o][0], x.get('status'), x.get('msg'))
		want = x['records'][0].split('=', 1)[1]
		if real.hex() != want: return '%s: the program prints %r, the model %r' % (names[o][0], real[:100], bytes.fromhex(want)[:100])
		if std != real.replace(b'  in.bin', b'  -'): return '%s: standard input gives %r' % (names[o][0], std[:100])
	with cf.ThreadPoolExecutor(core.NPROC) as ex:
		for r in ex.map(one, cases):
			if r: R.toolErrors.append('trace validation: ' + r)
			else: R.traces += 1

def validate(R, prop, tier):
	if prop == 'C20': return cli(R, random.Random(core.SEED))
	if prop not in plan.ALGS: return
	algs = list(plan.ALGS[prop])
	rnd = random.Random(core.SEED * 7919 + int(prop[1:]))
	if tier == 'quick' and len(algs) > 8: algs = rnd.sample(algs, 8)
	work = []
	for a in algs:
		B = plan.BL[a]
		for L in (3, B + 9, 2 * max(B, 16) + rnd.randrange(B + 1)): work.append((a, L, bytes(rnd.randrange(256) for _ in range(L)).hex()))
	def one(w):
		a, L, msg = w
		j = plan.J(a, 'e_rec', L, conc={'msg': msg})
		cfgin = {k: bytes(random.Random(a + k).randrange(256) for _ in range(64)).hex() for k in ('key', 'name', 'cust')}
		j.conc.update(cfgin)
		wk = core.Worker(R.engine, R.ll(j.unit, j.variant)); d = wk.ask(j.line(), 60); wk.kill()
		path = os.path.join(R.dir, 'tr-%s-%d.txt' % (a, L))
		open(path, 'w').write('entry e_rec\nparams %s\n' % ','.join(map(str, j.params)) + ''.join('input %s %s\n' % kv for kv in j.conc.items()))
		p = subprocess.run([R.native(j.unit, 'plain'), path], capture_output=True, text=True, timeout=60)
		nat = [l[7:] for l in p.stdout.splitlines() if l.startswith('RECORD ')]
		eng = d.get('records', [])
		if d.get('status') != 'ok' or p.returncode != 0: return '%s length %d: engine %s, native exit %d' % (a, L, d.get('status'), p.returncode)
		if nat != eng or not nat: return '%s length %d: native %s engine %s' % (a, L, nat, eng)
		if a in LIB:
			want = hashlib.new(LIB[a], bytes.fromhex(msg)).hexdigest()
			if 'ref=' + want not in nat: return '%s length %d: reference differs from the Python library' % (a, L)
		return None
	with cf.ThreadPoolExecutor(core.NPROC) as ex:
		for w, r in zip(work, ex.map(one, work)):
			if r: R.toolErrors.append('trace validation: ' + r)
			else: R.traces += 1
