"""Engine build, harness builds, worker pool, counterexample replay, evidence."""
import concurrent.futures as cf, fcntl, hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = max(2, os.cpu_count() or 8)
START = time.time()

CLANG = 'clang++-18'
BASE = ['-O1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gline-tables-only', '-S', '-emit-llvm', '-w']
CROSSINC = ['-I' + os.path.join(VERIF, 'harness', 'stubs'), '-I/usr/include/c++/13', '-I/usr/include/x86_64-linux-gnu/c++/13', '-I/usr/include/x86_64-linux-gnu']
# build variants: language mode, target, sanitizer traps
class Variants(dict):
	def __missing__(self, k):           # after_H: header H is included first
		if not k.startswith('after_'): raise KeyError(k)
		return ['-std=c++14', '-include', '@SRC/' + k[6:] + '.h']

VARIANTS = Variants({
	'14': ['-std=c++14'],
	'17': ['-std=c++17'],
	'20': ['-std=c++20'],
	'14n': ['-std=c++14', '-DNDEBUG'],
	'20n': ['-std=c++20', '-DNDEBUG'],
	'uchar': ['-std=c++14', '-funsigned-char'],
	'O0': ['-std=c++14', '-O0'],
	'O2': ['-std=c++17', '-O2', '-DNDEBUG'],
	# quick mixtures: several settings that must not matter at once
	'17nu': ['-std=c++17', '-DNDEBUG', '-funsigned-char'],
	'allf': ['-std=c++14', '-include', '@ALL/forward.h'],
	'allr': ['-std=c++20', '-DNDEBUG', '-include', '@ALL/reverse.h'],
	'be32_20': ['-std=c++20', '--target=powerpc-linux-gnu'] + CROSSINC,
	'ub': ['-std=c++14', '-fsanitize=undefined', '-fsanitize-trap=all', '-fno-sanitize=vptr,function,object-size', '-D_GLIBCXX_ASSERTIONS'],
	'ub20': ['-std=c++20', '-fsanitize=undefined', '-fsanitize-trap=all', '-fno-sanitize=vptr,function,object-size', '-D_GLIBCXX_ASSERTIONS'],
	'be64': ['-std=c++14', '--target=s390x-linux-gnu'] + CROSSINC,
	'be64_20': ['-std=c++20', '--target=s390x-linux-gnu'] + CROSSINC,
	'ppc64': ['-std=c++14', '--target=powerpc64-linux-gnu'] + CROSSINC,
	'be32': ['-std=c++14', '--target=powerpc-linux-gnu'] + CROSSINC,
	'le32': ['-std=c++14', '--target=i386-linux-gnu'] + CROSSINC,
	'le32_17': ['-std=c++17', '--target=i386-linux-gnu'] + CROSSINC,
})
CROSS = {k for k, v in VARIANTS.items() if any(x.startswith('--target') for x in v)}

def log(*a):
	print('[%6.1f]' % (time.time() - START), *a, flush=True)

def die(msg):
	print('ERROR: ' + msg, flush=True)
	sys.exit(2)

# ---- building ---------------------------------------------------------------------------------

def build_engine():
	os.makedirs(BUILD, exist_ok=True)
	src = os.path.join(VERIF, 'engine')
	files = sorted(f for f in os.listdir(src) if f.endswith(('.cpp', '.h')))
	h = hashlib.sha256()
	for f in files: h.update(open(os.path.join(src, f), 'rb').read())
	out = os.path.join(BUILD, 'vpx-' + h.hexdigest()[:16])
	with open(os.path.join(BUILD, 'lock'), 'w') as lk:
		fcntl.flock(lk, fcntl.LOCK_EX)
		if os.path.exists(out): return out
		tmp = tempfile.mkdtemp(dir=BUILD)
		llvm = subprocess.run(['llvm-config-18', '--cppflags'], capture_output=True, text=True).stdout.split()
		libs = subprocess.run(['llvm-config-18', '--ldflags', '--libs'], capture_output=True, text=True).stdout.split()
		ps = [subprocess.Popen(['g++', '-std=c++17', '-O2', '-c', os.path.join(src, f + '.cpp'), '-o', os.path.join(tmp, f + '.o')], stderr=subprocess.PIPE) for f in ('term', 'solver')]
		ps.append(subprocess.Popen([CLANG, '-std=c++17', '-O2', '-fno-rtti', '-fexceptions', *llvm, '-c', os.path.join(src, 'exec.cpp'), '-o', os.path.join(tmp, 'exec.o')], stderr=subprocess.PIPE))
		for p in ps:
			e = p.communicate()[1]
			if p.returncode: die('engine does not build: ' + e.decode()[:2000])
		r = subprocess.run([CLANG, *[os.path.join(tmp, f + '.o') for f in ('term', 'solver', 'exec')], *libs, '-lz3', '-o', os.path.join(tmp, 'vpx')], capture_output=True, text=True)
		if r.returncode: die('engine does not link: ' + r.stderr[:2000])
		os.rename(os.path.join(tmp, 'vpx'), out)
		shutil.rmtree(tmp)
	return out

class Run:
	"""One run of one check: a scratch directory, compiled harnesses, results."""
	def __init__(self, prop, tier):
		self.prop, self.tier = prop, tier
		self.engine = build_engine()
		self.dir = tempfile.mkdtemp(prefix='run-', dir=BUILD)
		self.replays = os.path.join(BUILD, 'replay'); os.makedirs(self.replays, exist_ok=True)
		self.lls, self.natives, self.lock = {}, {}, threading.Lock()
		self.results, self.violations, self.unreplayed, self.undecided, self.reduced = [], [], [], [], []
		self.funcs = set(); self.traces = 0; self.build_errors = []; self.toolErrors = []
		self.stop = False
	def flags(self, variant):
		"""flags of a variant; @ALL is a directory with files that include every header, in order and in reverse"""
		fl = [x.replace('@SRC', os.path.join(REPO, 'src')) for x in VARIANTS[variant]]
		if not any('@ALL' in x for x in fl): return fl
		def make():
			d = os.path.join(self.dir, 'all'); os.makedirs(d)
			hs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.h'))
			for n, l in (('forward', hs), ('reverse', hs[::-1])): open(os.path.join(d, n + '.h'), 'w').write(''.join('#include "%s"\n' % os.path.join(REPO, 'src', h) for h in l))
			return d
		d = self.once(self.lls, 'all', make)
		return [x.replace('@ALL', d) for x in fl]
	def close(self):
		shutil.rmtree(self.dir, ignore_errors=True)
	def once(self, table, key, fn):
		with self.lock:
			if key not in table: table[key] = cf.Future(); mine = True
			else: mine = False
			f = table[key]
		if mine:
			try: f.set_result(fn())
			except Exception as e: f.set_exception(e)
		return f.result()
	def src(self, unit):
		"""unit: ('alg', NAME) or ('file', NAME): source file and defines"""
		kind, name = unit
		if kind == 'alg': return os.path.join(VERIF, 'harness', 'harness.cpp'), ['-DALG_' + name]
		return os.path.join(VERIF, 'harness', name + '.cpp'), ['-DREPO_MAIN="%s/src/program/main.cpp"' % REPO]
	def ll(self, unit, variant, extra=()):
		def make():
			f, d = self.src(unit)
			out = os.path.join(self.dir, '%s-%s-%s.ll' % (unit[1], variant, hashlib.md5(' '.join(extra).encode()).hexdigest()[:6]))
			flags = self.flags(variant)
			base = [x for x in BASE if not (x == '-O1' and any(y.startswith('-O') for y in flags))]
			r = subprocess.run([CLANG, *base, *flags, *d, *extra, '-DREPO_SRC=' + REPO + '/src', f, '-o', out], capture_output=True, text=True)
			if r.returncode: raise RuntimeError('%s (%s) does not compile: %s' % (unit[1], variant, r.stderr[:600]))
			return out
		return self.once(self.lls, (unit, variant, tuple(extra)), make)
	def native(self, unit, mode, extra=(), std='-std=c++14'):
		"""mode: san (ASan+UBSan), plain"""
		def make():
			f, d = self.src(unit)
			out = os.path.join(self.dir, '%s-%s-%s' % (unit[1], mode, hashlib.md5((std + ' '.join(extra)).encode()).hexdigest()[:6]))
			san = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'] if mode == 'san' else [{'O0': '-O0', 'O2': '-O2'}.get(mode, '-O1')]
			r = subprocess.run([CLANG, std, '-g1', *san, '-DVP_NATIVE', '-w', '-rdynamic', *d, *extra, '-DREPO_SRC=' + REPO + '/src', f, os.path.join(VERIF, 'harness', 'rt.cpp'), '-o', out, '-ldl'], capture_output=True, text=True)
			if r.returncode: raise RuntimeError('%s: native build fails: %s' % (unit[1], r.stderr[:600]))
			return out
		return self.once(self.natives, (unit, mode, std, tuple(extra)), make)

# ---- workers ----------------------------------------------------------------------------------

class Worker:
	def __init__(self, engine, ll):
		env = dict(os.environ, VERIF_SEED=str(SEED))
		self.p = subprocess.Popen(['prlimit', '--as=%d' % (int(os.environ.get('VP_MEM', '7')) << 30), engine, ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1, env=env)
		self.q = queue.Queue()
		threading.Thread(target=self.pump, daemon=True).start()
		self.alive = True
	def pump(self):
		for l in self.p.stdout: self.q.put(l)
		self.q.put(None)
	def ask(self, line, timeout):
		end = time.time() + timeout
		try:
			self.p.stdin.write(line + '\n'); self.p.stdin.flush()
			while True:
				l = self.q.get(timeout=max(0.1, end - time.time()))
				if l is None: self.kill(); return {'status': 'error', 'msg': 'engine process ended'}
				if l.startswith('{"status":"ready"'): continue
				return json.loads(l)
		except queue.Empty:
			self.kill(); return {'status': 'timeout', 'msg': 'no verdict within %d s' % timeout}
		except (BrokenPipeError, json.JSONDecodeError) as e:
			self.kill(); return {'status': 'error', 'msg': 'engine: ' + str(e)}
	def kill(self):
		self.alive = False
		try: self.p.kill(); self.p.wait()
		except Exception: pass

class Job:
	__slots__ = ('unit', 'variant', 'entry', 'params', 'opts', 'timeout', 'extra', 'label', 'conc')
	def __init__(self, unit, entry, params, variant='14', opts='', timeout=60, extra=(), conc=None, label=None):
		self.unit = ('alg', unit) if isinstance(unit, str) else unit
		self.entry, self.params, self.variant, self.opts, self.timeout, self.extra, self.conc = entry, list(params), variant, opts, timeout, tuple(extra), conc
		self.label = label or '%s/%s %s(%s)' % (self.unit[1], variant, entry, ','.join(map(str, trim(self.params))))
	def line(self):
		o = [x for x in self.opts.split(',') if x]
		o.append('budget=%d' % max(5, int(self.timeout * 0.9)))
		s = '%s|%s|%s' % (self.entry, ','.join(map(str, self.params)), ','.join(o))
		if self.conc is not None: s += '|' + ';'.join('%s=%s' % kv for kv in self.conc.items())
		return s

def trim(p):
	p = list(p)
	while p and p[-1] == 0: p.pop()
	return p

def run_jobs(R, jobs, deadline, handler):
	"""Run jobs on NPROC workers; jobs of one harness share a worker process when possible."""
	groups = {}
	order = []
	for j in jobs:
		k = (j.unit, j.variant, j.extra)
		if k not in groups: groups[k] = []; order.append(k)
		groups[k].append(j)
	lock = threading.Lock()
	active = {k: 0 for k in order}
	# compile everything first, largest first come first served
	with cf.ThreadPoolExecutor(NPROC) as ex:
		futs = {k: ex.submit(R.ll, k[0], k[1], k[2]) for k in order}
		bad = set()
		for k, f in futs.items():
			try: f.result()
			except Exception as e: bad.add(k); R.build_errors.append(str(e))
	for k in bad:
		for j in groups.pop(k): handler(j, {'status': 'unbuilt', 'msg': 'harness does not compile'})
		order.remove(k)
	def take(cur):
		with lock:
			if cur in groups and groups[cur]: return cur, groups[cur].pop(0)
			best = None
			for k in order:
				if groups.get(k) and (best is None or (active[k], -len(groups[k])) < (active[best], -len(groups[best]))): best = k
			if best is None: return None, None
			active[best] += 1
			if cur in active: active[cur] -= 1
			return best, groups[best].pop(0)
	def loop():
		w, cur = None, None
		while True:
			k, j = take(cur)
			if j is None: break
			if time.time() > deadline or R.stop:
				handler(j, {'status': 'skipped', 'msg': 'time budget of the run used up' if not R.stop else 'stopped after a violation'}); cur = k; continue
			if w is None or k != cur or not w.alive:
				if w: grab(w); w.kill()
				w = Worker(R.engine, R.ll(*k)); cur = k
			t = min(j.timeout, max(5, deadline + 20 - time.time()))
			d = w.ask(j.line(), t)
			if d.get('status') in ('timeout', 'error'): d['line'] = j.line()
			handler(j, d)
		if w: grab(w); w.kill()
	def grab(w):
		if not w.alive: return
		try:
			d = w.ask('funcs', 20)
			with lock: R.funcs.update(d)
		except Exception: pass
	ts = [threading.Thread(target=loop) for _ in range(NPROC)]
	for t in ts: t.start()
	for t in ts: t.join()

# ---- replay -----------------------------------------------------------------------------------

def replay_text(R, j, d):
	s = '# counterexample of property %s found by the check; run: %s FILE\n' % (R.prop, os.path.join(VERIF, 'replay.py'))
	s += '# %s: %s\n# at %s\n' % (d.get('kind', ''), d.get('msg', ''), d.get('where', ''))
	s += 'unit %s %s\nvariant %s\n' % (j.unit[0], j.unit[1], j.variant)
	if j.extra: s += 'extra %s\n' % ' '.join(j.extra)
	s += 'entry %s\nparams %s\n' % (j.entry, ','.join(map(str, j.params)))
	for k, v in (d.get('inputs') or {}).items(): s += 'input %s %s\n' % (k, v)
	return s

def try_native(R, j, path, modes=('san', 'plain'), timeout=120):
	"""Run the counterexample natively; returns (reproduced, text)."""
	std = next((x for x in VARIANTS[j.variant] if x.startswith('-std')), '-std=c++14')
	extra = list(j.extra) + [x for x in VARIANTS[j.variant] if x in ('-DNDEBUG', '-funsigned-char')]
	fl = R.flags(j.variant)
	if '-include' in fl: extra += fl[fl.index('-include'):][:2]
	out = ''
	for m in modes:
		if m == 'valgrind': cmd = ['valgrind', '-q', '--error-exitcode=1', '--exit-on-first-error=yes', R.native(j.unit, 'O0', extra, std), path]
		else: cmd = [R.native(j.unit, m, extra, std), path]
		try: r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=1:allocator_may_return_null=1', UBSAN_OPTIONS='exitcode=1:print_stacktrace=0'))
		except subprocess.TimeoutExpired: out += '%s: timeout; ' % m; continue
		first = next((l for l in (r.stderr + r.stdout).splitlines() if 'VP-' in l or 'ERROR' in l or 'runtime error' in l or '==' in l), '').strip()
		if r.returncode not in (0, 2, 3): return True, '%s: %s' % (m, first[:200] or 'exit %d' % r.returncode)
		out += '%s: exit %d %s; ' % (m, r.returncode, first[:100])
	return False, out

def confirm(R, j, d):
	"""Decide whether a reported counterexample is real: against the compiled code, or, for other targets, by
	re-executing the same IR on the concrete input values."""
	with R.lock:
		n = len(os.listdir(R.replays)); path = os.path.join(R.replays, '%s-%s-%d-%d.txt' % (R.prop, j.unit[1], os.getpid(), n))
		open(path, 'w').write(replay_text(R, j, d))
	try:
		ok, how = False, ''
		if j.variant not in CROSS:
			modes = ['san', 'plain']
			if d.get('kind') in ('uninit', 'memory'): modes.append('valgrind')
			if j.entry in ('e_long', 'e_huge'): ok, how = try_native(R, j, path, ['O2'], 400)      # hashes gigabytes
			else: ok, how = try_native(R, j, path, modes)
		if not ok and (j.variant in CROSS or d.get('kind') in ('uninit', 'ub', 'trap')):
			c = Job(j.unit, j.entry, j.params, j.variant, j.opts, 120, j.extra, conc=d.get('inputs') or {})
			w = Worker(R.engine, R.ll(j.unit, j.variant, j.extra)); r = w.ask(c.line(), 120); w.kill()
			ok = r.get('status') == 'violation'; how += 'concrete execution of the %s code: %s %s' % (j.variant, r.get('status'), r.get('msg', ''))
	except Exception as e:
		ok, how = False, str(e)[:300]
	return ok, how, path
