"""What is checked: per property, the jobs of each tier.  Everything that is not a parameter here is symbolic in the
harness: message bytes, names, keys, second messages, object states."""
import os, random
from . import core
from .core import Job, SEED

BL = dict(blake1_224=64, blake1_256=64, blake1_384=128, blake1_512=128, blake2=128, blake2s=64, crc_32=1, fnv32_0=1, fnv32_1=1, fnv32_1a=1, fnv64_0=1,
	fnv64_1=1, fnv64_1a=1, has_160=64, md2=16, md4=64, md5=64, ripemd_128=64, ripemd_160=64, ripemd_256=64, ripemd_320=64, sha1=64, sha2_224=64,
	sha2_256=64, sha2_384=128, sha2_512=128, sha2_512_224=128, sha2_512_256=128, sha3_224=144, sha3_256=136, sha3_384=104, sha3_512=72, shake_128=168,
	shake_256=136, cshake_128=168, cshake_256=136, tuple_128=168, tuple_256=136, siphash=8, sm3=64, tiger1_128=64, tiger1_160=64, tiger1_192=64,
	tiger2_128=64, tiger2_160=64, tiger2_192=64, whirlpool=64)
# configuration (output length, name length, customization length) and a second, different one
CFG = {'shake_128': (32,), 'shake_256': (64,), 'cshake_128': (32, 0, 21), 'cshake_256': (64, 16, 0), 'tuple_128': (32, 0, 18), 'tuple_256': (64, 0, 0)}
CF2 = {'shake_128': (16,), 'shake_256': (64,), 'cshake_128': (32, 0, 0), 'cshake_256': (64, 0, 0), 'tuple_128': (32, 0, 0), 'tuple_256': (64, 0, 19)}
ALL = list(BL)
FAM = {
	'C01': ['md2', 'md4', 'md5'],
	'C02': ['sha1', 'has_160', 'sm3'],
	'C03': ['sha2_224', 'sha2_256', 'sha2_384', 'sha2_512', 'sha2_512_224', 'sha2_512_256'],
	'C04': ['ripemd_128', 'ripemd_160', 'ripemd_256', 'ripemd_320'],
	'C05': ['blake1_224', 'blake1_256', 'blake1_384', 'blake1_512'],
	'C06': ['blake2', 'blake2s'],
	'C07': ['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'shake_128', 'shake_256'],
	'C08': ['cshake_128', 'cshake_256', 'tuple_128', 'tuple_256'],
	'C09': ['tiger1_128', 'tiger1_160', 'tiger1_192', 'tiger2_128', 'tiger2_160', 'tiger2_192', 'whirlpool'],
	'C10': ['crc_32', 'fnv32_0', 'fnv32_1', 'fnv32_1a', 'fnv64_0', 'fnv64_1', 'fnv64_1a', 'siphash'],
}

def prm(alg, *p, cap=0, cfg=None, cf2=None):
	"""parameter vector: 0..8 entry, 9 cap, 10.. configuration, 20.. second configuration"""
	v = list(p) + [0] * (9 - len(p)) + [cap]
	c = tuple(cfg if cfg is not None else CFG.get(alg, (0,))); d = tuple(cf2 if cf2 is not None else CF2.get(alg, (0,)))
	return v + list(c) + [0] * (10 - len(c)) + list(d)

def J(alg, entry, *p, cap=0, cfg=None, cf2=None, **kw):
	return Job(alg, entry, prm(alg, *p, cap=cap, cfg=cfg, cf2=cf2), **kw)

def digest_lengths(alg, deep):
	B = BL[alg]
	if B <= 8: return list(range(0, (80 if alg == 'crc_32' else 130) * (2 if deep else 1)))
	ls = set(range(0, (3 * B + 3) if deep else (B + B // 2 if B > 64 else 2 * B + 2)))
	pad = [2 * B, 3 * B, 4 * B]
	if alg == 'sm3' and not deep: pad.pop()
	for e in pad: ls.update(range(e - B // 8 - 2, e + 3))
	if deep: ls.update(range(4 * B, 5 * B, 5))
	return sorted(ls)

def digest(tier, algs):
	deep = tier == 'thorough'
	out = []
	for a in algs:
		if a.startswith('tuple'): continue
		B = max(BL[a], 8)
		to = 240 if deep else 60
		for L in digest_lengths(a, deep):
			if (a, L) != ('sha1', 1): out.append(J(a, 'e_digest', L, timeout=to))   # a single symbolic byte in SHA-1 is not decided (DESIGN.md)
		# long messages: only the last bytes symbolic
		for k in ((5, 8, 17, 33, 130) if not deep else (5, 8, 17, 33, 64, 129, 257, 513, 1030)):
			for e in (0, B // 2 + 3, B - 1): out.append(J(a, 'e_digest', k * B + e, cap=40 if a == 'crc_32' else B + e, timeout=to))
		out += far(a, deep)
	return out

# lengths at which 16 bit counters of bytes, bits or blocks overflow and buffers end
def far(a, deep, cfg=None):
	B = max(BL[a], 8); slow = a.startswith(('sha3', 'shake', 'cshake', 'whirlpool', 'md2'))
	ls = [8191, 8192, 65535, 65536, 65536 + B // 2 + 3, 131072 + 1] + ([] if slow else [1 << 20, (1 << 20) + B + 5]) + ([(1 << 20) + 7, 65536 * B + 9] if deep else [])
	if deep and not slow: ls += [(1 << 24) + 3]
	return [J(a, 'e_digest', L, cap=3 if a == 'crc_32' else L % B if 2 < L % B < 40 else min(B - 1, 40), cfg=cfg, opts='instrs=8000000000', timeout=300 if deep else 100) for L in ls]

def c07(tier):
	deep = tier == 'thorough'
	out = digest(tier, FAM['C07'])
	for a in ('shake_128', 'shake_256'):
		B = BL[a]
		outs = list(range(0, 70)) + [B - 9, B - 8, B - 1, B, B + 1, B + 8, 2 * B - 1, 2 * B, 2 * B + 1, 2 * B + 9, 3 * B + 1, 500, 512, 600, 1000]
		if deep: outs = list(range(0, 4 * B + 2)) + [5 * B, 6 * B - 1, 1000, 1023, 1024]
		for n in outs: out.append(J(a, 'e_digest', 11, cfg=(n,), timeout=120 if deep else 60))
		for n in (1, 17, B + 5, 2 * B + 3): out.append(J(a, 'e_digest', B + 13, cfg=(n,), timeout=120))
	return out

def c08(tier):
	deep = tier == 'thorough'
	out = []
	for a in ('cshake_128', 'cshake_256'):
		B, D = BL[a], 32 if a.endswith('128') else 64
		to = 200 if deep else 60
		ls = sorted(set(list(range(0, B + 20, 1 if deep else 3)) + list(range(B - 10, B + 6)) + list(range(2 * B - 10, 2 * B + 4)) + [2 * B + 11, 3 * B]))
		for L in ls:
			out.append(J(a, 'e_digest', L, cfg=(D, 0, 0), timeout=to))
			out.append(J(a, 'e_digest', L, cfg=(D, 0, 21), timeout=to))
			out.append(J(a, 'e_digest', L, cfg=(D, 16, 0), timeout=to))
		# lengths of name and customization, across the prefix block boundaries and the encodings of the lengths
		for n, c in [(3, 3), (1, 5), (5, 1), (10, 7), (17, 0), (0, 17), (31, 4), (32, 4), (33, 1), (0, 31), (0, 32), (0, 33), (64, 64), (0, B - 9), (0, B - 8), (0, B - 7), (0, B - 6), (0, B - 5), (0, B - 4), (4, B - 13), (4, B - 12), (4, B - 11), (4, B - 10), (4, B - 9), (0, B), (0, 2 * B - 8), (0, 2 * B - 7), (0, 2 * B - 6), (0, 255), (0, 256), (3, 300), (0, 512)]:
			for L in (0, 1, 9, B - 1, B + 1) if deep else (0, 9): out.append(J(a, 'e_digest', L, cfg=(D, n, c), timeout=to))
		if deep:
			for n in range(0, 65, 3): out.append(J(a, 'e_digest', 7, cfg=(D, n, 5), timeout=to))
			for c in range(3, 2 * B + 10): out.append(J(a, 'e_digest', 7, cfg=(D, 0, c), timeout=to))
		for o in [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, B - 1, B, B + 1, 2 * B, 2 * B + 5, 500, 1000] if not deep else list(range(0, 70)) + [B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 5, 3 * B + 1, 500, 512, 1000, 1024]:
			out.append(J(a, 'e_digest', 9, cfg=(o, 0, 20), timeout=to)); out.append(J(a, 'e_digest', 19, cfg=(o, 0, 0), timeout=to))
		for k in (8, 33, 129): out.append(J(a, 'e_digest', k * B + 5, cap=40, cfg=(D, 0, 21), timeout=to))
		for n, c in [(0, 8191), (0, 8192), (8192, 0), (8191, 5), (700, 800), (0, 8193), (8200, 8192)]: out.append(J(a, 'e_digest', 9, cfg=(D, n, c), timeout=to))
		out += far(a, deep, (D, 0, 0))
	for a in ('tuple_128', 'tuple_256'):
		B, D = BL[a], 32 if a.endswith('128') else 64
		to = 200 if deep else 60
		sets = [(), (0,), (1,), (3,), (0, 0), (1, 1), (3, 6), (3, 6, 9), (0, 3), (3, 0), (0, 0, 0), (5, 0, 5), (30,), (31,), (32,), (33,), (31, 32), (32, 31), (255,), (256,), (B - 3,), (B - 2,), (B - 1,), (B,), (B + 1,), (B - 6, 2), (B - 7, 3), (2 * B - 5,), (2 * B,), (40, B, 3), (1, 2, 3, 4, 5, 6, 7, 8), (B + 3, 0, B - 1)]
		sets += [(x,) for x in range(2, B + 12, 1 if deep else 7)]
		if deep: sets += [(x, y) for x in range(0, 40, 3) for y in range(0, 40, 5)] + [(x, B - x) for x in range(0, B, 5)]
		for s in sets:
			out.append(J(a, 'e_tuple', len(s), *s, cfg=(D, 0, 0), timeout=to))
			if len(s) != 1 or deep or s[0] % 2 == 0: out.append(J(a, 'e_tuple', len(s), *s, cfg=(D, 0, 21), timeout=to))
		for c in (5, 31, 32, 33, B - 20, B - 17, B - 16, B - 15, B - 14, B - 13, B - 12, B, 256, 300): out.append(J(a, 'e_tuple', 2, 13, 16, cfg=(D, 0, c), timeout=to))
		for o in (0, 1, 2, 16, 31, 32, 33, 64, B - 1, B, B + 1, 2 * B + 3, 500, 1000): out.append(J(a, 'e_tuple', 2, 13, 16, cfg=(o, 0, 20), timeout=to)); out.append(J(a, 'e_tuple', 2, 13, 16, cfg=(o, 0, 0), timeout=to))
		for n in (1000, 8191, 8192, 8200, 65536, 70000) + ((1 << 20, (1 << 21) - 1, 1 << 21) if deep else ()): out.append(J(a, 'e_tuple', 2, n, 5, cap=30, cfg=(D, 0, 0), opts='instrs=8000000000', timeout=300 if deep else 120))
		for c in (8191, 8192): out.append(J(a, 'e_tuple', 2, 13, 16, cfg=(D, 0, c), timeout=to))
	return out

def c10(tier): return digest(tier, FAM['C10'])

def c11(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		if a.startswith('tuple'): continue
		B, b = BL[a], max(BL[a], 16)
		to = 300 if deep else 90
		L = 2 * b + 3
		step = 24 if a == 'whirlpool' else 80
		heavy = a in ('md2', 'whirlpool') or a.startswith(('sha2', 'sm3'))
		cap = 40 if a == 'crc_32' else 0
		for lo in range(0, L + 1, step): out.append(J(a, 'e_split', L, 0, lo, min(lo + step - 1, L), cap=cap, timeout=to))
		for c in sorted({1, 2, 3, 5, 7, 8, b // 2, b - 1, b, b + 1, b + b // 2} if not deep else set(range(1, b + 9))): out.append(J(a, 'e_split', (3 if heavy else 4) * b + 5, 1, c, 2 if c > 1 else 0, cap=cap, timeout=to))
		out.append(J(a, 'e_split', 2 * b + 5, 1, 1, 2, cap=cap, timeout=to))
		for i in range(0, 9): out.append(J(a, 'e_split', 3 * b + 1, 2, i, i, cap=cap, timeout=to))
		n = 9 if deep else 7
		for lo in range(0, 1 << (n - 1), 64): out.append(J(a, 'e_split', n, 3, lo, min(lo + 63, (1 << (n - 1)) - 1), timeout=to))
		if deep:
			for s in range(0, b + 4, 1 if not heavy else 5): out.append(J(a, 'e_split', b + 5, 4, s, s, cap=cap, timeout=to))
		else:
			for s in (1, b // 2, b - 1): out.append(J(a, 'e_split', b + 3, 4, s, s, cap=b, timeout=to))
		# long pieces: many whole blocks in one call after a partial block
		for k in (9, 33): out.append(J(a, 'e_split', k * b + 7, 1, k * b - b // 2, 0, cap=min(b, 40), timeout=to))
		for n, c in ((70001, 65536 + 5), (131072 + 77, 65536), (66000, 3000)): out.append(J(a, 'e_split', n, 1, c, 1, cap=3 if a == 'crc_32' else min(B - 1, 40) if B > 1 else 7, opts='instrs=4000000000', timeout=to))
		if a.startswith('cshake'):
			D = CFG[a][0]
			for cfg in ((D, 0, 0), (D, 16, 12)):
				out.append(J(a, 'e_split', b + 3, 0, 0, b + 3, cfg=cfg, timeout=to)); out.append(J(a, 'e_split', 2 * b + 3, 1, 7, 1, cfg=cfg, timeout=to))
	return out

def cfgs(a):
	"""configurations worth varying for objects with constructor arguments"""
	if a.startswith('cshake'): D = CFG[a][0]; return [((D, 0, 21), (D, 0, 0)), ((D, 16, 0), (16, 0, 20)), ((D, 0, 0), (D, 0, 21)), ((D, 16, 12), (D, 12, 16))]
	if a.startswith('tuple'): D = CFG[a][0]; return [((D, 0, 21), (D, 0, 0)), ((D, 0, 0), (20, 0, 20))]
	if a.startswith('shake'): return [(CFG[a], CF2[a]), ((200,), (5,)), ((0,), (9,))]
	return [((0,), (0,))]

def c12(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		b = max(BL[a], 16)
		pairs = [(b + 3, 7), (5, b + 9), (2 * b, 0), (0, 3), (b - 1, b - 1)]
		if deep: pairs += [(x, 5) for x in range(0, 2 * b + 2, 3 if b < 100 else 7)] + [(7, x) for x in range(0, 2 * b + 2, 3 if b < 100 else 7)]
		for cfg, cf2 in cfgs(a):
			if min(cfg[0], 1) == 0 and a.startswith('shake'): pass
			for l1, l2 in pairs:
				for m in range(9):
					if not deep and (l1, l2) not in pairs[:3] and m not in (0, 1, 4): continue
					out.append(J(a, 'e_reset', l1, l2, m, cfg=cfg, cf2=cf2, timeout=120 if deep else 60))
	return out

def c13(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		b = max(BL[a], 16)
		to = 300 if deep else 90
		for L in (0, 1, 5, b // 2 + 1, b + 3) + ((2, 3, 7, 8, 9, b - 1, b, b + 1, 2 * b + 1) if deep else ()): out.append(J(a, 'e_forms', L, 0, timeout=to))
		for L in (3, b + 5) + ((1, 2 * b + 1) if deep else ()): out.append(J(a, 'e_forms', L, 1, 0, 17, timeout=to))
		out.append(J(a, 'e_forms', 0, 2, timeout=to)); out.append(J(a, 'e_forms', 0, 3, timeout=to))
	return out

def c14(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		b = max(BL[a], 16)
		for L in (0, 1, b - 1, b + 3) + (tuple(range(2, 2 * b, 5)) if deep else ()):
			for cfg, cf2 in cfgs(a): out.append(J(a, 'e_output', L, cfg=cfg, cf2=cf2, timeout=120))
		if a.startswith(('shake', 'cshake', 'tuple')):
			x = (20,) if not a.startswith('shake') else ()
			for o in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 63, b - 1, b, b + 1, 2 * b + 3, 500): out.append(J(a, 'e_output', 5, cfg=(o, 0) + x, timeout=120))
	return out

def c15(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		b = max(BL[a], 16)
		for l1, l2 in [(5, 5), (b + 3, b + 3), (3, b + 1)] + ([(x, x) for x in range(1, 2 * b, 9)] if deep else []):
			for cfg, cf2 in cfgs(a) + ([(CFG[a], CFG[a])] if a in CFG else []):
				if cfg[0] > BL[a] or (cf2[0] > BL[a]): continue
				out.append(J(a, 'e_eq', l1, l2, 0, cfg=cfg, cf2=cf2, timeout=120))
		for l1, l2 in [(5, 9), (b + 3, 3), (2 * b + 1, b), (0, 4)] + ([(x, 7) for x in range(1, 2 * b, 7)] if deep else []):
			for cfg, cf2 in cfgs(a): out.append(J(a, 'e_eq', l1, l2, 1, cfg=cfg, cf2=cf2, timeout=120))
	return out

def c16(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		b = max(BL[a], 16)
		sizes = [(5, b + 1, 9), (b + 3, 7, 4), (b - 1, 1, b + 2)]
		if deep: sizes += [(0, b, 3), (2 * b, 2 * b + 1, 5), (b // 2, b // 2, b // 2), (b, b, b), (1, 0, 0)]
		for cfg, cf2 in cfgs(a):
			for i, (l1, l2, l3) in enumerate(sizes):
				for m in range(10):
					for fin in (0, 1):
						if not deep and i and not (m in (0, 2, 5)): continue
						out.append(J(a, 'e_copy', l1, l2, m, fin, l3, (fin + m + i) & 1, cfg=cfg, cf2=cf2, timeout=120))
						if m in (2, 5) and (deep or i == 0): out.append(J(a, 'e_copy', l1, l2, m, fin, l3, 1 - ((fin + m + i) & 1), cfg=cfg, cf2=cf2, timeout=120))
	return out

def c17(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		b = max(BL[a], 16)
		tup = a.startswith('tuple')
		for v in ('ub', 'ub20') if deep else ('ub',):
			kw = dict(variant=v, opts='uninit=1', timeout=300 if deep else 100)
			for cfg, cf2 in cfgs(a):
				kc = dict(cfg=cfg, cf2=cf2, **kw)
				for l1, l2 in [(b + 3, 5), (0, 0), (1, b), (b - 1, 1), (b, b + 1)] + ([(x, 2 * b - x) for x in range(0, b, 3)] if deep else []): out.append(J(a, 'e_life', l1, l2, **kc))
				for m in (0, 2, 5, 7): out.append(J(a, 'e_copy', b + 3, 7, m, m & 1, 4, 1, **kc))
				for m in (0, 4, 6): out.append(J(a, 'e_reset', b + 3, 7, m, **kc))
				out.append(J(a, 'e_output', b + 3, **kc))
				out.append(J(a, 'e_eq', 5, 9, 1, **kc))
			if a.startswith(('shake', 'cshake', 'tuple')):
				x = (20,) if not a.startswith('shake') else ()
				for o in (0, 1, 7, 8, 9, b - 1, b, b + 1, 2 * b + 3): out.append(J(a, 'e_life', 5, 3, cfg=(o, 0) + x, **kw)); out.append(J(a, 'e_output', 5, cfg=(o, 0) + x, **kw))
			for L in (0, 1, b + 3): out.append(J(a, 'e_forms', L, 0, **kw))
			out.append(J(a, 'e_forms', 5, 1, 0, 9, **kw)); out.append(J(a, 'e_forms', 0, 2, **kw)); out.append(J(a, 'e_forms', 0, 3, **kw))
			if not tup:
				for i in (0, 1, 3, 4, 6): out.append(J(a, 'e_split', 3 * b + 1, 2, i, i, **kw))
				out.append(J(a, 'e_split', 2 * b + 1, 1, 1, 2, **kw)); out.append(J(a, 'e_split', 2 * b + 1, 1, 7, 2, **kw))
				out.append(J(a, 'e_split', b + 2, 0, 0, b + 2, **kw))
			else: out.append(J(a, 'e_tuple', 3, 0, 5, b + 1, **kw)); out.append(J(a, 'e_tuple', 0, **kw))
	return out

def c18(tier):
	deep = tier == 'thorough'
	out = []
	for a in ALL:
		if a.startswith('tuple'): continue
		B = BL[a]
		to = 400 if deep else 150
		heavy = a.startswith(('sha3', 'shake', 'cshake'))
		if B > 1:
			top = 60 if a in ('blake1_384', 'blake1_512') else 61
			rs = set(range(1, 3 * B + 1)) if deep and B < 100 else set(range(1, 2 * B + 2, 3)) | {B - 1, B, B + 1, 2 * B - 1, 2 * B} if deep else {1, 3, B // 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, B - 8, B - 9, B - 16, B - 17} - {0, -1}
			for r in sorted(x for x in rs if x > 0): out.append(J(a, 'e_long', r, top, timeout=to))
		for r0, w, top, form in [(0, 3, 61, 0), (0, 3, 33, 1), (5 % max(B, 2), 3, 33, 0), (max(B - 1, 0), 2, 33, 1)] + ([(max(B // 2, 0), 9, 61, 0), (0, 17, 61, 1), (1, 5, 40, 0)] if deep else []):
			out.append(J(a, 'e_huge', r0, w, top, form, timeout=to))
	return out

MODES = ['17nu', 'allf', 'allr', 'be64', 'be32_20', 'le32_17']
def c19(tier):
	deep = tier == 'thorough'
	out = []
	for v in MODES + (['17', '20', '14n', '20n', 'uchar', 'O0', 'O2', 'be64_20', 'be32', 'le32', 'ppc64'] if deep else []):
		for a in ALL:
			B = BL[a]; b = max(B, 16)
			kw = dict(variant=v, timeout=200 if deep else 60)
			tup = a.startswith('tuple')
			if tup:
				for s in [(), (0,), (3, 6), (b - 3,), (31, 33)]: out.append(J(a, 'e_tuple', len(s), *s, **kw))
			else:
				ls = [0, 7, b - 1, b + 9, 2 * b - 5] if not deep else sorted({0, 2, 3, 7, 8, b // 2, b - 17, b - 16, b - 9, b - 8, b - 1, b, b + 9, 2 * b - 5, 2 * b, 3 * b + 1} - {-1})
				for L in ls:
					if L >= 0: out.append(J(a, 'e_digest', L, cap=40 if a == 'crc_32' else 0, **kw))
				out.append(J(a, 'e_split', 2 * b + 5, 1, b // 2 + 1, 2, cap=40 if a == 'crc_32' else 0, **kw))
				if a.startswith('cshake'): out.append(J(a, 'e_digest', 9, cfg=(32, 5, 0), **kw)); out.append(J(a, 'e_digest', 9, cfg=(7, 300, 33), **kw))
				if a.startswith('shake'): out.append(J(a, 'e_digest', 9, cfg=(b + 5,), **kw))
				if B > 1: out.append(J(a, 'e_long', 3, 60, **kw)); out.append(J(a, 'e_long', B - 1, 60, **kw))
			out.append(J(a, 'e_forms', 5, 0, **kw)); out.append(J(a, 'e_output', b + 3, **kw))
			out.append(J(a, 'e_reset', b + 3, 7, 0, **kw)); out.append(J(a, 'e_copy', b + 3, 7, 0, 0, 4, 1, **kw))
	# helpers shared by several headers come from whichever is included first
	for h in sorted(f[:-2] for f in os.listdir(os.path.join(core.REPO, 'src')) if f.endswith('.h')):
		for a in ALL if deep else ('md5', 'sha2_512', 'blake2s', 'sha3_256', 'whirlpool', 'siphash', 'tuple_128'):
			b = max(BL[a], 16); kw = dict(variant='after_' + h, timeout=60)
			if a.startswith('tuple'): out.append(J(a, 'e_tuple', 2, 3, b, **kw)); continue
			out.append(J(a, 'e_digest', b + 9, cap=40 if a == 'crc_32' else 0, **kw)); out.append(J(a, 'e_digest', 5, **kw))
			out.append(J(a, 'e_split', 2 * b + 5, 1, b // 2 + 1, 2, cap=40, **kw))
	return out

CLI = ['blake1_224', 'blake1_256', 'blake1_384', 'blake1_512', 'blake2', 'blake2s', 'crc_32', 'cshake_128', 'cshake_256', 'fnv32_1a', 'fnv64_1a', 'has_160', 'md2', 'md4', 'md5',
	'ripemd_128', 'ripemd_160', 'ripemd_256', 'ripemd_320', 'siphash', 'sha1', 'sha2_224', 'sha2_256', 'sha2_384', 'sha2_512', 'sha2_512_224', 'sha2_512_256', 'sha3_224', 'sha3_256',
	'sha3_384', 'sha3_512', 'shake_128', 'shake_256', 'sm3', 'tiger1_128', 'tiger1_160', 'tiger1_192', 'tiger2_128', 'tiger2_160', 'tiger2_192', 'tuple_128', 'tuple_256', 'whirlpool']
def c20(tier):
	deep = tier == 'thorough'
	out = []
	M = 1 << 20
	def cli(o, n, stdin=0, length=24, cust=3, name=3, fixed=0, cap=0): out.append(Job(('file', 'cli'), 'e_cli', [o, n, stdin, length, cust, name, fixed, 0, 0, cap], opts='instrs=4000000000', timeout=600 if deep else 150))
	for o, a in enumerate(CLI):
		B = max(BL[a], 16); wide = a.startswith(('cshake', 'tuple', 'shake')); cu = a.startswith(('cshake', 'tuple'))
		for n in {0, 2, 5, B - 1, B + 7, 2 * B + 3} | (set(range(6, 2 * B, 5)) if deep else set()): cli(o, n, 0, cap=40)
		cli(o, 9, 1); cli(o, B + 1, 1, cap=40)
		for nm in (1, 2, 12) + ((30, 100) if deep else ()): cli(o, 4, 0, name=nm)
		# around the size of the read buffer; a digest depends on all bytes, the last ones are symbolic
		slow = a.startswith(('sha3', 'shake', 'cshake', 'tuple', 'whirlpool', 'md2'))
		for n in ((M + 1, 2 * M + 5) if slow else (M - 1, M, M + 1, M + 70000, 2 * M - 1, 2 * M, 2 * M + 9, 3 * M + 1, 5 * M)) if deep else (M + 1,) if slow else (M, M + 1) + ((M - 1, M + 70000, 2 * M + 9) if BL[a] <= 8 or a == 'md5' else ()): cli(o, n, n & 1, cust=0, fixed=1, name=4, cap=2 if a == 'crc_32' else 20)
		for n, st in ((M, 1), (M + 1, 0), (2 * M + 5, 1)): out.append(Job(('file', 'cli'), 'e_cli', [o, n, st, 24, 0, 4, 0, 0, 1], opts='instrs=4000000000', timeout=150))
		if wide:
			for d in (0, 1, 16, 31, 32, 33, 64, 100, 200, 500): cli(o, 5, 0, d)
			if cu:
				for c in (0, 1, 15, 31, 32, 33, 100, 200, 256): cli(o, 5, 0, 32, c); cli(o, 7, 1, 8, c)
		for k in range(0, 6):
			if k != (3 if cu else 2 if wide else 1): out.append(Job(('file', 'cli'), 'e_cliargc', [o, k], timeout=120))
		if wide:
			for w in range(0, 18): out.append(Job(('file', 'cli'), 'e_clilen', [o, w, 1], timeout=120))
			for w, n in [(100, 2), (100, 3), (100, 11), (101, 1), (101, 2), (101, 5), (102, 11), (102, 12), (102, 19), (102, 20), (102, 21)]: out.append(Job(('file', 'cli'), 'e_clilen', [o, w, n], timeout=120))
	out.append(Job(('file', 'cli'), 'e_cliargc', [len(CLI), 0], timeout=120))
	for n in range(0, 26):
		for k in range(0, 4): out.append(Job(('file', 'cli'), 'e_cliopt', [n, k], timeout=120))
	return out

PLAN = dict(C01=lambda t: digest(t, FAM['C01']), C02=lambda t: digest(t, FAM['C02']), C03=lambda t: digest(t, FAM['C03']), C04=lambda t: digest(t, FAM['C04']),
	C05=lambda t: digest(t, FAM['C05']), C06=lambda t: digest(t, FAM['C06']), C07=c07, C08=c08, C09=lambda t: digest(t, FAM['C09']), C10=c10, C11=c11, C12=c12,
	C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20)
ALGS = dict(FAM, **{k: ALL for k in ('C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19')})

def jobs(prop, tier):
	js = PLAN[prop](tier)
	seen, out = set(), []
	for j in js:
		k = (j.unit, j.variant, j.entry, tuple(j.params), j.opts, j.extra)
		if k not in seen: seen.add(k); out.append(j)
	# spread the jobs of each harness so that a run that runs out of time has sampled everything
	random.Random(SEED).shuffle(out)
	return out
