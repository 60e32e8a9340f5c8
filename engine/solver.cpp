#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <memory>
#include <unordered_set>

SolverStats ss;
static const bool debugOn = getenv("VPX_DEBUG") != nullptr;
unsigned long long rngSeed = 1;
double nowSecs() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- z3 translation
struct Z
{
	Z3_context c = nullptr;
	std::unordered_map<T, Z3_ast> memo;      // precise
	std::unordered_map<T, Z3_ast> leafMemo;
	std::unordered_map<u64, Z3_func_decl> ufs;
	u64 work = 0;
	Z() { open(); }
	~Z() { if (c) Z3_del_context(c); }
	static void onErr(Z3_context c, Z3_error_code e) { throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e)); }
	void open()
	{
		Z3_config cfg = Z3_mk_config();
		c = Z3_mk_context(cfg);
		Z3_del_config(cfg);
		Z3_set_error_handler(c, onErr);
	}
	void reopen() { memo.clear(); ufs.clear(); if (c) Z3_del_context(c); open(); work = 0; }
	Z3_ast bv(u128 v, unsigned w)
	{
		Z3_sort s = Z3_mk_bv_sort(c, w);
		if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
		Z3_ast hi = Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64)), lo = Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64));
		return Z3_mk_concat(c, hi, lo);
	}
	Z3_ast var(const std::string &n, unsigned w) { return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bv_sort(c, w)); }
	Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))); }
	Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); }
	Z3_ast mux(const Table &t, Z3_ast idx, size_t base, unsigned bit)
	{
		bool same = true; size_t n = (size_t)1 << bit;
		for (size_t i = 1; i < n && same; ++i) if (t.v[base + i] != t.v[base]) same = false;
		if (same) return bv(t.v[base], t.w);
		Z3_ast lo = mux(t, idx, base, bit - 1), hi = mux(t, idx, base + n / 2, bit - 1);
		return Z3_mk_ite(c, v2b(Z3_mk_extract(c, bit - 1, bit - 1, idx)), hi, lo);
	}
	Z3_ast node(T t, const Z3_ast *a, bool uf)
	{
		const Node &m = tm[t];
		switch (m.op)
		{
		case OP_CONST: return bv(m.k, m.w);
		case OP_VAR: return var("v" + std::to_string((u64)m.k), m.w);
		case OP_ADD:
		{
			Z3_ast r = nullptr;
			for (unsigned i = 0; i < m.n; ++i)
			{
				u128 co = tm.coef(t, i);
				Z3_ast x = a[i];
				bool neg = (co == mask(m.w));
				if (!neg && co != 1) x = Z3_mk_bvmul(c, bv(co, m.w), x);
				r = r ? (neg ? Z3_mk_bvsub(c, r, x) : Z3_mk_bvadd(c, r, x)) : (neg ? Z3_mk_bvneg(c, x) : x);
			}
			if (m.k) r = Z3_mk_bvadd(c, r, bv(m.k, m.w));
			return r;
		}
		case OP_MUL: return Z3_mk_bvmul(c, a[0], a[1]);
		case OP_AND: { Z3_ast r = a[0]; for (unsigned i = 1; i < m.n; ++i) r = Z3_mk_bvand(c, r, a[i]); if (m.k != mask(m.w)) r = Z3_mk_bvand(c, r, bv(m.k, m.w)); return r; }
		case OP_OR: { Z3_ast r = a[0]; for (unsigned i = 1; i < m.n; ++i) r = Z3_mk_bvor(c, r, a[i]); if (m.k) r = Z3_mk_bvor(c, r, bv(m.k, m.w)); return r; }
		case OP_XOR: { if (m.n == 1 && m.k == mask(m.w)) return Z3_mk_bvnot(c, a[0]); Z3_ast r = a[0]; for (unsigned i = 1; i < m.n; ++i) r = Z3_mk_bvxor(c, r, a[i]); if (m.k) r = Z3_mk_bvxor(c, r, bv(m.k, m.w)); return r; }
		case OP_CONCAT: { Z3_ast r = a[0]; for (unsigned i = 1; i < m.n; ++i) r = Z3_mk_concat(c, a[i], r); return r; }
		case OP_EXTRACT: return Z3_mk_extract(c, (unsigned)m.k + m.w - 1, (unsigned)m.k, a[0]);
		case OP_SEXT: return Z3_mk_sign_ext(c, m.w - tm[tm.arg(t, 0)].w, a[0]);
		case OP_ITE: return Z3_mk_ite(c, v2b(a[0]), a[1], a[2]);
		case OP_EQ: return b2v(Z3_mk_eq(c, a[0], a[1]));
		case OP_ULT: return b2v(Z3_mk_bvult(c, a[0], a[1]));
		case OP_SLT: return b2v(Z3_mk_bvslt(c, a[0], a[1]));
		case OP_SHL: return Z3_mk_bvshl(c, a[0], a[1]);
		case OP_LSHR: return Z3_mk_bvlshr(c, a[0], a[1]);
		case OP_ASHR: return Z3_mk_bvashr(c, a[0], a[1]);
		case OP_UDIV: return Z3_mk_bvudiv(c, a[0], a[1]);
		case OP_UREM: return Z3_mk_bvurem(c, a[0], a[1]);
		case OP_SDIV: return Z3_mk_bvsdiv(c, a[0], a[1]);
		case OP_SREM: return Z3_mk_bvsrem(c, a[0], a[1]);
		case OP_LOOKUP:
		{
			const Table &tb = tm.tables[(size_t)m.k];
			if (uf)
			{
				auto it = ufs.find((u64)m.k);
				if (it == ufs.end())
				{
					Z3_sort d = Z3_mk_bv_sort(c, tb.bits);
					Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, ("T" + std::to_string((u64)m.k)).c_str()), 1, &d, Z3_mk_bv_sort(c, tb.w));
					it = ufs.emplace((u64)m.k, f).first;
				}
				return Z3_mk_app(c, it->second, 1, a);
			}
			return mux(tb, a[0], 0, tb.bits);
		}
		default: throw Unsupported("z3 translation");
		}
	}
	// translate t; nodes in cut become fresh constants
	Z3_ast tr(T root, std::unordered_map<T, Z3_ast> &mm, const std::unordered_set<T> *cut, bool uf)
	{
		std::vector<std::pair<T, bool>> st{{root, false}};
		while (!st.empty())
		{
			auto [t, done] = st.back(); st.pop_back();
			if (mm.count(t)) continue;
			if (cut && cut->count(t)) { mm[t] = var("n" + std::to_string(t), tm[t].w); continue; }
			const Node &m = tm[t];
			if (!done && m.n)
			{
				st.push_back({t, true});
				for (unsigned i = 0; i < m.n; ++i) if (!mm.count(tm.arg(t, i))) st.push_back({tm.arg(t, i), false});
				continue;
			}
			std::vector<Z3_ast> a(m.n);
			for (unsigned i = 0; i < m.n; ++i) a[i] = mm[tm.arg(t, i)];
			mm[t] = node(t, a.data(), uf);
			++work;
		}
		return mm[root];
	}
};
static std::unique_ptr<Z> gz;
static Z &z() { if (!gz) gz.reset(new Z()); if (gz->work > 400000) gz->reopen(); return *gz; }
void solverReset() { if (gz) { gz->memo.clear(); gz->ufs.clear(); } }

static u128 modelVal(Z &q, Z3_model mdl, Z3_ast a, unsigned w)
{
	Z3_ast v = nullptr;
	if (!Z3_model_eval(q.c, mdl, a, true, &v)) return 0;
	const char *s = Z3_get_numeral_string(q.c, v);
	u128 r = 0; while (s && *s >= '0' && *s <= '9') { r = r * 10 + (unsigned)(*s - '0'); ++s; }
	return r & mask(w);
}

static SatRes runSolver(Z &q, const std::vector<Z3_ast> &as, unsigned timeoutMs, const std::function<void(Z3_model)> &onModel)
{
	double t0 = nowSecs();
	Z3_solver s = Z3_mk_solver_for_logic(q.c, Z3_mk_string_symbol(q.c, "QF_UFBV"));
	Z3_solver_inc_ref(q.c, s);
	Z3_params p = Z3_mk_params(q.c); Z3_params_inc_ref(q.c, p);
	Z3_params_set_uint(q.c, p, Z3_mk_string_symbol(q.c, "timeout"), timeoutMs);
	Z3_params_set_uint(q.c, p, Z3_mk_string_symbol(q.c, "random_seed"), (unsigned)rngSeed);
	Z3_solver_set_params(q.c, s, p);
	for (Z3_ast a : as) Z3_solver_assert(q.c, s, a);
	SatRes r = R_UNKNOWN;
	Z3_lbool l = Z3_solver_check(q.c, s);
	if (l == Z3_L_FALSE) r = R_UNSAT;
	else if (l == Z3_L_TRUE)
	{
		r = R_SAT;
		Z3_model mdl = Z3_solver_get_model(q.c, s);
		Z3_model_inc_ref(q.c, mdl);
		onModel(mdl);
		Z3_model_dec_ref(q.c, mdl);
	}
	Z3_params_dec_ref(q.c, p);
	Z3_solver_dec_ref(q.c, s);
	double d = nowSecs() - t0;
	ss.solverSecs += d; if (d > ss.maxQuery) ss.maxQuery = d;
	++ss.queries; if (r == R_UNSAT) ++ss.unsat; else if (r == R_SAT) ++ss.sat; else ++ss.unknown;
	return r;
}

SatRes checkSat(const std::vector<T> &conj, unsigned timeoutMs, Model *model)
{
	std::vector<T> cs;
	for (T t : conj) { if (tm.isC(t)) { if (!tm[t].k) return R_UNSAT; } else cs.push_back(t); }
	Z &q = z();
	std::vector<Z3_ast> as;
	for (T t : cs) as.push_back(q.v2b(q.tr(t, q.memo, nullptr, false)));
	SatRes rr = runSolver(q, as, timeoutMs, [&](Z3_model mdl) {
		if (!model) return;
		model->clear();
		for (T t : coneOf(cs)) if (tm[t].op == OP_VAR) (*model)[t] = modelVal(q, mdl, q.tr(t, q.memo, nullptr, false), tm[t].w);
	});
	if (rr == R_SAT && model)
		for (T t : cs) if (!evalUnder(t, *model))
		{
			if (getenv("VP_DEBUG")) fprintf(stderr, "model does not satisfy %s\n", show(t, 12).c_str());
			return R_UNKNOWN;                // the encoding and the terms disagree
		}
	return rr;
}

// the same question with every input replaced by its value in m; each node is folded by the solver's simplifier as it is built
static SatRes checkPinned(const std::vector<T> &conj, unsigned timeoutMs, const Model &m)
{
	Z &q = z();
	std::unordered_map<T, Z3_ast> mm;
	std::vector<Z3_ast> as;
	for (T root : conj)
	{
		std::vector<std::pair<T, bool>> st{{root, false}};
		while (!st.empty())
		{
			auto [t, done] = st.back(); st.pop_back();
			if (mm.count(t)) continue;
			const Node &n = tm[t];
			auto it = n.op == OP_VAR ? m.find(t) : m.end();
			if (it != m.end()) { mm[t] = q.bv(it->second, n.w); continue; }
			if (!done && n.n)
			{
				st.push_back({t, true});
				for (unsigned i = 0; i < n.n; ++i) if (!mm.count(tm.arg(t, i))) st.push_back({tm.arg(t, i), false});
				continue;
			}
			std::vector<Z3_ast> a(n.n);
			for (unsigned i = 0; i < n.n; ++i) a[i] = mm[tm.arg(t, i)];
			Z3_ast x = q.node(t, a.data(), false);
			mm[t] = n.n ? Z3_simplify(q.c, x) : x;
			++q.work;
		}
		as.push_back(q.v2b(mm[root]));
	}
	return runSolver(q, as, timeoutMs, [](Z3_model) {});
}

u128 evalUnder(T root, const Model &m)
{
	std::vector<T> cone = coneOf({root});
	std::unordered_map<T, u128> val; val.reserve(cone.size() * 2);
	std::vector<u128> av;
	for (T t : cone)
	{
		const Node &n = tm[t];
		if (n.op == OP_VAR) { auto it = m.find(t); val[t] = it == m.end() ? 0 : it->second & mask(n.w); continue; }
		av.resize(n.n + 1);
		for (unsigned i = 0; i < n.n; ++i) av[i] = val[tm.arg(t, i)];
		val[t] = evalNode(t, av.data());
	}
	return val[root];
}

// ---------------------------------------------------------------- simulation
static const unsigned NS = 32;   // sample vectors
struct Sim
{
	std::vector<u128> val;           // NS per position
	std::unordered_map<T, u32> pos;
	u64 rng;
	explicit Sim(u64 seed) : rng(seed * 0x9E3779B97F4A7C15ull + 12345) {}
	u64 next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
	void run(const std::vector<T> &cone)
	{
		val.assign((size_t)cone.size() * NS, 0);
		pos.reserve(cone.size() * 2);
		for (u32 i = 0; i < cone.size(); ++i) pos[cone[i]] = i;
		std::vector<u128> av; std::vector<u32> ap;
		for (u32 i = 0; i < cone.size(); ++i)
		{
			T t = cone[i]; const Node &n = tm[t];
			if (n.op == OP_VAR)
			{
				for (unsigned s = 0; s < NS; ++s)
				{
					u128 v = ((u128)next() << 64) | next();
					if (s == 0) v = 0;
					if (s == 1) v = ~(u128)0;
					if (s == 2) v = (next() & 7) ? 0 : v;                       // sparse
					if (s == 3) v = ((u128)1) << (n.w - 1);                      // sign bits
					if (s == 4 && n.w == 8) v = 0x20 + (v % 95);                // text
					if (s == 5) v = (next() & 1) ? 0 : ~(u128)0;
					val[(size_t)i * NS + s] = v & mask(n.w);
				}
				continue;
			}
			av.resize(n.n + 1); ap.resize(n.n + 1);
			for (unsigned a = 0; a < n.n; ++a) ap[a] = pos[tm.arg(t, a)];
			for (unsigned s = 0; s < NS; ++s)
			{
				for (unsigned a = 0; a < n.n; ++a) av[a] = val[(size_t)ap[a] * NS + s];
				val[(size_t)i * NS + s] = evalNode(t, av.data());
			}
		}
	}
	const u128 *at(T t) { return &val[(size_t)pos[t] * NS]; }
};

// ---------------------------------------------------------------- bit-level normal form
// Every bit is a polynomial over GF(2): a sorted set of monomials, a monomial being a sorted set of atoms.
// Products that would grow too much, and all non-bitwise operators, become atoms named by the normal forms of
// their operands, so equal normal forms imply equal values (congruence closure modulo GF(2) algebra).
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size() * 0x9E3779B97F4A7C15ull + 77; for (u32 x : v) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return (size_t)h; } };
struct Interner
{
	std::unordered_map<std::vector<u32>, u32, VecHash> idx;
	std::vector<const std::vector<u32> *> at;
	u64 held = 0;
	u32 operator()(const std::vector<u32> &v)
	{
		auto r = idx.emplace(v, (u32)at.size());
		if (r.second) { at.push_back(&r.first->first); held += v.size() + 8; }
		return r.first->second;
	}
	const std::vector<u32> &operator[](u32 i) const { return *at[i]; }
};
struct Affine
{
	typedef std::vector<u32> Vec;
	Interner monos, rows, words, keys;     // monomials of atoms; rows of monomials; words of rows; atoms by key
	u32 atoms = 0;
	std::unordered_map<u32, u32> keyAtom;  // key -> first atom of the opaque value
	std::unordered_map<u64, u32> prodMemo;
	std::unordered_map<T, u32> memo;       // term -> word
	u64 cost = 0, limit = 150000000; bool off = false;
	u32 ZERO, ONE;
	size_t DIST, MAXDEG = 10, MAXROW;
	Affine(size_t dist, size_t maxrow) : DIST(dist), MAXROW(maxrow) { u32 one = monos({}); ZERO = rows({}); ONE = rows({one}); }

	// XOR of rows
	Vec acc;
	u32 sum(const u32 *r, size_t n)
	{
		if (n == 1) return r[0];
		acc.clear();
		for (size_t i = 0; i < n; ++i) { const Vec &v = rows[r[i]]; acc.insert(acc.end(), v.begin(), v.end()); }
		cost += acc.size() + 1;
		std::sort(acc.begin(), acc.end());
		size_t o = 0;
		for (size_t i = 0; i < acc.size();) { size_t j = i; while (j < acc.size() && acc[j] == acc[i]) ++j; if ((j - i) & 1) acc[o++] = acc[i]; i = j; }
		acc.resize(o);
		return rows(acc);
	}
	u32 sum(u32 a, u32 b) { if (a == ZERO) return b; if (b == ZERO) return a; if (a == b) return ZERO; u32 r[2] = {a, b}; return sum(r, 2); }
	u32 neg(u32 a) { return sum(a, ONE); }
	u32 opaque(const Vec &key, unsigned w)
	{
		u32 k = keys(key);
		auto it = keyAtom.find(k);
		if (it == keyAtom.end()) { it = keyAtom.emplace(k, atoms).first; atoms += w; }
		return it->second;
	}
	// long non-linear rows become atoms, otherwise XOR layers would grow without bound
	std::vector<char> inputAtom;
	u32 cut(u32 r)
	{
		const Vec &v = rows[r];
		if (v.size() <= MAXROW) return r;
		bool lin = true;
		for (u32 m : v) { const Vec &q = monos[m]; if (q.size() > 1 || (q.size() == 1 && !(q[0] < inputAtom.size() && inputAtom[q[0]]))) { lin = false; break; } }
		if (lin) return r;
		if (v[0] == 0) return neg(cut(sum(r, ONE)));
		u32 a = opaque({7, r}, 1);
		cutDef[a] = r;
		return unit(a);
	}
	std::unordered_map<u32, u32> cutDef;   // atom -> the row it stands for
	// is the row zero once cut atoms are replaced by their definitions, newest first?
	bool expandsToZero(u32 d0, size_t maxRow)
	{
		Vec d = rows[d0], rest, cof, out, m;
		for (unsigned step = 0; !d.empty() && step < 200; ++step)
		{
			if (d.size() > maxRow) return false;
			u32 best = 0; bool any = false;
			for (u32 x : d) for (u32 a : monos[x]) if ((!any || a > best) && cutDef.count(a)) { best = a; any = true; }
			if (!any) return false;
			rest.clear(); cof.clear(); out.clear();
			for (u32 x : d)
			{
				const Vec &q = monos[x];
				if (std::binary_search(q.begin(), q.end(), best)) { Vec w; for (u32 a : q) if (a != best) w.push_back(a); cof.push_back(monos(w)); }
				else rest.push_back(x);
			}
			const Vec &def = rows[cutDef[best]];
			if (def.size() * cof.size() > maxRow) return false;
			out = rest;
			for (u32 x : cof) for (u32 y : def)
			{
				if (monos[x].empty()) { out.push_back(y); continue; }
				m.clear(); std::set_union(monos[x].begin(), monos[x].end(), monos[y].begin(), monos[y].end(), std::back_inserter(m)); out.push_back(monos(m));
			}
			std::sort(out.begin(), out.end());
			size_t o = 0;
			for (size_t i = 0; i < out.size();) { size_t j = i; while (j < out.size() && out[j] == out[i]) ++j; if ((j - i) & 1) out[o++] = out[i]; i = j; }
			out.resize(o);
			d.swap(out);
		}
		return d.empty();
	}
	bool equalExpanded(T a, T b)
	{
		if (off || tm[a].w != tm[b].w) return false;
		u32 x, y;
		if (!get(a, x) || !get(b, y)) return false;
		const Vec va = words[x], vb = words[y];
		for (size_t i = 0; i < va.size(); ++i) if (va[i] != vb[i] && !expandsToZero(sum(va[i], vb[i]), 600)) return false;
		return true;
	}
	u32 unit(u32 atom) { return rows({monos({atom})}); }
	u32 mul(u32 a, u32 b)
	{
		if (a == ZERO || b == ZERO) return ZERO;
		if (a == ONE) return b;
		if (b == ONE || a == b) return a;
		if (a > b) std::swap(a, b);
		u64 mk = ((u64)a << 32) | b;
		auto it = prodMemo.find(mk); if (it != prodMemo.end()) return it->second;
		u32 r;
		const Vec va = rows[a], vb = rows[b];
		cost += 4;
		if (va[0] == 0) r = sum(b, mul(sum(a, ONE), b));
		else if (vb[0] == 0) r = sum(a, mul(a, sum(b, ONE)));
		else
		{
			bool dist = va.size() * vb.size() <= DIST;
			if (dist) for (u32 x : va) for (u32 y : vb) if (monos[x].size() + monos[y].size() > MAXDEG) dist = false;
			if (dist)
			{
				Vec out, m;
				for (u32 x : va) for (u32 y : vb) { m.clear(); std::set_union(monos[x].begin(), monos[x].end(), monos[y].begin(), monos[y].end(), std::back_inserter(m)); out.push_back(monos(m)); cost += m.size(); }
				std::sort(out.begin(), out.end());
				size_t o = 0;
				for (size_t i = 0; i < out.size();) { size_t j = i; while (j < out.size() && out[j] == out[i]) ++j; if ((j - i) & 1) out[o++] = out[i]; i = j; }
				out.resize(o);
				r = rows(out);
			}
			else r = unit(opaque({1, a, b}, 1));
		}
		prodMemo[mk] = r;
		return r;
	}
	std::unordered_map<u32, int> lin;     // table id -> affine?
	bool tableAffine(u32 id)
	{
		auto it = lin.find(id); if (it != lin.end()) return it->second;
		const Table &t = tm.tables[id];
		bool ok = true;
		for (size_t i = 0; i < t.v.size() && ok; ++i)
		{
			u64 v = t.v[0];
			for (unsigned b = 0; b < t.bits; ++b) if ((i >> b) & 1) v ^= t.v[(size_t)1 << b] ^ t.v[0];
			if (v != t.v[i]) ok = false;
		}
		lin[id] = ok;
		return ok;
	}
	static void push(Vec &v, u128 k) { for (int i = 0; i < 4; ++i) v.push_back((u32)(k >> (32 * i))); }
	u32 compute(T t)
	{
		const Node m = tm[t];
		auto get = [&](unsigned i) -> const Vec & { return words[memo[tm.arg(t, i)]]; };
		auto wid = [&](unsigned i) { return memo[tm.arg(t, i)]; };
		Vec v(m.w, ZERO);
		auto kbit = [&](u128 k, unsigned b) { return ((k >> b) & 1) ? ONE : ZERO; };
		auto fill = [&](const Vec &key) { u32 a = opaque(key, m.w); for (unsigned b = 0; b < m.w; ++b) v[b] = unit(a + b); };
		Vec tmp;
		switch (m.op)
		{
		case OP_CONST: for (unsigned b = 0; b < m.w; ++b) v[b] = kbit(m.k, b); break;
		case OP_VAR: fill({2, t}); inputAtom.resize(atoms, 0); for (u32 r : v) inputAtom[monos[rows[r][0]][0]] = 1; break;
		case OP_XOR:
			for (unsigned b = 0; b < m.w; ++b) { tmp.clear(); for (unsigned i = 0; i < m.n; ++i) tmp.push_back(get(i)[b]); tmp.push_back(kbit(m.k, b)); v[b] = cut(sum(tmp.data(), tmp.size())); }
			break;
		case OP_CONCAT: { unsigned p = 0; for (unsigned i = 0; i < m.n; ++i) for (u32 r : get(i)) v[p++] = r; break; }
		case OP_EXTRACT: for (unsigned b = 0; b < m.w; ++b) v[b] = get(0)[b + (unsigned)m.k]; break;
		case OP_SEXT: { const Vec &a = get(0); for (unsigned b = 0; b < m.w; ++b) v[b] = a[std::min<size_t>(b, a.size() - 1)]; break; }
		case OP_AND: case OP_OR:
		{
			bool isOr = m.op == OP_OR;
			for (unsigned b = 0; b < m.w; ++b)
			{
				tmp.clear(); for (unsigned i = 0; i < m.n; ++i) tmp.push_back(isOr ? neg(get(i)[b]) : get(i)[b]);
				std::sort(tmp.begin(), tmp.end());
				u32 r = isOr ? neg(kbit(m.k, b)) : kbit(m.k, b);
				for (u32 x : tmp) r = mul(r, x);
				v[b] = isOr ? neg(r) : r;
			}
			break;
		}
		case OP_ITE:
		{
			u32 c = get(0)[0];
			for (unsigned b = 0; b < m.w; ++b) v[b] = sum(mul(c, sum(get(1)[b], get(2)[b])), get(2)[b]);
			break;
		}
		case OP_EQ:
		{
			const Vec &a = get(0), &e = get(1);
			bool no = false; tmp.clear();
			for (size_t b = 0; b < a.size(); ++b) { u32 d = sum(a[b], e[b]); if (d == ONE) no = true; if (d != ZERO) tmp.push_back(d); }
			if (no) v[0] = ZERO;
			else if (tmp.empty()) v[0] = ONE;
			else if (tmp.size() == 1) v[0] = neg(tmp[0]);
			else { std::sort(tmp.begin(), tmp.end()); Vec key{3}; key.insert(key.end(), tmp.begin(), tmp.end()); fill(key); }
			break;
		}
		case OP_ADD:
		{
			// a sum over single bits: bit rows weighted by coefficients modulo 2^w; a negated row r^1 is 1-r
			std::vector<std::pair<u32, u128>> l;
			u128 k = m.k;
			for (unsigned i = 0; i < m.n; ++i)
			{
				const Vec &a = get(i);
				u128 co = tm.coef(t, i);
				for (unsigned b = 0; b < m.w; ++b, co <<= 1)
				{
					u32 r = a[b]; u128 c = co;
					if (r == ZERO) continue;
					if (rows[r][0] == 0) { k += c; r = sum(r, ONE); c = -c; if (r == ZERO) continue; }
					l.push_back({r, c});
				}
			}
			std::sort(l.begin(), l.end());
			cost += l.size();
			Vec key{4, m.w}; push(key, k & mask(m.w));

			for (size_t i = 0; i < l.size();)
			{
				size_t j = i; u128 c = 0;
				while (j < l.size() && l[j].first == l[i].first) c += l[j++].second;
				c &= mask(m.w);
				if (c) { key.push_back(l[i].first); push(key, c); }
				i = j;
			}
			fill(key);
			break;
		}
		case OP_LOOKUP:
		{
			if (!tableAffine((u32)m.k)) { fill({5, (u32)m.k, wid(0)}); break; }
			const Table &tb = tm.tables[(size_t)m.k];
			const Vec &a = get(0);
			for (unsigned b = 0; b < m.w; ++b)
			{
				tmp.clear(); tmp.push_back(kbit(tb.v[0], b));
				for (unsigned j = 0; j < tb.bits; ++j) if (((tb.v[(size_t)1 << j] ^ tb.v[0]) >> b) & 1) tmp.push_back(a[j]);
				v[b] = sum(tmp.data(), tmp.size());
			}
			break;
		}
		default:
		{
			Vec key{6, (u32)m.op, m.w}; push(key, m.k);
			tmp.clear(); for (unsigned i = 0; i < m.n; ++i) tmp.push_back(wid(i));
			if (m.op == OP_MUL) std::sort(tmp.begin(), tmp.end());
			key.insert(key.end(), tmp.begin(), tmp.end());
			fill(key);
		}
		}
		cost += m.w;
		return words(v);
	}
	bool get(T root, u32 &out)
	{
		std::vector<std::pair<T, bool>> st{{root, false}};
		while (!st.empty())
		{
			auto [t, done] = st.back(); st.pop_back();
			if (memo.count(t)) continue;
			if (cost > limit || rows.held + monos.held > limit / 2) { off = true; return false; }
			if (!done && tm[t].n)
			{
				st.push_back({t, true});
				for (unsigned i = 0; i < tm[t].n; ++i) if (!memo.count(tm.arg(t, i))) st.push_back({tm.arg(t, i), false});
				continue;
			}
			u32 v = compute(t);
			memo[t] = v;
		}
		out = memo[root];
		return true;
	}
	bool equal(T a, T b)
	{
		if (off || tm[a].w != tm[b].w) return false;
		u32 x1, x2;
		return get(a, x1) && get(b, x2) && x1 == x2;
	}
};

// ---------------------------------------------------------------- lemma cache
static std::unordered_map<std::string, char> lemmaCache;   // key -> 'U' proven / 'N' not

// bounded-depth cone of x,y; interior nodes are expanded, others are cut leaves
static void localCone(T x, T y, unsigned depth, size_t maxNodes, std::unordered_set<T> &cut, std::vector<T> &inner)
{
	std::unordered_map<T, unsigned> dist;
	std::vector<T> cur{x}; if (y != x) cur.push_back(y);
	for (T t : cur) dist[t] = 0;
	std::unordered_set<T> in;
	for (unsigned d = 0; d < depth && !cur.empty(); ++d)
	{
		std::vector<T> nxt;
		for (T t : cur)
		{
			if (tm[t].n == 0 || in.size() > maxNodes) continue;
			in.insert(t);
			for (unsigned i = 0; i < tm[t].n; ++i) { T a = tm.arg(t, i); if (!dist.count(a)) { dist[a] = d + 1; nxt.push_back(a); } }
		}
		cur.swap(nxt);
	}
	for (auto &e : dist) if (!in.count(e.first) && tm[e.first].op != OP_CONST) cut.insert(e.first);
	inner.assign(in.begin(), in.end());
}
static std::string lemmaKey(T x, T y, const std::unordered_set<T> &cut)
{
	std::string s; std::unordered_map<T, u32> num;
	std::function<void(T)> ser = [&](T t) {
		auto it = num.find(t);
		if (it != num.end()) { s += '$'; s += std::to_string(it->second); return; }
		u32 id = (u32)num.size(); num[t] = id;
		const Node &m = tm[t];
		if (cut.count(t)) { s += 'L'; s += std::to_string(m.w); s += '#'; s += std::to_string(id); return; }
		s += '('; s += (char)('A' + m.op); s += std::to_string(m.w); s += ',';
		if (m.op == OP_LOOKUP) { const Table &tb = tm.tables[(size_t)m.k]; u64 h = 1469598103934665603ull; for (u64 e : tb.v) { h ^= e; h *= 1099511628211ull; h ^= h >> 31; } s += std::to_string(h); }
		else if (m.op == OP_VAR) s += "v";
		else { char b[40]; snprintf(b, sizeof b, "%llx:%llx", (unsigned long long)(m.k >> 64), (unsigned long long)m.k); s += b; }
		for (unsigned i = 0; i < m.n; ++i) { if (m.op == OP_ADD) { char b[40]; snprintf(b, sizeof b, "*%llx:%llx", (unsigned long long)(tm.coef(t, i) >> 64), (unsigned long long)tm.coef(t, i)); s += b; } ser(tm.arg(t, i)); }
		s += ')';
	};
	ser(x); s += '|'; ser(y);
	return s;
}

// is x == y valid when nodes in the cut are arbitrary?  optional model over cut leaves
// the same question answered by the bit-level normal form over the cut
static bool localNF(T x, T y, unsigned depth, size_t maxNodes)
{
	if (tm[x].w != tm[y].w) return false;
	std::unordered_set<T> cut; std::vector<T> inner;
	localCone(x, y, depth, maxNodes, cut, inner);
	Affine af(400, 64); af.limit = 400000;
	for (T t : cut)
	{
		if (tm[t].op == OP_CONST) continue;
		u32 a = af.opaque({2, t}, tm[t].w); Affine::Vec v;
		for (unsigned b = 0; b < tm[t].w; ++b) v.push_back(af.unit(a + b));
		af.inputAtom.resize(af.atoms, 0);
		for (u32 r : v) af.inputAtom[af.monos[af.rows[r][0]][0]] = 1;
		af.memo[t] = af.words(v);
	}
	return af.equal(x, y);
}
static SatRes localQuery(T x, T y, unsigned depth, size_t maxNodes, unsigned timeoutMs, Model *model, bool *primary)
{
	std::unordered_set<T> cut; std::vector<T> inner;
	localCone(x, y, depth, maxNodes, cut, inner);
	bool prim = true; for (T t : cut) if (tm[t].op != OP_VAR) prim = false;
	if (primary) *primary = prim;
	std::string key = lemmaKey(x, y, cut);
	auto it = lemmaCache.find(key);
	if (it != lemmaCache.end()) { ++ss.lemmaHits; if (it->second == 'U') return R_UNSAT; if (!model || !prim) return it->second == 'S' ? R_SAT : R_UNKNOWN; }
	Z &q = z();
	SatRes r = R_UNKNOWN;
	bool hasLook = false; for (T t : inner) if (tm[t].op == OP_LOOKUP) hasLook = true;
	for (int uf = hasLook ? 1 : 0; uf >= 0; --uf)
	{
		std::unordered_map<T, Z3_ast> mm;
		Z3_ast a = q.tr(x, mm, &cut, uf), b = q.tr(y, mm, &cut, uf);
		r = runSolver(q, {Z3_mk_not(q.c, Z3_mk_eq(q.c, a, b))}, timeoutMs, [&](Z3_model mdl) {
			if (!model) return;
			model->clear();
			for (T t : cut) if (mm.count(t)) (*model)[t] = modelVal(q, mdl, mm[t], tm[t].w);
		});
		if (r == R_UNSAT) break;
	}
	lemmaCache[key] = r == R_UNSAT ? 'U' : r == R_SAT ? 'S' : 'N';
	if (r == R_UNSAT) ++ss.lemmas;
	return r;
}

// c is v whatever the deeper subterms are (they are replaced by unconstrained values)
bool locallyConst(T c, bool v)
{
	return localQuery(c, mkConst(1, v), 7, 60, 300, nullptr, nullptr) == R_UNSAT;
}

// ---------------------------------------------------------------- sweeping
ProveRes proveEqual(const std::vector<std::pair<T, T>> &in, const std::vector<T> &pc, Model *cex, double budget)
{
	std::vector<std::pair<T, T>> pairs;
	for (auto &p : in) { if (p.first == p.second) ++ss.identical; else pairs.push_back(p); }
	if (pairs.empty()) return P_PROVED;
	double t0 = nowSecs();

	// candidate counterexamples from simulation, confirmed by the solver below
	auto confirm = [&](const Model &m) -> bool {
		for (T c : pc) if (!evalUnder(c, m)) return false;
		bool differs = false; std::pair<T, T> bad{0, 0};
		for (auto &p : pairs) if (evalUnder(p.first, m) != evalUnder(p.second, m)) { differs = true; bad = p; break; }
		if (!differs) return false;
		// ask the solver about the pinned input: path condition and disequality
		std::vector<T> conj(pc);
		conj.push_back(mkNot(mkEq(bad.first, bad.second)));
		++ss.pinned;
		SatRes r = checkPinned(conj, 20000, m);
		if (r == R_UNSAT) throw std::runtime_error("internal: solver contradicts evaluation");
		if (cex) *cex = m;
		return true;
	};

	std::vector<T> roots; for (auto &p : pairs) { roots.push_back(p.first); roots.push_back(p.second); }
	std::vector<T> all(roots); all.insert(all.end(), pc.begin(), pc.end());
	std::vector<T> cone = coneOf(all);
	std::unique_ptr<Sim> sim(new Sim(rngSeed));
	sim->run(cone);
	auto modelOf = [&](unsigned s) { Model m; for (T t : cone) if (tm[t].op == OP_VAR) m[t] = sim->at(t)[s]; return m; };
	for (unsigned s = 0; s < NS; ++s)
	{
		bool ok = true; for (T c : pc) if (!sim->at(c)[s]) ok = false;
		if (!ok) continue;
		for (auto &p : pairs) if (sim->at(p.first)[s] != sim->at(p.second)[s]) { if (confirm(modelOf(s))) return P_CEX; }
	}

	std::unique_ptr<Affine> whole;
	// bit-level normal form of the whole difference; then the sweep with a coarser, cheaper one
	{
		whole.reset(new Affine(400, 64)); whole->limit = 40000000;
		bool allEq = true;
		for (auto &p : pairs) if (!whole->equal(p.first, p.second)) { allEq = false; break; }
		if (allEq) { ss.affine += pairs.size(); return P_PROVED; }
		if (debugOn) fprintf(stderr, "NF: off=%d cost=%llu held=%llu\n", whole->off, (unsigned long long)whole->cost, (unsigned long long)(whole->rows.held));
	}
	
	static size_t sd = getenv("VPX_SD") ? atoi(getenv("VPX_SD")) : 16, sr = getenv("VPX_SR") ? atoi(getenv("VPX_SR")) : 12;
	Affine af(sd, sr); af.limit = 200000000;
	if (whole->off) whole.reset(new Affine(400, 64));
	whole->limit = 100000000;

	// direct query for small problems
	if (cone.size() <= 60)
	{
		unsigned ms = 3000;
		bool ok = true; Model m;
		for (auto &p : pairs)
		{
			std::vector<T> conj(pc); conj.push_back(mkNot(mkEq(p.first, p.second)));
			SatRes r = checkSat(conj, ms, &m);
			if (r == R_UNKNOWN) { ok = false; break; }
			if (r == R_SAT) { for (T t : cone) if (tm[t].op == OP_VAR && !m.count(t)) m[t] = 0; if (confirm(m)) return P_CEX; }
			if (r != R_UNSAT) ok = false;
		}
		if (ok) return P_PROVED;
	}

	// sweep
	std::unordered_map<T, T> rep;
	std::unordered_map<T, std::vector<u128>> sig;   // for rebuilt nodes
	struct VH { size_t operator()(const std::vector<u128> &v) const { u64 h = 7; for (u128 x : v) { h ^= (u64)x ^ (u64)(x >> 64) * 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 30; } return h; } };
	std::unordered_map<std::vector<u128>, std::vector<T>, VH> classes;
	auto repOf = [&](T t) { auto it = rep.find(t); return it == rep.end() ? t : it->second; };
	std::vector<T> na;
	std::unordered_set<u64> tried;
	std::unordered_map<std::vector<u128>, std::vector<std::pair<T, u128>>, VH> offsets;   // classes up to a constant
	std::vector<T> work = coneOf(roots);
	for (T t : work)
	{
		if (nowSecs() - t0 > budget) break;
		const Node m = tm[t];
		T n = t;
		if (m.n)
		{
			na.resize(m.n); bool ch = false;
			for (unsigned i = 0; i < m.n; ++i) { na[i] = repOf(tm.arg(t, i)); if (na[i] != tm.arg(t, i)) ch = true; }
			if (ch) { n = rebuild(t, na.data()); n = repOf(n); }
		}
		std::vector<u128> sg(sim->at(t), sim->at(t) + NS);
		sg.push_back(m.w);
		auto &cl = classes[sg];
		bool found = false;
		for (T c : cl) if (c == n) { found = true; break; }
		if (!found && m.op != OP_CONST && m.op != OP_VAR)
		{
			unsigned attempts = 0;
			bool constSig = m.w == 1;   // 1-bit signatures collide by chance: be brief
			std::vector<T> cands(cl.begin(), cl.begin() + std::min<size_t>(cl.size(), 6));
			const size_t plain = cands.size();
			if (m.w >= 8)
			{
				// words that differ by a constant from one seen before
				std::vector<u128> off(sg);
				for (unsigned s = 0; s < NS; ++s) off[s] ^= sg[0];
				auto &xl = offsets[off];
				bool any = false;
				for (auto &e : xl) { if (e.second == sg[0]) continue; T c = mkXor(m.w, {e.first}, e.second ^ sg[0]); any = true; if (c == n) { found = true; break; } if (cands.size() < 2) cands.push_back(c); }
				if (!found && !any && cl.empty()) xl.push_back({n, sg[0]});
			}
			if (!found) for (T c : cands)
			{
				if (++attempts > (constSig ? 2u : 4u)) break;
				if (!tried.insert(((u64)c << 32) | n).second) continue;
				if ((whole && whole->equal(n, c)) || af.equal(n, c) || af.equalExpanded(n, c)) { ++ss.affine; n = c; found = true; ++ss.merges; break; }
				if (debugOn)
				{
					T x = n, y = c;
					while (true)
					{
						fprintf(stderr, "cmp %u %u: %s/%u/%llx/%llx  %s/%u/%llx/%llx\n", x, y, opNames[tm[x].op], tm[x].n, (unsigned long long)tm[x].k, (unsigned long long)(tm[x].k >> 64), opNames[tm[y].op], tm[y].n, (unsigned long long)tm[y].k, (unsigned long long)(tm[y].k >> 64));
						if (tm[x].op != tm[y].op || tm[x].k != tm[y].k || tm[x].w != tm[y].w) break;
						std::vector<T> ax(tm.A(x), tm.A(x) + tm[x].n), ay(tm.A(y), tm.A(y) + tm[y].n), dx, dy;
						for (T q : ax) if (std::find(ay.begin(), ay.end(), q) == ay.end()) dx.push_back(q);
						for (T q : ay) if (std::find(ax.begin(), ax.end(), q) == ax.end()) dy.push_back(q);
						if (dx.empty() || dx.size() != dy.size()) { fprintf(stderr, "stuck: %zu/%zu\n", dx.size(), dy.size()); for (T q : dx) fprintf(stderr, "  - %u %s\n", q, show(q, 2).c_str()); for (T q : dy) fprintf(stderr, "  + %u %s\n", q, show(q, 2).c_str()); break; }
						size_t i = 0; bool f = false;
						for (; i < dx.size() && !f; ++i) { for (size_t j = 0; j < dy.size(); ++j) if (tm[dx[i]].w == tm[dy[j]].w && (dx.size() == 1 || evalUnder(dx[i], modelOf(9)) == evalUnder(dy[j], modelOf(9)))) { x = dx[i]; y = dy[j]; f = true; break; } }
						if (!f) break;
					}
					{ u32 p, q; if (af.get(n, p) && af.get(c, q)) { int nd = 0; size_t sx = 0, sy = 0, sd = 0; for (size_t b = 0; b < af.words[p].size(); ++b) { u32 ra = af.words[p][b], rb = af.words[q][b]; if (ra != rb) ++nd; sx = std::max(sx, af.rows[ra].size()); sy = std::max(sy, af.rows[rb].size()); sd = std::max(sd, af.rows[af.sum(ra, rb)].size()); } fprintf(stderr, "NF: %d bits differ, max row %zu %zu diff %zu\n", nd, sx, sy, sd); } else fprintf(stderr, "NF off\n"); }
					fprintf(stderr, "try %u %u: %s\n   vs %s\n", n, c, show(x, 5).c_str(), show(y, 5).c_str());
				}
				static const struct { unsigned depth; size_t nodes; } nl[] = {{2, 200}, {3, 600}, {5, 2000}, {8, 5000}};
				if (!constSig) for (auto &e : nl) if (localNF(n, c, e.depth, e.nodes)) { found = true; break; }
				if (debugOn) fprintf(stderr, "  local normal form: %d\n", (int)found);
				if (found) { ++ss.affine; n = c; ++ss.merges; break; }
				if (attempts > plain) continue;
				static const struct { unsigned depth; size_t nodes; unsigned ms; } lv[] = {{2, 60, 200}, {4, 150, 400}, {7, 400, 1000}, {12, 1500, 2500}};
				for (unsigned l = 0; l < (constSig ? 3u : 4u); ++l)
				{
					Model lm; bool prim = false;
					SatRes r = localQuery(n, c, lv[l].depth, lv[l].nodes, lv[l].ms, &lm, &prim);
					if (debugOn) fprintf(stderr, "  level %u -> %d prim %d\n", l, r, prim);
					if (r == R_UNSAT) { n = c; found = true; ++ss.merges; break; }
					if (r == R_SAT && prim)
					{
						// a genuine difference between n and c: try it on the roots
						Model full = modelOf(8 % NS);
						for (auto &e : lm) full[e.first] = e.second;
						if (confirm(full)) return P_CEX;
						Model zero; for (auto &e : full) zero[e.first] = 0;
						for (auto &e : lm) zero[e.first] = e.second;
						if (confirm(zero)) return P_CEX;
						break;
					}
					if (r == R_UNKNOWN && l >= 2) break;
				}
				if (found || nowSecs() - t0 > budget) break;
			}
		}
		if (!found) cl.push_back(n);
		if (n != t) rep[t] = n;
	}
	std::vector<std::pair<T, T>> left;
	for (auto &p : pairs) { T a = repOf(p.first), b = repOf(p.second); if (a != b) left.push_back({a, b}); }
	if (left.empty()) return P_PROVED;
	// residue: whole-cone queries under the path condition
	bool ok = true;
	for (auto &p : left)
	{
		double rest = budget - (nowSecs() - t0);
		if (rest < 1) rest = 1;
		std::vector<T> conj(pc); conj.push_back(mkNot(mkEq(p.first, p.second)));
		Model m;
		SatRes r = checkSat(conj, (unsigned)(rest * 1000), &m);
		if (r == R_SAT) { for (T t : cone) if (tm[t].op == OP_VAR && !m.count(t)) m[t] = 0; if (confirm(m)) return P_CEX; }
		if (r != R_UNSAT) ok = false;
		if (!ok) break;
	}
	return ok ? P_PROVED : P_UNKNOWN;
}
