#include "term.h"
static void memoClear();
#include <algorithm>
#include <cstring>
#include <cstring>

const char *opNames[] = {"none", "const", "var", "add", "mul", "and", "or", "xor", "concat", "extract", "sext", "ite", "eq", "ult", "slt",
	"shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "lookup"};
TermMgr tm;

static const unsigned CAP = 4096;     // flattening limit of n-ary nodes
static const unsigned XCAP = 48;       // longer exclusive-ors are not merged into a surrounding one
static const unsigned MAXRUNS = 4;    // masks with more runs stay symbolic masks
static const unsigned TABBITS = 8;    // single-index functions up to this width fold to tables

static inline u32 mix(u32 h, u32 x) { h ^= x; h *= 0x9E3779B1u; h ^= h >> 15; return h; }

static void clearMemos();
TermMgr::TermMgr() { buckets.assign(1u << 16, 0); clear(); }
void TermMgr::clear()
{
	memoClear();
	clearMemos();
	N.clear(); args.clear(); coefs.clear(); tables.clear(); tableIdx.clear(); vars.clear();
	if (buckets.size() > (1u << 20)) { buckets.clear(); buckets.shrink_to_fit(); buckets.assign(1u << 16, 0); }
	else std::fill(buckets.begin(), buckets.end(), 0);
	Node z; memset(&z, 0, sizeof(z));
	N.push_back(z);
}

T TermMgr::intern(Op op, unsigned w, const T *as, unsigned n, u128 k, u128 po, const u128 *cs)
{
	if (w == 0 || w > 128) throw Unsupported("term width " + std::to_string(w));
	u32 h = mix(mix(op * 131 + w, (u32)k ^ (u32)(k >> 32)), (u32)(k >> 64) ^ (u32)(k >> 96) ^ n);
	for (unsigned i = 0; i < n; ++i) h = mix(h, as[i]);
	if (cs) for (unsigned i = 0; i < n; ++i) h = mix(h, (u32)cs[i] ^ (u32)(cs[i] >> 32) * 7);
	u32 b = h & (buckets.size() - 1);
	for (u32 t = buckets[b]; t; t = N[t].next)
	{
		const Node &m = N[t];
		if (m.hash != h || m.op != op || m.w != w || m.n != n || m.k != k) continue;
		if (n && memcmp(&args[m.a], as, n * sizeof(T))) continue;
		if (cs && memcmp(&coefs[m.c], cs, n * sizeof(u128))) continue;
		return t;
	}
	if (N.size() > 60000000u) throw Unsupported("term limit exceeded");
	Node m; memset(&m, 0, sizeof(m));
	m.op = op; m.w = (u16)w; m.n = n; m.hash = h; m.k = k; m.po = po & mask(w);
	m.a = (u32)args.size(); args.insert(args.end(), as, as + n);
	if (cs) { m.c = (u32)coefs.size(); coefs.insert(coefs.end(), cs, cs + n); }
	m.next = buckets[b];
	u32 id = (u32)N.size();
	buckets[b] = id;
	N.push_back(m);
	if (N.size() > buckets.size() * 2)
	{
		std::vector<u32> nb(buckets.size() * 4, 0);
		for (u32 t = 1; t < N.size(); ++t) { u32 bb = N[t].hash & (nb.size() - 1); N[t].next = nb[bb]; nb[bb] = t; }
		buckets.swap(nb);
	}
	return id;
}

u32 TermMgr::internTable(Table &&t)
{
	u64 h = t.w * 1000003ull + t.bits;
	for (u64 x : t.v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
	auto r = tableIdx.equal_range(h);
	for (auto i = r.first; i != r.second; ++i)
		if (tables[i->second].w == t.w && tables[i->second].v == t.v) return i->second;
	tables.push_back(std::move(t));
	tableIdx.emplace(h, (u32)tables.size() - 1);
	return (u32)tables.size() - 1;
}

T mkConst(unsigned w, u128 k) { k &= mask(w); return tm.intern(OP_CONST, w, nullptr, 0, k, k); }
T mkVar(unsigned w, const std::string &name, u32 flags)
{
	T t = tm.intern(OP_VAR, w, nullptr, 0, tm.vars.size(), ~(u128)0);
	tm.vars.push_back({name, (u16)w, flags, t});
	return t;
}

static inline u128 sx(u128 v, unsigned w) { return (w < 128 && ((v >> (w - 1)) & 1)) ? (v | ~mask(w)) : v; }

u128 evalOp(Op op, unsigned w, const u128 *av, const u16 *aw, unsigned n, u128 k, const u128 *cs)
{
	u128 m = mask(w), r = 0;
	switch (op)
	{
	case OP_CONST: return k;
	case OP_ADD: r = k; for (unsigned i = 0; i < n; ++i) r += av[i] * cs[i]; return r & m;
	case OP_MUL: return (av[0] * av[1]) & m;
	case OP_AND: r = k; for (unsigned i = 0; i < n; ++i) r &= av[i]; return r & m;
	case OP_OR: r = k; for (unsigned i = 0; i < n; ++i) r |= av[i]; return r & m;
	case OP_XOR: r = k; for (unsigned i = 0; i < n; ++i) r ^= av[i]; return r & m;
	case OP_CONCAT: { unsigned s = 0; for (unsigned i = 0; i < n; ++i) { r |= av[i] << s; s += aw[i]; } return r & m; }
	case OP_EXTRACT: return (av[0] >> (unsigned)k) & m;
	case OP_SEXT: return sx(av[0], aw[0]) & m;
	case OP_ITE: return (av[0] & 1) ? av[1] : av[2];
	case OP_EQ: return av[0] == av[1];
	case OP_ULT: return av[0] < av[1];
	case OP_SLT: return (s128)sx(av[0], aw[0]) < (s128)sx(av[1], aw[1]);
	case OP_SHL: return (av[1] >= w) ? 0 : (av[0] << (unsigned)av[1]) & m;
	case OP_LSHR: return (av[1] >= w) ? 0 : (av[0] >> (unsigned)av[1]) & m;
	case OP_ASHR: { u128 s = sx(av[0], w); return (av[1] >= w) ? (((s >> 127) & 1) ? m : 0) : ((u128)((s128)s >> (unsigned)av[1]) & m); }
	case OP_UDIV: return av[1] ? (av[0] / av[1]) & m : m;
	case OP_UREM: return av[1] ? (av[0] % av[1]) & m : av[0];
	case OP_SDIV: { s128 a = (s128)sx(av[0], w), b = (s128)sx(av[1], w); if (!b) return (a < 0 ? 1 : m); if (b == -1) return (u128)(0 - (u128)a) & m; return (u128)(a / b) & m; }
	case OP_SREM: { s128 a = (s128)sx(av[0], w), b = (s128)sx(av[1], w); if (!b) return (u128)a & m; if (b == -1) return 0; return (u128)(a % b) & m; }
	case OP_LOOKUP: { const Table &t = tm.tables[(u32)k]; return t.v[(size_t)av[0]]; }
	default: throw Unsupported("eval");
	}
}

u128 evalNode(T t, const u128 *av)
{
	const Node &m = tm[t];
	u16 aw[256];
	std::vector<u16> big;
	u16 *p = aw;
	if (m.op == OP_CONCAT || m.op == OP_SEXT || m.op == OP_SLT)
	{
		if (m.n > sizeof(aw) / sizeof(aw[0])) { big.resize(m.n); p = big.data(); }
		for (unsigned i = 0; i < m.n; ++i) p[i] = tm[tm.arg(t, i)].w;
	}
	return evalOp(m.op, m.w, av, p, m.n, m.k, m.op == OP_ADD ? &tm.coefs[m.c] : nullptr);
}

// ---- single-index table folding -------------------------------------------------

// x as a function of idx only?  fills table
static bool tabFor(T x, T idx, std::vector<u64> &out, int depth = 3)
{
	const Node m = tm[x];
	if (m.w > 64) return false;
	size_t sz = (size_t)1 << tm[idx].w;
	if (m.op == OP_CONST) { out.assign(sz, (u64)m.k); return true; }
	if (x == idx) { out.resize(sz); for (size_t i = 0; i < sz; ++i) out[i] = i; return true; }
	if (m.op == OP_LOOKUP && tm.arg(x, 0) == idx) { out = tm.tables[(u32)m.k].v; return true; }
	if (depth == 0 || m.op == OP_VAR || m.n > 8) return false;
	if (m.op != OP_EXTRACT && m.op != OP_CONCAT && m.op != OP_XOR && m.op != OP_SEXT) return false;
	std::vector<std::vector<u64>> sub(m.n);
	for (unsigned i = 0; i < m.n; ++i) if (!tabFor(tm.arg(x, i), idx, sub[i], depth - 1)) return false;
	out.resize(sz);
	std::vector<u128> av(m.n);
	for (size_t v = 0; v < sz; ++v) { for (unsigned i = 0; i < m.n; ++i) av[i] = sub[i][v]; out[v] = (u64)evalNode(x, av.data()); }
	return true;
}
static T lookupIdx(T x)   // index of a LOOKUP inside x (looking through concat/extract)
{
	const Node &m = tm[x];
	if (m.op == OP_LOOKUP) { T i = tm.arg(x, 0); return tm[i].w <= TABBITS ? i : 0; }
	if (m.op == OP_CONCAT && m.n <= 8) for (unsigned i = 0; i < m.n; ++i) { const Node &c = tm[tm.arg(x, i)]; if (c.op == OP_LOOKUP) { T j = tm.arg(tm.arg(x, i), 0); return tm[j].w <= TABBITS ? j : 0; } else if (c.op != OP_CONST) return 0; }
	return 0;
}
// generic fold of op over args that all depend on one table index
static T tryTab(Op op, unsigned w, const T *as, unsigned n, u128 k, const u128 *cs = nullptr)
{
	if (w > 64 || n > 8) return 0;
	T idx = 0;
	for (unsigned i = 0; i < n && !idx; ++i) idx = lookupIdx(as[i]);
	if (!idx) return 0;
	std::vector<std::vector<u64>> sub(n);
	std::vector<u16> aw(n);
	for (unsigned i = 0; i < n; ++i) { if (!tabFor(as[i], idx, sub[i])) return 0; aw[i] = tm[as[i]].w; }
	size_t sz = (size_t)1 << tm[idx].w;
	std::vector<u64> v(sz);
	std::vector<u128> av(n);
	for (size_t x = 0; x < sz; ++x) { for (unsigned i = 0; i < n; ++i) av[i] = sub[i][x]; v[x] = (u64)evalOp(op, w, av.data(), aw.data(), n, k, cs); }
	return mkLookup(std::move(v), w, idx);
}


// memo of constructor calls (argument lists as given), so that repeated executions of the same code on the same
// terms cost one table lookup per operation
struct Memo
{
	struct E { u64 h; u32 at, n; T r; };
	std::vector<E> tab; std::vector<u64> arena; size_t cnt = 0;
	void clear() { tab.clear(); arena.clear(); cnt = 0; }
	static u64 hash(const u64 *d, u32 n) { u64 h = 0x9E3779B97F4A7C15ull * (n + 1); for (u32 i = 0; i < n; ++i) { h ^= d[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return h | 1; }
	T get(const u64 *d, u32 n, u64 h)
	{
		if (tab.empty()) return 0;
		size_t m = tab.size() - 1;
		for (size_t i = h & m; tab[i].h; i = (i + 1) & m) if (tab[i].h == h && tab[i].n == n && !memcmp(&arena[tab[i].at], d, n * 8)) return tab[i].r;
		return 0;
	}
	void put(const u64 *d, u32 n, u64 h, T r)
	{
		if (tab.empty()) tab.resize(1 << 14);
		if (cnt * 2 > tab.size()) { std::vector<E> o(tab.size() * 2); o.swap(tab); size_t m = tab.size() - 1; for (auto &e : o) if (e.h) { size_t i = e.h & m; while (tab[i].h) i = (i + 1) & m; tab[i] = e; } }
		size_t m = tab.size() - 1, i = h & m;
		while (tab[i].h) i = (i + 1) & m;
		tab[i] = {h, (u32)arena.size(), n, r}; arena.insert(arena.end(), d, d + n); ++cnt;
	}
};
static Memo memo;
static void memoClear() { memo.clear(); }
static T memoList(Op op, unsigned w, const std::vector<T> &l, u128 k, T (*f)(unsigned, const std::vector<T> &, u128))
{
	u64 buf[72]; u32 n = 0;
	if (l.size() < 2 || l.size() > 64) return f(w, l, k);
	buf[n++] = (u64)op << 32 | w; buf[n++] = (u64)k; buf[n++] = (u64)(k >> 64);
	for (T t : l) buf[n++] = t;
	u64 h = Memo::hash(buf, n);
	if (T r = memo.get(buf, n, h)) return r;
	T r = f(w, l, k);
	memo.put(buf, n, h, r);
	return r;
}

T mkLookup(std::vector<u64> v, unsigned w, T idx)
{
	unsigned bits = tm[idx].w;
	if (bits > 16) throw Unsupported("lookup index too wide");
	v.resize((size_t)1 << bits);
	const Node m = tm[idx];
	if (m.op == OP_CONST) return mkConst(w, v[(size_t)m.k]);
	bool same = true, ident = (w >= bits);
	for (size_t i = 0; i < v.size(); ++i) { v[i] &= (u64)mask(w); if (v[i] != v[0]) same = false; if (v[i] != i) ident = false; }
	if (same) return mkConst(w, v[0]);
	if (ident) return mkZext(idx, w);
	if (bits == 1) return mkIte(idx, mkConst(w, v[1]), mkConst(w, v[0]));
	if (m.op == OP_XOR && m.k != 0)
	{
		std::vector<T> as(tm.A(idx), tm.A(idx) + m.n);
		std::vector<u64> p(v.size());
		for (size_t i = 0; i < v.size(); ++i) p[i ^ (size_t)m.k] = v[i];
		return mkLookup(std::move(p), w, mkXor(bits, as, 0));
	}
	if (m.op == OP_CONCAT)
	{
		bool anyC = false;
		for (unsigned i = 0; i < m.n; ++i) if (tm.isC(tm.arg(idx, i))) anyC = true;
		if (anyC)
		{
			std::vector<T> parts; unsigned nb = 0;
			struct Seg { unsigned from, to, w; bool c; u64 k; };
			std::vector<Seg> segs; unsigned pos = 0;
			for (unsigned i = 0; i < m.n; ++i)
			{
				T a = tm.arg(idx, i); unsigned aw = tm[a].w;
				if (tm.isC(a)) segs.push_back({0, pos, aw, true, (u64)tm[a].k});
				else { segs.push_back({nb, pos, aw, false, 0}); parts.push_back(a); nb += aw; }
				pos += aw;
			}
			std::vector<u64> p((size_t)1 << nb);
			for (size_t i = 0; i < p.size(); ++i)
			{
				size_t full = 0;
				for (auto &s : segs) full |= (s.c ? (size_t)s.k : ((i >> s.from) & (size_t)mask(s.w))) << s.to;
				p[i] = v[full];
			}
			return mkLookup(std::move(p), w, mkConcat(parts));
		}
	}
	if (m.op == OP_LOOKUP || m.op == OP_CONCAT)
	{
		T j = lookupIdx(idx);
		std::vector<u64> inner;
		if (j && j != idx && tabFor(idx, j, inner))
		{
			std::vector<u64> p(inner.size());
			for (size_t i = 0; i < p.size(); ++i) p[i] = v[(size_t)inner[i]];
			return mkLookup(std::move(p), w, j);
		}
	}
	u64 po = 0; for (u64 x : v) po |= x;
	unsigned top = 64; while (top && !((po >> (top - 1)) & 1)) --top;
	if (top < w) return mkZext(mkLookup(std::move(v), top, idx), w);
	Table t; t.w = (u16)w; t.bits = (u16)bits; t.v = std::move(v);
	u32 id = tm.internTable(std::move(t));
	return tm.intern(OP_LOOKUP, w, &idx, 1, id, po);
}
T mkLookup(u32 table, T idx) { Table t = tm.tables[table]; return mkLookup(std::move(t.v), t.w, idx); }

// ---- structure: concat / extract ------------------------------------------------

static T rawConcat(const std::vector<T> &p)
{
	unsigned w = 0; u128 po = 0;
	for (T x : p) { if (w + tm[x].w > 128) throw Unsupported("concat wider than 128"); po |= tm[x].po << w; w += tm[x].w; }
	return tm.intern(OP_CONCAT, w, p.data(), (unsigned)p.size(), 0, po);
}

static T implConcat(unsigned, const std::vector<T> &in, u128);
T mkConcat(const std::vector<T> &in) { return memoList(OP_CONCAT, 0, in, 0, implConcat); }
static T implConcat(unsigned, const std::vector<T> &in, u128)
{
	std::vector<T> p;
	for (T x : in)
	{
		if (tm[x].op == OP_CONCAT) p.insert(p.end(), tm.A(x), tm.A(x) + tm[x].n);
		else p.push_back(x);
	}
	if (p.size() == 1) return p[0];
	// peel xor constants of single-argument xors (keeps  x ^ k  together across byte moves)
	bool peel = false;
	for (T x : p) if (tm[x].op == OP_XOR && tm[x].n == 1 && tm[x].w > 1) { peel = true; break; }
	if (peel)
	{
		u128 k = 0; unsigned pos = 0; std::vector<T> q;
		for (T x : p)
		{
			unsigned w = tm[x].w;
			if (tm[x].op == OP_XOR && tm[x].n == 1) { k |= tm[x].k << pos; q.push_back(tm.arg(x, 0)); }
			else q.push_back(x);
			pos += w;
		}
		if (pos > 128) throw Unsupported("concat wider than 128");
		T c = mkConcat(q);
		return mkXor(pos, {c}, k);
	}
	std::vector<T> r;
	for (T x : p)
	{
		while (true)
		{
			if (r.empty()) break;
			T y = r.back();   // y is the less significant neighbour of x
			const Node &nx = tm[x], &ny = tm[y];
			T merged = 0;
			if (nx.op == OP_CONST && ny.op == OP_CONST && nx.w + ny.w <= 128) merged = mkConst(nx.w + ny.w, (nx.k << ny.w) | ny.k);
			else if (nx.op == OP_EXTRACT && ny.op == OP_EXTRACT && tm.arg(x, 0) == tm.arg(y, 0) && ny.k + ny.w == nx.k)
				merged = mkExtract(tm.arg(x, 0), (unsigned)ny.k, nx.w + ny.w);
			else if (nx.op == OP_ITE && ny.op == OP_ITE && tm.arg(x, 0) == tm.arg(y, 0) && nx.w + ny.w <= 128)
			{
				T c = tm.arg(x, 0), xa = tm.arg(x, 1), xb = tm.arg(x, 2), ya = tm.arg(y, 1), yb = tm.arg(y, 2);
				T ma = mkConcat({ya, xa}), mb = mkConcat({yb, xb});
				merged = mkIte(c, ma, mb);
				if (tm[merged].op == OP_CONCAT) merged = 0;
			}
			else if (nx.op == OP_LOOKUP && ny.op == OP_LOOKUP && tm.arg(x, 0) == tm.arg(y, 0) && nx.w + ny.w <= 64)
			{
				std::vector<u64> v = tm.tables[(u32)ny.k].v; const std::vector<u64> &vx = tm.tables[(u32)nx.k].v;
				for (size_t i = 0; i < v.size(); ++i) v[i] |= vx[i] << ny.w;
				unsigned mw = nx.w + ny.w;
				merged = mkLookup(std::move(v), mw, tm.arg(x, 0));
				if (tm[merged].op == OP_CONCAT) merged = 0;
			}
			if (!merged) break;
			r.pop_back();
			x = merged;
		}
		r.push_back(x);
	}
	if (r.size() == 1) return r[0];
	for (T x : r) if (tm[x].op == OP_CONCAT) { if (r == in) break; return mkConcat(r); }
	return rawConcat(r);
}

static bool structural(T x)   // extracting from x never creates a deeper term
{
	switch (tm[x].op) { case OP_CONST: case OP_CONCAT: case OP_LOOKUP: case OP_EXTRACT: case OP_VAR: return true; default: return false; }
}

static T implExtract(T x, unsigned lo, unsigned w);
T mkExtract(T x, unsigned lo, unsigned w)
{
	Op op = tm[x].op;
	if (op == OP_CONST || op == OP_VAR || (lo == 0 && w == tm[x].w)) return implExtract(x, lo, w);
	u64 buf[2] = {(u64)OP_EXTRACT << 32 | w | (u64)lo << 16, x};
	u64 h = Memo::hash(buf, 2);
	if (T r = memo.get(buf, 2, h)) return r;
	T r = implExtract(x, lo, w);
	memo.put(buf, 2, h, r);
	return r;
}
static T implExtract(T x, unsigned lo, unsigned w)
{
	const Node m = tm[x];
	if (lo == 0 && w == m.w) return x;
	if (lo + w > m.w) throw Unsupported("extract out of range");
	if (m.op == OP_CONST) return mkConst(w, m.k >> lo);
	if (((m.po >> lo) & mask(w)) == 0) return mkConst(w, 0);
	switch (m.op)
	{
	case OP_EXTRACT: return mkExtract(tm.arg(x, 0), lo + (unsigned)m.k, w);
	case OP_CONCAT:
	{
		std::vector<T> p; unsigned pos = 0;
		std::vector<T> as(tm.A(x), tm.A(x) + m.n);
		for (T a : as)
		{
			unsigned aw = tm[a].w, b = std::max(lo, pos), e = std::min(lo + w, pos + aw);
			if (b < e) p.push_back(mkExtract(a, b - pos, e - b));
			pos += aw;
		}
		return mkConcat(p);
	}
	case OP_SEXT:
	{
		T a = tm.arg(x, 0); unsigned aw = tm[a].w;
		if (lo + w <= aw) return mkExtract(a, lo, w);
		if (lo >= aw) return mkSext(mkExtract(a, aw - 1, 1), w);
		return mkSext(mkExtract(a, lo, aw - lo), w);
	}
	case OP_ITE:
	{
		T c = tm.arg(x, 0), a = tm.arg(x, 1), b = tm.arg(x, 2);
		if (structural(a) || structural(b) || tm[a].op == OP_ITE || tm[b].op == OP_ITE) return mkIte(c, mkExtract(a, lo, w), mkExtract(b, lo, w));
		break;
	}
	case OP_LOOKUP:
	{
		std::vector<u64> v = tm.tables[(u32)m.k].v;
		for (u64 &e : v) e = (e >> lo) & (u64)mask(w);
		return mkLookup(std::move(v), w, tm.arg(x, 0));
	}
	case OP_XOR: case OP_AND: case OP_OR:
	{
		std::vector<T> as(tm.A(x), tm.A(x) + m.n);
		bool push = m.n <= 1;
		unsigned nonC = 0; bool look = false;
		if (!push)
		{
			for (T a : as)
			{
				const Node &q = tm[a];
				if (q.op == OP_LOOKUP) look = true;
				bool cst = ((q.po >> lo) & mask(w)) == 0;
				if (!cst && q.op == OP_CONCAT)
				{
					unsigned pos = 0;
					for (unsigned i = 0; i < q.n; ++i) { T s = tm.arg(a, i); if (tm.isC(s) && pos <= lo && lo + w <= pos + tm[s].w) cst = true; pos += tm[s].w; }
				}
				if (!cst) ++nonC;
			}
			push = (nonC <= 1) || (look && m.n <= 24);
			if (m.op == OP_AND && !push) for (T a : as) if (((tm[a].po >> lo) & mask(w)) == 0) push = true;
		}
		if (!push) break;
		for (T &a : as) a = mkExtract(a, lo, w);
		u128 k = m.k >> lo;
		if (m.op == OP_XOR) return mkXor(w, as, k & mask(w));
		if (m.op == OP_AND) return mkAnd(w, as, k & mask(w));
		return mkOr(w, as, k & mask(w));
	}
	case OP_ADD:
		if (lo == 0)
		{
			bool ok = true;
			for (unsigned i = 0; i < m.n && ok; ++i)
			{
				T a = tm.arg(x, i); const Node &q = tm[a];
				if (q.po & ~mask(w)) { if (q.op == OP_SEXT && tm[tm.arg(a, 0)].w <= w) continue; ok = false; }
			}
			if (ok)
			{
				AddList l; std::vector<T> as(tm.A(x), tm.A(x) + m.n);
				for (unsigned i = 0; i < m.n; ++i) { u128 c = tm.coef(x, i); l.push_back({mkExtract(as[i], 0, w), c}); }
				return mkAdd(w, l, m.k);
			}
		}
		break;
	case OP_MUL:
		if (lo == 0 && !((tm[tm.arg(x, 0)].po | tm[tm.arg(x, 1)].po) & ~mask(w)))
		{
			T a = tm.arg(x, 0), b = tm.arg(x, 1);
			return mkMul(mkExtract(a, 0, w), mkExtract(b, 0, w));
		}
		break;
	default: break;
	}
	return tm.intern(OP_EXTRACT, w, &x, 1, lo, m.po >> lo);
}

T mkZext(T x, unsigned w)
{
	unsigned xw = tm[x].w;
	if (w == xw) return x;
	return mkConcat({x, mkConst(w - xw, 0)});
}
T mkSext(T x, unsigned w)
{
	const Node m = tm[x];
	if (w == m.w) return x;
	if (m.op == OP_CONST) return mkConst(w, sx(m.k, m.w));
	if (!((m.po >> (m.w - 1)) & 1)) return mkZext(x, w);
	if (m.w == 1) return mkIte(x, mkConst(w, ~(u128)0), mkConst(w, 0));
	if (m.op == OP_SEXT) return mkSext(tm.arg(x, 0), w);
	if (T t = tryTab(OP_SEXT, w, &x, 1, 0)) return t;
	return tm.intern(OP_SEXT, w, &x, 1, 0, ~(u128)0);
}

// ---- bitwise ----------------------------------------------------------------------

static unsigned runsOf(u128 m, unsigned w) { u128 e = m ^ (m << 1); e &= mask(w); unsigned c = 0; while (e) { e &= e - 1; ++c; } return c; }

// args (with pairwise disjoint possible-one masks) plus constant k -> concat
static T disjoint(unsigned w, const std::vector<T> &as, u128 k)
{
	u128 edges = 0;
	for (T a : as) { u128 p = tm[a].po; edges |= p ^ (p << 1); }
	edges &= mask(w);
	unsigned cnt = 0; { u128 e = edges; while (e) { e &= e - 1; ++cnt; } }
	if (cnt > 2 * MAXRUNS + as.size()) return 0;
	std::vector<T> p;
	unsigned pos = 0;
	while (pos < w)
	{
		unsigned e = pos + 1;
		while (e < w && !((edges >> e) & 1)) ++e;
		T own = 0;
		for (T a : as) if ((tm[a].po >> pos) & 1) own = a;
		if (own && ((k >> pos) & mask(e - pos))) return 0;
		p.push_back(own ? mkExtract(own, pos, e - pos) : mkConst(e - pos, k >> pos));
		pos = e;
	}
	return mkConcat(p);
}
static bool pairwiseDisjoint(const std::vector<T> &as, u128 k)
{
	u128 acc = k;
	for (T a : as) { if (acc & tm[a].po) return false; acc |= tm[a].po; }
	return true;
}

T mkNot(T a) { return mkXor(tm[a].w, {a}, mask(tm[a].w)); }

static T anfMono(unsigned w, std::vector<T> mono, u128 k);
static const std::vector<T> &bitLeaves(T x);
static T disjointSum(T a, T b);
static T implXor(unsigned w, const std::vector<T> &in, u128 k);
T mkXor(unsigned w, const std::vector<T> &in, u128 k) { return memoList(OP_XOR, w, in, k, implXor); }
static T implXor(unsigned w, const std::vector<T> &in, u128 k)
{
	k &= mask(w);
	std::vector<T> l;
	for (T a : in)
	{
		const Node &m = tm[a];
		if (m.op == OP_CONST) k ^= m.k;
		else if (m.op == OP_XOR && (m.n <= XCAP || (m.n <= 2 * XCAP && std::any_of(tm.A(a), tm.A(a) + m.n, [](T x) { return tm[x].op == OP_LOOKUP; }))) && m.n + l.size() <= CAP) { k ^= m.k; l.insert(l.end(), tm.A(a), tm.A(a) + m.n); }
		else l.push_back(a);
	}
	std::sort(l.begin(), l.end());
	std::vector<T> r;
	for (T a : l) { if (!r.empty() && r.back() == a) r.pop_back(); else r.push_back(a); }
	l.swap(r);
	if (l.empty()) return mkConst(w, k);
	if (l.size() >= 2)
	{
		// constant pieces of concatenations join the constant of the sum; pieces of different terms are separate summands
		bool ch = false;
		std::vector<T> nl;
		for (T a : l)
		{
			if (tm[a].op != OP_CONCAT) { nl.push_back(a); continue; }
			std::vector<T> src; bool has = false;
			std::vector<T> as(tm.A(a), tm.A(a) + tm[a].n);
			for (T p : as)
			{
				if (tm.isC(p)) { if (tm[p].k) has = true; src.push_back(0); }
				else src.push_back(tm[p].op == OP_EXTRACT ? tm.arg(p, 0) : p);
			}
			std::vector<T> dist;
			for (T q : src) if (q && std::find(dist.begin(), dist.end(), q) == dist.end()) dist.push_back(q);
			if (!has && dist.size() <= 1) { nl.push_back(a); continue; }
			ch = true;
			unsigned pos = 0;
			for (T p : as) { if (tm.isC(p)) k ^= tm[p].k << pos; pos += tm[p].w; }
			for (T d : dist)
			{
				std::vector<T> ps;
				for (size_t i = 0; i < as.size(); ++i) ps.push_back(src[i] == d ? as[i] : mkConst(tm[as[i]].w, 0));
				nl.push_back(mkConcat(ps));
			}
		}
		l.swap(nl);
		if (ch) return mkXor(w, l, k);
	}
	if (l.size() >= 2 && w > 1)
	{
		// (m & k1) ^ (m & k2)  ->  m & (k1 ^ k2)   for and-monomials m
		for (size_t i = 0; i < l.size(); ++i)
		{
			const Node m = tm[l[i]];
			if (m.op != OP_AND || m.k == mask(w)) continue;
			for (size_t j = 0; j < l.size(); ++j)
			{
				if (j == i) continue;
				const Node q = tm[l[j]];
				bool sameMono = (m.n == 1 && l[j] == tm.arg(l[i], 0)) || (q.op == OP_AND && q.n == m.n && std::equal(tm.A(l[i]), tm.A(l[i]) + m.n, tm.A(l[j])));
				if (!sameMono) continue;
				u128 kk = m.k ^ (q.op == OP_AND && !(m.n == 1 && l[j] == tm.arg(l[i], 0)) ? q.k : mask(w));
				std::vector<T> mono(tm.A(l[i]), tm.A(l[i]) + m.n), rest;
				T c = anfMono(w, mono, kk);
				for (size_t e = 0; e < l.size(); ++e) if (e != i && e != j) rest.push_back(l[e]);
				rest.push_back(c);
				return mkXor(w, rest, k);
			}
		}
	}
	if (l.size() >= 2)
	{
		// combine functions of one table index
		bool anyLook = false; for (T a : l) if (lookupIdx(a)) { anyLook = true; break; }
		if (anyLook && w <= 64)
		{
			std::vector<std::pair<T, T>> g;   // idx, arg
			for (T a : l) { T i = lookupIdx(a); if (i) g.push_back({i, a}); }
			std::sort(g.begin(), g.end());
			for (size_t i = 0; i < g.size(); ++i)
			{
				size_t j = i; while (j < g.size() && g[j].first == g[i].first) ++j;
				std::vector<T> same;
				for (size_t q = i; q < j; ++q) same.push_back(g[q].second);
				for (T a : l) if (a == g[i].first) same.push_back(a);
				if (same.size() >= 2)
				{
					T t = (same.size() <= 8) ? tryTab(OP_XOR, w, same.data(), (unsigned)same.size(), 0) : 0;
					if (t)
					{
						std::vector<T> rest{t};
						for (T a : l) if (std::find(same.begin(), same.end(), a) == same.end()) rest.push_back(a);
						return mkXor(w, rest, k);
					}
				}
				i = j - 1;
			}
		}
		if (w > 1 && pairwiseDisjoint(l, k)) if (T t = disjoint(w, l, k)) return t;
		// ITE(c,a,0)-style pairs over the same condition
		return tm.intern(OP_XOR, w, l.data(), (unsigned)l.size(), k, [&] { u128 p = k; for (T a : l) p |= tm[a].po; return p; }());
	}
	T a = l[0];
	if (k == 0) return a;
	const Node m = tm[a];
	if (m.op == OP_LOOKUP)
	{
		std::vector<u64> v = tm.tables[(u32)m.k].v;
		for (u64 &e : v) e ^= (u64)k;
		return mkLookup(std::move(v), w, tm.arg(a, 0));
	}
	if (m.op == OP_ITE && w > 1)
	{
		T c = tm.arg(a, 0), x = tm.arg(a, 1), y = tm.arg(a, 2);
		if (tm.isC(x) || tm.isC(y)) return mkIte(c, mkXor(w, {x}, k), mkXor(w, {y}, k));
	}
	if (m.op == OP_ADD && k == mask(w))
	{
		AddList al; for (unsigned i = 0; i < m.n; ++i) al.push_back({tm.arg(a, i), 0 - tm.coef(a, i)});
		return mkAdd(w, al, (0 - m.k) - 1);
	}
	if (m.op == OP_CONCAT)
	{
		unsigned pos = 0; bool hit = false;
		std::vector<T> as(tm.A(a), tm.A(a) + m.n);
		for (T &s : as)
		{
			unsigned sw = tm[s].w; u128 kk = (k >> pos) & mask(sw);
			if (kk && tm.isC(s)) { s = mkConst(sw, tm[s].k ^ kk); k &= ~(mask(sw) << pos); hit = true; }
			else if (kk && sw == 1 && tm[s].op == OP_XOR && tm[s].n == 1) { s = tm.arg(s, 0); k &= ~(mask(sw) << pos); hit = true; }
			else if (kk && tm[s].op == OP_LOOKUP) { s = mkXor(sw, {s}, kk); k &= ~(mask(sw) << pos); hit = true; }
			pos += sw;
		}
		if (hit) return mkXor(w, {mkConcat(as)}, k);
	}
	if (m.op == OP_SEXT && (k == mask(w))) return mkSext(mkNot(tm.arg(a, 0)), w);
	return tm.intern(OP_XOR, w, l.data(), 1, k, k | m.po);
}

static bool hasComplement(const std::vector<T> &l)   // l sorted
{
	for (T a : l)
	{
		const Node &m = tm[a];
		if (m.op == OP_XOR && m.n == 1 && m.k == mask(m.w) && std::binary_search(l.begin(), l.end(), tm.arg(a, 0))) return true;
	}
	return false;
}

static std::unordered_map<u64, T> &disjointMemoRef();
static std::unordered_map<T, std::vector<T>> &bitLeavesRef();
static void clearMemos() { disjointMemoRef().clear(); bitLeavesRef().clear(); }
static T maskSplit(T x, u128 k)   // x & k as a concatenation of slices of x
{
	unsigned w = tm[x].w, pos = 0; std::vector<T> p;
	while (pos < w)
	{
		unsigned e = pos + 1, bit = (unsigned)((k >> pos) & 1);
		while (e < w && ((k >> e) & 1) == bit) ++e;
		p.push_back(bit ? mkExtract(x, pos, e - pos) : mkConst(e - pos, 0));
		pos = e;
	}
	return mkConcat(p);
}

// ---- canonical form of bitwise functions of few words: exclusive-or of and-monomials ----
static const unsigned ANFLEAVES = 4;
struct AnfLeaves { T l[ANFLEAVES]; unsigned n = 0; };
// leaf and whether it is used complemented
static std::pair<T, bool> anfLeaf(T x)
{
	const Node m = tm[x];
	if (m.op == OP_XOR && m.n == 1 && m.k == mask(m.w)) { auto r = anfLeaf(tm.arg(x, 0)); r.second = !r.second; return r; }
	if (m.op == OP_ADD) { T c = mkNot(x); if (tm[c].op == OP_ADD && c < x) return {c, true}; }
	return {x, false};
}
static bool anfCollect(T x, AnfLeaves &L, int depth)
{
	const Node m = tm[x];
	if (m.op == OP_CONST) return true;
	bool bitop = depth > 0 && m.n <= 16 && (m.op == OP_AND || m.op == OP_OR || m.op == OP_XOR);
	if (bitop)
	{
		AnfLeaves keep = L; bool ok = true;
		for (unsigned i = 0; i < m.n && ok; ++i) ok = anfCollect(tm.arg(x, i), L, depth - 1);
		if (ok) return true;
		L = keep;
	}
	T l = anfLeaf(x).first;
	for (unsigned i = 0; i < L.n; ++i) if (L.l[i] == l) return true;
	if (L.n == ANFLEAVES) return false;
	L.l[L.n++] = l;
	return true;
}
struct AnfPoly { u128 c[1u << ANFLEAVES]; };
static AnfPoly anfMul(const AnfPoly &a, const AnfPoly &b, unsigned n)
{
	AnfPoly r; memset(&r, 0, sizeof r);
	for (unsigned i = 0; i < (1u << n); ++i) if (a.c[i]) for (unsigned j = 0; j < (1u << n); ++j) if (b.c[j]) r.c[i | j] ^= a.c[i] & b.c[j];
	return r;
}
static AnfPoly anfPoly(T x, const AnfLeaves &L)
{
	AnfPoly r; memset(&r, 0, sizeof r);
	const Node m = tm[x];
	if (m.op == OP_CONST) { r.c[0] = m.k; return r; }
	auto lf = anfLeaf(x);
	for (unsigned i = 0; i < L.n; ++i) if (L.l[i] == lf.first) { r.c[1u << i] = tm[lf.first].po; if (lf.second) r.c[0] = mask(m.w); return r; }
	if (m.op == OP_XOR) { r.c[0] = m.k; for (unsigned i = 0; i < m.n; ++i) { AnfPoly v = anfPoly(tm.arg(x, i), L); for (unsigned q = 0; q < (1u << L.n); ++q) r.c[q] ^= v.c[q]; } return r; }
	if (m.op == OP_AND) { r.c[0] = m.k; for (unsigned i = 0; i < m.n; ++i) r = anfMul(r, anfPoly(tm.arg(x, i), L), L.n); return r; }
	r.c[0] = m.k;
	for (unsigned i = 0; i < m.n; ++i) { AnfPoly v = anfPoly(tm.arg(x, i), L), q = anfMul(r, v, L.n); for (unsigned e = 0; e < (1u << L.n); ++e) r.c[e] ^= v.c[e] ^ q.c[e]; }
	return r;
}
static T anfMono(unsigned w, std::vector<T> mono, u128 k)
{
	for (T x : mono) k &= tm[x].po;
	if (!k) return mkConst(w, 0);
	if (mono.size() == 1 && !(tm[mono[0]].po & ~k)) return mono[0];
	if (mono.size() == 1 && runsOf(k, w) <= 2 * MAXRUNS) return maskSplit(mono[0], k);
	std::sort(mono.begin(), mono.end());
	return tm.intern(OP_AND, w, mono.data(), (unsigned)mono.size(), k, k);
}
// a & b == 0 whatever the leaves are: then a + b == a ^ b
static std::unordered_map<u64, T> &disjointMemoRef() { static std::unordered_map<u64, T> m; return m; }
static std::unordered_map<T, std::vector<T>> &bitLeavesRef() { static std::unordered_map<T, std::vector<T>> m; return m; }
#define disjointMemo disjointMemoRef()
#define bitLeavesMemo bitLeavesRef()
static const std::vector<T> &bitLeaves(T x)   // leaves of a small bitwise term (empty: not one)
{
	auto it = bitLeavesMemo.find(x);
	if (it != bitLeavesMemo.end()) return it->second;
	std::vector<T> r;
	const Node &m = tm[x];
	if (m.w > 1 && (m.op == OP_AND || (m.op == OP_XOR && m.n <= 15)))
	{
		AnfLeaves L;
		if (anfCollect(x, L, 6)) r.assign(L.l, L.l + L.n);
	}
	return bitLeavesMemo[x] = r;
}
static T disjointSum(T a, T b)   // a ^ b when a & b is identically zero, else 0
{
	if (a > b) std::swap(a, b);
	u64 key = (u64)a << 32 | b;
	auto it = disjointMemo.find(key);
	if (it != disjointMemo.end()) return it->second;
	T r = 0;
	AnfLeaves L;
	if (anfCollect(a, L, 6) && anfCollect(b, L, 6))
	{
		AnfPoly q = anfMul(anfPoly(a, L), anfPoly(b, L), L.n);
		bool zero = true; for (unsigned i = 0; i < (1u << L.n); ++i) if (q.c[i]) zero = false;
		if (zero) r = mkXor(tm[a].w, {a, b}, 0);
	}
	return disjointMemo[key] = r;
}
static T anf(Op op, unsigned w, const std::vector<T> &l, u128 k)   // AND / OR of l and k, or 0
{
	AnfLeaves L;
	for (T a : l) if (!anfCollect(a, L, 6)) return 0;
	AnfPoly r; memset(&r, 0, sizeof r); r.c[0] = k;
	for (T a : l)
	{
		AnfPoly v = anfPoly(a, L), q = anfMul(r, v, L.n);
		if (op == OP_AND) r = q; else for (unsigned e = 0; e < (1u << L.n); ++e) r.c[e] ^= v.c[e] ^ q.c[e];
	}
	std::vector<T> terms;
	for (unsigned i = 1; i < (1u << L.n); ++i) if (r.c[i])
	{
		std::vector<T> mono;
		for (unsigned b = 0; b < L.n; ++b) if (i >> b & 1) mono.push_back(L.l[b]);
		terms.push_back(anfMono(w, mono, r.c[i]));
	}
	return mkXor(w, terms, r.c[0]);
}

static T implAnd(unsigned w, const std::vector<T> &in, u128 k);
T mkAnd(unsigned w, const std::vector<T> &in, u128 k) { return memoList(OP_AND, w, in, k, implAnd); }
static T implAnd(unsigned w, const std::vector<T> &in, u128 k)
{
	u128 full = mask(w);
	k &= full;
	std::vector<T> l;
	T cond = 0;
	for (T a : in)
	{
		const Node &m = tm[a];
		if (m.op == OP_CONST) k &= m.k;
		else if (m.op == OP_AND && m.n + l.size() <= CAP) { k &= m.k; l.insert(l.end(), tm.A(a), tm.A(a) + m.n); }
		else if (w > 1 && m.op == OP_ITE && tm.isC(tm.arg(a, 1)) && tm.isC(tm.arg(a, 2)) && tm[tm.arg(a, 1)].k == full && tm[tm.arg(a, 2)].k == 0)
			cond = cond ? mkAnd2(cond, tm.arg(a, 0)) : tm.arg(a, 0);
		else if (w > 1 && m.op == OP_ITE && tm.isC(tm.arg(a, 1)) && tm.isC(tm.arg(a, 2)) && tm[tm.arg(a, 2)].k == full && tm[tm.arg(a, 1)].k == 0)
			cond = cond ? mkAnd2(cond, mkNot(tm.arg(a, 0))) : mkNot(tm.arg(a, 0));
		else l.push_back(a);
	}
	if (cond) { T r = mkAnd(w, l, k); return mkIte(cond, r, mkConst(w, 0)); }
	std::sort(l.begin(), l.end());
	l.erase(std::unique(l.begin(), l.end()), l.end());
	for (T a : l) k &= tm[a].po;
	if (k == 0) return mkConst(w, 0);
	if (l.empty()) return mkConst(w, k);
	if (hasComplement(l)) return mkConst(w, 0);
	if (k != full && l.size() == 1 && runsOf(k, w) <= 2 * MAXRUNS) return maskSplit(l[0], k);
	if (l.size() == 1 && k == full) return l[0];
	if (T t = tryTab(OP_AND, w, l.data(), (unsigned)l.size(), k)) return t;
	if (w > 1) if (T t = anf(OP_AND, w, l, k)) return t;
	return tm.intern(OP_AND, w, l.data(), (unsigned)l.size(), k, k);
}

static T implOr(unsigned w, const std::vector<T> &in, u128 k);
T mkOr(unsigned w, const std::vector<T> &in, u128 k) { return memoList(OP_OR, w, in, k, implOr); }
static T implOr(unsigned w, const std::vector<T> &in, u128 k)
{
	u128 full = mask(w);
	k &= full;
	if (w == 1)
	{
		if (k) return mkConst(1, 1);
		std::vector<T> q; for (T a : in) q.push_back(mkNot(a));
		return mkNot(mkAnd(1, q, 1));
	}
	std::vector<T> l;
	T cond = 0;
	for (T a : in)
	{
		const Node &m = tm[a];
		if (m.op == OP_CONST) k |= m.k;
		else if (m.op == OP_OR && m.n + l.size() <= CAP) { k |= m.k; l.insert(l.end(), tm.A(a), tm.A(a) + m.n); }
		else l.push_back(a);
	}
	(void)cond;
	std::sort(l.begin(), l.end());
	l.erase(std::unique(l.begin(), l.end()), l.end());
	if (k == full) return mkConst(w, full);
	if (l.empty()) return mkConst(w, k);
	if (l.size() == 1 && k == 0) return l[0];
	if (hasComplement(l)) return mkConst(w, full);
	if (k != 0 && runsOf(k, w) <= 2 * MAXRUNS)
	{
		std::vector<T> p; unsigned pos = 0;
		while (pos < w)
		{
			unsigned e = pos + 1, bit = (unsigned)((k >> pos) & 1);
			while (e < w && ((k >> e) & 1) == bit) ++e;
			if (bit) p.push_back(mkConst(e - pos, ~(u128)0));
			else { std::vector<T> q; for (T a : l) q.push_back(mkExtract(a, pos, e - pos)); p.push_back(mkOr(e - pos, q, 0)); }
			pos = e;
		}
		return mkConcat(p);
	}
	if (pairwiseDisjoint(l, k)) if (T t = disjoint(w, l, k)) return t;
	if (T t = tryTab(OP_OR, w, l.data(), (unsigned)l.size(), k)) return t;
	if (T t = anf(OP_OR, w, l, k)) return t;
	u128 po = k; for (T a : l) po |= tm[a].po;
	return tm.intern(OP_OR, w, l.data(), (unsigned)l.size(), k, po);
}

// ---- arithmetic -------------------------------------------------------------------

static T implAdd(unsigned w, const AddList &in, u128 k);
T mkAdd(unsigned w, const AddList &in, u128 k)
{
	u64 buf[200]; u32 n = 0;
	if (in.size() < 2 || in.size() > 60) return implAdd(w, in, k);
	buf[n++] = (u64)OP_ADD << 32 | w; buf[n++] = (u64)k; buf[n++] = (u64)(k >> 64);
	for (auto &e : in) { buf[n++] = e.first; buf[n++] = (u64)e.second; buf[n++] = (u64)(e.second >> 64); }
	u64 h = Memo::hash(buf, n);
	if (T r = memo.get(buf, n, h)) return r;
	T r = implAdd(w, in, k);
	memo.put(buf, n, h, r);
	return r;
}
static T implAdd(unsigned w, const AddList &in, u128 k)
{
	u128 full = mask(w);
	AddList l;
	for (auto &e : in)
	{
		T a = e.first; u128 c = e.second & full;
		if (c == 0) continue;
		const Node m = tm[a];
		if (m.op == OP_CONST) k += m.k * c;
		else if (m.op == OP_ADD && m.n + l.size() <= CAP)
		{
			k += m.k * c;
			for (unsigned i = 0; i < m.n; ++i) l.push_back({tm.arg(a, i), (tm.coef(a, i) * c) & full});
		}
		else if (m.op == OP_XOR && m.n == 1 && m.k == full) { l.push_back({tm.arg(a, 0), (0 - c) & full}); k -= c; }
		else if (m.op == OP_CONCAT && m.n == 2 && tm.isC(tm.arg(a, 0)) && tm[tm.arg(a, 0)].k == 0 && tm[tm.arg(a, 1)].op == OP_EXTRACT && tm[tm.arg(a, 1)].k == 0 && tm[tm.arg(tm.arg(a, 1), 0)].w == w)
		{
			T x = tm.arg(tm.arg(a, 1), 0); u128 cc = (c << tm[tm.arg(a, 0)].w) & full;
			if (tm[x].op == OP_ADD) { T r = mkAdd(w, {{x, cc}}, 0); if (tm[r].op == OP_ADD && tm[r].n + l.size() <= CAP) { k += tm[r].k; for (unsigned i = 0; i < tm[r].n; ++i) l.push_back({tm.arg(r, i), tm.coef(r, i)}); } else l.push_back({x, cc}); }
			else l.push_back({x, cc});
		}
		else l.push_back({a, c});
	}
	k &= full;
	std::sort(l.begin(), l.end(), [](const std::pair<T, u128> &x, const std::pair<T, u128> &y) { return x.first < y.first; });
	AddList r;
	for (auto &e : l) { if (!r.empty() && r.back().first == e.first) r.back().second = (r.back().second + e.second) & full; else r.push_back(e); }
	l.clear();
	for (auto &e : r) if (e.second) l.push_back(e);
	if (l.empty()) return mkConst(w, k);
	if (l.size() >= 2 && w > 1)
	{
		std::vector<std::pair<T, u32>> lv;
		for (u32 i = 0; i < l.size(); ++i) for (T leaf : bitLeaves(l[i].first)) lv.push_back({leaf, i});
		std::sort(lv.begin(), lv.end());
		std::vector<std::pair<u32, u32>> cand;
		for (size_t a = 0, e; a < lv.size(); a = e)
		{
			e = a + 1; while (e < lv.size() && lv[e].first == lv[a].first) ++e;
			for (size_t p = a; p < e; ++p) for (size_t q = a; q < p; ++q) if (lv[p].second != lv[q].second && l[lv[p].second].second == l[lv[q].second].second) cand.push_back({lv[p].second, lv[q].second});
		}
		std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
		for (auto &c : cand) if (T x = disjointSum(l[c.first].first, l[c.second].first))
		{
			AddList rest{{x, l[c.first].second}};
			for (u32 e = 0; e < l.size(); ++e) if (e != c.first && e != c.second) rest.push_back(l[e]);
			return mkAdd(w, rest, k);
		}
	}
	if (l.size() == 1)
	{
		T a = l[0].first; u128 c = l[0].second;
		if (c == 1 && k == 0) return a;
		if (c == full && k == full) return tm.intern(OP_XOR, w, &a, 1, full, ~(u128)0);   // -x-1 == ~x
		if (k == 0 && (c & (c - 1)) == 0)
		{
			unsigned s = 0; while (!((c >> s) & 1)) ++s;
			return mkConcat({mkConst(s, 0), mkExtract(a, 0, w - s)});
		}
		if (tm[a].op == OP_ITE && tm.isC(tm.arg(a, 1)) && tm.isC(tm.arg(a, 2)))
		{
			T cc = tm.arg(a, 0); u128 x = tm[tm.arg(a, 1)].k, y = tm[tm.arg(a, 2)].k;
			return mkIte(cc, mkConst(w, x * c + k), mkConst(w, y * c + k));
		}
	}
	std::vector<T> as; std::vector<u128> cs;
	bool ones = true;
	for (auto &e : l) { as.push_back(e.first); cs.push_back(e.second); if (e.second != 1) ones = false; }
	if (ones && pairwiseDisjoint(as, k)) if (T t = disjoint(w, as, k)) return t;
	bool anyLook = false; for (T a : as) if (lookupIdx(a)) { anyLook = true; break; }
	if (anyLook && w <= 64)
	{
		if (l.size() <= 8) if (T t = tryTab(OP_ADD, w, as.data(), (unsigned)as.size(), k, cs.data())) return t;
		std::vector<std::pair<T, unsigned>> g;
		for (unsigned i = 0; i < as.size(); ++i) { T x = lookupIdx(as[i]); if (x) g.push_back({x, i}); }
		std::sort(g.begin(), g.end());
		for (size_t i = 0; i + 1 < g.size(); ++i) if (g[i].first == g[i + 1].first)
		{
			T two[2] = {as[g[i].second], as[g[i + 1].second]}; u128 c2[2] = {cs[g[i].second], cs[g[i + 1].second]};
			T t = tryTab(OP_ADD, w, two, 2, 0, c2);
			if (t)
			{
				AddList rest{{t, 1}};
				for (unsigned q = 0; q < as.size(); ++q) if (q != g[i].second && q != g[i + 1].second) rest.push_back({as[q], cs[q]});
				return mkAdd(w, rest, k);
			}
		}
	}
	// possible-ones: exact upper bound when nothing wraps, and common trailing zeros
	u128 po = full;
	{
		u128 sum = k; bool ok = true;
		unsigned tz = 128;
		auto ctz = [](u128 v) { unsigned s = 0; if (!v) return 128u; while (!((v >> s) & 1)) ++s; return s; };
		tz = std::min(tz, ctz(k));
		for (size_t i = 0; i < as.size(); ++i)
		{
			u128 p = tm[as[i]].po;
			tz = std::min(tz, ctz(p) + ctz(cs[i]));
			if (ok) { if (cs[i] > (full >> 1) || (p && cs[i] > full / p)) ok = false; else { u128 t = p * cs[i]; if (t > full - sum) ok = false; else sum += t; } }
		}
		if (ok) { unsigned b = 0; while (b < 128 && (sum >> b)) ++b; po = mask(b) & full; if (b == 0) po = 0; }
		if (tz && tz < 128) po &= ~mask(tz);
	}
	return tm.intern(OP_ADD, w, as.data(), (unsigned)as.size(), k, po, cs.data());
}
T mkAdd2(T a, T b) { return mkAdd(tm[a].w, {{a, 1}, {b, 1}}, 0); }
T mkSub(T a, T b) { return mkAdd(tm[a].w, {{a, 1}, {b, ~(u128)0}}, 0); }
T mkNeg(T a) { return mkAdd(tm[a].w, {{a, ~(u128)0}}, 0); }
T mkMul(T a, T b)
{
	unsigned w = tm[a].w;
	if (tm.isC(a)) std::swap(a, b);
	if (tm.isC(b)) return mkAdd(w, {{a, tm[b].k}}, 0);
	if (tm[a].po == 1) return mkIte(mkExtract(a, 0, 1), b, mkConst(w, 0));
	if (tm[b].po == 1) return mkIte(mkExtract(b, 0, 1), a, mkConst(w, 0));
	T as[2] = {std::min(a, b), std::max(a, b)};
	if (T t = tryTab(OP_MUL, w, as, 2, 0)) return t;
	u128 po = mask(w);
	{
		u128 p = tm[a].po, q = tm[b].po;
		if (p && q && p <= mask(w) / q) { u128 s = p * q; unsigned n = 0; while (n < 128 && (s >> n)) ++n; po = mask(n); }
	}
	return tm.intern(OP_MUL, w, as, 2, 0, po);
}

T mkDiv(Op op, T a, T b)
{
	unsigned w = tm[a].w;
	if (tm.isC(a) && tm.isC(b)) { u128 av[2] = {tm[a].k, tm[b].k}; u16 aw[2] = {(u16)w, (u16)w}; return mkConst(w, evalOp(op, w, av, aw, 2, 0, nullptr)); }
	if (tm.isC(b))
	{
		u128 d = tm[b].k;
		if (op == OP_SDIV || op == OP_SREM)
		{
			bool aPos = !((tm[a].po >> (w - 1)) & 1), bPos = !((d >> (w - 1)) & 1);
			if (aPos && bPos) op = (op == OP_SDIV) ? OP_UDIV : OP_UREM;
		}
		if ((op == OP_UDIV || op == OP_UREM) && d && (d & (d - 1)) == 0)
		{
			unsigned s = 0; while (!((d >> s) & 1)) ++s;
			if (op == OP_UREM) return mkAnd(w, {a}, d - 1);
			return mkShift(OP_LSHR, a, mkConst(w, s));
		}
		if (op == OP_UREM && tm[a].po < d) return a;
		if (op == OP_UREM && tm[a].op == OP_ADD)   // (x - x % d) % d == 0
			for (unsigned i = 0; i < tm[a].n; ++i)
			{
				T r = tm.arg(a, i);
				if (tm[r].op != OP_UREM || tm.arg(r, 1) != b || tm.coef(a, i) != mask(w)) continue;
				if (mkAdd2(a, r) == tm.arg(r, 0)) return mkConst(w, 0);
			}
		if (op == OP_UDIV && tm[a].po < d) return mkConst(w, 0);
	}
	T as[2] = {a, b};
	if (T t = tryTab(op, w, as, 2, 0)) return t;
	return tm.intern(op, w, as, 2, 0, ~(u128)0);
}

T mkShift(Op op, T x, T s)
{
	unsigned w = tm[x].w;
	if (tm.isC(s))
	{
		u128 k = tm[s].k;
		if (k == 0) return x;
		if (op == OP_ASHR)
		{
			unsigned sh = (k >= w) ? w - 1 : (unsigned)k;
			return mkSext(mkExtract(x, sh, w - sh), w);
		}
		if (k >= w) return mkConst(w, 0);
		unsigned sh = (unsigned)k;
		if (op == OP_SHL) return mkConcat({mkConst(sh, 0), mkExtract(x, 0, w - sh)});
		return mkConcat({mkExtract(x, sh, w - sh), mkConst(sh, 0)});
	}
	if (tm.isC(x) && tm[x].k == 0) return x;
	T as[2] = {x, s};
	if (T t = tryTab(op, w, as, 2, 0)) return t;
	// small shift ranges become a decision over the amount
	u128 po = tm[s].po;
	unsigned bits = 0; { u128 p = po; while (p) { p &= p - 1; ++bits; } }
	if (bits <= 3)
	{
		// enumerate the possible amounts
		T r = x; unsigned done = 0;
		for (unsigned b = 0; b < w && done < bits && b < 128; ++b) if ((po >> b) & 1)
		{
			++done;
			u128 amt = (u128)1 << b;
			if (b > 20) amt = w;
			r = mkIte(mkExtract(s, b, 1), mkShift(op, r, mkConst(tm[s].w, amt >= w ? w : amt)), r);
		}
		if (done == bits) return r;
	}
	return tm.intern(op, w, as, 2, 0, ~(u128)0);
}

// ---- predicates and ite --------------------------------------------------------------

T mkEq(T a, T b)
{
	if (a == b) return mkConst(1, 1);
	unsigned w = tm[a].w;
	if (tm.isC(a)) std::swap(a, b);
	if (tm.isC(a) && tm.isC(b)) return mkConst(1, tm[a].k == tm[b].k);
	if (w == 1) return mkXor(1, {a, b}, 1);
	if (tm.isC(b))
	{
		u128 k = tm[b].k;
		const Node m = tm[a];
		if (k & ~m.po) return mkConst(1, 0);
		if (m.op == OP_CONCAT)
		{
			std::vector<T> as(tm.A(a), tm.A(a) + m.n), cs; unsigned pos = 0;
			bool split = false; for (T s : as) if (tm.isC(s)) split = true;
			if (split)
			{
				std::vector<T> rest, rk;
				for (T s : as)
				{
					unsigned sw = tm[s].w; u128 kk = (k >> pos) & mask(sw);
					if (tm.isC(s)) { if (tm[s].k != kk) return mkConst(1, 0); }
					else { rest.push_back(s); rk.push_back(mkConst(sw, kk)); }
					pos += sw;
				}
				if (rest.empty()) return mkConst(1, 1);
				return mkEq(mkConcat(rest), mkConcat(rk));
			}
		}
		if (m.op == OP_XOR && m.k) { std::vector<T> as(tm.A(a), tm.A(a) + m.n); T x = mkXor(w, as, 0); if (!((tm[x].op == OP_XOR || tm[x].op == OP_ADD) && tm[x].k)) return mkEq(x, mkConst(w, k ^ m.k)); }
		if (m.op == OP_ADD && m.k)
		{
			AddList l; for (unsigned i = 0; i < m.n; ++i) l.push_back({tm.arg(a, i), tm.coef(a, i)});
			T x = mkAdd(w, l, 0);
			if (!((tm[x].op == OP_XOR || tm[x].op == OP_ADD) && tm[x].k)) return mkEq(x, mkConst(w, k - m.k));
		}
		if (m.op == OP_ITE)
		{
			T c = tm.arg(a, 0), x = tm.arg(a, 1), y = tm.arg(a, 2);
			if (tm.isC(x) || tm.isC(y)) return mkIte(c, mkEq(x, b), mkEq(y, b));
		}
		if (m.op == OP_SEXT)
		{
			T x = tm.arg(a, 0); unsigned xw = tm[x].w;
			if (((sx(k & mask(xw), xw)) & mask(w)) != k) return mkConst(1, 0);
			return mkEq(x, mkConst(xw, k));
		}
		T two[2] = {a, b};
		if (T t = tryTab(OP_EQ, 1, two, 2, 0)) return t;
	}
	else
	{
		const Node m = tm[a], q = tm[b];
		if (m.op == OP_CONCAT && q.op == OP_CONCAT)
		{
			// compare piecewise where a common boundary exists and one side is constant
			u128 ba = 0, bb = 0; unsigned pos = 0;
			for (unsigned i = 0; i < m.n; ++i) { pos += tm[tm.arg(a, i)].w; ba |= pos < 128 ? (u128)1 << pos : 0; }
			pos = 0;
			for (unsigned i = 0; i < q.n; ++i) { pos += tm[tm.arg(b, i)].w; bb |= pos < 128 ? (u128)1 << pos : 0; }
			u128 cm = ba & bb;
			std::vector<T> conj; unsigned from = 0;
			if (cm & mask(w) & ~(u128)1) for (unsigned e = 1; e <= w; ++e) if (e == w || ((cm >> e) & 1)) { conj.push_back(mkEq(mkExtract(a, from, e - from), mkExtract(b, from, e - from))); from = e; }
			if (conj.size() > 1) return mkAnd(1, conj, 1);
		}
	}
	T as[2] = {std::min(a, b), std::max(a, b)};
	return tm.intern(OP_EQ, 1, as, 2, 0, 1);
}

T mkUlt(T a, T b)
{
	unsigned w = tm[a].w;
	if (a == b) return mkConst(1, 0);
	if (tm.isC(a) && tm.isC(b)) return mkConst(1, tm[a].k < tm[b].k);
	if (w == 1) return mkAnd2(mkNot(a), b);
	if (tm.isC(b))
	{
		u128 k = tm[b].k;
		if (k == 0) return mkConst(1, 0);
		if (tm[a].po < k) return mkConst(1, 1);
		if (k == 1) return mkEq(a, mkConst(w, 0));
		if ((k & (k - 1)) == 0)
		{
			unsigned s = 0; while (!((k >> s) & 1)) ++s;
			return mkEq(mkExtract(a, s, w - s), mkConst(w - s, 0));
		}
		unsigned s = 0; while (!((k >> s) & 1)) ++s;
		if (s) return mkUlt(mkExtract(a, s, w - s), mkConst(w - s, k >> s));
	}
	if (tm.isC(a))
	{
		u128 k = tm[a].k;
		if (tm[b].po <= k) return mkConst(1, 0);
		if (k == 0) return mkNot(mkEq(b, mkConst(w, 0)));
		if (((k + 1) & k) == 0)   // b > 2^s-1
		{
			unsigned s = 0; while ((k >> s) & 1) ++s;
			if (s < w) return mkNot(mkEq(mkExtract(b, s, w - s), mkConst(w - s, 0)));
		}
		unsigned s = 0; while ((k >> s) & 1) ++s;
		if (s && s < w) return mkUlt(mkConst(w - s, k >> s), mkExtract(b, s, w - s));
	}
	// a and b differ by a constant that cannot wrap
	if (w <= 64 && !tm.isC(a) && !tm.isC(b))
	{
		const u128 full = ((u128)1 << w) - 1;
		T d = mkSub(a, b);
		if (tm.isC(d) && tm[b].po + tm[d].k <= full) return mkConst(1, 0);
		if (tm.isC(d))
		{
			const u128 e = ((((u128)1 << w) - tm[d].k) & full);
			if (tm[a].po + e <= full) return mkConst(1, e != 0);
		}
	}
	// strip common zero high part
	u128 po = tm[a].po | tm[b].po; unsigned top = 0; while (top < w && (po >> top)) ++top;
	if (top < w && top > 0)
	{
		T x = mkExtract(a, 0, top), y = mkExtract(b, 0, top);
		return mkUlt(x, y);
	}
	T as[2] = {a, b};
	if (T t = tryTab(OP_ULT, 1, as, 2, 0)) return t;
	for (int i = 0; i < 2; ++i)
	{
		const Node &m = tm[as[i]];
		if (m.op == OP_ITE && tm.isC(tm.arg(as[i], 1)) && tm.isC(tm.arg(as[i], 2)) && tm.isC(as[1 - i]))
		{
			T c = tm.arg(as[i], 0), x = tm.arg(as[i], 1), y = tm.arg(as[i], 2);
			return i == 0 ? mkIte(c, mkUlt(x, b), mkUlt(y, b)) : mkIte(c, mkUlt(a, x), mkUlt(a, y));
		}
	}
	return tm.intern(OP_ULT, 1, as, 2, 0, 1);
}

T mkSlt(T a, T b)
{
	unsigned w = tm[a].w;
	if (a == b) return mkConst(1, 0);
	if (tm.isC(a) && tm.isC(b)) return mkConst(1, (s128)sx(tm[a].k, w) < (s128)sx(tm[b].k, w));
	bool ap = !((tm[a].po >> (w - 1)) & 1), bp = !((tm[b].po >> (w - 1)) & 1);
	if (ap && bp) return mkUlt(a, b);
	if (ap && tm.isC(b)) return mkConst(1, 0);            // b negative constant
	if (bp && tm.isC(a)) return mkConst(1, 1);            // a negative constant
	if (tm.isC(b) && tm[b].k == 0) return mkExtract(a, w - 1, 1);
	if (tm.isC(a) && tm[a].k == mask(w)) return mkNot(mkExtract(b, w - 1, 1));
	T as[2] = {a, b};
	if (T t = tryTab(OP_SLT, 1, as, 2, 0)) return t;
	for (int i = 0; i < 2; ++i)
	{
		const Node &m = tm[as[i]];
		if (m.op == OP_ITE && tm.isC(tm.arg(as[i], 1)) && tm.isC(tm.arg(as[i], 2)) && tm.isC(as[1 - i]))
		{
			T c = tm.arg(as[i], 0), x = tm.arg(as[i], 1), y = tm.arg(as[i], 2);
			return i == 0 ? mkIte(c, mkSlt(x, b), mkSlt(y, b)) : mkIte(c, mkSlt(a, x), mkSlt(a, y));
		}
	}
	return tm.intern(OP_SLT, 1, as, 2, 0, 1);
}

T mkIte(T c, T a, T b)
{
	if (a == b) return a;
	if (tm.isC(c)) return tm[c].k ? a : b;
	if (tm[c].op == OP_XOR && tm[c].k) { T nc = mkNot(c); return mkIte(nc, b, a); }
	unsigned w = tm[a].w;
	if (w == 1)
	{
		if (tm.isC(a) && tm.isC(b)) return tm[a].k ? c : mkNot(c);
		if (tm.isC(b)) return tm[b].k ? mkOr(1, {mkNot(c), a}, 0) : mkAnd2(c, a);
		if (tm.isC(a)) return tm[a].k ? mkOr(1, {c, b}, 0) : mkAnd2(mkNot(c), b);
		if (a == c) return mkOr(1, {c, b}, 0);
		if (b == c) return mkAnd2(c, a);
	}
	if (tm[a].op == OP_ITE && tm.arg(a, 0) == c) return mkIte(c, tm.arg(a, 1), b);
	if (tm[b].op == OP_ITE && tm.arg(b, 0) == c) return mkIte(c, a, tm.arg(b, 2));
	if (tm[a].op == OP_ITE && tm.arg(a, 2) == b) return mkIte(mkAnd2(c, tm.arg(a, 0)), tm.arg(a, 1), b);
	if (tm[b].op == OP_ITE && tm.arg(b, 1) == a) return mkIte(mkOr2(c, tm.arg(b, 0)), a, tm.arg(b, 2));
	if (w > 1 && tm.isC(a) && tm.isC(b))
	{
		if (tm[a].k == 1 && tm[b].k == 0) return mkZext(c, w);
		if (tm[a].k == 0 && tm[b].k == 1) return mkZext(mkNot(c), w);
	}
	if (w > 1)
	{
		// common possible-zero high part
		u128 po = tm[a].po | tm[b].po; unsigned top = 0; while (top < w && (po >> top)) ++top;
		if (top < w && top > 0 && !(tm.isC(a) && tm.isC(b))) return mkConcat({mkIte(c, mkExtract(a, 0, top), mkExtract(b, 0, top)), mkConst(w - top, 0)});
	}
	T as[3] = {c, a, b};
	if (T t = tryTab(OP_ITE, w, as, 3, 0)) return t;
	return tm.intern(OP_ITE, w, as, 3, 0, tm[a].po | tm[b].po);
}

T rebuild(T t, const T *na)
{
	const Node m = tm[t];
	switch (m.op)
	{
	case OP_CONST: case OP_VAR: return t;
	case OP_ADD: { AddList l; for (unsigned i = 0; i < m.n; ++i) l.push_back({na[i], tm.coef(t, i)}); return mkAdd(m.w, l, m.k); }
	case OP_MUL: return mkMul(na[0], na[1]);
	case OP_AND: return mkAnd(m.w, std::vector<T>(na, na + m.n), m.k);
	case OP_OR: return mkOr(m.w, std::vector<T>(na, na + m.n), m.k);
	case OP_XOR: return mkXor(m.w, std::vector<T>(na, na + m.n), m.k);
	case OP_CONCAT: return mkConcat(std::vector<T>(na, na + m.n));
	case OP_EXTRACT: return mkExtract(na[0], (unsigned)m.k, m.w);
	case OP_SEXT: return mkSext(na[0], m.w);
	case OP_ITE: return mkIte(na[0], na[1], na[2]);
	case OP_EQ: return mkEq(na[0], na[1]);
	case OP_ULT: return mkUlt(na[0], na[1]);
	case OP_SLT: return mkSlt(na[0], na[1]);
	case OP_SHL: case OP_LSHR: case OP_ASHR: return mkShift(m.op, na[0], na[1]);
	case OP_UDIV: case OP_UREM: case OP_SDIV: case OP_SREM: return mkDiv(m.op, na[0], na[1]);
	case OP_LOOKUP: return mkLookup((u32)m.k, na[0]);
	default: throw Unsupported("rebuild");
	}
}

std::string hex128(u128 v)
{
	char b[40]; if (v >> 64) snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "%llx", (unsigned long long)v);
	return b;
}
std::string show(T t, int depth)
{
	const Node m = tm[t];
	if (m.op == OP_CONST) return "0x" + hex128(m.k) + ":" + std::to_string(m.w);
	if (m.op == OP_VAR) return tm.vars[(size_t)m.k].name;
	if (depth <= 0) return "#" + std::to_string(t);
	std::string s = std::string("(") + opNames[m.op] + std::to_string(m.w);
	if (m.op == OP_EXTRACT || m.op == OP_LOOKUP || ((m.op == OP_ADD || m.op == OP_XOR) && m.k) || m.op == OP_AND) s += "[" + hex128(m.k) + "]";
	for (unsigned i = 0; i < m.n; ++i)
	{
		s += " ";
		if (m.op == OP_ADD && tm.coef(t, i) != 1) s += hex128(tm.coef(t, i)) + "*";
		s += show(tm.arg(t, i), depth - 1);
		if (s.size() > 4000) { s += "..."; break; }
	}
	return s + ")";
}

std::vector<T> coneOf(const std::vector<T> &roots)
{
	std::vector<T> st(roots), out;
	static std::vector<u32> mark; static u32 gen = 0;
	if (mark.size() < tm.N.size()) mark.resize(tm.N.size() + 1024, 0);
	++gen;
	while (!st.empty())
	{
		T t = st.back(); st.pop_back();
		if (mark[t] == gen) continue;
		mark[t] = gen;
		out.push_back(t);
		for (unsigned i = 0; i < tm[t].n; ++i) { T a = tm.arg(t, i); if (mark[a] != gen) st.push_back(a); }
	}
	std::sort(out.begin(), out.end());
	return out;
}
