// Harness entries.  Every entry reads its (concrete) job parameters with vp_param and quantifies over
// everything it makes symbolic with vp_sym.  Parameters 0..8: entry specific; 9: symbolic cap; 10..: configuration.
#include <functional>
#include <utility>
#include <type_traits>
#include "algs.h"
template class std::basic_string<char>;

namespace {
using H = A::H; using R = A::R; using Cfg = A::Cfg;
constexpr size_t MAXOUT = 1024;
constexpr size_t B = A::B, BA = B > 1 ? B : 4;
size_t P(int i) { return (size_t)vp_param(i); }

// A message in a heap object of exactly its size, kept for comparison.  With a cap (parameter 9) only the last
// `cap` bytes are symbolic and the bytes before are a fixed pattern.
struct Msg
{
	uint8_t *p; size_t n;
	Msg(size_t len, const char *name) : p((uint8_t *)vp_alloc(len)), n(len)
	{
		size_t cap = P(9), k = 0;
		if (cap && n > cap) { k = n - cap; for (size_t i = 0; i < k; ++i) p[i] = (uint8_t)(i * 7 + (i >> 8) + (i >> 16) * 5 + (i >> 24) * 3 + 1); }
		vp_sym(p + k, n - k, name);
	}
	~Msg() { vp_free(p); }
	Msg(const Msg &) = delete;
};
struct Out { uint8_t b[MAXOUT]; };
void refDigest(const Cfg &c, const uint8_t *m, size_t n, uint8_t *out)
{
	R *r = new R; A::reinit(*r, c); ref::run(*r, m, n, out); delete r;
}
void read(const H &h, const Cfg &c, Out &o) { A::get(h, c, o.b); }
void whole(const Cfg &c, const uint8_t *m, size_t n, Out &o) { H h = A::make(c); A::feed(h, m, n); h.finalize(); read(h, c, o); }
void same(const Cfg &c, const Out &a, const Out &b, const char *msg) { vp_assert_eq(a.b, b.b, A::out(c), msg); }
using Span = typename H::template Span<const uint8_t>;
}

// C01-C10: digest of a symbolic message of length p0 equals the reference
extern "C" void e_digest()
{
	const size_t L = P(0);
	const Cfg c = A::cfg();
	Msg m(L, "msg");
	Out got, want;
	whole(c, m.p, L, got);
	refDigest(c, m.p, L, want.b);
	vp_cover("compared");
	same(c, got, want, "digest differs from the specification");
}

// concrete validation run: records the digest of the library and of the reference
extern "C" void e_rec()
{
	const size_t L = P(0);
	const Cfg c = A::cfg();
	Msg m(L, "msg");
	Out got, want;
	whole(c, m.p, L, got);
	vp_record(got.b, A::out(c), "lib");
	if (!A::tuple) { refDigest(c, m.p, L, want.b); vp_record(want.b, A::out(c), "ref"); }
	vp_cover("compared");
}

// C08: tuple of p0 elements with lengths p1..p8
extern "C" void e_tuple()
{
	const size_t n = P(0);
	const Cfg c = A::cfg();
	size_t total = 0;
	for (size_t i = 0; i < n; ++i) total += P(1 + i) + 9;
	std::vector<uint8_t> s(total + 9);
	H h = A::make(c);
	size_t k = 0;
	for (size_t i = 0; i < n; ++i)
	{
		const size_t L = P(1 + i);
		Msg m(L, "elem");
		A::feed(h, m.p, L);
		k += ref::left_encode(s.data() + k, (uint64_t)L * 8);
		for (size_t j = 0; j < L; ++j) s[k++] = m.p[j];
	}
	h.finalize();
	k += ref::right_encode(s.data() + k, (uint64_t)A::out(c) * 8);
	Out got, want;
	read(h, c, got);
	refDigest(c, s.data(), k, want.b);
	vp_cover("compared");
	same(c, got, want, "digest differs from the specification");
}

// C11: splits of a message of length p0; p1 mode, p2/p3 range
extern "C" void e_split()
{
	const size_t L = P(0), mode = P(1), lo = P(2), hi = P(3);
	const Cfg c = A::cfg();
	Msg m(L, "msg");
	Out want, got;
	whole(c, m.p, L, want);
	auto piece = [&](H &h, size_t a, size_t b, bool span) { if (span) A::form(h, Span(m.p + a, b - a)); else A::feed(h, m.p + a, b - a); };
	auto done = [&](H &h) { h.finalize(); read(h, c, got); same(c, got, want, "digest depends on how the message was split"); };
	if (mode == 0)          // every two-piece split
		for (size_t s = lo; s <= hi && s <= L; ++s) { H h = A::make(c); piece(h, 0, s, s & 1); piece(h, s, L, s & 2); done(h); }
	else if (mode == 1)     // chunks of lo bytes, with empty pieces between them
	{
		H h = A::make(c);
		A::feed(h, m.p, 0);
		for (size_t s = 0; s < L; s += lo) { piece(h, s, s + lo < L ? s + lo : L, s & 1); if (hi) A::form(h, Span(m.p, (size_t)0)); if (hi > 1) A::feed(h, nullptr, 0); }
		done(h);
	}
	else if (mode == 2)     // three pieces around block boundaries
	{
		const size_t pt[] = {0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, L};
		for (size_t i = lo; i <= hi && i < 9; ++i) for (size_t j = i; j < 9; ++j)
		{
			if (pt[j] > L || pt[i] > L || pt[i] > pt[j]) continue;
			H h = A::make(c); piece(h, 0, pt[i], false); piece(h, pt[i], pt[j], true); piece(h, pt[j], L, false); done(h);
		}
	}
	else if (mode == 3)     // every composition of a short message (cut after byte i iff bit i of the mask)
		for (size_t mask = lo; mask <= hi; ++mask)
		{
			H h = A::make(c); size_t s = 0;
			for (size_t i = 1; i <= L; ++i) if (i == L || ((mask >> (i - 1)) & 1)) { piece(h, s, i, i & 1); s = i; }
			done(h);
		}
	else                    // every three-piece split (s, t) with s in lo..hi
		for (size_t s = lo; s <= hi && s <= L; ++s) for (size_t t = s; t <= L; ++t)
		{
			H h = A::make(c); piece(h, 0, s, t & 1); piece(h, s, t, t & 2); piece(h, t, L, true); done(h);
		}
	vp_cover("compared");
}

// C12: reset after various histories, then a message of length p1
extern "C" void e_reset()
{
	const size_t L1 = P(0), L2 = P(1), mode = P(2);
	const Cfg c = A::cfg();
	Msg m1(L1, "m1"), m2(L2, "m2");
	H h = A::make(c);
	Out got, want, tmp;
	switch (mode)
	{
	case 0: A::feed(h, m1.p, L1); h.finalize(); h.reset(); break;
	case 1: A::feed(h, m1.p, L1); h.reset(); break;
	case 2: A::feed(h, m1.p, L1); h.finalize(); h.reset(); h.reset(); break;
	case 3: h.reset(); break;
	case 4: { Msg m3(L1, "m3"); A::feed(h, m1.p, L1); h.finalize(); h.reset(); A::feed(h, m3.p, L1); h.finalize(); h.reset(); break; }
	case 5: A::feed(h, m1.p, L1 / 2); A::feed(h, m1.p + L1 / 2, L1 - L1 / 2); h.finalize(); read(h, c, tmp); h.reset(); break;
	case 6: A::feed(h, m1.p, L1); h.reset(); A::feed(h, m1.p, L1); h.finalize(); h.reset(); break;
	case 7: { A::feed(h, m1.p, L1); h.finalize(); H g(h); g.reset(); A::feed(g, m2.p, L2); g.finalize(); read(g, c, got); whole(c, m2.p, L2, want); same(c, got, want, "reset copy differs from a new object"); h.reset(); break; }
	default: h.finalize(); h.reset(); break;
	}
	A::feed(h, m2.p, L2); h.finalize();
	H f = A::make(c); A::feed(f, m2.p, L2); f.finalize();
	read(h, c, got); read(f, c, want);
	same(c, got, want, "digest after reset() differs from that of a new object");
	vp_assert(h == f, "reset object compares unequal to a new one");
	vp_cover("compared");
}

namespace {
struct Three { uint8_t x[3]; };
template <class X> X &&keep(X &&x) { return static_cast<X &&>(x); }
template <class T, size_t N> void arrayForm(const Cfg &c, const char *name)
{
	static T a[N]; T orig[N];
	Out want, got;
	vp_sym(a, sizeof(a), name);
	__builtin_memcpy(orig, a, sizeof(a));
	H h = A::make(c);
	auto &r = A::form(h, a);
	vp_assert((const void *)&r == (const void *)&h, "adding data does not return the object");
	h.finalize(); read(h, c, got);
	vp_assert_eq(a, orig, sizeof(a), "input buffer was modified");
	whole(c, (const uint8_t *)orig, sizeof(a), want);
	same(c, got, want, "array form differs from pointer and length");
	const auto &ca = *(const T (*)[N])a;
	H g = A::make(c); A::form(g, ca); g.finalize(); read(g, c, got);
	same(c, got, want, "const array form differs from pointer and length");
}
template <class T> void spanForm(const Cfg &c, size_t L, const char *name)
{
	const size_t n = L / sizeof(T);
	T *a = (T *)vp_alloc(n * sizeof(T)); uint8_t *o = (uint8_t *)vp_alloc(n * sizeof(T));
	vp_sym(a, n * sizeof(T), name);
	__builtin_memcpy(o, a, n * sizeof(T));
	Out want, got;
	whole(c, o, n * sizeof(T), want);
	{ H h = A::make(c); auto &r = A::form(h, typename H::template Span<T>(a, n)); vp_assert((const void *)&r == (const void *)&h, "adding data does not return the object"); h.finalize(); read(h, c, got); same(c, got, want, "span form differs from pointer and length"); }
	{ H h = A::make(c); A::form(h, typename H::template Span<const T>(a, n)); h.finalize(); read(h, c, got); same(c, got, want, "span of const form differs from pointer and length"); }
	vp_assert_eq(a, o, n * sizeof(T), "input buffer was modified");
	vp_free(a); vp_free(o);
}
}

// C13: input forms.  p0 length, p1 mode, p2 offset range lo, p3 hi
extern "C" void e_forms()
{
	const size_t L = P(0), mode = P(1);
	const Cfg c = A::cfg();
	Out want, got;
	if (mode == 0)          // dynamic spans over several element types
	{
		spanForm<uint8_t>(c, L, "u8"); spanForm<char>(c, L, "ch"); spanForm<uint16_t>(c, L, "u16"); spanForm<uint32_t>(c, L, "u32");
		spanForm<uint64_t>(c, L, "u64"); spanForm<Three>(c, L, "three"); spanForm<int>(c, L, "int"); spanForm<signed char>(c, L, "sc");
	}
	else if (mode == 1)     // every offset of the buffer
	{
		Msg m(L, "msg");
		whole(c, m.p, L, want);
		for (size_t off = P(2); off <= P(3); ++off)
		{
			uint8_t *q = (uint8_t *)vp_alloc(L + off);
			for (size_t i = 0; i < off; ++i) q[i] = (uint8_t)(0xA5 ^ off);
			__builtin_memcpy(q + off, m.p, L);
			{ H h = A::make(c); auto &r = A::feed(h, q + off, L); vp_assert((const void *)&r == (const void *)&h, "adding data does not return the object"); auto &f = h.finalize(); vp_assert((const void *)&f == (const void *)&h, "finalize does not return the object"); read(h, c, got); same(c, got, want, "digest depends on the address of the buffer"); }
			{ H h = A::make(c); A::form(h, Span(q + off, L)); h.finalize(); read(h, c, got); same(c, got, want, "digest depends on the address of the buffer"); }
			vp_assert_eq(q + off, m.p, L, "input buffer was modified");
			vp_free(q);
		}
	}
	else if (mode == 2)     // byte arrays
	{
		arrayForm<uint8_t, 1>(c, "b1"); arrayForm<uint8_t, BA - 1>(c, "b2"); arrayForm<uint8_t, BA>(c, "b3"); arrayForm<uint8_t, BA + 1>(c, "b4"); arrayForm<uint8_t, 2 * BA + 3>(c, "b5");
	}
	else                    // arrays of wider elements
	{
		arrayForm<char, 1>(c, "c1"); arrayForm<char, 6>(c, "c6"); arrayForm<char, BA + 3>(c, "c7"); arrayForm<signed char, 3>(c, "sc");
		arrayForm<uint16_t, 1>(c, "s1"); arrayForm<uint16_t, BA / 2 + 1>(c, "s2");
		arrayForm<uint32_t, 1>(c, "w1"); arrayForm<uint32_t, BA / 4 + 1>(c, "w2"); arrayForm<int, 5>(c, "i5");
		arrayForm<uint64_t, 1>(c, "q1"); arrayForm<uint64_t, BA / 8 + 2>(c, "q2"); arrayForm<Three, 7>(c, "t7");
	}
	vp_cover("compared");
}

namespace {
template <class T> void intForm(const H &h, const Cfg &c, const Out &d)
{
	const size_t n = A::out(c);
	T e = 0;
	for (size_t i = 0; i < sizeof(T) && i < n; ++i) e = (T)(((uint64_t)e << 8) | d.b[i]);
	const T g = static_cast<T>(h);
	vp_assert_eq(&g, &e, sizeof(T), "integer conversion is not the leading digest bytes");
}
void strForm(const H &h, const Cfg &c, const Out &d)
{
	const std::string s = h.toString();
	const size_t n = A::out(c);
	vp_assert(s.size() == 2 * n, "length of the hexadecimal string");
	if (s.size() != 2 * n) return;
	uint8_t *e = (uint8_t *)vp_alloc(2 * n);
	static const char hex[] = "0123456789abcdef";
	for (size_t i = 0; i < n; ++i) { e[2 * i] = (uint8_t)hex[d.b[i] >> 4]; e[2 * i + 1] = (uint8_t)hex[d.b[i] & 15]; }
	vp_assert_eq(s.data(), e, 2 * n, "hexadecimal string does not spell the digest");
	vp_free(e);
}
void vecForm(const H &h, const Cfg &c, const Out &d)
{
	const auto v = h.toVector();
	const size_t n = A::out(c);
	vp_assert(v.size() == n, "length of the digest vector");
	if (v.size() == n) vp_assert_eq(v.data(), d.b, n, "vector differs from the digest read first");
}
template <bool ARR> struct ArrForm { template <class X> static void go(const X &h, const Cfg &c, const Out &d) { const auto a = h.toArray(); vp_assert(a.size() == A::out(c), "length of the digest array"); if (a.size() == A::out(c)) vp_assert_eq(a.data(), d.b, a.size(), "array differs from the digest read first"); } };
template <> struct ArrForm<false> { template <class X> static void go(const X &, const Cfg &, const Out &) {} };
void hashForm(const H &h, const Cfg &)
{
	const size_t g = std::hash<H>()(h), e = static_cast<size_t>(h);
	vp_assert_eq(&g, &e, sizeof(g), "std::hash differs from the conversion to size_t");
}
void oneForm(int k, const H &h, const Cfg &c, const Out &d)
{
	switch (k)
	{
	case 0: vecForm(h, c, d); break;
	case 1: ArrForm<A::arr>::go(h, c, d); break;
	case 2: strForm(h, c, d); break;
	case 3: intForm<uint8_t>(h, c, d); break;
	case 4: intForm<uint16_t>(h, c, d); break;
	case 5: intForm<uint32_t>(h, c, d); break;
	case 6: intForm<uint64_t>(h, c, d); break;
	case 7: hashForm(h, c); break;
	case 8: intForm<unsigned long long>(h, c, d); break;
	default: intForm<unsigned long>(h, c, d); break;
	}
}
}

// C14: output forms of the digest of a message of length p0
extern "C" void e_output()
{
	const size_t L = P(0);
	const Cfg c = A::cfg();
	Msg m(L, "msg");
	Out d0, d;
	whole(c, m.p, L, d0);           // read once, in one form, from an object of its own
	{
		H h = A::make(c); A::feed(h, m.p, L); h.finalize();
		vecForm(h, c, d0); ArrForm<A::arr>::go(h, c, d0);
		(void)h.toString(); (void)std::hash<H>()(h); (void)(uint64_t)h;
		vecForm(h, c, d0);
		h.reset(); A::feed(h, m.p, L); h.finalize(); vecForm(h, c, d0);   // reading does not disturb reuse
	}
	H *h = new H(A::make(c)); A::feed(*h, m.p, L); h->finalize();
	H *g[10];
	for (int k = 0; k < 10; ++k) { g[k] = new H(A::make(c)); A::feed(*g[k], m.p, L); g[k]->finalize(); }
	vp_havoc_all();                 // forget how the object states came about
	read(*h, c, d);
	for (int k = 0; k < 10; ++k) oneForm(k, *h, c, d);
	for (int k = 9; k >= 0; --k) oneForm(k, *h, c, d);
	// each form read first from an untouched object
	for (int k = 0; k < 10; ++k) { oneForm(k, *g[k], c, d); oneForm(0, *g[k], c, d); delete g[k]; }
	delete h;
	vp_cover("compared");
}

// C15: p0, p1 lengths; p2 mode; configurations at 10.. and 20..
extern "C" void e_eq()
{
	const size_t L1 = P(0), L2 = P(1), mode = P(2);
	const Cfg c1 = A::cfg("a_");
	if (mode == 1)          // same content, different histories
	{
		Msg m(L1, "msg");
		H f = A::make(c1), g = A::make(c1), k = A::make(c1);
		A::feed(f, m.p, L1); f.finalize();
		Msg o(L2, "other"); A::feed(g, o.p, L2); g.finalize(); g.reset(); A::feed(g, m.p, L1); g.finalize();
		if (!A::tuple) { A::feed(k, m.p, L1 / 3); A::feed(k, m.p + L1 / 3, L1 - L1 / 3); } else A::feed(k, m.p, L1);
		k.finalize(); (void)k.toString();
		vp_assert(f == g && g == f && f == k && k == g && f == f, "objects with the same content compare unequal");
		vp_assert(!(f != g) && !(g != f) && !(f != k) && !(k != g) && !(f != f), "objects with the same content compare different");
		const size_t a = std::hash<H>()(f), b = std::hash<H>()(g);
		vp_assert_eq(&a, &b, sizeof(a), "equal objects have different std::hash values");
		vp_cover("compared");
		return;
	}
	const Cfg c2 = A::cfg2("b_");
	Msg m1(L1, "m1"), m2(L2, "m2");
	H *p1 = new H(A::make(c1)), *p2 = new H(A::make(c2)); H &h1 = *p1, &h2 = *p2;
	A::feed(h1, m1.p, L1); h1.finalize(); A::feed(h2, m2.p, L2); h2.finalize();
	if (mode != 3) vp_havoc_all();          // forget how the object states came about
	const bool eq = (h1 == h2), eq2 = (h2 == h1), ne = (h1 != h2);
	const bool r1 = (h1 == h1), r2 = (h1 != h1);
	Out d1, d2;
	read(h1, c1, d1); read(h2, c2, d2);
	const size_t x1 = std::hash<H>()(h1), x2 = std::hash<H>()(h2);
	vp_assert(r1, "object unequal to itself"); vp_assert(!r2, "object different from itself");
	vp_assert(eq == eq2, "equality is not symmetric");
	vp_assert(ne == !eq, "!= is not the negation of ==");
	if (A::out(c1) != A::out(c2)) { vp_assert(!eq, "objects with digests of different lengths are equal"); vp_cover("compared"); delete p1; delete p2; return; }
	uint8_t diff = 0;
	for (size_t i = 0; i < A::out(c1); ++i) diff = (uint8_t)(diff | (d1.b[i] ^ d2.b[i]));
	vp_assert((int)!eq | (int)(diff == 0), "equal objects have different digests");
	vp_assert((int)!eq | (int)(x1 == x2), "equal objects have different std::hash values");
	if (A::full && L1 == L2) vp_assert((int)eq | (int)(diff != 0), "objects with the same digest are unequal");
	delete p1; delete p2;
	vp_cover("compared");
}

namespace {
template <bool ASSIGN> struct Assign
{
	template <class X> static void copy(X &d, const X &s) { d = s; }
	template <class X> static void move(X &d, X &&s) { d = std::move(s); }
	template <class X> static void swap(X &a, X &b) { std::swap(a, b); }
};
template <> struct Assign<false> { template <class X> static void copy(X &, const X &) {} template <class X> static void move(X &, X &&) {} template <class X> static void swap(X &, X &) {} };
constexpr bool ASG = std::is_copy_assignable<H>::value, MASG = std::is_move_assignable<H>::value;
void cont(H &h, const Cfg &c, const Msg &m, Out &o, bool fin) { if (!fin) { A::feed(h, m.p, m.n); h.finalize(); } read(h, c, o); }
}
// C16: copies.  p0 bytes before the copy, p1 bytes after, p2 mode, p3: finalized before the copy, p4: bytes in the other object
extern "C" void e_copy()
{
	const size_t L1 = P(0), L2 = P(1), mode = P(2); const bool fin = P(3) != 0; const size_t L3 = P(4);
	const Cfg c = A::cfg("a_"), c2 = A::cfg2("b_");
	Msg a(L1, "a"), x(L2, "x"), y(L2, "y"), z(L3, "z");
	Out wx, wy, wz, g;
	auto start = [&](H &h) { A::feed(h, a.p, L1); if (fin) h.finalize(); };
	{ H h = A::make(c); start(h); cont(h, c, x, wx, fin); }
	{ H h = A::make(c); start(h); cont(h, c, y, wy, fin); }
	{ H h = A::make(c2); A::feed(h, z.p, L3); h.finalize(); read(h, c2, wz); }
	H *src = new H(A::make(c)); start(*src);
	switch (mode)
	{
	case 0:     // copy construction; both continue independently
	{
		H d(*src);
		cont(d, c, x, g, fin); same(c, g, wx, "copy does not continue like the original");
		cont(*src, c, y, g, fin); same(c, g, wy, "original disturbed by its copy");
		read(d, c, g); same(c, g, wx, "copy disturbed by the original");
		break;
	}
	case 1:     // original goes first, then is destroyed
	{
		H d(*src);
		cont(*src, c, y, g, fin); same(c, g, wy, "original disturbed by its copy");
		delete src; src = nullptr;
		cont(d, c, x, g, fin); same(c, g, wx, "copy does not outlive the original");
		break;
	}
	case 2:     // copy assignment onto an object with another history and configuration
	{
		if (!ASG) break;
		H d = A::make(c2); A::feed(d, z.p, L3); if (P(5)) d.finalize();
		Assign<ASG>::copy(d, *src);
		cont(d, c, x, g, fin); same(c, g, wx, "assigned object does not continue like the source");
		cont(*src, c, y, g, fin); same(c, g, wy, "source disturbed by assignment");
		delete src; src = nullptr;
		d.reset(); A::feed(d, a.p, L1); if (fin) d.finalize(); cont(d, c, y, g, fin); same(c, g, wy, "assigned object differs from the source after reset()");
		break;
	}
	case 3:     // move construction; the moved-from object is destroyed
	{
		H d(std::move(*src)); delete src; src = nullptr;
		cont(d, c, x, g, fin); same(c, g, wx, "moved-to object does not continue like the source");
		break;
	}
	case 4:     // move construction; the moved-from object is assigned to and used again
	{
		H d(std::move(*src));
		if (ASG)
		{
			H o = A::make(c2);
			Assign<ASG>::copy(*src, o);
			A::feed(*src, z.p, L3); src->finalize(); read(*src, c2, g); same(c2, g, wz, "moved-from object cannot be reused after assignment");
		}
		cont(d, c, x, g, fin); same(c, g, wx, "moved-to object does not continue like the source");
		break;
	}
	case 5:     // move assignment onto an object with another history and configuration
	{
		if (!MASG) break;
		H d = A::make(c2); A::feed(d, z.p, L3); if (P(5)) d.finalize();
		Assign<MASG>::move(d, std::move(*src));
		cont(d, c, x, g, fin); same(c, g, wx, "move-assigned object does not continue like the source");
		H o = A::make(c2);
		Assign<MASG>::move(*src, std::move(o));
		A::feed(*src, z.p, L3); src->finalize(); read(*src, c2, g); same(c2, g, wz, "moved-from object cannot be reused after assignment");
		delete src; src = nullptr;
		read(d, c, g); same(c, g, wx, "moved-to object disturbed by the moved-from one");
		break;
	}
	case 6:     // self assignment
	{
		if (!ASG) break;
		H &alias = *src;
		Assign<ASG>::copy(*src, alias);
		cont(*src, c, x, g, fin); same(c, g, wx, "self-assignment changes the object");
		break;
	}
	case 7:     // swap through moves, vector growth
	{
		if (!MASG) break;
		H d = A::make(c2); A::feed(d, z.p, L3);
		Assign<MASG>::swap(*src, d);
		src->finalize(); read(*src, c2, g); same(c2, g, wz, "swap lost state");
		cont(d, c, x, g, fin); same(c, g, wx, "swap lost state");
		break;
	}
	case 8:     // by value through a function result and the chained reference
	{
		H h = A::make(c);
		H d = A::feed(h, a.p, L1);
		if (fin) d.finalize();
		cont(d, c, x, g, fin); same(c, g, wx, "copy taken from a chained call does not continue like the original");
		if (fin) h.finalize();
		cont(h, c, y, g, fin); same(c, g, wy, "original disturbed by its copy");
		break;
	}
	default:    // copy of a copy, assigned back
	{
		H d(*src), e(d);
		A::feed(d, z.p, fin ? 0 : L3);
		if (ASG) Assign<ASG>::copy(d, e);
		if (ASG) { cont(d, c, x, g, fin); same(c, g, wx, "assigned object does not continue like the source"); }
		cont(e, c, y, g, fin); same(c, g, wy, "copy of a copy does not continue like the original");
		break;
	}
	}
	delete src;
	vp_cover("compared");
}

// C17: a whole life of objects; run with the sanitizer instrumentation.  p0 length, p1 second length
extern "C" void e_life()
{
	const size_t L1 = P(0), L2 = P(1);
	const long live = vp_live_heap();
	{
		const Cfg c = A::cfg();
		Msg m1(L1, "m1"), m2(L2, "m2");
		H h = A::make(c);
		A::feed(h, m1.p, L1);
		A::form(h, Span(m2.p, L2));
		h.finalize();
		Out d; read(h, c, d);
		(void)h.toString(); (void)h.toVector();
		volatile size_t s = std::hash<H>()(h); (void)s;
		volatile uint8_t b = static_cast<uint8_t>(h); (void)b;
		volatile uint16_t b2 = static_cast<uint16_t>(h); (void)b2;
		volatile uint32_t b4 = static_cast<uint32_t>(h); (void)b4;
		volatile uint64_t b8 = static_cast<uint64_t>(h); (void)b8;
		H g(h);
		g.reset(); A::feed(g, m2.p, L2);
		H k(std::move(g));
		if (MASG) { H o = A::make(c); Assign<MASG>::move(o, std::move(k)); A::feed(o, m1.p, L1); o.finalize(); read(o, c, d); Assign<ASG>::copy(o, h); (void)o.toVector(); }
		h.reset(); h.finalize(); read(h, c, d);
		// results are defined values
		unsigned acc = 0; for (size_t i = 0; i < A::out(c); ++i) acc |= d.b[i];
		vp_assert(acc <= 255, "digest bytes are defined");
	}
	vp_assert(vp_live_heap() == live, "memory is leaked");
	vp_cover("compared");
}


// C18: length accounting for N whole blocks, N symbolic.  The bytes of the object that count data are found by
// watching concrete runs: they do not depend on the content and grow by a constant per block.  They are then set to
// what they are after N blocks.
namespace {
struct Layout
{
	struct Word { size_t at, w; uint64_t base, step; };
	Word word[16]; size_t n = 0; bool ok = true;
};
constexpr int KS[] = {1, 2, 3, 5, 7, 40};
constexpr int NK = sizeof KS / sizeof *KS;
struct ObjMem { alignas(16) uint8_t b[sizeof(H)]; };
constexpr bool BE = __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__;
uint64_t word(const uint8_t *p, size_t w) { uint64_t v = 0; for (size_t i = w; i-- > 0;) v = (v << 8) | p[BE ? w - 1 - i : i]; return v; }
void setWord(uint8_t *p, size_t w, uint64_t v) { for (size_t i = 0; i < w; ++i) { p[BE ? w - 1 - i : i] = (uint8_t)v; v >>= 8; } }
H *place(ObjMem *m, const Cfg &c) { for (size_t i = 0; i < sizeof(H); ++i) m->b[i] = 0; return new (m->b) H(A::make(c)); }
uint64_t wmask(size_t w) { return w == 8 ? ~(uint64_t)0 : ((uint64_t)1 << (8 * w)) - 1; }
Layout learn(const Cfg &c)
{
	Layout L;
	std::vector<uint8_t> zero(B), pat(B);
	for (size_t i = 0; i < B; ++i) pat[i] = (uint8_t)(0xA5 ^ (i * 29));
	std::vector<ObjMem> s(2 * NK);
	for (int q = 0; q < 2; ++q) for (int k = 0; k < NK; ++k)
	{
		const std::vector<uint8_t> &f = q ? pat : zero;
		ObjMem *m = &s[q * NK + k];
		H *h = place(m, c);
		for (int i = 0; i < KS[k]; ++i) A::feed(*h, f.data(), B);
		A::feed(*h, f.data(), 1);
	}
	std::vector<uint8_t> done(sizeof(H));
	for (size_t w = 8; w >= 1; w /= 2)
		for (size_t at = 0; at + w <= sizeof(H); at += w < 4 ? w : 4)
		{
			bool fit = true;
			for (size_t i = 0; i < w; ++i) if (done[at + i]) fit = false;
			for (int k = 0; k < NK && fit; ++k) for (size_t i = 0; i < w; ++i) if (!vp_is_const(&s[k].b[at + i], 1) || s[k].b[at + i] != s[NK + k].b[at + i]) { fit = false; break; }
			if (!fit) continue;
			const uint64_t v0 = word(s[0].b + at, w), step = (word(s[1].b + at, w) - v0) & wmask(w);
			if (!step || (w > 1 && !(step & wmask(w / 2)))) continue;
			for (int k = 0; k < NK; ++k) if (word(s[k].b + at, w) != ((v0 + (uint64_t)(KS[k] - 1) * step) & wmask(w))) fit = false;
			if (!fit) continue;
			if (L.n == 16) { L.ok = false; return L; }
			L.word[L.n++] = {at, w, v0, step};
			for (size_t i = 0; i < w; ++i) done[at + i] = 1;
		}
	// anything else that depends on the amount but not on the content is not understood
	for (size_t i = 0; i < sizeof(H); ++i) if (!done[i]) for (int k = 1; k < NK; ++k)
		if (vp_is_const(&s[0].b[i], 1) && vp_is_const(&s[k].b[i], 1) && vp_is_const(&s[NK].b[i], 1) && vp_is_const(&s[NK + k].b[i], 1) && s[k].b[i] != s[0].b[i] && s[NK + k].b[i] != s[NK].b[i] && s[k].b[i] == s[NK + k].b[i])
		{
			bool all = true; for (int j = 0; j < NK; ++j) if (s[j].b[i] != s[NK + j].b[i]) all = false;
			if (all) L.ok = false;
		}
	return L;
}
bool matches(const Layout &L, const uint8_t *o, uint64_t N)
{
	for (size_t i = 0; i < L.n; ++i)
	{
		const Layout::Word &w = L.word[i];
		if (!vp_is_const(o + w.at, w.w) || word(o + w.at, w.w) != ((w.base + (N - 1) * w.step) & wmask(w.w))) return false;
	}
	return true;
}
void setBlocks(const Layout &L, uint8_t *o, uint64_t N) { for (size_t i = 0; i < L.n; ++i) setWord(o + L.word[i].at, L.word[i].w, L.word[i].base + (N - 1) * L.word[i].step); }
// native: really hash N blocks of a repeated block, then the tail
struct Real { Out got, want; bool layout; };
void real(const Cfg &c, const Layout &L, const uint8_t *blk, uint64_t N, const uint8_t *tail, size_t r, Real &o)
{
	const size_t chunk = 4096;
	std::vector<uint8_t> big(B * chunk);
	for (size_t i = 0; i < chunk; ++i) for (size_t j = 0; j < B; ++j) big[i * B + j] = blk[j];
	ObjMem *m = new ObjMem; H *h = place(m, c);
	for (uint64_t k = 0; k < N;) { const uint64_t t = N - k < chunk ? N - k : chunk; A::feed(*h, big.data(), (size_t)t * B); k += t; }
	A::feed(*h, tail, 1);
	o.layout = matches(L, m->b, N);
	A::feed(*h, tail + 1, r - 1); h->finalize(); read(*h, c, o.got);
	R *f = new R; A::reinit(*f, c);
	for (uint64_t k = 0; k < N; ++k) f->absorb(blk);
	ref::run(*f, tail, r, o.want.b); delete f; delete m;
}
}
extern "C" void e_long()
{
	const size_t r = P(0);             // bytes after the N blocks, at least 1
	const Cfg c = A::cfg();
	Msg b1(B, "msg"), tail(r, "tail");
	uint64_t N; vp_sym(&N, sizeof N, "N");
	N &= ((uint64_t)1 << P(1)) / B - 1;
	vp_assume(N >= 1 && N <= ((uint64_t)1 << P(1)) / B - 4);
	const Layout L = learn(c);
	if (!L.ok || (R::LEN && L.n == 0)) { if (vp_native()) vp_assume(false); return; }
	if (vp_native() && R::LEN)
	{
		static const uint64_t at[] = {(uint64_t)1 << 29, (uint64_t)1 << 32};
		for (uint64_t t : at)
		{
			Real o; real(c, L, b1.p, t / B + 1, tail.p, r, o);
			same(c, o.got, o.want, "digest of a really hashed long message differs from the specification");
			if (t >> 32) vp_assume(o.layout);     // the counters were understood
		}
	}
	ObjMem *m = new ObjMem; H *h = place(m, c);
	A::feed(*h, b1.p, B); A::feed(*h, tail.p, 1);
	if (!matches(L, m->b, 1)) { if (vp_native()) vp_assume(false); return; }
	setBlocks(L, m->b, N);
	A::feed(*h, tail.p + 1, r - 1);
	h->finalize();
	Out got, want; read(*h, c, got);
	R *f = new R; A::reinit(*f, c);
	f->absorb(b1.p); f->n += (N - 1) * B;
	ref::run(*f, tail.p, r, want.b);
	vp_cover("compared");
	same(c, got, want, "digest of a long message differs from the specification");
	delete f; delete m;
}

// C18: one feeding call with a symbolic, enormous length reads its data in order up to a point that is out of reach here; by
// then the counters hold what was read or all that is to be read
static Layout hugeL; static const H *hugeH; static uint64_t hugeLen; static size_t hugeR0, hugeW;
static void hugePast(size_t read)
{
	vp_cover("compared");
	vp_assert(read == 0 || read == hugeW, "a feeding call skips data of a long piece");
	if (read == 0 || !hugeL.ok || B < 8) return;
	const uint8_t *o = (const uint8_t *)hugeH;
	const uint64_t total = hugeR0 + hugeLen, k = (hugeR0 + hugeW) / B;
	for (size_t i = 0; i < hugeL.n; ++i)
	{
		const Layout::Word &w = hugeL.word[i];
		const uint64_t m = wmask(w.w), z = (w.base - w.step) & m, v = word(o + w.at, w.w), unit = w.step / B;
		// learned after one more byte than the blocks
		bool ok = false;
		for (uint64_t q = k - 1; q <= k + 1; ++q) ok |= v == ((z + q * w.step) & m) || v == ((z - unit + q * w.step) & m);
		for (uint64_t q = 0; q < 2; ++q) ok |= v == ((z + (total / B - q) * w.step) & m) || v == ((z - unit + (total / B - q) * w.step) & m);
		ok |= v == ((z - unit + total * unit) & m) || v == ((z - unit + (total / 8) * (w.step / (B / 8))) & m);
		vp_assert(ok, "a feeding call miscounts a long piece");
	}
}
extern "C" void e_huge()
{
	const size_t r0 = P(0);             // buffered beforehand
	const Cfg c = A::cfg();
	Msg pre(r0, "pre");
	uint64_t len; vp_sym(&len, sizeof len, "len");
	const size_t W = P(1) * (B < 16 ? 16 : B) + (B < 8 ? 0 : (B - r0 % B) % B);
	vp_assume(len > W && len < (uint64_t)1 << P(2));
	H h = A::make(c);
	A::feed(h, pre.p, r0);
	if (vp_native())
	{
		const uint8_t *p = (const uint8_t *)vp_zeros(len);
		vp_assume(p != nullptr);
		H g(h);
		if (P(3)) A::form(h, Span(p, (size_t)len)); else A::feed(h, p, (size_t)len);
		for (uint64_t at = 0; at < len;) { const uint64_t n = len - at < 65521 ? len - at : 65521; A::feed(g, p + at, (size_t)n); at += n; }
		h.finalize(); g.finalize();
		Out x, y; read(h, c, x); read(g, c, y);
		same(c, x, y, "a long piece fed at once has another digest than fed in small pieces");
		return;
	}
	hugeL = learn(c); hugeH = &h; hugeLen = len; hugeR0 = r0; hugeW = W;
	uint8_t *p = (uint8_t *)vp_trip_alloc(W, hugePast);
	vp_sym(p, W, "msg");
	if (P(3)) A::form(h, Span(p, (size_t)len)); else A::feed(h, p, (size_t)len);
	vp_assert(false, "a feeding call returns before it has read all its data");
}
