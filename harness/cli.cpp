// C20: the real src/program/main.cpp, compiled with its main() renamed and the streams, printf and exit() replaced by
// the models below.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <iterator>
#include <memory>
#include <string>
#include <vector>
#include "vp.h"
#include "ref.h"
template class std::basic_string<char>;

// ---------------------------------------------------------------- models
namespace world
{
	const uint8_t *data; size_t size;          // content of the file, or of standard input
	const char *name; size_t nameLen;          // name of the file
	bool fromStdin, unsupported;
	char out[1 << 14]; size_t n;               // what was printed
	int exitCode; bool exited;
	void put(char c) { if (n < sizeof out) out[n] = c; ++n; }
	void puts_(const char *s) { while (*s) put(*s++); }
	void num(unsigned long long v, unsigned base, bool upper) { char t[24]; int k = 0; do { const unsigned d = (unsigned)(v % base); t[k++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v); while (k) put(t[--k]); }
	struct Exit {};
	struct File { bool open = false; size_t at = 0; };
}
[[noreturn]] inline void vp_exit(int c) { world::exited = true; world::exitCode = c; throw world::Exit(); }
inline int vp_puts(const char *s) { world::puts_(s); world::put('\n'); return 1; }
inline int vp_putchar(int c) { world::put((char)c); return c; }
inline bool vp_isout(FILE *f) { return f != stderr; }
inline int vp_fputs(const char *s, FILE *f) { if (vp_isout(f)) world::puts_(s); return 1; }
inline size_t vp_fwrite(const void *p, size_t s, size_t k, FILE *f) { if (vp_isout(f)) for (size_t i = 0; i < s * k; ++i) world::put(((const char *)p)[i]); return k; }
inline int vp_fflush(FILE *) { return 0; }
namespace world
{
	struct Arg
	{
		const char *s = nullptr; unsigned long long v = 0; bool neg = false; int size = 0;
		Arg(const char *x) : s(x) {}
		Arg(char *x) : s(x) {}
		template <class T, class = std::enable_if_t<std::is_integral<T>::value>> Arg(T x) : v((unsigned long long)(x < 0 ? 0 - (unsigned long long)x : (unsigned long long)x)), neg(x < 0), size((int)sizeof(T)) {}
		Arg(double) { unsupported = true; }
	};
	inline void format(const char *f, const Arg *a, size_t n, bool on)
	{
		size_t k = 0;
		for (; *f; ++f)
		{
			if (*f != '%') { if (on) put(*f); continue; }
			++f;
			if (*f == '%') { if (on) put('%'); continue; }
			long prec = -1; size_t width = 0; bool zero = false;
			if (*f == '0') { zero = true; ++f; }
			while (*f >= '0' && *f <= '9') width = width * 10 + (size_t)(*f++ - '0');
			if (f[0] == '.' && f[1] == '*') { if (k >= n) { unsupported = true; return; } prec = (long)a[k++].v; f += 2; }
			while (*f == 'l' || *f == 'z' || *f == 'h') ++f;
			if (k >= n) { unsupported = true; return; }
			const Arg &x = a[k++];
			if (*f == 's' && x.s && !width) { const char *s = x.s; for (; prec != 0 && *s; ++s, --prec) if (on) put(*s); }
			else if (*f == 'c' && !x.s) { if (on) put((char)x.v); }
			else if ((*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') && !x.s && !(x.neg && (width || (*f != 'd' && *f != 'i'))))
			{
				if (x.neg && on) put('-');
				const unsigned base = *f == 'x' || *f == 'X' ? 16 : 10;
				size_t digits = 1; for (unsigned long long v = x.v; v >= base; v /= base) ++digits;
				for (; digits < width; ++digits) if (on) put(zero ? '0' : ' ');
				if (on) num(x.v, base, *f == 'X');
			}
			else { unsupported = true; return; }
		}
	}
}
template <class... A> int vp_printf(const char *f, A... a) { const world::Arg l[] = {world::Arg(a)..., world::Arg("")}; world::format(f, l, sizeof...(A), true); return 1; }
template <class... A> int vp_fprintf(FILE *s, const char *f, A... a) { const world::Arg l[] = {world::Arg(a)..., world::Arg("")}; world::format(f, l, sizeof...(A), vp_isout(s)); return 1; }

namespace std
{
	// <iterator> brings in ios_base; the stream classes are declared only, and these are the definitions the program sees
	template <> class basic_ios<char, char_traits<char>>
	{
	public:
		typedef ios_base::openmode openmode; typedef ios_base::iostate iostate; typedef ios_base::seekdir seekdir;
		static constexpr openmode in = ios_base::in, out = ios_base::out, binary = ios_base::binary, ate = ios_base::ate, app = ios_base::app, trunc = ios_base::trunc;
		static constexpr iostate goodbit = ios_base::goodbit, eofbit = ios_base::eofbit, failbit = ios_base::failbit, badbit = ios_base::badbit;
		static constexpr seekdir beg = ios_base::beg, cur = ios_base::cur, end = ios_base::end;
		static bool sync_with_stdio(bool b = true) { return b; }
		virtual ~basic_ios() {}
		bool good() const { return st == goodbit; }
		bool eof() const { return (st & eofbit) != goodbit; }
		bool fail() const { return (st & (failbit | badbit)) != goodbit; }
		bool bad() const { return (st & badbit) != goodbit; }
		explicit operator bool() const { return !fail(); }
		bool operator!() const { return fail(); }
		iostate rdstate() const { return st; }
		void clear(iostate s = goodbit) { st = s; }
		void setstate(iostate s) { st |= s; }
		basic_ostream<char> *tie(basic_ostream<char> *) { return nullptr; }
	protected:
		iostate st = goodbit;
	};
	template <> class basic_istream<char, char_traits<char>> : public basic_ios<char>
	{
	public:
		virtual ~basic_istream() {}
		basic_istream &read(char *p, streamsize k)
		{
			got = 0;
			if (!good()) { st |= failbit; return *this; }
			const size_t left = world::size - f.at, take = (size_t)k < left ? (size_t)k : left;
			if (take) memcpy(p, world::data + f.at, take);
			f.at += take; got = (streamsize)take;
			if (take < (size_t)k) st |= eofbit | failbit;
			return *this;
		}
		streamsize readsome(char *p, streamsize k) { read(p, k); if (got) st &= ~failbit; return got; }
		streamsize gcount() const { return got; }
		int get() { got = 0; if (!good()) { st |= failbit; return -1; } if (f.at >= world::size) { st |= eofbit | failbit; return -1; } got = 1; return world::data[f.at++]; }
		basic_istream &get(char &c) { const int r = get(); if (r >= 0) c = (char)r; return *this; }
		int peek() { got = 0; if (!good()) return -1; if (f.at >= world::size) { st |= eofbit; return -1; } return world::data[f.at]; }
		basic_istream &ignore(streamsize k = 1, int = -1) { got = 0; while (got < k && get() >= 0) {} return *this; }
		long tellg() { return fail() ? -1 : (long)f.at; }
		basic_istream &seekg(long o) { st &= ~eofbit; if (!fail()) f.at = (size_t)o; return *this; }
		basic_istream &seekg(long o, seekdir d) { st &= ~eofbit; if (!fail()) f.at = (size_t)(o + (d == beg ? 0 : d == cur ? (long)f.at : (long)world::size)); return *this; }
	protected:
		world::File f; streamsize got = 0;
	};
	template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char>
	{
	public:
		basic_ifstream() {}
		explicit basic_ifstream(const char *n, openmode m = in) { open(n, m); }
		explicit basic_ifstream(const std::string &n, openmode m = in) { open(n, m); }
		void open(const char *n, openmode m = in) { open(std::string(n), m); }
		void open(const std::string &n, openmode m = in)
		{
			f.open = !world::fromStdin && n.size() == world::nameLen && memcmp(n.data(), world::name, n.size()) == 0;
			f.at = (m & ate) != (m & ~m) ? world::size : 0;
			st = f.open ? goodbit : failbit;
		}
		bool is_open() const { return f.open; }
		void close() { if (!f.open) st |= failbit; f.open = false; }
	};
	template <> class basic_ostream<char, char_traits<char>> : public basic_ios<char>
	{
	public:
		explicit basic_ostream(bool o) : on(o) {}
		basic_ostream &write(const char *p, streamsize k) { if (on) for (streamsize i = 0; i < k; ++i) world::put(p[i]); return *this; }
		basic_ostream &put(char c) { if (on) world::put(c); return *this; }
		basic_ostream &flush() { return *this; }
		basic_ostream &operator<<(const char *s) { if (on) world::puts_(s); return *this; }
		basic_ostream &operator<<(char c) { return put(c); }
		basic_ostream &operator<<(const std::string &s) { return write(s.data(), (streamsize)s.size()); }
		basic_ostream &operator<<(int v) { if (v < 0) { put('-'); if (on) world::num(0ull - (unsigned long long)(long long)v, 10, false); } else if (on) world::num((unsigned long long)v, 10, false); return *this; }
		basic_ostream &operator<<(size_t v) { if (on) world::num(v, 10, false); return *this; }
		basic_ostream &operator<<(basic_ostream &(*m)(basic_ostream &)) { return m(*this); }
		bool on;
	};
	inline basic_ostream<char> &endl(basic_ostream<char> &o) { return o.put('\n'); }
	inline basic_ostream<char> &flush(basic_ostream<char> &o) { return o; }
	static basic_istream<char> cin; static basic_ostream<char> cout(true), cerr(false), clog(false);
	using ::vp_printf; using ::vp_fprintf; using ::vp_puts; using ::vp_putchar; using ::vp_fputs; using ::vp_fwrite; using ::vp_exit; using ::vp_fflush;
}
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_IOS 1
#define printf vp_printf
#define fprintf vp_fprintf
#define puts vp_puts
#define putchar vp_putchar
#define fputs vp_fputs
#define fwrite vp_fwrite
#define fflush vp_fflush
#define exit vp_exit
#define main vp_cli_main
#include REPO_MAIN
#undef main
#undef printf
#undef fprintf
#undef puts
#undef putchar
#undef fputs
#undef fwrite
#undef fflush
#undef exit

#ifndef VP_NATIVE
// C library functions the program may use to convert numbers
extern "C" {
int *__errno_location() noexcept { static int e; return &e; }
static bool vp_conv(const char *s, char **end, int base, bool &neg, unsigned long long &v)   // false: too large for 64 bits
{
	const char *p = s; bool ok = true, any = false; neg = false; v = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
	if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	for (;; ++p)
	{
		const int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
		if (d >= base) break;
		any = true;
		if (v > (~0ull - (unsigned)d) / (unsigned)base) ok = false; else v = v * (unsigned)base + (unsigned)d;
	}
	if (end) *end = const_cast<char *>(any ? p : s);
	return ok;
}
static long long vp_signed(const char *s, char **e, int b)
{
	bool neg; unsigned long long v; const bool ok = vp_conv(s, e, b, neg, v);
	if (!ok || v > (neg ? 1ull << 63 : ~0ull >> 1)) { *__errno_location() = ERANGE; return neg ? (long long)(1ull << 63) : (long long)(~0ull >> 1); }
	return neg ? (long long)(0 - v) : (long long)v;
}
static unsigned long long vp_unsigned(const char *s, char **e, int b)
{
	bool neg; unsigned long long v; const bool ok = vp_conv(s, e, b, neg, v);
	if (!ok) { *__errno_location() = ERANGE; return ~0ull; }
	return neg ? 0 - v : v;
}
long __isoc23_strtol(const char *s, char **e, int b) noexcept { return vp_signed(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) noexcept { return vp_signed(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) noexcept { return vp_unsigned(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) noexcept { return vp_unsigned(s, e, b); }
}
#endif

namespace {
size_t P(int i) { return (size_t)vp_param(i); }
int callMain(int (*f)(int, const char **), int n, char **a) { return f(n, const_cast<const char **>(a)); }
int callMain(int (*f)(int, char **), int n, char **a) { return f(n, a); }
int callMain(int (*f)(int, const char *const *), int n, char **a) { return f(n, a); }

// ---------------------------------------------------------------- what the program is documented to do
enum Kind { PLAIN, LENGTH, CUSTOM };
struct Option { const char *name; Kind kind; };
const Option options[] = {
	{"-blake1-224", PLAIN}, {"-blake1-256", PLAIN}, {"-blake1-384", PLAIN}, {"-blake1-512", PLAIN}, {"-blake2", PLAIN}, {"-blake2s", PLAIN}, {"-crc-32", PLAIN},
	{"-cshake-128", CUSTOM}, {"-cshake-256", CUSTOM}, {"-fnv32_1a", PLAIN}, {"-fnv64_1a", PLAIN}, {"-has160", PLAIN}, {"-md2", PLAIN}, {"-md4", PLAIN}, {"-md5", PLAIN},
	{"-ripemd-128", PLAIN}, {"-ripemd-160", PLAIN}, {"-ripemd-256", PLAIN}, {"-ripemd-320", PLAIN}, {"-siphash", PLAIN}, {"-sha1", PLAIN}, {"-sha2-224", PLAIN},
	{"-sha2-256", PLAIN}, {"-sha2-384", PLAIN}, {"-sha2-512", PLAIN}, {"-sha2-512-224", PLAIN}, {"-sha2-512-256", PLAIN}, {"-sha3-224", PLAIN}, {"-sha3-256", PLAIN},
	{"-sha3-384", PLAIN}, {"-sha3-512", PLAIN}, {"-shake-128", LENGTH}, {"-shake-256", LENGTH}, {"-sm3", PLAIN}, {"-tiger1-128", PLAIN}, {"-tiger1-160", PLAIN},
	{"-tiger1-192", PLAIN}, {"-tiger2-128", PLAIN}, {"-tiger2-160", PLAIN}, {"-tiger2-192", PLAIN}, {"-tuple-hash-128", CUSTOM}, {"-tuple-hash-256", CUSTOM}, {"-whirlpool", PLAIN}};
constexpr int NOPT = sizeof options / sizeof *options;
struct In { const uint8_t *m; size_t n, len; const uint8_t *cust; size_t cl; uint8_t *out; };
template <class R> size_t plain(const In &i) { R *r = new R; r->init(); ref::run(*r, i.m, i.n, i.out); delete r; return R::OUT; }
template <class R> size_t sponge(const In &i, int sfx, size_t len) { R *r = new R; r->init(sfx, len); ref::run(*r, i.m, i.n, i.out); delete r; return len; }
template <class R> size_t cshake(const In &i) { R *r = new R; r->init(i.len, nullptr, 0, i.cust, i.cl); ref::run(*r, i.m, i.n, i.out); delete r; return i.len; }
template <class R> size_t tuple(const In &i)
{
	static const uint8_t nm[9] = {'T', 'u', 'p', 'l', 'e', 'H', 'a', 's', 'h'};
	std::vector<uint8_t> s(i.n + 32); size_t k = ref::left_encode(s.data(), (uint64_t)i.n * 8);
	for (size_t j = 0; j < i.n; ++j) s[k++] = i.m[j];
	k += ref::right_encode(s.data() + k, (uint64_t)i.len * 8);
	R *r = new R; r->init(i.len, nm, 9, i.cust, i.cl); ref::run(*r, s.data(), k, i.out); delete r; return i.len;
}
size_t spec(int o, const In &i)
{
	switch (o)
	{
	case 0: return plain<ref::BLAKE<uint32_t, 224>>(i); case 1: return plain<ref::BLAKE<uint32_t, 256>>(i); case 2: return plain<ref::BLAKE<uint64_t, 384>>(i); case 3: return plain<ref::BLAKE<uint64_t, 512>>(i);
	case 4: return plain<ref::BLAKE2<uint64_t>>(i); case 5: return plain<ref::BLAKE2<uint32_t>>(i); case 6: return plain<ref::CRC32>(i);
	case 7: return cshake<ref::CSHAKE<168>>(i); case 8: return cshake<ref::CSHAKE<136>>(i);
	case 9: return plain<ref::FNV<uint32_t, 2>>(i); case 10: return plain<ref::FNV<uint64_t, 2>>(i); case 11: return plain<ref::HAS160>(i);
	case 12: return plain<ref::MD2>(i); case 13: return plain<ref::MD4>(i); case 14: return plain<ref::MD5>(i);
	case 15: return plain<ref::RMD<128>>(i); case 16: return plain<ref::RMD<160>>(i); case 17: return plain<ref::RMD<256>>(i); case 18: return plain<ref::RMD<320>>(i);
	case 19: { ref::SIP *r = new ref::SIP; const uint8_t key[16] = {}; r->init(key); ref::run(*r, i.m, i.n, i.out); delete r; return ref::SIP::OUT; }
	case 20: return plain<ref::SHA1>(i); case 21: return plain<ref::SHA224>(i); case 22: return plain<ref::SHA256>(i); case 23: return plain<ref::SHA384>(i); case 24: return plain<ref::SHA512>(i);
	case 25: return plain<ref::SHA512t<224>>(i); case 26: return plain<ref::SHA512t<256>>(i);
	case 27: return sponge<ref::Sponge<144>>(i, 6, 28); case 28: return sponge<ref::Sponge<136>>(i, 6, 32); case 29: return sponge<ref::Sponge<104>>(i, 6, 48); case 30: return sponge<ref::Sponge<72>>(i, 6, 64);
	case 31: return sponge<ref::Sponge<168>>(i, 0x1f, i.len); case 32: return sponge<ref::Sponge<136>>(i, 0x1f, i.len);
	case 33: return plain<ref::SM3>(i);
	case 34: return plain<ref::TIGER<1, 128>>(i); case 35: return plain<ref::TIGER<1, 160>>(i); case 36: return plain<ref::TIGER<1, 192>>(i);
	case 37: return plain<ref::TIGER<2, 128>>(i); case 38: return plain<ref::TIGER<2, 160>>(i); case 39: return plain<ref::TIGER<2, 192>>(i);
	case 40: return tuple<ref::CSHAKE<168>>(i); case 41: return tuple<ref::CSHAKE<136>>(i);
	default: return plain<ref::WHIRL>(i);
	}
}

struct Line { int argc; char *argv[8]; };
void runMain(void *p) { Line *l = (Line *)p; world::exitCode = callMain(&vp_cli_main, l->argc, l->argv); }
void start(const uint8_t *m, size_t n, const char *name, size_t nameLen)
{
	world::data = m; world::size = n; world::name = name; world::nameLen = nameLen; world::fromStdin = false;
	world::n = 0; world::exited = false; world::unsupported = false; world::exitCode = -1;
}
void go(Line &l)
{
	const int r = vp_try(runMain, &l);
	vp_assert(r == 0 || world::exited, "the program ends with an exception");
	if (world::unsupported) { vp_assume(false); }
}
void usage(const char *why)
{
	static const char u[] = "Usage: ";
	vp_assert(world::n > 100 && world::n <= sizeof world::out, why);
	vp_assert_eq(world::out, u, sizeof u - 1, why);
}
struct Sym   // a NUL terminated symbolic string without NUL inside, in an object of exactly its size
{
	char *p; size_t n;
	Sym(size_t k, const char *nm) : p((char *)vp_alloc(k + 1)), n(k) { vp_sym(p, k, nm); for (size_t i = 0; i < k; ++i) vp_assume(p[i] != 0); p[k] = 0; }
	Sym(const char *s, size_t k) : p((char *)vp_alloc(k + 1)), n(k) { for (size_t i = 0; i < k; ++i) p[i] = s[i]; p[k] = 0; }
	explicit Sym(const char *s) : Sym(s, strlen(s)) {}
	~Sym() { vp_free(p); }
	Sym(const Sym &) = delete;
};
struct Content
{
	uint8_t *p; size_t n;
	explicit Content(size_t len) : p((uint8_t *)vp_alloc(len)), n(len)
	{
		const size_t cap = P(9); size_t k = 0;       // parameter 8: concrete content
		if (P(8) || (cap && n > cap)) { k = P(8) ? n : n - cap; for (size_t i = 0; i < k; ++i) p[i] = (uint8_t)(i * 7 + (i >> 8) + (i >> 16) * 5 + (i >> 24) * 3 + 1); }
		vp_sym(p + k, n - k, "file");
	}
	~Content() { vp_free(p); }
	Content(const Content &) = delete;
};
void checkDigest(int o, const Content &c, size_t len, const Sym &cust, const char *name, size_t nameLen)
{
	uint8_t d[1200]; char want[2600]; size_t k = 0;
	const size_t dl = spec(o, In{c.p, c.n, len, (const uint8_t *)cust.p, cust.n, d});
	for (size_t i = 0; i < dl; ++i) for (int h = 4; h >= 0; h -= 4) { const uint8_t x = (d[i] >> h) & 15; want[k++] = (char)(x < 10 ? '0' + x : 'a' + (x - 10)); }
	want[k++] = ' '; want[k++] = ' ';
	for (size_t i = 0; i < nameLen; ++i) want[k++] = name[i];
	want[k++] = '\n';
	vp_cover("compared");
	vp_assert(world::n == k, "the program prints something else than one line with the digest");
	vp_assert_eq(world::out, want, k, "the program prints another digest or name than specified");
}
void decimal(size_t v, char *o) { char t[24]; int k = 0, j = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) o[j++] = t[--k]; o[j] = 0; }
}

// option p0, content of p1 bytes, p2: 0 file, 1 stdin; digest length p3, customization of p4 bytes, file name of p5 bytes, concrete name if p6
extern "C" void e_cli()
{
	const int o = (int)P(0);
	Content c(P(1));
	Sym opt(options[o].name), cust(P(4), "custom"), prog("hash");
	char num[24]; decimal(P(3), num);
	Sym len(num);
	Sym name(P(5), "name");
	if (P(2)) { name.p[0] = '-'; name.p[1] = 0; name.n = 1; }
	else if (P(6)) for (size_t i = 0; i < name.n; ++i) name.p[i] = (char)('a' + i % 26);
	else vp_assume(!(name.n == 1 && name.p[0] == '-'));
	start(c.p, c.n, name.p, name.n);
	world::fromStdin = P(2) != 0;
	Line l{0, {prog.p, opt.p}};
	l.argc = 2;
	if (options[o].kind != PLAIN) l.argv[l.argc++] = len.p;
	if (options[o].kind == CUSTOM) l.argv[l.argc++] = cust.p;
	l.argv[l.argc++] = name.p;
	l.argv[l.argc] = nullptr;
	go(l);
	checkDigest(o, c, P(3), cust, name.p, name.n);
}

// the option is a symbolic string of p0 bytes that is no documented option; p1 arguments follow
extern "C" void e_cliopt()
{
	Content c(3);
	Sym opt(P(0), "option"), prog("hash"), a1("16"), a2(2, "a2"), name("file");
	for (int i = 0; i < NOPT; ++i) if (strlen(options[i].name) == opt.n) { bool eq = true; for (size_t k = 0; k < opt.n; ++k) eq &= opt.p[k] == options[i].name[k]; vp_assume(!eq); }
	start(c.p, c.n, name.p, name.n);
	Line l{2, {prog.p, opt.p}};
	if (P(1) > 1) l.argv[l.argc++] = a1.p;
	if (P(1) > 2) l.argv[l.argc++] = a2.p;
	if (P(1) > 0) l.argv[l.argc++] = name.p;
	l.argv[l.argc] = nullptr;
	go(l);
	vp_cover("compared");
	usage("an unknown option does not print the usage");
}

// wrong number of arguments: option p0 (NOPT: none), p1 arguments after it
extern "C" void e_cliargc()
{
	const int o = (int)P(0); const int extra = (int)P(1);
	Content c(3);
	Sym prog("hash"), opt(o < NOPT ? options[o].name : ""), a1("16"), a2(2, "a2"), a3(1, "a3"), a4("x"), a5("y");
	start(c.p, c.n, a4.p, 1);
	Line l{0, {prog.p}};
	l.argc = 1;
	if (o < NOPT) l.argv[l.argc++] = opt.p;
	char *more[] = {a1.p, a2.p, a3.p, a4.p, a5.p};
	for (int i = 0; i < extra; ++i) l.argv[l.argc++] = more[i];
	l.argv[l.argc] = nullptr;
	const int right = o < NOPT ? (options[o].kind == PLAIN ? 1 : options[o].kind == LENGTH ? 2 : 3) : -1;
	if (extra == right) return;
	go(l);
	vp_cover("compared");
	usage("a wrong number of arguments does not print the usage");
}

// invalid digest length for option p0: p1 selects the text, with p2 symbolic bytes
extern "C" void e_clilen()
{
	static const char *const bad[] = {"", "-1", "-5", "-2147483648", "-2147483649", "2147483648", "4294967295", "4294967296", "4294967328", "18446744073709551616", "99999999999999999999999", "abc", "x16", "+", "-", " ", "--1", "-99999999999999999999999", "0x"};
	const int o = (int)P(0); const size_t w = P(1);
	Content c(3);
	Sym prog("hash"), opt(options[o].name), cust("cust"), name("file"), sym(P(2), "length"), fix(w < sizeof bad / sizeof *bad ? bad[w] : "");
	if (w == 18) return;      // a number followed by something else: not specified
	char *len = w < 100 ? fix.p : sym.p;
	if (w == 100)             // a negative number
	{
		vp_assume(sym.p[0] == '-');
		bool zero = true;
		for (size_t i = 1; i < sym.n; ++i) { vp_assume(sym.p[i] >= '0' && sym.p[i] <= '9'); zero &= sym.p[i] == '0'; }
		vp_assume(!zero);
	}
	else if (w == 101)        // not a number
	{
		const char f = sym.p[0];
		vp_assume(!(f >= '0' && f <= '9') && f != '-' && f != '+' && f != ' ' && !(f >= 9 && f <= 13));
	}
	else if (w == 102)        // too large a number
	{
		for (size_t i = 0; i < sym.n; ++i) vp_assume(sym.p[i] >= '0' && sym.p[i] <= '9');
		vp_assume(sym.p[0] != '0');       // at least 11 digits
	}
	start(c.p, c.n, name.p, name.n);
	Line l{0, {prog.p, opt.p, len}};
	l.argc = 3;
	if (options[o].kind == CUSTOM) l.argv[l.argc++] = cust.p;
	l.argv[l.argc++] = name.p;
	l.argv[l.argc] = nullptr;
	go(l);
	vp_cover("compared");
	usage("an invalid digest length does not print the usage");
}

// concrete validation run: what the program prints
extern "C" void e_clirec()
{
	const int o = (int)P(0);
	Content c(P(1));
	Sym opt(options[o].name), cust("xyz"), prog("hash"), name("in.bin"), len("24");
	start(c.p, c.n, name.p, name.n);
	Line l{0, {prog.p, opt.p}};
	l.argc = 2;
	if (options[o].kind != PLAIN) l.argv[l.argc++] = len.p;
	if (options[o].kind == CUSTOM) l.argv[l.argc++] = cust.p;
	l.argv[l.argc++] = name.p;
	go(l);
	vp_record(world::out, world::n, "out");
	vp_cover("compared");
}
