// Textbook reference implementations, written from the published specifications.
// Independent of the code under test: constant tables come from ref_tables.h (derived by gen_tables.py).
// Shape: a chaining state S with  init(cfg), absorb(block of B bytes), finish(tail, tailLen, out).
// `n` counts the bytes absorbed so far and may be preset (long-message checks).
#pragma once
#include <cstddef>
#include <cstdint>
#include "ref_tables.h"

namespace ref {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
static inline u32 rl(u32 x, unsigned s) { return s ? (x << s) | (x >> (32 - s)) : x; }
static inline u64 rl(u64 x, unsigned s) { return s ? (x << s) | (x >> (64 - s)) : x; }
static inline u32 rr(u32 x, unsigned s) { return rl(x, (32 - s) & 31); }
static inline u64 rr(u64 x, unsigned s) { return rl(x, (64 - s) & 63); }
template <class W> static inline W ldle(const u8 *p) { W r = 0; for (unsigned i = sizeof(W); i-- > 0;) r = (W)((r << 8) | p[i]); return r; }
template <class W> static inline W ldbe(const u8 *p) { W r = 0; for (unsigned i = 0; i < sizeof(W); ++i) r = (W)((r << 8) | p[i]); return r; }
template <class W> static inline void stle(u8 *p, W v, unsigned n = sizeof(W)) { for (unsigned i = 0; i < n; ++i) p[i] = (u8)(v >> (8 * i)); }
template <class W> static inline void stbe(u8 *p, W v, unsigned n = sizeof(W)) { for (unsigned i = 0; i < n; ++i) p[i] = (u8)(v >> (8 * (sizeof(W) - 1 - i))); }

// Merkle-Damgaard strengthening: tail || mark || 0* || length field, absorbed block by block
template <class A> static void mdpad(A &a, const u8 *tail, size_t tl, u8 mark, unsigned lenBytes, bool be, u64 total)
{
	u8 buf[2 * A::B]; size_t n = 0;
	for (; n < tl; ++n) buf[n] = tail[n];
	buf[n++] = mark;
	size_t end = (n + lenBytes <= A::B) ? A::B : 2 * A::B;
	while (n < end) buf[n++] = 0;
	u64 lo = total << 3, hi = total >> 61;
	for (unsigned i = 0; i < lenBytes; ++i)
	{
		u8 v = i < 8 ? (u8)(lo >> (8 * i)) : i < 16 ? (u8)(hi >> (8 * (i - 8))) : 0;
		buf[be ? end - 1 - i : end - lenBytes + i] = v;
	}
	for (size_t i = 0; i < end; i += A::B) a.absorb(buf + i);
}
template <class A> static void run(A &a, const u8 *m, size_t n, u8 *out)
{
	size_t i = 0;
	while (A::lazy ? n - i > A::B : n - i >= A::B) { a.absorb(m + i); i += A::B; }
	a.finish(m + i, n - i, out);
}

// ------------------------------------------------------------------ MD2 (RFC 1319 + erratum)
struct MD2
{
	static constexpr bool LEN = false; static constexpr size_t B = 16; static constexpr bool lazy = false; static constexpr size_t OUT = 16; static constexpr bool FULL = false;
	u8 x[16], c[16]; u8 l; u64 n;
	void init() { for (int i = 0; i < 16; ++i) x[i] = c[i] = 0; l = 0; n = 0; }
	void comp(const u8 *p)
	{
		u8 X[48];
		for (int i = 0; i < 16; ++i) { X[i] = x[i]; X[16 + i] = p[i]; X[32 + i] = p[i] ^ x[i]; }
		u8 t = 0;
		for (int j = 0; j < 18; ++j) { for (int k = 0; k < 48; ++k) t = X[k] ^= md2S[t]; t = (u8)(t + j); }
		for (int i = 0; i < 16; ++i) x[i] = X[i];
	}
	void absorb(const u8 *p) { for (int i = 0; i < 16; ++i) l = c[i] ^= md2S[p[i] ^ l]; comp(p); n += B; }
	void finish(const u8 *t, size_t tl, u8 *out)
	{
		u8 b[16]; for (size_t i = 0; i < 16; ++i) b[i] = i < tl ? t[i] : (u8)(16 - tl);
		absorb(b);
		u8 cc[16]; for (int i = 0; i < 16; ++i) cc[i] = c[i];
		comp(cc);
		for (int i = 0; i < 16; ++i) out[i] = x[i];
	}
};
// ------------------------------------------------------------------ MD4 / MD5
struct MD4
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = 16; static constexpr bool FULL = true;
	u32 h[4]; u64 n;
	void init() { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; n = 0; }
	void absorb(const u8 *p)
	{
		u32 X[16]; for (int i = 0; i < 16; ++i) X[i] = ldle<u32>(p + 4 * i);
		static const u8 s[3][4] = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
		static const u8 o3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
		u32 v[4] = {h[0], h[1], h[2], h[3]};
		for (int i = 0; i < 48; ++i)
		{
			int r = i / 16, j = i % 16;
			u32 &a = v[(4 - j % 4) % 4], b = v[(5 - j % 4) % 4], c = v[(6 - j % 4) % 4], d = v[(7 - j % 4) % 4];
			u32 f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
			int k = r == 0 ? j : r == 1 ? 4 * (j % 4) + j / 4 : o3[j];
			u32 K = r == 0 ? 0 : r == 1 ? 0x5a827999 : 0x6ed9eba1;
			a = rl(a + f + X[k] + K, s[r][j % 4]);
		}
		for (int i = 0; i < 4; ++i) h[i] += v[i];
		n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 8, false, n + tl); for (int i = 0; i < 4; ++i) stle(out + 4 * i, h[i]); }
};
struct MD5
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = 16; static constexpr bool FULL = true;
	u32 h[4]; u64 n;
	void init() { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; n = 0; }
	void absorb(const u8 *p)
	{
		u32 X[16]; for (int i = 0; i < 16; ++i) X[i] = ldle<u32>(p + 4 * i);
		static const u8 s[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
		u32 a = h[0], b = h[1], c = h[2], d = h[3];
		for (int i = 0; i < 64; ++i)
		{
			u32 f; int k;
			switch (i / 16)
			{
			case 0: f = (b & c) | (~b & d); k = i; break;
			case 1: f = (d & b) | (~d & c); k = (5 * i + 1) % 16; break;
			case 2: f = b ^ c ^ d; k = (3 * i + 5) % 16; break;
			default: f = c ^ (b | ~d); k = (7 * i) % 16; break;
			}
			u32 t = d; d = c; c = b; b = b + rl(a + f + X[k] + md5T[i], s[i / 16][i % 4]); a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 8, false, n + tl); for (int i = 0; i < 4; ++i) stle(out + 4 * i, h[i]); }
};
// ------------------------------------------------------------------ SHA-1
struct SHA1
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = 20; static constexpr bool FULL = true;
	u32 h[5]; u64 n;
	void init() { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; h[4] = 0xc3d2e1f0; n = 0; }
	void absorb(const u8 *p)
	{
		u32 W[80]; for (int t = 0; t < 80; ++t) W[t] = t < 16 ? ldbe<u32>(p + 4 * t) : rl(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1);
		u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; ++t)
		{
			u32 f, k;
			if (t < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
			else if (t < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
			else if (t < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
			else { f = b ^ c ^ d; k = 0xca62c1d6; }
			u32 tmp = rl(a, 5) + f + e + W[t] + k;
			e = d; d = c; c = rl(b, 30); b = a; a = tmp;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 8, true, n + tl); for (int i = 0; i < 5; ++i) stbe(out + 4 * i, h[i]); }
};
// ------------------------------------------------------------------ HAS-160
struct HAS160
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = 20; static constexpr bool FULL = true;
	u32 h[5]; u64 n;
	void init() { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; h[4] = 0xc3d2e1f0; n = 0; }
	void absorb(const u8 *p)
	{
		static const u8 l[4][20] = {
			{18, 0, 1, 2, 3, 19, 4, 5, 6, 7, 16, 8, 9, 10, 11, 17, 12, 13, 14, 15},
			{18, 3, 6, 9, 12, 19, 15, 2, 5, 8, 16, 11, 14, 1, 4, 17, 7, 10, 13, 0},
			{18, 12, 5, 14, 7, 19, 0, 9, 2, 11, 16, 4, 13, 6, 15, 17, 8, 1, 10, 3},
			{18, 7, 2, 13, 8, 19, 3, 14, 9, 4, 16, 15, 10, 5, 0, 17, 11, 6, 1, 12}};
		static const u8 s1[20] = {5, 11, 7, 15, 6, 13, 8, 14, 7, 12, 9, 11, 8, 15, 6, 12, 9, 14, 5, 13};
		static const u8 s2[4] = {10, 17, 25, 30};
		static const u32 K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc};
		u32 X[20]; for (int i = 0; i < 16; ++i) X[i] = ldle<u32>(p + 4 * i);
		u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int r = 0; r < 4; ++r)
		{
			// the expanded words combine the four message words of the following group of the round
			for (int g = 0; g < 4; ++g) X[16 + g] = X[l[r][5 * g + 1]] ^ X[l[r][5 * g + 2]] ^ X[l[r][5 * g + 3]] ^ X[l[r][5 * g + 4]];
			u32 x[20]; for (int i = 0; i < 16; ++i) x[i] = X[i];
			for (int g = 0; g < 4; ++g) x[16 + g] = X[16 + g];
			for (int j = 0; j < 20; ++j)
			{
				u32 f = r == 0 ? (b & c) | (~b & d) : r == 2 ? c ^ (b | ~d) : b ^ c ^ d;
				u32 t = rl(a, s1[j]) + f + e + x[l[r][j]] + K[r];
				e = d; d = c; c = rl(b, s2[r]); b = a; a = t;
			}
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 8, false, n + tl); for (int i = 0; i < 5; ++i) stle(out + 4 * i, h[i]); }
};
// ------------------------------------------------------------------ SM3
struct SM3
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = 32; static constexpr bool FULL = true;
	u32 h[8]; u64 n;
	void init() { static const u32 iv[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}; for (int i = 0; i < 8; ++i) h[i] = iv[i]; n = 0; }
	static u32 P0(u32 x) { return x ^ rl(x, 9) ^ rl(x, 17); }
	static u32 P1(u32 x) { return x ^ rl(x, 15) ^ rl(x, 23); }
	void absorb(const u8 *p)
	{
		u32 W[68]; for (int j = 0; j < 68; ++j) W[j] = j < 16 ? ldbe<u32>(p + 4 * j) : P1(W[j - 16] ^ W[j - 9] ^ rl(W[j - 3], 15)) ^ rl(W[j - 13], 7) ^ W[j - 6];
		u32 v[8]; for (int i = 0; i < 8; ++i) v[i] = h[i];
		u32 a = v[0], b = v[1], c = v[2], d = v[3], e = v[4], f = v[5], g = v[6], hh = v[7];
		for (int j = 0; j < 64; ++j)
		{
			u32 T = j < 16 ? 0x79cc4519 : 0x7a879d8a;
			u32 SS1 = rl(rl(a, 12) + e + rl(T, j % 32), 7), SS2 = SS1 ^ rl(a, 12);
			u32 FF = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c), GG = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
			u32 TT1 = FF + d + SS2 + (W[j] ^ W[j + 4]), TT2 = GG + hh + SS1 + W[j];
			d = c; c = rl(b, 9); b = a; a = TT1; hh = g; g = rl(f, 19); f = e; e = P0(TT2);
		}
		h[0] ^= a; h[1] ^= b; h[2] ^= c; h[3] ^= d; h[4] ^= e; h[5] ^= f; h[6] ^= g; h[7] ^= hh; n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 8, true, n + tl); for (int i = 0; i < 8; ++i) stbe(out + 4 * i, h[i]); }
};
// ------------------------------------------------------------------ SHA-2
struct SHA2_32
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false;
	u32 h[8]; u64 n;
	void absorb(const u8 *p)
	{
		u32 W[64];
		for (int t = 0; t < 64; ++t)
		{
			if (t < 16) { W[t] = ldbe<u32>(p + 4 * t); continue; }
			u32 x = W[t - 15], y = W[t - 2];
			W[t] = (rr(y, 17) ^ rr(y, 19) ^ (y >> 10)) + W[t - 7] + (rr(x, 7) ^ rr(x, 18) ^ (x >> 3)) + W[t - 16];
		}
		u32 v[8]; for (int i = 0; i < 8; ++i) v[i] = h[i];
		for (int t = 0; t < 64; ++t)
		{
			u32 T1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + sha256K[t] + W[t];
			u32 T2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int i = 7; i > 0; --i) v[i] = v[i - 1];
			v[4] += T1; v[0] = T1 + T2;
		}
		for (int i = 0; i < 8; ++i) h[i] += v[i];
		n += B;
	}
	void fin(const u8 *t, size_t tl, u8 *out, unsigned bytes) { mdpad(*this, t, tl, 0x80, 8, true, n + tl); for (unsigned i = 0; i < bytes; ++i) out[i] = (u8)(h[i / 4] >> (24 - 8 * (i % 4))); }
};
struct SHA2_64
{
	static constexpr bool LEN = true; static constexpr size_t B = 128; static constexpr bool lazy = false;
	u64 h[8]; u64 n;
	void absorb(const u8 *p)
	{
		u64 W[80];
		for (int t = 0; t < 80; ++t)
		{
			if (t < 16) { W[t] = ldbe<u64>(p + 8 * t); continue; }
			u64 x = W[t - 15], y = W[t - 2];
			W[t] = (rr(y, 19) ^ rr(y, 61) ^ (y >> 6)) + W[t - 7] + (rr(x, 1) ^ rr(x, 8) ^ (x >> 7)) + W[t - 16];
		}
		u64 v[8]; for (int i = 0; i < 8; ++i) v[i] = h[i];
		for (int t = 0; t < 80; ++t)
		{
			u64 T1 = v[7] + (rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + sha512K[t] + W[t];
			u64 T2 = (rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int i = 7; i > 0; --i) v[i] = v[i - 1];
			v[4] += T1; v[0] = T1 + T2;
		}
		for (int i = 0; i < 8; ++i) h[i] += v[i];
		n += B;
	}
	void fin(const u8 *t, size_t tl, u8 *out, unsigned bytes) { mdpad(*this, t, tl, 0x80, 16, true, n + tl); for (unsigned i = 0; i < bytes; ++i) out[i] = (u8)(h[i / 8] >> (56 - 8 * (i % 8))); }
};
struct SHA256 : SHA2_32 { static constexpr size_t OUT = 32; static constexpr bool FULL = true; void init() { for (int i = 0; i < 8; ++i) h[i] = sha256IV[i]; n = 0; } void finish(const u8 *t, size_t tl, u8 *o) { fin(t, tl, o, OUT); } };
struct SHA224 : SHA2_32 { static constexpr size_t OUT = 28; static constexpr bool FULL = false; void init() { for (int i = 0; i < 8; ++i) h[i] = sha224IV[i]; n = 0; } void finish(const u8 *t, size_t tl, u8 *o) { fin(t, tl, o, OUT); } };
struct SHA512 : SHA2_64 { static constexpr size_t OUT = 64; static constexpr bool FULL = true; void init() { for (int i = 0; i < 8; ++i) h[i] = sha512IV[i]; n = 0; } void finish(const u8 *t, size_t tl, u8 *o) { fin(t, tl, o, OUT); } };
struct SHA384 : SHA2_64 { static constexpr size_t OUT = 48; static constexpr bool FULL = false; void init() { for (int i = 0; i < 8; ++i) h[i] = sha384IV[i]; n = 0; } void finish(const u8 *t, size_t tl, u8 *o) { fin(t, tl, o, OUT); } };
template <int BITS> struct SHA512t : SHA2_64   // FIPS 180-4, 5.3.6: initial value generation function
{
	static constexpr size_t OUT = BITS / 8; static constexpr bool FULL = false;
	void init()
	{
		for (int i = 0; i < 8; ++i) h[i] = sha512IV[i] ^ 0xa5a5a5a5a5a5a5a5ull;
		n = 0;
		u8 nm[12] = {'S', 'H', 'A', '-', '5', '1', '2', '/', '0' + BITS / 100, '0' + BITS / 10 % 10, '0' + BITS % 10, 0}, o[64];
		fin(nm, 11, o, 64);
		n = 0;
	}
	void finish(const u8 *t, size_t tl, u8 *o) { fin(t, tl, o, OUT); }
};
// ------------------------------------------------------------------ RIPEMD
template <int BITS> struct RMD
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = BITS / 8; static constexpr bool FULL = true;
	static constexpr bool five = BITS == 160 || BITS == 320, dbl = BITS == 256 || BITS == 320;
	u32 h[10]; u64 n;
	void init()
	{
		static const u32 iv[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}, iw[5] = {0x76543210, 0xfedcba98, 0x89abcdef, 0x01234567, 0x3c2d1e0f};
		const int k = five ? 5 : 4;
		for (int i = 0; i < 10; ++i) h[i] = 0;
		for (int i = 0; i < k; ++i) { h[i] = iv[i]; if (dbl) h[k + i] = iw[i]; }
		n = 0;
	}
	static u32 f(int j, u32 x, u32 y, u32 z)
	{
		switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
	}
	void absorb(const u8 *p)
	{
		static const u8 rho[16] = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
		static const u8 sh[5][16] = {
			{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8}, {12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
			{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9}, {14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
			{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
		const int k = five ? 5 : 4, rounds = five ? 5 : 4;
		u32 X[16]; for (int i = 0; i < 16; ++i) X[i] = ldle<u32>(p + 4 * i);
		u32 L[5] = {}, R[5] = {}; u8 il[16], ir[16];
		for (int i = 0; i < k; ++i) { L[i] = h[i]; R[i] = dbl ? h[k + i] : h[i]; }
		for (int i = 0; i < 16; ++i) { il[i] = (u8)i; ir[i] = (u8)((9 * i + 5) % 16); }
		for (int r = 0; r < rounds; ++r)
		{
			for (int j = 0; j < 16; ++j)
			{
				for (int side = 0; side < 2; ++side)
				{
					u32 *v = side ? R : L; int w = side ? ir[j] : il[j];
					u32 K = side ? (!five && r == 3 ? 0 : rmdKK[r]) : rmdK[r];
					u32 t = v[0] + f(side ? rounds - 1 - r : r, v[1], v[2], v[3]) + X[w] + K;
					t = rl(t, sh[r][w]);
					if (five) { t += v[4]; v[0] = v[4]; v[4] = v[3]; v[3] = rl(v[2], 10); v[2] = v[1]; v[1] = t; }
					else { v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t; }
				}
			}
			for (int i = 0; i < 16; ++i) { il[i] = rho[il[i]]; }
			for (int i = 0; i < 16; ++i) { ir[i] = rho[ir[i]]; }
			if (dbl)
			{
				static const u8 ex256[4] = {0, 1, 2, 3}, ex320[5] = {1, 3, 0, 2, 4};
				int e = five ? ex320[r] : ex256[r];
				u32 t = L[e]; L[e] = R[e]; R[e] = t;
			}
		}
		if (dbl) { for (int i = 0; i < k; ++i) { h[i] += L[i]; h[k + i] += R[i]; } }
		else
		{
			u32 o[5]; for (int i = 0; i < k; ++i) o[i] = h[i];
			for (int i = 0; i < k; ++i) h[i] = o[(i + 1) % k] + L[(i + 2) % k] + R[(i + 3) % k];
		}
		n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 8, false, n + tl); for (unsigned i = 0; i < OUT / 4; ++i) stle(out + 4 * i, h[i]); }
};
// ------------------------------------------------------------------ BLAKE (SHA-3 finalist)
static const u8 blakeSigma[10][16] = {
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
static const u8 gIdx[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
template <class W> struct BlakeP;
template <> struct BlakeP<u32> { static constexpr int rounds = 14, r0 = 16, r1 = 12, r2 = 8, r3 = 7; static u32 c(int i) { return piW32[i]; } };
template <> struct BlakeP<u64> { static constexpr int rounds = 16, r0 = 32, r1 = 25, r2 = 16, r3 = 11; static u64 c(int i) { return piW64[i]; } };
template <class W, int BITS> struct BLAKE
{
	static constexpr bool LEN = true; static constexpr size_t B = 16 * sizeof(W); static constexpr bool lazy = false; static constexpr size_t OUT = BITS / 8; static constexpr bool FULL = BITS == 256 || BITS == 512;
	typedef BlakeP<W> P;
	W h[8]; u64 n;
	void init();
	// t: number of message bits up to and including this block (0 for a block without message bits)
	void comp(const u8 *p, W t0, W t1)
	{
		W m[16], v[16];
		for (int i = 0; i < 16; ++i) m[i] = ldbe<W>(p + sizeof(W) * i);
		for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[8 + i] = P::c(i); }
		v[12] ^= t0; v[13] ^= t0; v[14] ^= t1; v[15] ^= t1;
		for (int r = 0; r < P::rounds; ++r)
			for (int i = 0; i < 8; ++i)
			{
				const u8 *s = blakeSigma[r % 10]; W &a = v[gIdx[i][0]], &b = v[gIdx[i][1]], &c = v[gIdx[i][2]], &d = v[gIdx[i][3]];
				a = a + b + (m[s[2 * i]] ^ P::c(s[2 * i + 1])); d = rr((W)(d ^ a), P::r0); c = c + d; b = rr((W)(b ^ c), P::r1);
				a = a + b + (m[s[2 * i + 1]] ^ P::c(s[2 * i])); d = rr((W)(d ^ a), P::r2); c = c + d; b = rr((W)(b ^ c), P::r3);
			}
		for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
	}
	void count(u64 bytes, W &t0, W &t1)
	{
		if (sizeof(W) == 8) { t0 = (W)(bytes << 3); t1 = (W)(bytes >> 61); }
		else { t0 = (W)(bytes << 3); t1 = (W)(bytes >> 29); }
	}
	void absorb(const u8 *p) { W a, b; n += B; count(n, a, b); comp(p, a, b); }
	void finish(const u8 *t, size_t tl, u8 *out)
	{
		const u64 total = n + tl; const size_t LB = 2 * sizeof(W);
		u8 buf[2 * B]; size_t k = 0;
		for (; k < tl; ++k) buf[k] = t[k];
		size_t end = (tl + 1 + LB <= B) ? B : 2 * B;
		for (; k < end; ++k) buf[k] = 0;
		buf[tl] |= 0x80;
		if (BITS == 256 || BITS == 512) buf[end - LB - 1] |= 1;
		W t0, t1; count(total, t0, t1);
		const W zero = 0;
		for (size_t i = 0; i < sizeof(W); ++i) { buf[end - 1 - i] = (u8)((sizeof(W) == 8 ? total << 3 : total << 3) >> (8 * i)); }
		for (size_t i = 0; i < sizeof(W); ++i) { buf[end - sizeof(W) - 1 - i] = (u8)(t1 >> (8 * i)); }
		comp(buf, tl ? t0 : zero, tl ? t1 : zero);          // a first block without message bits uses t = 0
		if (end == 2 * B) comp(buf + B, 0, 0);               // so does a second one
		for (unsigned i = 0; i < OUT; ++i) out[i] = (u8)(h[i / sizeof(W)] >> (8 * (sizeof(W) - 1 - i % sizeof(W))));
	}
};
template <> inline void BLAKE<u32, 224>::init() { for (int i = 0; i < 8; ++i) h[i] = sha224IV[i]; n = 0; }
template <> inline void BLAKE<u32, 256>::init() { for (int i = 0; i < 8; ++i) h[i] = sha256IV[i]; n = 0; }
template <> inline void BLAKE<u64, 384>::init() { for (int i = 0; i < 8; ++i) h[i] = sha384IV[i]; n = 0; }
template <> inline void BLAKE<u64, 512>::init() { for (int i = 0; i < 8; ++i) h[i] = sha512IV[i]; n = 0; }
// ------------------------------------------------------------------ BLAKE2 (RFC 7693, unkeyed, full digest)
template <class W> struct B2P;
template <> struct B2P<u32> { static constexpr int rounds = 10, r0 = 16, r1 = 12, r2 = 8, r3 = 7; static u32 iv(int i) { return sha256IV[i]; } };
template <> struct B2P<u64> { static constexpr int rounds = 12, r0 = 32, r1 = 24, r2 = 16, r3 = 63; static u64 iv(int i) { return sha512IV[i]; } };
template <class W> struct BLAKE2
{
	static constexpr bool LEN = true; static constexpr size_t B = 16 * sizeof(W); static constexpr bool lazy = true; static constexpr size_t OUT = 8 * sizeof(W); static constexpr bool FULL = true;
	typedef B2P<W> P;
	W h[8]; u64 n;
	void init() { for (int i = 0; i < 8; ++i) h[i] = P::iv(i); h[0] ^= (W)(0x01010000 ^ OUT); n = 0; }
	void comp(const u8 *p, u64 t, bool last)
	{
		W m[16], v[16];
		for (int i = 0; i < 16; ++i) m[i] = ldle<W>(p + sizeof(W) * i);
		for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[8 + i] = P::iv(i); }
		v[12] ^= (W)t; if (sizeof(W) == 4) v[13] ^= (W)(t >> 32);
		if (last) v[14] = ~v[14];
		for (int r = 0; r < P::rounds; ++r)
			for (int i = 0; i < 8; ++i)
			{
				const u8 *s = blakeSigma[r % 10]; W &a = v[gIdx[i][0]], &b = v[gIdx[i][1]], &c = v[gIdx[i][2]], &d = v[gIdx[i][3]];
				a = a + b + m[s[2 * i]]; d = rr((W)(d ^ a), P::r0); c = c + d; b = rr((W)(b ^ c), P::r1);
				a = a + b + m[s[2 * i + 1]]; d = rr((W)(d ^ a), P::r2); c = c + d; b = rr((W)(b ^ c), P::r3);
			}
		for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
	}
	void absorb(const u8 *p) { n += B; comp(p, n, false); }
	void finish(const u8 *t, size_t tl, u8 *out)
	{
		u8 b[B]; for (size_t i = 0; i < B; ++i) b[i] = i < tl ? t[i] : 0;
		n += tl; comp(b, n, true);
		for (int i = 0; i < 8; ++i) stle(out + sizeof(W) * i, h[i]);
	}
};
// ------------------------------------------------------------------ Keccak / SHA-3 / SHAKE / cSHAKE
struct KeccakF
{
	u64 a[25];   // lane (x, y) at x + 5 y
	void zero() { for (int i = 0; i < 25; ++i) a[i] = 0; }
	void permute()
	{
		for (int r = 0; r < 24; ++r)
		{
			u64 C[5], D[5], Bq[25];
			for (int x = 0; x < 5; ++x) C[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
			for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rl(C[(x + 1) % 5], 1);
			for (int i = 0; i < 25; ++i) a[i] ^= D[i % 5];
			for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) Bq[y + 5 * ((2 * x + 3 * y) % 5)] = rl(a[x + 5 * y], keccakRot[x + 5 * y]);
			for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) a[x + 5 * y] = Bq[x + 5 * y] ^ (~Bq[(x + 1) % 5 + 5 * y] & Bq[(x + 2) % 5 + 5 * y]);
			a[0] ^= keccakRC[r];
		}
	}
	void xorByte(size_t i, u8 v) { a[i / 8] ^= (u64)v << (8 * (i % 8)); }
	u8 byte(size_t i) const { return (u8)(a[i / 8] >> (8 * (i % 8))); }
};
template <int RATE> struct Sponge
{
	static constexpr bool FULL = false;
	static constexpr bool LEN = false; static constexpr size_t B = RATE; static constexpr bool lazy = false;
	KeccakF k; u64 n; u8 suffix; size_t outLen;
	void init(u8 sfx, size_t len) { k.zero(); n = 0; suffix = sfx; outLen = len; }
	void absorb(const u8 *p) { for (size_t i = 0; i < B; ++i) k.xorByte(i, p[i]); k.permute(); n += B; }
	void finish(const u8 *t, size_t tl, u8 *out)
	{
		for (size_t i = 0; i < tl; ++i) k.xorByte(i, t[i]);
		k.xorByte(tl, suffix); k.xorByte(B - 1, 0x80);
		k.permute();
		for (size_t i = 0; i < outLen; ++i) { if (i && i % B == 0) k.permute(); out[i] = k.byte(i % B); }
	}
};
// SP 800-185 encodings
static inline size_t left_encode(u8 *o, u64 v) { size_t n = 1; while (n < 8 && (v >> (8 * n))) ++n; o[0] = (u8)n; for (size_t i = 0; i < n; ++i) o[1 + i] = (u8)(v >> (8 * (n - 1 - i))); return n + 1; }
static inline size_t right_encode(u8 *o, u64 v) { size_t n = 1; while (n < 8 && (v >> (8 * n))) ++n; for (size_t i = 0; i < n; ++i) o[i] = (u8)(v >> (8 * (n - 1 - i))); o[n] = (u8)n; return n + 1; }
template <int RATE> struct CSHAKE : Sponge<RATE>
{
	typedef Sponge<RATE> S;
	void init(size_t outLen, const u8 *name, size_t nl, const u8 *cust, size_t cl)
	{
		S::init(nl || cl ? 0x04 : 0x1f, outLen);
		if (!nl && !cl) return;
		u8 *pre = new u8[nl + cl + RATE + 32]; size_t k = left_encode(pre, RATE);
		k += left_encode(pre + k, 8 * (u64)nl); for (size_t i = 0; i < nl; ++i) pre[k++] = name[i];
		k += left_encode(pre + k, 8 * (u64)cl); for (size_t i = 0; i < cl; ++i) pre[k++] = cust[i];
		while (k % RATE) pre[k++] = 0;
		for (size_t i = 0; i < k; i += RATE) S::absorb(pre + i);
		delete[] pre;
	}
};
// ------------------------------------------------------------------ Tiger
template <int VER, int BITS> struct TIGER
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = BITS / 8; static constexpr bool FULL = BITS == 192;
	u64 h[3]; u64 n;
	void init() { h[0] = 0x0123456789abcdefull; h[1] = 0xfedcba9876543210ull; h[2] = 0xf096a5b4c3b2e187ull; n = 0; }
	static void round(u64 &a, u64 &b, u64 &c, u64 x, unsigned mul)
	{
		const u64 *T1 = tigerT, *T2 = tigerT + 256, *T3 = tigerT + 512, *T4 = tigerT + 768;
		c ^= x;
		a -= T1[(u8)c] ^ T2[(u8)(c >> 16)] ^ T3[(u8)(c >> 32)] ^ T4[(u8)(c >> 48)];
		b += T4[(u8)(c >> 8)] ^ T3[(u8)(c >> 24)] ^ T2[(u8)(c >> 40)] ^ T1[(u8)(c >> 56)];
		b *= mul;
	}
	static void pass(u64 &a, u64 &b, u64 &c, const u64 *x, unsigned mul)
	{
		round(a, b, c, x[0], mul); round(b, c, a, x[1], mul); round(c, a, b, x[2], mul); round(a, b, c, x[3], mul);
		round(b, c, a, x[4], mul); round(c, a, b, x[5], mul); round(a, b, c, x[6], mul); round(b, c, a, x[7], mul);
	}
	static void sched(u64 *x)
	{
		x[0] -= x[7] ^ 0xa5a5a5a5a5a5a5a5ull; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ (~x[1] << 19);
		x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ (~x[4] >> 23); x[7] ^= x[6];
		x[0] += x[7]; x[1] -= x[0] ^ (~x[7] << 19); x[2] ^= x[1]; x[3] += x[2];
		x[4] -= x[3] ^ (~x[2] >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789abcdefull;
	}
	void absorb(const u8 *p)
	{
		u64 x[8]; for (int i = 0; i < 8; ++i) x[i] = ldle<u64>(p + 8 * i);
		u64 a = h[0], b = h[1], c = h[2];
		pass(a, b, c, x, 5); sched(x); pass(c, a, b, x, 7); sched(x); pass(b, c, a, x, 9);
		h[0] ^= a; h[1] = b - h[1]; h[2] += c; n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, VER == 1 ? 0x01 : 0x80, 8, false, n + tl); for (unsigned i = 0; i < OUT; ++i) out[i] = (u8)(h[i / 8] >> (8 * (i % 8))); }
};
// ------------------------------------------------------------------ Whirlpool (final, 2003)
struct WHIRL
{
	static constexpr bool LEN = true; static constexpr size_t B = 64; static constexpr bool lazy = false; static constexpr size_t OUT = 64; static constexpr bool FULL = true;
	u64 h[8]; u64 n; u64 T[8][256];   // row contribution of a substituted byte in column i
	static u8 gmul(u8 a, u8 b) { u8 r = 0; while (b) { if (b & 1) r ^= a; a = (u8)((a << 1) ^ (a & 0x80 ? 0x1d : 0)); b >>= 1; } return r; }
	void init()
	{
		static const u8 cir[8] = {1, 1, 4, 1, 8, 5, 2, 9};
		for (int x = 0; x < 256; ++x)
			for (int i = 0; i < 8; ++i)
			{
				u64 row = 0;   // byte j of the row has weight cir[(j - i) mod 8], byte 0 first
				for (int j = 0; j < 8; ++j) row = (row << 8) | gmul(whirlS[x], cir[(j - i + 8) % 8]);
				T[i][x] = row;
			}
		for (int i = 0; i < 8; ++i) h[i] = 0;
		n = 0;
	}
	void rho(u64 *s) const
	{
		u64 o[8];
		for (int i = 0; i < 8; ++i) { o[i] = 0; for (int j = 0; j < 8; ++j) o[i] ^= T[j][(u8)(s[(i - j + 8) % 8] >> (56 - 8 * j))]; }
		for (int i = 0; i < 8; ++i) s[i] = o[i];
	}
	void absorb(const u8 *p)
	{
		u64 m[8], k[8], s[8];
		for (int i = 0; i < 8; ++i) { m[i] = ldbe<u64>(p + 8 * i); k[i] = h[i]; s[i] = m[i] ^ k[i]; }
		for (int r = 0; r < 10; ++r)
		{
			rho(k);
			u64 c = 0; for (int j = 0; j < 8; ++j) c = (c << 8) | whirlS[8 * r + j];
			k[0] ^= c;
			rho(s);
			for (int i = 0; i < 8; ++i) s[i] ^= k[i];
		}
		for (int i = 0; i < 8; ++i) h[i] ^= s[i] ^ m[i];
		n += B;
	}
	void finish(const u8 *t, size_t tl, u8 *out) { mdpad(*this, t, tl, 0x80, 32, true, n + tl); for (int i = 0; i < 8; ++i) stbe(out + 8 * i, h[i]); }
};
// ------------------------------------------------------------------ CRC-32, FNV, SipHash
struct CRC32
{
	static constexpr bool LEN = false; static constexpr size_t B = 1; static constexpr bool lazy = false; static constexpr size_t OUT = 4; static constexpr bool FULL = true;
	u32 c; u64 n; u32 T[256];
	void init() { for (u32 i = 0; i < 256; ++i) { u32 v = i; for (int k = 0; k < 8; ++k) v = (v >> 1) ^ (v & 1 ? 0xedb88320u : 0); T[i] = v; } c = 0xffffffff; n = 0; }
	void absorb(const u8 *p) { c = T[(u8)(c ^ p[0])] ^ (c >> 8); ++n; }
	void finish(const u8 *, size_t, u8 *out) { stbe(out, (u32)~c); }
};
template <class W, int VAR> struct FNV
{
	static constexpr bool LEN = false; static constexpr size_t B = 1; static constexpr bool lazy = false; static constexpr size_t OUT = sizeof(W); static constexpr bool FULL = true;
	W h; u64 n;
	void init() { h = VAR == 0 ? 0 : sizeof(W) == 4 ? (W)2166136261u : (W)14695981039346656037ull; n = 0; }
	void absorb(const u8 *p) { const W prime = sizeof(W) == 4 ? (W)16777619u : (W)1099511628211ull; if (VAR == 2) { h ^= p[0]; h *= prime; } else { h *= prime; h ^= p[0]; } ++n; }
	void finish(const u8 *, size_t, u8 *out) { stbe(out, h); }
};
struct SIP
{
	static constexpr bool LEN = true; static constexpr size_t B = 8; static constexpr bool lazy = false; static constexpr size_t OUT = 8; static constexpr bool FULL = false;
	u64 v0, v1, v2, v3; u64 n;
	void init(const u8 *key)
	{
		u64 k0 = ldle<u64>(key), k1 = ldle<u64>(key + 8);
		v0 = k0 ^ 0x736f6d6570736575ull; v1 = k1 ^ 0x646f72616e646f6dull; v2 = k0 ^ 0x6c7967656e657261ull; v3 = k1 ^ 0x7465646279746573ull; n = 0;
	}
	void round() { v0 += v1; v1 = rl(v1, 13); v1 ^= v0; v0 = rl(v0, 32); v2 += v3; v3 = rl(v3, 16); v3 ^= v2; v0 += v3; v3 = rl(v3, 21); v3 ^= v0; v2 += v1; v1 = rl(v1, 17); v1 ^= v2; v2 = rl(v2, 32); }
	void absorb(const u8 *p) { u64 m = ldle<u64>(p); v3 ^= m; round(); round(); v0 ^= m; n += B; }
	void finish(const u8 *t, size_t tl, u8 *out)
	{
		u8 b[8] = {}; for (size_t i = 0; i < tl; ++i) b[i] = t[i];
		b[7] = (u8)(n + tl);
		absorb(b);
		v2 ^= 0xff; for (int i = 0; i < 4; ++i) round();
		stbe(out, (u64)(v0 ^ v1 ^ v2 ^ v3));   // the library presents the 64-bit value most significant byte first
	}
};
}
