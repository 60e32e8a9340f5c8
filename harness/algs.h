// One trait per algorithm: how to build the real object, feed it, read it, and its reference.
#pragma once
#include "vp.h"
#include "ref.h"
#include <string>
#include <vector>
#ifndef REPO_SRC
#error REPO_SRC
#endif
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_INC(h) VP_STR(REPO_SRC/h)

// parameters 10.. describe the configuration of the object
enum { P_CFG = 10, P_CFG2 = 20 };

template <class H_, class R_> struct Plain
{
	using H = H_; using R = R_;
	static constexpr bool arr = true, tuple = false;
	static constexpr size_t B = R::B;
	struct Cfg {};
	static Cfg cfg(const char * = "") { return {}; }
	static Cfg cfg2(const char * = "") { return {}; }
	static constexpr bool full = R::FULL;   // the digest determines the final state
	static H make(const Cfg &) { return H(); }
	static void reinit(R &r, const Cfg &) { r.init(); }
	static size_t out(const Cfg &) { return R::OUT; }
	static auto &feed(H &h, const void *p, size_t n) { return h.addData(p, n); }
	template <class X> static auto &form(H &h, X &&x) { return h.addData(std::forward<X>(x)); }
	static void get(const H &h, const Cfg &, uint8_t *o) { const auto a = h.toArray(); for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; vp_assert(a.size() == R::OUT, "digest size"); }
};
template <class H_, class R_, int SFX, int LEN> struct Sha3 : Plain<H_, R_>
{
	using P = Plain<H_, R_>; using H = H_; using R = R_;
	static constexpr bool arr = false, full = false;
	static void reinit(R &r, const typename P::Cfg &) { r.init(SFX, LEN); }
	static size_t out(const typename P::Cfg &) { return LEN; }
	static void get(const H &h, const typename P::Cfg &, uint8_t *o) { const auto a = h.toVector(); vp_assert(a.size() == LEN, "digest size"); if (a.size() == LEN) for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; }
};
template <class H_, class R_> struct Shake : Plain<H_, R_>
{
	using H = H_; using R = R_;
	static constexpr bool arr = false;
	struct Cfg { size_t len; };
	static constexpr bool full = false;
	static Cfg cfg(const char * = "") { return {(size_t)vp_param(P_CFG)}; }
	static Cfg cfg2(const char * = "") { return {(size_t)vp_param(P_CFG2)}; }
	static H make(const Cfg &c) { return H((int)c.len); }
	static void reinit(R &r, const Cfg &c) { r.init(0x1f, c.len); }
	static size_t out(const Cfg &c) { return c.len; }
	static void get(const H &h, const Cfg &c, uint8_t *o) { const auto a = h.toVector(); vp_assert(a.size() == c.len, "digest size"); if (a.size() == c.len) for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; }
};
template <class H_, class R_> struct CShake : Plain<H_, R_>
{
	using H = H_; using R = R_;
	static constexpr bool arr = false;
	struct Cfg { size_t len, nl, cl; uint8_t name[8300], cust[8300]; };
	static constexpr bool full = false;
	static Cfg cfg2(const char *tag) { return cfg(tag, P_CFG2); }
	static Cfg cfg(const char *tag = "", int base = P_CFG)
	{
		Cfg c; c.len = (size_t)vp_param(base); c.nl = (size_t)vp_param(base + 1); c.cl = (size_t)vp_param(base + 2);
		std::string t(tag);
		str_(c.name, c.nl, (t + "name").c_str()); str_(c.cust, c.cl, (t + "custom").c_str());
		return c;
	}
	static void str_(uint8_t *p, size_t n, const char *nm)   // a long one is symbolic in its last 16 bytes, a long name not at all
	{
		size_t k = 0;
		if (n > 600) for (k = n - 16; k > 0; --k) p[k - 1] = (uint8_t)(k * 5 + 1);
		if (n > 600) k = nm[0] == 'n' || nm[1] == 'n' ? n : n - 16;
		vp_sym(p + k, n - k, nm);
	}
	static std::string str(const uint8_t *p, size_t n) { return std::string(reinterpret_cast<const char *>(p), n); }
	static H make(const Cfg &c) { return H((int)c.len, str(c.name, c.nl), str(c.cust, c.cl)); }
	static void reinit(R &r, const Cfg &c) { r.init(c.len, c.name, c.nl, c.cust, c.cl); }
	static size_t out(const Cfg &c) { return c.len; }
	static void get(const H &h, const Cfg &c, uint8_t *o) { const auto a = h.toVector(); vp_assert(a.size() == c.len, "digest size"); if (a.size() == c.len) for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; }
};
template <class H_, class R_> struct Tuple : CShake<H_, R_>
{
	using P = CShake<H_, R_>; using H = H_; using R = R_; using Cfg = typename P::Cfg;
	static constexpr bool tuple = true;
	static H make(const Cfg &c) { return H((int)c.len, P::str(c.cust, c.cl)); }
	static void reinit(R &r, const Cfg &c) { static const uint8_t nm[9] = {'T', 'u', 'p', 'l', 'e', 'H', 'a', 's', 'h'}; r.init(c.len, nm, 9, c.cust, c.cl); }
	static auto &feed(H &h, const void *p, size_t n) { return h.nextData(p, n); }
	template <class X> static auto &form(H &h, X &&x) { return h.nextData(std::forward<X>(x)); }
};
template <class H_, class R_> struct Keyed : Plain<H_, R_>
{
	using H = H_; using R = R_;
	struct Cfg { uint8_t key[16]; };
	static constexpr bool full = false;
	static Cfg cfg2(const char *tag) { return cfg(tag); }
	static Cfg cfg(const char *tag = "") { Cfg c; std::string t(tag); vp_sym(c.key, 16, (t + "key").c_str()); return c; }
	static H make(const Cfg &c) { return H(typename H::template Span<const uint8_t>(c.key, 16)); }
	static void reinit(R &r, const Cfg &c) { r.init(c.key); }
	static size_t out(const Cfg &) { return R::OUT; }
	static void get(const H &h, const Cfg &, uint8_t *o) { Plain<H_, R_>::get(h, {}, o); }
};

#if defined(ALG_blake1_224)
#include VP_INC(blake1_224.h)
using A = Plain<Chocobo1::Blake1_224, ref::BLAKE<uint32_t, 224>>;
#elif defined(ALG_blake1_256)
#include VP_INC(blake1_256.h)
using A = Plain<Chocobo1::Blake1_256, ref::BLAKE<uint32_t, 256>>;
#elif defined(ALG_blake1_384)
#include VP_INC(blake1_384.h)
using A = Plain<Chocobo1::Blake1_384, ref::BLAKE<uint64_t, 384>>;
#elif defined(ALG_blake1_512)
#include VP_INC(blake1_512.h)
using A = Plain<Chocobo1::Blake1_512, ref::BLAKE<uint64_t, 512>>;
#elif defined(ALG_blake2)
#include VP_INC(blake2.h)
using A = Plain<Chocobo1::Blake2, ref::BLAKE2<uint64_t>>;
#elif defined(ALG_blake2s)
#include VP_INC(blake2s.h)
using A = Plain<Chocobo1::Blake2s, ref::BLAKE2<uint32_t>>;
#elif defined(ALG_crc_32)
#include VP_INC(crc_32.h)
using A = Plain<Chocobo1::CRC_32, ref::CRC32>;
#elif defined(ALG_fnv32_0)
#include VP_INC(fnv.h)
using A = Plain<Chocobo1::FNV32_0, ref::FNV<uint32_t, 0>>;
#elif defined(ALG_fnv32_1)
#include VP_INC(fnv.h)
using A = Plain<Chocobo1::FNV32_1, ref::FNV<uint32_t, 1>>;
#elif defined(ALG_fnv32_1a)
#include VP_INC(fnv.h)
using A = Plain<Chocobo1::FNV32_1a, ref::FNV<uint32_t, 2>>;
#elif defined(ALG_fnv64_0)
#include VP_INC(fnv.h)
using A = Plain<Chocobo1::FNV64_0, ref::FNV<uint64_t, 0>>;
#elif defined(ALG_fnv64_1)
#include VP_INC(fnv.h)
using A = Plain<Chocobo1::FNV64_1, ref::FNV<uint64_t, 1>>;
#elif defined(ALG_fnv64_1a)
#include VP_INC(fnv.h)
using A = Plain<Chocobo1::FNV64_1a, ref::FNV<uint64_t, 2>>;
#elif defined(ALG_has_160)
#include VP_INC(has_160.h)
using A = Plain<Chocobo1::HAS_160, ref::HAS160>;
#elif defined(ALG_md2)
#include VP_INC(md2.h)
using A = Plain<Chocobo1::MD2, ref::MD2>;
#elif defined(ALG_md4)
#include VP_INC(md4.h)
using A = Plain<Chocobo1::MD4, ref::MD4>;
#elif defined(ALG_md5)
#include VP_INC(md5.h)
using A = Plain<Chocobo1::MD5, ref::MD5>;
#elif defined(ALG_ripemd_128)
#include VP_INC(ripemd_128.h)
using A = Plain<Chocobo1::RIPEMD_128, ref::RMD<128>>;
#elif defined(ALG_ripemd_160)
#include VP_INC(ripemd_160.h)
using A = Plain<Chocobo1::RIPEMD_160, ref::RMD<160>>;
#elif defined(ALG_ripemd_256)
#include VP_INC(ripemd_256.h)
using A = Plain<Chocobo1::RIPEMD_256, ref::RMD<256>>;
#elif defined(ALG_ripemd_320)
#include VP_INC(ripemd_320.h)
using A = Plain<Chocobo1::RIPEMD_320, ref::RMD<320>>;
#elif defined(ALG_sha1)
#include VP_INC(sha1.h)
using A = Plain<Chocobo1::SHA1, ref::SHA1>;
#elif defined(ALG_sha2_224)
#include VP_INC(sha2_224.h)
using A = Plain<Chocobo1::SHA2_224, ref::SHA224>;
#elif defined(ALG_sha2_256)
#include VP_INC(sha2_256.h)
using A = Plain<Chocobo1::SHA2_256, ref::SHA256>;
#elif defined(ALG_sha2_384)
#include VP_INC(sha2_384.h)
using A = Plain<Chocobo1::SHA2_384, ref::SHA384>;
#elif defined(ALG_sha2_512)
#include VP_INC(sha2_512.h)
using A = Plain<Chocobo1::SHA2_512, ref::SHA512>;
#elif defined(ALG_sha2_512_224)
#include VP_INC(sha2_512_224.h)
using A = Plain<Chocobo1::SHA2_512_224, ref::SHA512t<224>>;
#elif defined(ALG_sha2_512_256)
#include VP_INC(sha2_512_256.h)
using A = Plain<Chocobo1::SHA2_512_256, ref::SHA512t<256>>;
#elif defined(ALG_sha3_224)
#include VP_INC(sha3.h)
using A = Sha3<Chocobo1::SHA3_224, ref::Sponge<144>, 0x06, 28>;
#elif defined(ALG_sha3_256)
#include VP_INC(sha3.h)
using A = Sha3<Chocobo1::SHA3_256, ref::Sponge<136>, 0x06, 32>;
#elif defined(ALG_sha3_384)
#include VP_INC(sha3.h)
using A = Sha3<Chocobo1::SHA3_384, ref::Sponge<104>, 0x06, 48>;
#elif defined(ALG_sha3_512)
#include VP_INC(sha3.h)
using A = Sha3<Chocobo1::SHA3_512, ref::Sponge<72>, 0x06, 64>;
#elif defined(ALG_shake_128)
#include VP_INC(sha3.h)
using A = Shake<Chocobo1::SHAKE_128, ref::Sponge<168>>;
#elif defined(ALG_shake_256)
#include VP_INC(sha3.h)
using A = Shake<Chocobo1::SHAKE_256, ref::Sponge<136>>;
#elif defined(ALG_cshake_128)
#include VP_INC(sha3.h)
#include VP_INC(cshake.h)
using A = CShake<Chocobo1::CSHAKE_128, ref::CSHAKE<168>>;
#elif defined(ALG_cshake_256)
#include VP_INC(sha3.h)
#include VP_INC(cshake.h)
using A = CShake<Chocobo1::CSHAKE_256, ref::CSHAKE<136>>;
#elif defined(ALG_tuple_128)
#include VP_INC(tuple_hash.h)
using A = Tuple<Chocobo1::TupleHash_128, ref::CSHAKE<168>>;
#elif defined(ALG_tuple_256)
#include VP_INC(tuple_hash.h)
using A = Tuple<Chocobo1::TupleHash_256, ref::CSHAKE<136>>;
#elif defined(ALG_siphash)
#include VP_INC(siphash.h)
using A = Keyed<Chocobo1::SipHash, ref::SIP>;
#elif defined(ALG_sm3)
#include VP_INC(sm3.h)
using A = Plain<Chocobo1::SM3, ref::SM3>;
#elif defined(ALG_tiger1_128)
#include VP_INC(tiger.h)
using A = Plain<Chocobo1::Tiger1_128, ref::TIGER<1, 128>>;
#elif defined(ALG_tiger1_160)
#include VP_INC(tiger.h)
using A = Plain<Chocobo1::Tiger1_160, ref::TIGER<1, 160>>;
#elif defined(ALG_tiger1_192)
#include VP_INC(tiger.h)
using A = Plain<Chocobo1::Tiger1_192, ref::TIGER<1, 192>>;
#elif defined(ALG_tiger2_128)
#include VP_INC(tiger.h)
using A = Plain<Chocobo1::Tiger2_128, ref::TIGER<2, 128>>;
#elif defined(ALG_tiger2_160)
#include VP_INC(tiger.h)
using A = Plain<Chocobo1::Tiger2_160, ref::TIGER<2, 160>>;
#elif defined(ALG_tiger2_192)
#include VP_INC(tiger.h)
using A = Plain<Chocobo1::Tiger2_192, ref::TIGER<2, 192>>;
#elif defined(ALG_whirlpool)
#include VP_INC(whirlpool.h)
using A = Plain<Chocobo1::Whirlpool, ref::WHIRL>;
#else
#error no algorithm selected
#endif
