From a72a80b441df7c803240c73da19d9c6786128ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 01/10] fix: count only message bits in BLAKE padding blocks

When the padding needed a second block, both blocks were treated as having
the same amount of padding, so the digest was wrong for message lengths
56..63 (mod 64) / 112..127 (mod 128).
---
 src/blake1_224.h | 6 +++++-
 src/blake1_256.h | 6 +++++-
 src/blake1_384.h | 6 +++++-
 src/blake1_512.h | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/blake1_224.h b/src/blake1_224.h
index 697524b..d9ec414 100644
--- a/src/blake1_224.h
+++ b/src/blake1_224.h
@@ -452,6 +452,8 @@ namespace Blake1_224_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint32_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -464,7 +466,9 @@ namespace Blake1_224_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const uint32_t nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may spill into a block of their own, count only the message bits of this block
+			const size_t nonPaddingLen = ((iter * BLOCK_SIZE) < messageLen) ? std::min<size_t>((messageLen - (iter * BLOCK_SIZE)), BLOCK_SIZE) : 0;
+			const auto nonPaddingBits = static_cast<uint32_t>(nonPaddingLen * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_256.h b/src/blake1_256.h
index 31e21d8..c2ad28b 100644
--- a/src/blake1_256.h
+++ b/src/blake1_256.h
@@ -454,6 +454,8 @@ namespace Blake1_256_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint32_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -466,7 +468,9 @@ namespace Blake1_256_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may spill into a block of their own, count only the message bits of this block
+			const size_t nonPaddingLen = ((iter * BLOCK_SIZE) < messageLen) ? std::min<size_t>((messageLen - (iter * BLOCK_SIZE)), BLOCK_SIZE) : 0;
+			const auto nonPaddingBits = static_cast<uint32_t>(nonPaddingLen * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_384.h b/src/blake1_384.h
index 066d426..a08b2d3 100644
--- a/src/blake1_384.h
+++ b/src/blake1_384.h
@@ -519,6 +519,8 @@ namespace Blake1_384_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint64_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -531,7 +533,9 @@ namespace Blake1_384_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may spill into a block of their own, count only the message bits of this block
+			const size_t nonPaddingLen = ((iter * BLOCK_SIZE) < messageLen) ? std::min<size_t>((messageLen - (iter * BLOCK_SIZE)), BLOCK_SIZE) : 0;
+			const auto nonPaddingBits = static_cast<uint32_t>(nonPaddingLen * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_512.h b/src/blake1_512.h
index e2ffe38..3ac5452 100644
--- a/src/blake1_512.h
+++ b/src/blake1_512.h
@@ -521,6 +521,8 @@ namespace Blake1_512_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint64_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -533,7 +535,9 @@ namespace Blake1_512_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may spill into a block of their own, count only the message bits of this block
+			const size_t nonPaddingLen = ((iter * BLOCK_SIZE) < messageLen) ? std::min<size_t>((messageLen - (iter * BLOCK_SIZE)), BLOCK_SIZE) : 0;
+			const auto nonPaddingBits = static_cast<uint32_t>(nonPaddingLen * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
-- 
2.43.0


From 3c024240d666c5ca504f638dcfe5fad21b1fc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 02/10] fix: reset() of a customized cSHAKE/TupleHash keeps its
 name and customization

reset() dropped the absorbed bytepad() prefix, so everything hashed after a
reset() was a different function from the one the object was created for.
---
 src/cshake.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index a20afe3..7753c81 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -121,8 +121,11 @@ namespace CShake_NS
 
 		private:
 			constexpr void addDataImpl(Span<const Byte> data);
+			constexpr void addPrefix();
 
 			bool m_customized = false;
+			std::string m_name;
+			std::string m_customize;
 
 			std::unique_ptr<S> m_shake;
 			std::unique_ptr<K> m_keccak;
@@ -146,6 +149,8 @@ namespace CShake_NS
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(const int digestLength, const std::string &name, const std::string &customize)
 		: m_customized(!(name.empty() && customize.empty()))
+		, m_name(name)
+		, m_customize(customize)
 	{
 		static_assert((P >= 0), "Template parameter value invalid: P");
 		static_assert((CHAR_BIT == 8), "Sorry, we don't support exotic CPUs");
@@ -157,7 +162,12 @@ namespace CShake_NS
 		}
 
 		m_keccak = std::make_unique<K>(digestLength);
+		addPrefix();
+	}
 
+	template <typename S, typename K, int P>
+	constexpr void CShake<S, K, P>::addPrefix()
+	{
 		const auto processString = [this](const std::string &str, size_t &length) -> void
 		{
 			const auto encodedStr = leftEncode(str.size() * 8);
@@ -177,8 +187,8 @@ namespace CShake_NS
 		addData({encodedW.data(), encodedW.size()});
 		length += encodedW.size();
 
-		processString(name, length);
-		processString(customize, length);
+		processString(m_name, length);
+		processString(m_customize, length);
 
 		const Buffer<Byte, 1> zero {0};
 		for (int i = 0; i < static_cast<int>(bytepadCount(length, P)); ++i)
@@ -188,6 +198,8 @@ namespace CShake_NS
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(const CShake<S, K, P> &other)
 		: m_customized(other.m_customized)
+		, m_name(other.m_name)
+		, m_customize(other.m_customize)
 	{
 		if (!m_customized)
 			m_shake = std::make_unique<S>(*other.m_shake);
@@ -239,7 +251,10 @@ namespace CShake_NS
 		if (!m_customized)
 			m_shake->reset();
 		else
+		{
 			m_keccak->reset();
+			addPrefix();
+		}
 	}
 
 	template <typename S, typename K, int P>
-- 
2.43.0


From 424853f1fd04b4e3131688272838a995ff9aa100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 03/10] fix: assigning between cSHAKE objects of different
 modes

Copy assignment dereferenced a null pointer when only one side was
customized (or had been moved from), and the moves exchanged only one of
the two owned states.
---
 src/cshake.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 7753c81..272d465 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -211,10 +211,10 @@ namespace CShake_NS
 	constexpr CShake<S, K, P>::CShake(CShake<S, K, P> &&other) noexcept
 	{
 		std::swap(m_customized, other.m_customized);
-		if (!m_customized)
-			std::swap(m_shake, other.m_shake);
-		else
-			std::swap(m_keccak, other.m_keccak);
+		std::swap(m_name, other.m_name);
+		std::swap(m_customize, other.m_customize);
+		std::swap(m_shake, other.m_shake);
+		std::swap(m_keccak, other.m_keccak);
 	}
 
 	template <typename S, typename K, int P>
@@ -222,11 +222,7 @@ namespace CShake_NS
 	{
 		if (this != &other)
 		{
-			m_customized = other.m_customized;
-			if (!m_customized)
-				*m_shake = *other.m_shake;
-			else
-				*m_keccak = *other.m_keccak;
+			*this = CShake(other);
 		}
 		return *this;
 	}
@@ -237,10 +233,10 @@ namespace CShake_NS
 		if (this != &other)
 		{
 			std::swap(m_customized, other.m_customized);
-			if (!m_customized)
-				std::swap(m_shake, other.m_shake);
-			else
-				std::swap(m_keccak, other.m_keccak);
+			std::swap(m_name, other.m_name);
+			std::swap(m_customize, other.m_customize);
+			std::swap(m_shake, other.m_shake);
+			std::swap(m_keccak, other.m_keccak);
 		}
 		return *this;
 	}
-- 
2.43.0


From a846a026605bdf662d414373bcd1e2da6f1d3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 04/10] fix: FNV-0 reset() clears the hash value

reset() only assigned an offset basis for the other variants and left the
previous value in place for FNV32_0 and FNV64_0.
---
 src/fnv.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnv.h b/src/fnv.h
index 7b42bae..2dc9f5f 100644
--- a/src/fnv.h
+++ b/src/fnv.h
@@ -146,6 +146,8 @@ namespace FNVHASH_NS
 	template <typename DigestType, int Variant>
 	constexpr void FNVHash<DigestType, Variant>::reset()
 	{
+		m_hash = 0;
+
 		if (Variant >= 1)
 		{
 			switch (sizeof(DigestType))
-- 
2.43.0


From 465ce0ecb4332edd6597eda79690319f11d3e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 05/10] fix: SHAKE objects with different output lengths are
 not equal

operator== compared only the sponge state, so two objects of one message but
different output lengths (different digests) compared equal.
---
 src/sha3.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sha3.h b/src/sha3.h
index ada4988..345bb3a 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -233,6 +233,8 @@ namespace SHA3_NS
 
 			friend constexpr bool operator==(const Keccak &left, const Keccak &right)
 			{
+				if (left.m_digestLength != right.m_digestLength)
+					return false;
 				for (int y = 0; y < 5; ++y)
 				{
 					for (int x = 0; x < 5; ++x)
-- 
2.43.0


From d4b2843b56e3238498ea269025a22ff536209c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 06/10] fix: toString() of a zero-length SHAKE digest

Calling front() on the empty string is undefined behaviour.
---
 src/sha3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha3.h b/src/sha3.h
index 345bb3a..d6f23c1 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -368,7 +368,7 @@ namespace SHA3_NS
 		std::string ret;
 		ret.resize(2 * v.size());
 
-		auto *retPtr = &ret.front();
+		auto *retPtr = &ret[0];  // `ret` is empty when the digest length is 0
 		for (const auto c : v)
 		{
 			const Byte upper = ror<Byte>(c, 4);
-- 
2.43.0


From 5d56773b71385607ba97c21dceb3b7ecfc565f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 07/10] fix: Tiger-128/160 toArray() wrote past the end of the
 result

All three state words were written into the 16 or 20 byte result array.
---
 src/tiger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiger.h b/src/tiger.h
index 34cbb61..cf01cb2 100644
--- a/src/tiger.h
+++ b/src/tiger.h
@@ -516,9 +516,10 @@ namespace Tiger_NS
 
 		ResultArrayType ret {};
 		auto retPtr = ret.data();
+		const auto retEnd = retPtr + ret.size();  // the truncated variants end before the state does
 		for (const auto i : state)
 		{
-			for (int j = 0, jMax = dataSize; j < jMax; ++j)
+			for (int j = 0, jMax = dataSize; (j < jMax) && (retPtr != retEnd); ++j)
 				*(retPtr++) = ror<Byte>(i, (j * 8));
 		}
 		return ret;
-- 
2.43.0


From fd3a8db1be497b73ba40bb55582e47f8c6506601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 08/10] fix: pass the customization string of cSHAKE as such

The program handed the customization string to the function-name parameter,
so the printed digest was the one of another function.
---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 519f261..c21239b 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -290,7 +290,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_128(digestLength, "", argv[3]), argv[4]);
 			return true;
 		}
 
@@ -309,7 +309,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_256(digestLength, "", argv[3]), argv[4]);
 			return true;
 		}
 
-- 
2.43.0


From 1bb1397318740e1f2d56ad2e2915e54be1daaaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 09/10] fix: reject out-of-range digest lengths instead of
 aborting

A digest length that does not fit int or is negative ended the program with
an uncaught exception.
---
 src/program/main.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index c21239b..c410211 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -285,10 +285,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument`, `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_128(digestLength, "", argv[3]), argv[4]);
 			return true;
@@ -304,10 +306,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument`, `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_256(digestLength, "", argv[3]), argv[4]);
 			return true;
@@ -523,10 +527,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument`, `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_128(digestLength), argv[3]);
 			return true;
@@ -542,10 +548,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument`, `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_256(digestLength), argv[3]);
 			return true;
@@ -624,10 +632,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument`, `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -643,10 +653,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument`, `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_256(digestLength, argv[3]), argv[4]);
 			return true;
-- 
2.43.0


From 4d8e6f0c41f3b314d19ea42a0bfbec2c9c8e7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 10/10] fix: signed overflow in TupleHash for digest lengths of
 2^28 bytes and more

The bit count was computed in int before it was encoded.
---
 src/tuple_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index f5390c8..a5d403c 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -151,7 +151,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::finalize()
 	{
-		const auto encoded = rightEncode(m_digestLength * 8);
+		const auto encoded = rightEncode(static_cast<uint64_t>(m_digestLength) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		m_cshake.finalize();
 		return (*this);
-- 
2.43.0

