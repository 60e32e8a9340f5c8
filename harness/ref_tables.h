// generated by gen_tables.py
#pragma once
#include <cstdint>
namespace ref {

static const uint32_t sha256K[64] = {
	0x428a2f98u, 0x71374491u, 0xb5c0fbcfu, 0xe9b5dba5u, 0x3956c25bu, 0x59f111f1u, 0x923f82a4u, 0xab1c5ed5u, 
	0xd807aa98u, 0x12835b01u, 0x243185beu, 0x550c7dc3u, 0x72be5d74u, 0x80deb1feu, 0x9bdc06a7u, 0xc19bf174u, 
	0xe49b69c1u, 0xefbe4786u, 0x0fc19dc6u, 0x240ca1ccu, 0x2de92c6fu, 0x4a7484aau, 0x5cb0a9dcu, 0x76f988dau, 
	0x983e5152u, 0xa831c66du, 0xb00327c8u, 0xbf597fc7u, 0xc6e00bf3u, 0xd5a79147u, 0x06ca6351u, 0x14292967u, 
	0x27b70a85u, 0x2e1b2138u, 0x4d2c6dfcu, 0x53380d13u, 0x650a7354u, 0x766a0abbu, 0x81c2c92eu, 0x92722c85u, 
	0xa2bfe8a1u, 0xa81a664bu, 0xc24b8b70u, 0xc76c51a3u, 0xd192e819u, 0xd6990624u, 0xf40e3585u, 0x106aa070u, 
	0x19a4c116u, 0x1e376c08u, 0x2748774cu, 0x34b0bcb5u, 0x391c0cb3u, 0x4ed8aa4au, 0x5b9cca4fu, 0x682e6ff3u, 
	0x748f82eeu, 0x78a5636fu, 0x84c87814u, 0x8cc70208u, 0x90befffau, 0xa4506cebu, 0xbef9a3f7u, 0xc67178f2u, 
};

static const uint64_t sha512K[80] = {
	0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 
	0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull, 
	0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 
	0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull, 
	0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull, 
	0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull, 
	0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 
	0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull, 
	0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull, 
	0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull, 
	0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 
	0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull, 
	0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 
	0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull, 
	0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull, 
	0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull, 
	0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 
	0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull, 
	0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull, 
	0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull, 
};

static const uint32_t sha256IV[8] = {
	0x6a09e667u, 0xbb67ae85u, 0x3c6ef372u, 0xa54ff53au, 0x510e527fu, 0x9b05688cu, 0x1f83d9abu, 0x5be0cd19u, 
};

static const uint32_t sha224IV[8] = {
	0xc1059ed8u, 0x367cd507u, 0x3070dd17u, 0xf70e5939u, 0xffc00b31u, 0x68581511u, 0x64f98fa7u, 0xbefa4fa4u, 
};

static const uint64_t sha512IV[8] = {
	0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 
	0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull, 
};

static const uint64_t sha384IV[8] = {
	0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull, 0x152fecd8f70e5939ull, 
	0x67332667ffc00b31ull, 0x8eb44a8768581511ull, 0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull, 
};

static const uint32_t md5T[64] = {
	0xd76aa478u, 0xe8c7b756u, 0x242070dbu, 0xc1bdceeeu, 0xf57c0fafu, 0x4787c62au, 0xa8304613u, 0xfd469501u, 
	0x698098d8u, 0x8b44f7afu, 0xffff5bb1u, 0x895cd7beu, 0x6b901122u, 0xfd987193u, 0xa679438eu, 0x49b40821u, 
	0xf61e2562u, 0xc040b340u, 0x265e5a51u, 0xe9b6c7aau, 0xd62f105du, 0x02441453u, 0xd8a1e681u, 0xe7d3fbc8u, 
	0x21e1cde6u, 0xc33707d6u, 0xf4d50d87u, 0x455a14edu, 0xa9e3e905u, 0xfcefa3f8u, 0x676f02d9u, 0x8d2a4c8au, 
	0xfffa3942u, 0x8771f681u, 0x6d9d6122u, 0xfde5380cu, 0xa4beea44u, 0x4bdecfa9u, 0xf6bb4b60u, 0xbebfbc70u, 
	0x289b7ec6u, 0xeaa127fau, 0xd4ef3085u, 0x04881d05u, 0xd9d4d039u, 0xe6db99e5u, 0x1fa27cf8u, 0xc4ac5665u, 
	0xf4292244u, 0x432aff97u, 0xab9423a7u, 0xfc93a039u, 0x655b59c3u, 0x8f0ccc92u, 0xffeff47du, 0x85845dd1u, 
	0x6fa87e4fu, 0xfe2ce6e0u, 0xa3014314u, 0x4e0811a1u, 0xf7537e82u, 0xbd3af235u, 0x2ad7d2bbu, 0xeb86d391u, 
};

static const uint32_t rmdK[5] = {
	0x00000000u, 0x5a827999u, 0x6ed9eba1u, 0x8f1bbcdcu, 0xa953fd4eu, 
};

static const uint32_t rmdKK[5] = {
	0x50a28be6u, 0x5c4dd124u, 0x6d703ef3u, 0x7a6d76e9u, 0x00000000u, 
};

static const uint32_t piW32[16] = {
	0x243f6a88u, 0x85a308d3u, 0x13198a2eu, 0x03707344u, 0xa4093822u, 0x299f31d0u, 0x082efa98u, 0xec4e6c89u, 
	0x452821e6u, 0x38d01377u, 0xbe5466cfu, 0x34e90c6cu, 0xc0ac29b7u, 0xc97c50ddu, 0x3f84d5b5u, 0xb5470917u, 
};

static const uint64_t piW64[16] = {
	0x243f6a8885a308d3ull, 0x13198a2e03707344ull, 0xa4093822299f31d0ull, 0x082efa98ec4e6c89ull, 
	0x452821e638d01377ull, 0xbe5466cf34e90c6cull, 0xc0ac29b7c97c50ddull, 0x3f84d5b5b5470917ull, 
	0x9216d5d98979fb1bull, 0xd1310ba698dfb5acull, 0x2ffd72dbd01adfb7ull, 0xb8e1afed6a267e96ull, 
	0xba7c9045f12c7f99ull, 0x24a19947b3916cf7ull, 0x0801f2e2858efc16ull, 0x636920d871574e69ull, 
};

static const uint8_t md2S[256] = {
	0x29, 0x2e, 0x43, 0xc9, 0xa2, 0xd8, 0x7c, 0x01, 0x3d, 0x36, 0x54, 0xa1, 0xec, 0xf0, 0x06, 0x13, 
	0x62, 0xa7, 0x05, 0xf3, 0xc0, 0xc7, 0x73, 0x8c, 0x98, 0x93, 0x2b, 0xd9, 0xbc, 0x4c, 0x82, 0xca, 
	0x1e, 0x9b, 0x57, 0x3c, 0xfd, 0xd4, 0xe0, 0x16, 0x67, 0x42, 0x6f, 0x18, 0x8a, 0x17, 0xe5, 0x12, 
	0xbe, 0x4e, 0xc4, 0xd6, 0xda, 0x9e, 0xde, 0x49, 0xa0, 0xfb, 0xf5, 0x8e, 0xbb, 0x2f, 0xee, 0x7a, 
	0xa9, 0x68, 0x79, 0x91, 0x15, 0xb2, 0x07, 0x3f, 0x94, 0xc2, 0x10, 0x89, 0x0b, 0x22, 0x5f, 0x21, 
	0x80, 0x7f, 0x5d, 0x9a, 0x5a, 0x90, 0x32, 0x27, 0x35, 0x3e, 0xcc, 0xe7, 0xbf, 0xf7, 0x97, 0x03, 
	0xff, 0x19, 0x30, 0xb3, 0x48, 0xa5, 0xb5, 0xd1, 0xd7, 0x5e, 0x92, 0x2a, 0xac, 0x56, 0xaa, 0xc6, 
	0x4f, 0xb8, 0x38, 0xd2, 0x96, 0xa4, 0x7d, 0xb6, 0x76, 0xfc, 0x6b, 0xe2, 0x9c, 0x74, 0x04, 0xf1, 
	0x45, 0x9d, 0x70, 0x59, 0x64, 0x71, 0x87, 0x20, 0x86, 0x5b, 0xcf, 0x65, 0xe6, 0x2d, 0xa8, 0x02, 
	0x1b, 0x60, 0x25, 0xad, 0xae, 0xb0, 0xb9, 0xf6, 0x1c, 0x46, 0x61, 0x69, 0x34, 0x40, 0x7e, 0x0f, 
	0x55, 0x47, 0xa3, 0x23, 0xdd, 0x51, 0xaf, 0x3a, 0xc3, 0x5c, 0xf9, 0xce, 0xba, 0xc5, 0xea, 0x26, 
	0x2c, 0x53, 0x0d, 0x6e, 0x85, 0x28, 0x84, 0x09, 0xd3, 0xdf, 0xcd, 0xf4, 0x41, 0x81, 0x4d, 0x52, 
	0x6a, 0xdc, 0x37, 0xc8, 0x6c, 0xc1, 0xab, 0xfa, 0x24, 0xe1, 0x7b, 0x08, 0x0c, 0xbd, 0xb1, 0x4a, 
	0x78, 0x88, 0x95, 0x8b, 0xe3, 0x63, 0xe8, 0x6d, 0xe9, 0xcb, 0xd5, 0xfe, 0x3b, 0x00, 0x1d, 0x39, 
	0xf2, 0xef, 0xb7, 0x0e, 0x66, 0x58, 0xd0, 0xe4, 0xa6, 0x77, 0x72, 0xf8, 0xeb, 0x75, 0x4b, 0x0a, 
	0x31, 0x44, 0x50, 0xb4, 0x8f, 0xed, 0x1f, 0x1a, 0xdb, 0x99, 0x8d, 0x33, 0x9f, 0x11, 0x83, 0x14, 
};

static const uint64_t keccakRC[24] = {
	0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull, 
	0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 
	0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull, 
	0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 
	0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull, 
	0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull, 
};

static const uint8_t keccakRot[25] = {
	0x00, 0x01, 0x3e, 0x1c, 0x1b, 
	0x24, 0x2c, 0x06, 0x37, 0x14, 
	0x03, 0x0a, 0x2b, 0x19, 0x27, 
	0x29, 0x2d, 0x0f, 0x15, 0x08, 
	0x12, 0x02, 0x3d, 0x38, 0x0e, 
};

static const uint8_t whirlS[256] = {
	0x18, 0x23, 0xc6, 0xe8, 0x87, 0xb8, 0x01, 0x4f, 0x36, 0xa6, 0xd2, 0xf5, 0x79, 0x6f, 0x91, 0x52, 
	0x60, 0xbc, 0x9b, 0x8e, 0xa3, 0x0c, 0x7b, 0x35, 0x1d, 0xe0, 0xd7, 0xc2, 0x2e, 0x4b, 0xfe, 0x57, 
	0x15, 0x77, 0x37, 0xe5, 0x9f, 0xf0, 0x4a, 0xda, 0x58, 0xc9, 0x29, 0x0a, 0xb1, 0xa0, 0x6b, 0x85, 
	0xbd, 0x5d, 0x10, 0xf4, 0xcb, 0x3e, 0x05, 0x67, 0xe4, 0x27, 0x41, 0x8b, 0xa7, 0x7d, 0x95, 0xd8, 
	0xfb, 0xee, 0x7c, 0x66, 0xdd, 0x17, 0x47, 0x9e, 0xca, 0x2d, 0xbf, 0x07, 0xad, 0x5a, 0x83, 0x33, 
	0x63, 0x02, 0xaa, 0x71, 0xc8, 0x19, 0x49, 0xd9, 0xf2, 0xe3, 0x5b, 0x88, 0x9a, 0x26, 0x32, 0xb0, 
	0xe9, 0x0f, 0xd5, 0x80, 0xbe, 0xcd, 0x34, 0x48, 0xff, 0x7a, 0x90, 0x5f, 0x20, 0x68, 0x1a, 0xae, 
	0xb4, 0x54, 0x93, 0x22, 0x64, 0xf1, 0x73, 0x12, 0x40, 0x08, 0xc3, 0xec, 0xdb, 0xa1, 0x8d, 0x3d, 
	0x97, 0x00, 0xcf, 0x2b, 0x76, 0x82, 0xd6, 0x1b, 0xb5, 0xaf, 0x6a, 0x50, 0x45, 0xf3, 0x30, 0xef, 
	0x3f, 0x55, 0xa2, 0xea, 0x65, 0xba, 0x2f, 0xc0, 0xde, 0x1c, 0xfd, 0x4d, 0x92, 0x75, 0x06, 0x8a, 
	0xb2, 0xe6, 0x0e, 0x1f, 0x62, 0xd4, 0xa8, 0x96, 0xf9, 0xc5, 0x25, 0x59, 0x84, 0x72, 0x39, 0x4c, 
	0x5e, 0x78, 0x38, 0x8c, 0xd1, 0xa5, 0xe2, 0x61, 0xb3, 0x21, 0x9c, 0x1e, 0x43, 0xc7, 0xfc, 0x04, 
	0x51, 0x99, 0x6d, 0x0d, 0xfa, 0xdf, 0x7e, 0x24, 0x3b, 0xab, 0xce, 0x11, 0x8f, 0x4e, 0xb7, 0xeb, 
	0x3c, 0x81, 0x94, 0xf7, 0xb9, 0x13, 0x2c, 0xd3, 0xe7, 0x6e, 0xc4, 0x03, 0x56, 0x44, 0x7f, 0xa9, 
	0x2a, 0xbb, 0xc1, 0x53, 0xdc, 0x0b, 0x9d, 0x6c, 0x31, 0x74, 0xf6, 0x46, 0xac, 0x89, 0x14, 0xe1, 
	0x16, 0x3a, 0x69, 0x09, 0x70, 0xb6, 0xd0, 0xed, 0xcc, 0x42, 0x98, 0xa4, 0x28, 0x5c, 0xf8, 0x86, 
};

static const uint64_t tigerT[1024] = {
	0x02aab17cf7e90c5eull, 0xac424b03e243a8ecull, 0x72cd5be30dd5fcd3ull, 0x6d019b93f6f97f3aull, 
	0xcd9978ffd21f9193ull, 0x7573a1c9708029e2ull, 0xb164326b922a83c3ull, 0x46883eee04915870ull, 
	0xeaace3057103ece6ull, 0xc54169b808a3535cull, 0x4ce754918ddec47cull, 0x0aa2f4dfdc0df40cull, 
	0x10b76f18a74dbefaull, 0xc6ccb6235ad1ab6aull, 0x13726121572fe2ffull, 0x1a488c6f199d921eull, 
	0x4bc9f9f4da0007caull, 0x26f5e6f6e85241c7ull, 0x859079dbea5947b6ull, 0x4f1885c5c99e8c92ull, 
	0xd78e761ea96f864bull, 0x8e36428c52b5c17dull, 0x69cf6827373063c1ull, 0xb607c93d9bb4c56eull, 
	0x7d820e760e76b5eaull, 0x645c9cc6f07fdc42ull, 0xbf38a078243342e0ull, 0x5f6b343c9d2e7d04ull, 
	0xf2c28aeb600b0ec6ull, 0x6c0ed85f7254bcacull, 0x71592281a4db4fe5ull, 0x1967fa69ce0fed9full, 
	0xfd5293f8b96545dbull, 0xc879e9d7f2a7600bull, 0x860248920193194eull, 0xa4f9533b2d9cc0b3ull, 
	0x9053836c15957613ull, 0xdb6dcf8afc357bf1ull, 0x18beea7a7a370f57ull, 0x037117ca50b99066ull, 
	0x6ab30a9774424a35ull, 0xf4e92f02e325249bull, 0x7739db07061ccae1ull, 0xd8f3b49ceca42a05ull, 
	0xbd56be3f51382f73ull, 0x45faed5843b0bb28ull, 0x1c813d5c11bf1f83ull, 0x8af0e4b6d75fa169ull, 
	0x33ee18a487ad9999ull, 0x3c26e8eab1c94410ull, 0xb510102bc0a822f9ull, 0x141eef310ce6123bull, 
	0xfc65b90059ddb154ull, 0xe0158640c5e0e607ull, 0x884e079826c3a3cfull, 0x930d0d9523c535fdull, 
	0x35638d754e9a2b00ull, 0x4085fccf40469dd5ull, 0xc4b17ad28be23a4cull, 0xcab2f0fc6a3e6a2eull, 
	0x2860971a6b943fcdull, 0x3dde6ee212e30446ull, 0x6222f32ae01765aeull, 0x5d550bb5478308feull, 
	0xa9efa98da0eda22aull, 0xc351a71686c40da7ull, 0x1105586d9c867c84ull, 0xdcffee85fda22853ull, 
	0xccfbd0262c5eef76ull, 0xbaf294cb8990d201ull, 0xe69464f52afad975ull, 0x94b013afdf133e14ull, 
	0x06a7d1a32823c958ull, 0x6f95fe5130f61119ull, 0xd92ab34e462c06c0ull, 0xed7bde33887c71d2ull, 
	0x79746d6e6518393eull, 0x5ba419385d713329ull, 0x7c1ba6b948a97564ull, 0x31987c197bfdac67ull, 
	0xde6c23c44b053d02ull, 0x581c49fed002d64dull, 0xdd474d6338261571ull, 0xaa4546c3e473d062ull, 
	0x928fce349455f860ull, 0x48161bbacaab94d9ull, 0x63912430770e6f68ull, 0x6ec8a5e602c6641cull, 
	0x87282515337ddd2bull, 0x2cda6b42034b701bull, 0xb03d37c181cb096dull, 0xe108438266c71c6full, 
	0x2b3180c7eb51b255ull, 0xdf92b82f96c08bbcull, 0x5c68c8c0a632f3baull, 0x5504cc861c3d0556ull, 
	0xabbfa4e55fb26b8full, 0x41848b0ab3baceb4ull, 0xb334a273aa445d32ull, 0xbca696f0a85ad881ull, 
	0x24f6ec65b528d56cull, 0x0ce1512e90f4524aull, 0x4e9dd79d5506d35aull, 0x258905fac6ce9779ull, 
	0x2019295b3e109b33ull, 0xf8a9478b73a054ccull, 0x2924f2f934417eb0ull, 0x3993357d536d1bc4ull, 
	0x38a81ac21db6ff8bull, 0x47c4fbf17d6016bfull, 0x1e0faadd7667e3f5ull, 0x7abcff62938beb96ull, 
	0xa78dad948fc179c9ull, 0x8f1f98b72911e50dull, 0x61e48eae27121a91ull, 0x4d62f7ad31859808ull, 
	0xeceba345ef5ceaebull, 0xf5ceb25ebc9684ceull, 0xf633e20cb7f76221ull, 0xa32cdf06ab8293e4ull, 
	0x985a202ca5ee2ca4ull, 0xcf0b8447cc8a8fb1ull, 0x9f765244979859a3ull, 0xa8d516b1a1240017ull, 
	0x0bd7ba3ebb5dc726ull, 0xe54bca55b86adb39ull, 0x1d7a3afd6c478063ull, 0x519ec608e7669eddull, 
	0x0e5715a2d149aa23ull, 0x177d4571848ff194ull, 0xeeb55f3241014c22ull, 0x0f5e5ca13a6e2ec2ull, 
	0x8029927b75f5c361ull, 0xad139fabc3d6e436ull, 0x0d5df1a94ccf402full, 0x3e8bd948bea5dfc8ull, 
	0xa5a0d357bd3ff77eull, 0xa2d12e251f74f645ull, 0x66fd9e525e81a082ull, 0x2e0c90ce7f687a49ull, 
	0xc2e8bcbeba973bc5ull, 0x000001bce509745full, 0x423777bbe6dab3d6ull, 0xd1661c7eaef06eb5ull, 
	0xa1781f354daacfd8ull, 0x2d11284a2b16affcull, 0xf1fc4f67fa891d1full, 0x73ecc25dcb920adaull, 
	0xae610c22c2a12651ull, 0x96e0a810d356b78aull, 0x5a9a381f2fe7870full, 0xd5ad62ede94e5530ull, 
	0xd225e5e8368d1427ull, 0x65977b70c7af4631ull, 0x99f889b2de39d74full, 0x233f30bf54e1d143ull, 
	0x9a9675d3d9a63c97ull, 0x5470554ff334f9a8ull, 0x166acb744a4f5688ull, 0x70c74caab2e4aeadull, 
	0xf0d091646f294d12ull, 0x57b82a89684031d1ull, 0xefd95a5a61be0b6bull, 0x2fbd12e969f2f29aull, 
	0x9bd37013feff9fe8ull, 0x3f9b0404d6085a06ull, 0x4940c1f3166cfe15ull, 0x09542c4dcdf3defbull, 
	0xb4c5218385cd5ce3ull, 0xc935b7dc4462a641ull, 0x3417f8a68ed3b63full, 0xb80959295b215b40ull, 
	0xf99cdaef3b8c8572ull, 0x018c0614f8fcb95dull, 0x1b14accd1a3acdf3ull, 0x84d471f200bb732dull, 
	0xc1a3110e95e8da16ull, 0x430a7220bf1a82b8ull, 0xb77e090d39df210eull, 0x5ef4bd9f3cd05e9dull, 
	0x9d4ff6da7e57a444ull, 0xda1d60e183d4a5f8ull, 0xb287c38417998e47ull, 0xfe3edc121bb31886ull, 
	0xc7fe3ccc980ccbefull, 0xe46fb590189bfd03ull, 0x3732fd469a4c57dcull, 0x7ef700a07cf1ad65ull, 
	0x59c64468a31d8859ull, 0x762fb0b4d45b61f6ull, 0x155baed099047718ull, 0x68755e4c3d50baa6ull, 
	0xe9214e7f22d8b4dfull, 0x2addbf532eac95f4ull, 0x32ae3909b4bd0109ull, 0x834df537b08e3450ull, 
	0xfa209da84220728dull, 0x9e691d9b9efe23f7ull, 0x0446d288c4ae8d7full, 0x7b4cc524e169785bull, 
	0x21d87f0135ca1385ull, 0xcebb400f137b8aa5ull, 0x272e2b66580796beull, 0x3612264125c2b0deull, 
	0x057702bdad1efbb2ull, 0xd4babb8eacf84be9ull, 0x91583139641bc67bull, 0x8bdc2de08036e024ull, 
	0x603c8156f49f68edull, 0xf7d236f7dbef5111ull, 0x9727c4598ad21e80ull, 0xa08a0896670a5fd7ull, 
	0xcb4a8f4309eba9cbull, 0x81af564b0f7036a1ull, 0xc0b99aa778199abdull, 0x959f1ec83fc8e952ull, 
	0x8c505077794a81b9ull, 0x3acaaf8f056338f0ull, 0x07b43f50627a6778ull, 0x4a44ab49f5eccc77ull, 
	0x3bc3d6e4b679ee98ull, 0x9cc0d4d1cf14108cull, 0x4406c00b206bc8a0ull, 0x82a18854c8d72d89ull, 
	0x67e366b35c3c432cull, 0xb923dd61102b37f2ull, 0x56ab2779d884271dull, 0xbe83e1b0ff1525afull, 
	0xfb7c65d4217e49a9ull, 0x6bdbe0e76d48e7d4ull, 0x08df828745d9179eull, 0x22ea6a9add53bd34ull, 
	0xe36e141c5622200aull, 0x7f805d1b8cb750eeull, 0xafe5c7a59f58e837ull, 0xe27f996a4fb1c23cull, 
	0xd3867dfb0775f0d0ull, 0xd0e673de6e88891aull, 0x123aeb9eafb86c25ull, 0x30f1d5d5c145b895ull, 
	0xbb434a2dee7269e7ull, 0x78cb67ecf931fa38ull, 0xf33b0372323bbf9cull, 0x52d66336fb279c74ull, 
	0x505f33ac0afb4eaaull, 0xe8a5cd99a2cce187ull, 0x534974801e2d30bbull, 0x8d2d5711d5876d90ull, 
	0x1f1a412891bc038eull, 0xd6e2e71d82e56648ull, 0x74036c3a497732b7ull, 0x89b67ed96361f5abull, 
	0xffed95d8f1ea02a2ull, 0xe72b3bd61464d43dull, 0xa6300f170bdc4820ull, 0xebc18760ed78a77aull, 
	0xe6a6be5a05a12138ull, 0xb5a122a5b4f87c98ull, 0x563c6089140b6990ull, 0x4c46cb2e391f5dd5ull, 
	0xd932addbc9b79434ull, 0x08ea70e42015aff5ull, 0xd765a6673e478cf1ull, 0xc4fb757eab278d99ull, 
	0xdf11c6862d6e0692ull, 0xddeb84f10d7f3b16ull, 0x6f2ef604a665ea04ull, 0x4a8e0f0ff0e0dfb3ull, 
	0xa5edeef83dbcba51ull, 0xfc4f0a2a0ea4371eull, 0xe83e1da85cb38429ull, 0xdc8ff882ba1b1ce2ull, 
	0xcd45505e8353e80dull, 0x18d19a00d4db0717ull, 0x34a0cfeda5f38101ull, 0x0be77e518887caf2ull, 
	0x1e341438b3c45136ull, 0xe05797f49089ccf9ull, 0xffd23f9df2591d14ull, 0x543dda228595c5cdull, 
	0x661f81fd99052a33ull, 0x8736e641db0f7b76ull, 0x15227725418e5307ull, 0xe25f7f46162eb2faull, 
	0x48a8b2126c13d9feull, 0xafdc541792e76eeaull, 0x03d912bfc6d1898full, 0x31b1aafa1b83f51bull, 
	0xf1ac2796e42ab7d9ull, 0x40a3a7d7fcd2ebacull, 0x1056136d0afbbcc5ull, 0x7889e1dd9a6d0c85ull, 
	0xd33525782a7974aaull, 0xa7e25d09078ac09bull, 0xbd4138b3eac6edd0ull, 0x920abfbe71eb9e70ull, 
	0xa2a5d0f54fc2625cull, 0xc054e36b0b1290a3ull, 0xf6dd59ff62fe932bull, 0x3537354511a8ac7dull, 
	0xca845e9172fadcd4ull, 0x84f82b60329d20dcull, 0x79c62ce1cd672f18ull, 0x8b09a2add124642cull, 
	0xd0c1e96a19d9e726ull, 0x5a786a9b4ba9500cull, 0x0e020336634c43f3ull, 0xc17b474aeb66d822ull, 
	0x6a731ae3ec9baac2ull, 0x8226667ae0840258ull, 0x67d4567691caeca5ull, 0x1d94155c4875adb5ull, 
	0x6d00fd985b813fdfull, 0x51286efcb774cd06ull, 0x5e8834471fa744afull, 0xf72ca0aee761ae2eull, 
	0xbe40e4cdaee8e09aull, 0xe9970bbb5118f665ull, 0x726e4beb33df1964ull, 0x703b000729199762ull, 
	0x4631d816f5ef30a7ull, 0xb880b5b51504a6beull, 0x641793c37ed84b6cull, 0x7b21ed77f6e97d96ull, 
	0x776306312ef96b73ull, 0xae528948e86ff3f4ull, 0x53dbd7f286a3f8f8ull, 0x16cadce74cfc1063ull, 
	0x005c19bdfa52c6ddull, 0x68868f5d64d46ad3ull, 0x3a9d512ccf1e186aull, 0x367e62c2385660aeull, 
	0xe359e7ea77dcb1d7ull, 0x526c0773749abe6eull, 0x735ae5f9d09f734bull, 0x493fc7cc8a558ba8ull, 
	0xb0b9c1533041ab45ull, 0x321958ba470a59bdull, 0x852db00b5f46c393ull, 0x91209b2bd336b0e5ull, 
	0x6e604f7d659ef19full, 0xb99a8ae2782ccb24ull, 0xccf52ab6c814c4c7ull, 0x4727d9afbe11727bull, 
	0x7e950d0c0121b34dull, 0x756f435670ad471full, 0xf5add442615a6849ull, 0x4e87e09980b9957aull, 
	0x2acfa1df50aee355ull, 0xd898263afd2fd556ull, 0xc8f4924dd80c8fd6ull, 0xcf99ca3d754a173aull, 
	0xfe477bacaf91bf3cull, 0xed5371f6d690c12dull, 0x831a5c285e687094ull, 0xc5d3c90a3708a0a4ull, 
	0x0f7f903717d06580ull, 0x19f9bb13b8fdf27full, 0xb1bd6f1b4d502843ull, 0x1c761ba38fff4012ull, 
	0x0d1530c4e2e21f3bull, 0x8943ce69a7372c8aull, 0xe5184e11feb5ce66ull, 0x618bdb80bd736621ull, 
	0x7d29bad68b574d0bull, 0x81bb613e25e6fe5bull, 0x071c9c10bc07913full, 0xc7beeb7909ac2d97ull, 
	0xc3e58d353bc5d757ull, 0xeb017892f38f61e8ull, 0xd4effb9c9b1cc21aull, 0x99727d26f494f7abull, 
	0xa3e063a2956b3e03ull, 0x9d4a8b9a4aa09c30ull, 0x3f6ab7d500090fb4ull, 0x9cc0f2a057268ac0ull, 
	0x3dee9d2dedbf42d1ull, 0x330f49c87960a972ull, 0xc6b2720287421b41ull, 0x0ac59ec07c00369cull, 
	0xef4eac49cb353425ull, 0xf450244eef0129d8ull, 0x8acc46e5caf4deb6ull, 0x2ffeab63989263f7ull, 
	0x8f7cb9fe5d7a4578ull, 0x5bd8f7644e634635ull, 0x427a7315bf2dc900ull, 0x17d0c4aa2125261cull, 
	0x3992486c93518e50ull, 0xb4cbfee0a2d7d4c3ull, 0x7c75d6202c5ddd8dull, 0xdbc295d8e35b6c61ull, 
	0x60b369d302032b19ull, 0xce42685fdce44132ull, 0x06f3ddb9ddf65610ull, 0x8ea4d21db5e148f0ull, 
	0x20b0fce62fcd496full, 0x2c1b912358b0ee31ull, 0xb28317b818f5a308ull, 0xa89c1e189ca6d2cfull, 
	0x0c6b18576aaadbc8ull, 0xb65deaa91299fae3ull, 0xfb2b794b7f1027e7ull, 0x04e4317f443b5bebull, 
	0x4b852d325939d0a6ull, 0xd5ae6beefb207ffcull, 0x309682b281c7d374ull, 0xbae309a194c3b475ull, 
	0x8cc3f97b13b49f05ull, 0x98a9422ff8293967ull, 0x244b16b01076ff7cull, 0xf8bf571c663d67eeull, 
	0x1f0d6758eee30da1ull, 0xc9b611d97adeb9b7ull, 0xb7afd5887b6c57a2ull, 0x6290ae846b984fe1ull, 
	0x94df4cdeacc1a5fdull, 0x058a5bd1c5483affull, 0x63166cc142ba3c37ull, 0x8db8526eb2f76f40ull, 
	0xe10880036f0d6d4eull, 0x9e0523c9971d311dull, 0x45ec2824cc7cd691ull, 0x575b8359e62382c9ull, 
	0xfa9e400dc4889995ull, 0xd1823ecb45721568ull, 0xdafd983b8206082full, 0xaa7d29082386a8cbull, 
	0x269fcd4403b87588ull, 0x1b91f5f728bdd1e0ull, 0xe4669f39040201f6ull, 0x7a1d7c218cf04adeull, 
	0x65623c29d79ce5ceull, 0x2368449096c00bb1ull, 0xab9bf1879da503baull, 0xbc23ecb1a458058eull, 
	0x9a58df01bb401eccull, 0xa070e868a85f143dull, 0x4ff188307df2239eull, 0x14d565b41a641183ull, 
	0xee13337452701602ull, 0x950e3dcf3f285e09ull, 0x59930254b9c80953ull, 0x3bf299408930da6dull, 
	0xa955943f53691387ull, 0xa15edecaa9cb8784ull, 0x29142127352be9a0ull, 0x76f0371fff4e7afbull, 
	0x0239f450274f2228ull, 0xbb073af01d5e868bull, 0xbfc80571c10e96c1ull, 0xd267088568222e23ull, 
	0x9671a3d48e80b5b0ull, 0x55b5d38ae193bb81ull, 0x693ae2d0a18b04b8ull, 0x5c48b4ecadd5335full, 
	0xfd743b194916a1caull, 0x2577018134be98c4ull, 0xe77987e83c54a4adull, 0x28e11014da33e1b9ull, 
	0x270cc59e226aa213ull, 0x71495f756d1a5f60ull, 0x9be853fb60afef77ull, 0xadc786a7f7443dbfull, 
	0x0904456173b29a82ull, 0x58bc7a66c232bd5eull, 0xf306558c673ac8b2ull, 0x41f639c6b6c9772aull, 
	0x216defe99fda35daull, 0x11640cc71c7be615ull, 0x93c43694565c5527ull, 0xea038e6246777839ull, 
	0xf9abf3ce5a3e2469ull, 0x741e768d0fd312d2ull, 0x0144b883ced652c6ull, 0xc20b5a5ba33f8552ull, 
	0x1ae69633c3435a9dull, 0x97a28ca4088cfdecull, 0x8824a43c1e96f420ull, 0x37612fa66eeea746ull, 
	0x6b4cb165f9cf0e5aull, 0x43aa1c06a0abfb4aull, 0x7f4dc26ff162796bull, 0x6cbacc8e54ed9b0full, 
	0xa6b7ffefd2bb253eull, 0x2e25bc95b0a29d4full, 0x86d6a58bdef1388cull, 0xded74ac576b6f054ull, 
	0x8030bdbc2b45805dull, 0x3c81af70e94d9289ull, 0x3eff6dda9e3100dbull, 0xb38dc39fdfcc8847ull, 
	0x123885528d17b87eull, 0xf2da0ed240b1b642ull, 0x44cefadcd54bf9a9ull, 0x1312200e433c7ee6ull, 
	0x9ffcc84f3a78c748ull, 0xf0cd1f72248576bbull, 0xec6974053638cfe4ull, 0x2ba7b67c0cec4e4cull, 
	0xac2f4df3e5ce32edull, 0xcb33d14326ea4c11ull, 0xa4e9044cc77e58bcull, 0x5f513293d934fcefull, 
	0x5dc9645506e55444ull, 0x50de418f317de40aull, 0x388cb31a69dde259ull, 0x2db4a83455820a86ull, 
	0x9010a91e84711ae9ull, 0x4df7f0b7b1498371ull, 0xd62a2eabc0977179ull, 0x22fac097aa8d5c0eull, 
	0xf49fcc2ff1daf39bull, 0x487fd5c66ff29281ull, 0xe8a30667fcdca83full, 0x2c9b4be3d2fcce63ull, 
	0xda3ff74b93fbbbc2ull, 0x2fa165d2fe70ba66ull, 0xa103e279970e93d4ull, 0xbecdec77b0e45e71ull, 
	0xcfb41e723985e497ull, 0xb70aaa025ef75017ull, 0xd42309f03840b8e0ull, 0x8efc1ad035898579ull, 
	0x96c6920be2b2abc5ull, 0x66af4163375a9172ull, 0x2174abdcca7127fbull, 0xb33ccea64a72ff41ull, 
	0xf04a4933083066a5ull, 0x8d970acdd7289af5ull, 0x8f96e8e031c8c25eull, 0xf3fec02276875d47ull, 
	0xec7bf310056190ddull, 0xf5adb0aebb0f1491ull, 0x9b50f8850fd58892ull, 0x4975488358b74de8ull, 
	0xa3354ff691531c61ull, 0x0702bbe481d2c6eeull, 0x89fb24057deded98ull, 0xac3075138596e902ull, 
	0x1d2d3580172772edull, 0xeb738fc28e6bc30dull, 0x5854ef8f63044326ull, 0x9e5c52325add3bbeull, 
	0x90aa53cf325c4623ull, 0xc1d24d51349dd067ull, 0x2051cfeea69ea624ull, 0x13220f0a862e7e4full, 
	0xce39399404e04864ull, 0xd9c42ca47086fcb7ull, 0x685ad2238a03e7ccull, 0x066484b2ab2ff1dbull, 
	0xfe9d5d70efbf79ecull, 0x5b13b9dd9c481854ull, 0x15f0d475ed1509adull, 0x0bebcd060ec79851ull, 
	0xd58c6791183ab7f8ull, 0xd1187c5052f3eee4ull, 0xc95d1192e54e82ffull, 0x86eea14cb9ac6ca2ull, 
	0x3485beb153677d5dull, 0xdd191d781f8c492aull, 0xf60866baa784ebf9ull, 0x518f643ba2d08c74ull, 
	0x8852e956e1087c22ull, 0xa768cb8dc410ae8dull, 0x38047726bfec8e1aull, 0xa67738b4cd3b45aaull, 
	0xad16691cec0dde19ull, 0xc6d4319380462e07ull, 0xc5a5876d0ba61938ull, 0x16b9fa1fa58fd840ull, 
	0x188ab1173ca74f18ull, 0xabda2f98c99c021full, 0x3e0580ab134ae816ull, 0x5f3b05b773645abbull, 
	0x2501a2be5575f2f6ull, 0x1b2f74004e7e8ba9ull, 0x1cd7580371e8d953ull, 0x7f6ed89562764e30ull, 
	0xb15926ff596f003dull, 0x9f65293da8c5d6b9ull, 0x6ecef04dd690f84cull, 0x4782275fff33af88ull, 
	0xe41433083f820801ull, 0xfd0dfe409a1af9b5ull, 0x4325a3342cdb396bull, 0x8ae77e62b301b252ull, 
	0xc36f9e9f6655615aull, 0x85455a2d92d32c09ull, 0xf2c7dea949477485ull, 0x63cfb4c133a39ebaull, 
	0x83b040cc6ebc5462ull, 0x3b9454c8fdb326b0ull, 0x56f56a9e87ffd78cull, 0x2dc2940d99f42bc6ull, 
	0x98f7df096b096e2dull, 0x19a6e01e3ad852bfull, 0x42a99ccbdbd4b40bull, 0xa59998af45e9c559ull, 
	0x366295e807d93186ull, 0x6b48181bfaa1f773ull, 0x1fec57e2157a0a1dull, 0x4667446af6201ad5ull, 
	0xe615ebcacfb0f075ull, 0xb8f31f4f68290778ull, 0x22713ed6ce22d11eull, 0x3057c1a72ec3c93bull, 
	0xcb46acc37c3f1f2full, 0xdbb893fd02aaf50eull, 0x331fd92e600b9fcfull, 0xa498f96148ea3ad6ull, 
	0xa8d8426e8b6a83eaull, 0xa089b274b7735cdcull, 0x87f6b3731e524a11ull, 0x118808e5cbc96749ull, 
	0x9906e4c7b19bd394ull, 0xafed7f7e9b24a20cull, 0x6509eadeeb3644a7ull, 0x6c1ef1d3e8ef0edeull, 
	0xb9c97d43e9798fb4ull, 0xa2f2d784740c28a3ull, 0x7b8496476197566full, 0x7a5be3e6b65f069dull, 
	0xf96330ed78be6f10ull, 0xeee60de77a076a15ull, 0x2b4bee4aa08b9bd0ull, 0x6a56a63ec7b8894eull, 
	0x02121359ba34fef4ull, 0x4cbf99f8283703fcull, 0x398071350caf30c8ull, 0xd0a77a89f017687aull, 
	0xf1c1a9eb9e423569ull, 0x8c7976282dee8199ull, 0x5d1737a5dd1f7abdull, 0x4f53433c09a9fa80ull, 
	0xfa8b0c53df7ca1d9ull, 0x3fd9dcbc886ccb77ull, 0xc040917ca91b4720ull, 0x7dd00142f9d1dcdfull, 
	0x8476fc1d4f387b58ull, 0x23f8e7c5f3316503ull, 0x032a2244e7e37339ull, 0x5c87a5d750f5a74bull, 
	0x082b4cc43698992eull, 0xdf917becb858f63cull, 0x3270b8fc5bf86ddaull, 0x10ae72bb29b5dd76ull, 
	0x576ac94e7700362bull, 0x1ad112dac61efb8full, 0x691bc30ec5faa427ull, 0xff246311cc327143ull, 
	0x3142368e30e53206ull, 0x71380e31e02ca396ull, 0x958d5c960aad76f1ull, 0xf8d6f430c16da536ull, 
	0xc8ffd13f1be7e1d2ull, 0x7578ae66004ddbe1ull, 0x05833f01067be646ull, 0xbb34b5ad3bfe586dull, 
	0x095f34c9a12b97f0ull, 0x247ab64525d60ca8ull, 0xdcdbc6f3017477d1ull, 0x4a2e14d4decad24dull, 
	0xbdb5e6d9be0a1eebull, 0x2a7e70f7794301abull, 0xdef42d8a270540fdull, 0x01078ec0a34c22c1ull, 
	0xe5de511af4c16387ull, 0x7ebb3a52bd9a330aull, 0x77697857aa7d6435ull, 0x004e831603ae4c32ull, 
	0xe7a21020ad78e312ull, 0x9d41a70c6ab420f2ull, 0x28e06c18ea1141e6ull, 0xd2b28cbd984f6b28ull, 
	0x26b75f6c446e9d83ull, 0xba47568c4d418d7full, 0xd80badbfe6183d8eull, 0x0e206d7f5f166044ull, 
	0xe258a43911cbca3eull, 0x723a1746b21dc0bcull, 0xc7caa854f5d7cdd3ull, 0x7cac32883d261d9cull, 
	0x7690c26423ba942cull, 0x17e55524478042b8ull, 0xe0be477656a2389full, 0x4d289b5e67ab2da0ull, 
	0x44862b9c8fbbfd31ull, 0xb47cc8049d141365ull, 0x822c1b362b91c793ull, 0x4eb14655fb13dfd8ull, 
	0x1ecbba0714e2a97bull, 0x6143459d5cde5f14ull, 0x53a8fbf1d5f0ac89ull, 0x97ea04d81c5e5b00ull, 
	0x622181a8d4fdb3f3ull, 0xe9bcd341572a1208ull, 0x1411258643cce58aull, 0x9144c5fea4c6e0a4ull, 
	0x0d33d06565cf620full, 0x54a48d489f219ca1ull, 0xc43e5eac6d63c821ull, 0xa9728b3a72770dafull, 
	0xd7934e7b20df87efull, 0xe35503b61a3e86e5ull, 0xcae321fbc819d504ull, 0x129a50b3ac60bfa6ull, 
	0xcd5e68ea7e9fb6c3ull, 0xb01c90199483b1c7ull, 0x3de93cd5c295376cull, 0xaed52edf2ab9ad13ull, 
	0x2e60f512c0a07884ull, 0xbc3d86a3e36210c9ull, 0x35269d9b163951ceull, 0x0c7d6e2ad0cdb5faull, 
	0x59e86297d87f5733ull, 0x298ef221898db0e7ull, 0x55000029d1a5aa7eull, 0x8bc08ae1b5061b45ull, 
	0xc2c31c2b6c92703aull, 0x94cc596baf25ef42ull, 0x0a1d73db22540456ull, 0x04b6a0f9d9c4179aull, 
	0xeffdafa2ae3d3c60ull, 0xf7c8075bb49496c4ull, 0x9cc5c7141d1cd4e3ull, 0x78bd1638218e5534ull, 
	0xb2f11568f850246aull, 0xedfabcfa9502bc29ull, 0x796ce5f2da23051bull, 0xaae128b0dc93537cull, 
	0x3a493da0ee4b29aeull, 0xb5df6b2c416895d7ull, 0xfcabbd25122d7f37ull, 0x70810b58105dc4b1ull, 
	0xe10fdd37f7882a90ull, 0x524dcab5518a3f5cull, 0x3c9e85878451255bull, 0x4029828119bd34e2ull, 
	0x74a05b6f5d3ceccbull, 0xb610021542e13ecaull, 0x0ff979d12f59e2acull, 0x6037da27e4f9cc50ull, 
	0x5e92975a0df1847dull, 0xd66de190d3e623feull, 0x5032d6b87b568048ull, 0x9a36b7ce8235216eull, 
	0x80272a7a24f64b4aull, 0x93efed8b8c6916f7ull, 0x37ddbff44cce1555ull, 0x4b95db5d4b99bd25ull, 
	0x92d3fda169812fc0ull, 0xfb1a4a9a90660bb6ull, 0x730c196946a4b9b2ull, 0x81e289aa7f49da68ull, 
	0x64669a0f83b1a05full, 0x27b3ff7d9644f48bull, 0xcc6b615c8db675b3ull, 0x674f20b9bcebbe95ull, 
	0x6f31238275655982ull, 0x5ae488713e45cf05ull, 0xbf619f9954c21157ull, 0xeabac46040a8eae9ull, 
	0x454c6fe9f2c0c1cdull, 0x419cf6496412691cull, 0xd3dc3bef265b0f70ull, 0x6d0e60f5c3578a9eull, 
	0x5b0e608526323c55ull, 0x1a46c1a9fa1b59f5ull, 0xa9e245a17c4c8ffaull, 0x65ca5159db2955d7ull, 
	0x05db0a76ce35afc2ull, 0x81eac77ea9113d45ull, 0x528ef88ab6ac0a0dull, 0xa09ea253597be3ffull, 
	0x430ddfb3ac48cd56ull, 0xc4b3a67af45ce46full, 0x4ececfd8fbe2d05eull, 0x3ef56f10b39935f0ull, 
	0x0b22d6829cd619c6ull, 0x17fd460a74df2069ull, 0x6cf8cc8e8510ed40ull, 0xd6c824bf3a6ecaa7ull, 
	0x61243d581a817049ull, 0x048bacb6bbc163a2ull, 0xd9a38ac27d44cc32ull, 0x7fddff5baaf410abull, 
	0xad6d495aa804824bull, 0xe1a6a74f2d8c9f94ull, 0xd4f7851235dee8e3ull, 0xfd4b7f886540d893ull, 
	0x247c20042aa4bfdaull, 0x096ea1c517d1327cull, 0xd56966b4361a6685ull, 0x277da5c31221057dull, 
	0x94d59893a43acff7ull, 0x64f0c51ccdc02281ull, 0x3d33bcc4ff6189dbull, 0xe005cb184ce66af1ull, 
	0xff5ccd1d1db99beaull, 0xb0b854a7fe42980full, 0x7bd46a6a718d4b9full, 0xd10fa8cc22a5fd8cull, 
	0xd31484952be4bd31ull, 0xc7fa975fcb243847ull, 0x4886ed1e5846c407ull, 0x28cddb791eb70b04ull, 
	0xc2b00be2f573417full, 0x5c9590452180f877ull, 0x7a6bddfff370eb00ull, 0xce509e38d6d9d6a4ull, 
	0xebeb0f00647fa702ull, 0x1dcc06cf76606f06ull, 0xe4d9f28ba286ff0aull, 0xd85a305dc918c262ull, 
	0x475b1d8732225f54ull, 0x2d4fb51668ccb5feull, 0xa679b9d9d72bba20ull, 0x53841c0d912d43a5ull, 
	0x3b7eaa48bf12a4e8ull, 0x781e0e47f22f1ddfull, 0xeff20ce60ab50973ull, 0x20d261d19dffb742ull, 
	0x16a12b03062a2e39ull, 0x1960eb2239650495ull, 0x251c16fed50eb8b8ull, 0x9ac0c330f826016eull, 
	0xed152665953e7671ull, 0x02d63194a6369570ull, 0x5074f08394b1c987ull, 0x70ba598c90b25ce1ull, 
	0x794a15810b9742f6ull, 0x0d5925e9fcaf8c6cull, 0x3067716cd868744eull, 0x910ab077e8d7731bull, 
	0x6a61bbdb5ac42f61ull, 0x93513efbf0851567ull, 0xf494724b9e83e9d5ull, 0xe887e1985c09648dull, 
	0x34b1d3c675370cfdull, 0xdc35e433bc0d255dull, 0xd0aab84234131be0ull, 0x08042a50b48b7eafull, 
	0x9997c4ee44a3ab35ull, 0x829a7b49201799d0ull, 0x263b8307b7c54441ull, 0x752f95f4fd6a6ca6ull, 
	0x927217402c08c6e5ull, 0x2a8ab754a795d9eeull, 0xa442f7552f72943dull, 0x2c31334e19781208ull, 
	0x4fa98d7ceaee6291ull, 0x55c3862f665db309ull, 0xbd0610175d53b1f3ull, 0x46fe6cb840413f27ull, 
	0x3fe03792df0cfa59ull, 0xcfe700372eb85e8full, 0xa7be29e7adbce118ull, 0xe544ee5cde8431ddull, 
	0x8a781b1b41f1873eull, 0xa5c94c78a0d2f0e7ull, 0x39412e2877b60728ull, 0xa1265ef3afc9a62cull, 
	0xbcc2770c6a2506c5ull, 0x3ab66dd5dce1ce12ull, 0xe65499d04a675b37ull, 0x7d8f523481bfd216ull, 
	0x0f6f64fcec15f389ull, 0x74efbe618b5b13c8ull, 0xacdc82b714273e1dull, 0xdd40bfe003199d17ull, 
	0x37e99257e7e061f8ull, 0xfa52626904775aaaull, 0x8bbbf63a463d56f9ull, 0xf0013f1543a26e64ull, 
	0xa8307e9f879ec898ull, 0xcc4c27a4150177ccull, 0x1b432f2cca1d3348ull, 0xde1d1f8f9f6fa013ull, 
	0x606602a047a7ddd6ull, 0xd237ab64cc1cb2c7ull, 0x9b938e7225fcd1d3ull, 0xec4e03708e0ff476ull, 
	0xfeb2fbda3d03c12dull, 0xae0bced2ee43889aull, 0x22cb8923ebfb4f43ull, 0x69360d013cf7396dull, 
	0x855e3602d2d4e022ull, 0x073805bad01f784cull, 0x33e17a133852f546ull, 0xdf4874058ac7b638ull, 
	0xba92b29c678aa14aull, 0x0ce89fc76cfaadcdull, 0x5f9d4e0908339e34ull, 0xf1afe9291f5923b9ull, 
	0x6e3480f60f4a265full, 0xeebf3a2ab29b841cull, 0xe21938a88f91b4adull, 0x57dfeff845c6d3c3ull, 
	0x2f006b0bf62caaf2ull, 0x62f479ef6f75ee78ull, 0x11a55ad41c8916a9ull, 0xf229d29084fed453ull, 
	0x42f1c27b16b000e6ull, 0x2b1f76749823c074ull, 0x4b76eca3c2745360ull, 0x8c98f463b91691bdull, 
	0x14bcc93cf1ade66aull, 0x8885213e6d458397ull, 0x8e177df0274d4711ull, 0xb49b73b5503f2951ull, 
	0x10168168c3f96b6bull, 0x0e3d963b63cab0aeull, 0x8dfc4b5655a1db14ull, 0xf789f1356e14de5cull, 
	0x683e68af4e51dac1ull, 0xc9a84f9d8d4b0fd9ull, 0x3691e03f52a0f9d1ull, 0x5ed86e46e1878e80ull, 
	0x3c711a0e99d07150ull, 0x5a0865b20c4e9310ull, 0x56fbfc1fe4f0682eull, 0xea8d5de3105edf9bull, 
	0x71abfdb12379187aull, 0x2eb99de1bee77b9cull, 0x21ecc0ea33cf4523ull, 0x59a4d7521805c7a1ull, 
	0x3896f5eb56ae7c72ull, 0xaa638f3db18f75dcull, 0x9f39358dabe9808eull, 0xb7defa91c00b72acull, 
	0x6b5541fd62492d92ull, 0x6dc6dee8f92e4d5bull, 0x353f57abc4beea7eull, 0x735769d6da5690ceull, 
	0x0a234aa642391484ull, 0xf6f9508028f80d9dull, 0xb8e319a27ab3f215ull, 0x31ad9c1151341a4dull, 
	0x773c22a57bef5805ull, 0x45c7561a07968633ull, 0xf913da9e249dbe36ull, 0xda652d9b78a64c68ull, 
	0x4c27a97f3bc334efull, 0x76621220e66b17f4ull, 0x967743899acd7d0bull, 0xf3ee5bcae0ed6782ull, 
	0x409f753600c879fcull, 0x06d09a39b5926db6ull, 0x6f83aeb0317ac588ull, 0x01e6ca4a86381f21ull, 
	0x66ff3462d19f3025ull, 0x72207c24ddfd3bfbull, 0x4af6b6d3e2ece2ebull, 0x9c994dbec7ea08deull, 
	0x49ace597b09a8bc4ull, 0xb38c4766cf0797baull, 0x131b9373c57c2a75ull, 0xb1822cce61931e58ull, 
	0x9d7555b909ba1c0cull, 0x127fafdd937d11d2ull, 0x29da3badc66d92e4ull, 0xa2c1d57154c2ecbcull, 
	0x58c5134d82f6fe24ull, 0x1c3ae3515b62274full, 0xe907c82e01cb8126ull, 0xf8ed091913e37fcbull, 
	0x3249d8f9c80046c9ull, 0x80cf9bede388fb63ull, 0x1881539a116cf19eull, 0x5103f3f76bd52457ull, 
	0x15b7e6f5ae47f7a8ull, 0xdbd7c6ded47e9ccfull, 0x44e55c410228bb1aull, 0xb647d4255edb4e99ull, 
	0x5d11882bb8aafc30ull, 0xf5098bbb29d3212aull, 0x8fb5ea14e90296b3ull, 0x677b942157dd025aull, 
	0xfb58e7c0a390acb5ull, 0x89d3674c83bd4a01ull, 0x9e2da4df4bf3b93bull, 0xfcc41e328cab4829ull, 
	0x03f38c96ba582c52ull, 0xcad1bdbd7fd85db2ull, 0xbbb442c16082ae83ull, 0xb95fe86ba5da9ab0ull, 
	0xb22e04673771a93full, 0x845358c9493152d8ull, 0xbe2a488697b4541eull, 0x95a2dc2dd38e6966ull, 
	0xc02c11ac923c852bull, 0x2388b1990df2a87bull, 0x7c8008fa1b4f37beull, 0x1f70d0c84d54e503ull, 
	0x5490adec7ece57d4ull, 0x002b3c27d9063a3aull, 0x7eaea3848030a2bfull, 0xc602326ded2003c0ull, 
	0x83a7287d69a94086ull, 0xc57a5fcb30f57a8aull, 0xb56844e479ebe779ull, 0xa373b40f05dcbce9ull, 
	0xd71a786e88570ee2ull, 0x879cbacdbde8f6a0ull, 0x976ad1bcc164a32full, 0xab21e25e9666d78bull, 
	0x901063aae5e5c33cull, 0x9818b34448698d90ull, 0xe36487ae3e1e8abbull, 0xafbdf931893bdcb4ull, 
	0x6345a0dc5fbbd519ull, 0x8628fe269b9465caull, 0x1e5d01603f9c51ecull, 0x4de44006a15049b7ull, 
	0xbf6c70e5f776cbb1ull, 0x411218f2ef552bedull, 0xcb0c0708705a36a3ull, 0xe74d14754f986044ull, 
	0xcd56d9430ea8280eull, 0xc12591d7535f5065ull, 0xc83223f1720aef96ull, 0xc3a0396f7363a51full, 
};

}
