#pragma once
#include "cexutil.h"
#include <algorithm>
#include "pq.h"
#include "Kyber.h"
#include "McEliece.h"
#include "ECDH.h"
#include "IPrng.h"
#include "AsymmetricKey.h"
#include "AsymmetricSecureKey.h"
#include "AsymmetricKeyPair.h"
using namespace CEX; using namespace CEX::Enumeration;
using CEX::Asymmetric::AsymmetricKey; using CEX::Asymmetric::AsymmetricKeyPair;
// a random source that is a function of its seed and keeps what it gave
struct DetPrng : CEX::Prng::IPrng
{
	pbt::Rng r; Bytes given; long flip = -1; size_t calls = 0;
	DetPrng(uint64_t s) : r{ s } {}
	uint8_t byte() { uint8_t b = (uint8_t)(r.next() >> 40); if ((long)given.size() == flip) { b ^= 0x5A; } given.push_back(b); return b; }
	const Enumeration::Prngs Enumeral() override { return Enumeration::Prngs::CSR; }
	const std::string Name() override { return "CSR"; }
	void Generate(std::vector<uint8_t>& o, size_t off, size_t n) override { ++calls; for (size_t i = 0; i < n; ++i) { o.at(off + i) = byte(); } }
	void Generate(SecureVector<uint8_t>& o, size_t off, size_t n) override { ++calls; for (size_t i = 0; i < n; ++i) { o.at(off + i) = byte(); } }
	void Generate(std::vector<uint8_t>& o) override { Generate(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t>& o) override { Generate(o, 0, o.size()); }
	uint16_t NextUInt16() override { return (uint16_t)(byte() | byte() << 8); }
	uint32_t NextUInt32() override { uint32_t v = 0; for (int i = 0; i < 4; ++i) { v |= (uint32_t)byte() << (8 * i); } return v; }
	uint64_t NextUInt64() override { return NextUInt32() | (uint64_t)NextUInt32() << 32; }
	void Reset() override {}
};
struct KemSet { bool kyber; int k; AsymmetricParameters p; const char* name; size_t pk, sk, ct; };
inline const std::vector<KemSet>& kemsets()
{
	static const std::vector<KemSet> v = {
		{ true, 2, AsymmetricParameters::KYBERS1P1632, "Kyber-512", 800, 1632, 768 }, { true, 3, AsymmetricParameters::KYBERS3P2400, "Kyber-768", 1184, 2400, 1088 }, { true, 4, AsymmetricParameters::KYBERS5P3168, "Kyber-1024", 1568, 3168, 1568 }, { true, 5, AsymmetricParameters::KYBERS6P3936, "Kyber-1280", 1952, 3936, 1920 },
		{ false, 4608, AsymmetricParameters::MPKCS3N4608T96, "McEliece-4608", 524160, 13608, 188 }, { false, 6688, AsymmetricParameters::MPKCS4N6688T128, "McEliece-6688", 1044992, 13932, 240 }, { false, 6960, AsymmetricParameters::MPKCS3N6960T119, "McEliece-6960", 1047319, 13948, 226 }, { false, 8192, AsymmetricParameters::MPKCS5N8192T128, "McEliece-8192", 1357824, 14120, 240 } };
	return v;
}
typedef std::unique_ptr<CEX::Asymmetric::Encrypt::IAsymmetricCipher> Kem;
inline Kem mkkem(const KemSet& s, CEX::Prng::IPrng* r) { if (s.kyber) { return Kem(new CEX::Asymmetric::Encrypt::MLWE::Kyber((KyberParameters)s.p, r)); } return Kem(new CEX::Asymmetric::Encrypt::MPKC::McEliece((McElieceParameters)s.p, r)); }
inline AsymmetricPrimitives prim(const KemSet& s) { return s.kyber ? AsymmetricPrimitives::Kyber : AsymmetricPrimitives::McEliece; }
struct KemPair { Bytes pk, sk, rnd; };
// key pairs are a function of (set, seed); they are kept, as the McEliece ones take long
inline const KemPair& kempair(const KemSet& s, uint64_t seed)
{
	static std::map<std::pair<int, uint64_t>, KemPair> cache; auto key = std::make_pair(s.k, seed); auto it = cache.find(key); if (it != cache.end()) { return it->second; }
	DetPrng r(seed * 7919 + s.k); Kem k = mkkem(s, &r); std::unique_ptr<AsymmetricKeyPair> kp(k->Generate()); KemPair p{ kp->PublicKey()->Polynomial(), kp->PrivateKey()->Polynomial(), r.given };
	require(p.pk.size() == s.pk && p.sk.size() == s.sk, std::string(s.name) + ": sizes of a generated key pair"); require(k->PublicKeySize() == s.pk && k->PrivateKeySize() == s.sk && k->CipherTextSize() == s.ct && k->SharedSecretSize() == 32, std::string(s.name) + ": sizes reported by the cipher");
	if (cache.size() > 64) { cache.clear(); } return cache[key] = p;
}
#if __has_feature(address_sanitizer)
static const bool SLOWBUILD = true;
#else
static const bool SLOWBUILD = false;
#endif
inline uint64_t pairseed(pbt::Case& c, const KemSet& s) { if (s.kyber) { return c.u(0, 1000000); } /* mostly pairs that are found quickly */ if (!SLOWBUILD && c.chance(1, 4))
	{
		// a source whose first permutation has two equal entries, so that the generation has to start again
		c.tag("permutation with equal entries"); int t = s.k == 4608 ? 96 : s.k == 6960 ? 119 : 128; size_t len = s.k / 8 + 32768 + 2 * t + 32, off = len - 32 - 2 * t - 32768;
		for (uint64_t seed = c.u(0, 1000) * 1000;; ++seed)
		{
			DetPrng r(seed * 7919 + s.k); Bytes in{ 64 }; for (int i = 0; i < 32; ++i) { in.push_back(r.byte()); } Bytes x = ref::keccak(136, 0x1F, in, len); std::vector<uint32_t> p(8192); for (int i = 0; i < 8192; ++i) { memcpy(&p[i], &x[off + 4 * i], 4); }
			std::sort(p.begin(), p.end()); if (std::adjacent_find(p.begin(), p.end()) != p.end()) { return seed; }
		}
	}
	if (!SLOWBUILD && c.chance(1, 16)) { return c.u(0, 1000); } return s.k == 8192 || s.k == 4608 ? c.u(0, 1) : 0; }
inline std::unique_ptr<AsymmetricKey> mkakey(pbt::Case& c, const Bytes& b, AsymmetricPrimitives p, AsymmetricKeyTypes t, AsymmetricParameters a)
{
	if (c.chance(1, 4)) { SBytes s = sec(b); return std::unique_ptr<AsymmetricKey>(new AsymmetricKey(s, p, t, a)); }
	std::unique_ptr<AsymmetricKey> k(new AsymmetricKey(b, p, t, a)); if (!c.chance(1, 3)) { return k; }
	c.tag("key through its serialised form"); SBytes st = AsymmetricKey::Serialize(*k); return std::unique_ptr<AsymmetricKey>(AsymmetricKey::DeSerialize(st));
}
