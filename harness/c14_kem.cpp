// LIBS: -lcrypto
// C14: key encapsulation and key exchange: both sides derive the same secret, that of the specification
#include "kem.h"
#include "KyberParameters.h"
#include "McElieceParameters.h"
#include "ECDHParameters.h"
#include "AsymmetricCipherFromName.h"
static Bytes domain_secret(const Bytes& sec, const Bytes& dom, const std::string& name, size_t n) { return dom.empty() ? sec : ref::cshake(72, sec, n, ref::str(name), dom); }
static std::string kemname(const KemSet& s) { return s.kyber ? "Kyber-" + KyberParameterConvert::ToName((KyberParameters)s.p) : "McEliece-" + McElieceParameterConvert::ToName((McElieceParameters)s.p); }
// the error vector the sender takes from the random source
static bool mpk_error(const KemSet& s, const Bytes& rnd, Bytes& e, size_t& used)
{
	int n = s.k, t = n == 4608 ? 96 : n == 6960 ? 119 : 128, tau = n == 8192 ? t : 2 * t;
	for (size_t p = 0; p + 2 * tau <= rnd.size();)
	{
		std::vector<int> a; for (int i = 0; i < tau && (int)a.size() < t; ++i) { int v = (rnd[p + 2 * i] | rnd[p + 2 * i + 1] << 8) & 8191; if (v < n) { a.push_back(v); } } p += 2 * tau;
		if ((int)a.size() < t || std::set<int>(a.begin(), a.end()).size() != (size_t)t) { continue; }
		e.assign(n / 8, 0); for (int v : a) { e[v / 8] |= 1 << (v % 8); } used = p; return true;
	}
	return false;
}
static void mpk_encaps(const KemSet& s, const Bytes& pk, const Bytes& e, Bytes& ct, Bytes& ss)
{
	int n = s.k, t = n == 4608 ? 96 : n == 6960 ? 119 : 128, mt = 13 * t, cols = n - mt; size_t rb = (cols + 7) / 8; Bytes tail(rb, 0), syn((mt + 7) / 8, 0); auto bit = [&](int i) { return e[i / 8] >> (i % 8) & 1; };
	for (int j = 0; j < cols; ++j) { if (bit(mt + j)) { tail[j / 8] |= 1 << (j % 8); } }
	for (int i = 0; i < mt; ++i) { uint8_t x = 0; const uint8_t* r = &pk[i * rb]; for (size_t j = 0; j < rb; ++j) { x ^= r[j] & tail[j]; } if ((__builtin_popcount(x) & 1) ^ bit(i)) { syn[i / 8] |= 1 << (i % 8); } }
	auto H = [&](uint8_t d, const Bytes& a, const Bytes& b) { return ref::keccak(136, 0x1F, ref::cat({ Bytes{ d }, a, b }), 32); };
	ct = ref::cat({ syn, H(2, e, {}) }); ss = H(1, e, ct);
}
static void session(pbt::Case& c, const KemSet& s, int rounds)
{
	c.tag(s.name); DetPrng R(c.u(0, ~0ull)); Kem k = mkkem(s, &R); c.desc << s.name; std::string nm = s.name; c.nontrivial();
	for (int i = 0; i < rounds; ++i)
	{
		uint64_t ks = pairseed(c, s); const KemPair& kp = kempair(s, ks); ref::KyberModel M(s.k); c.desc << " pair " << ks;
		if (s.kyber) { Bytes pk, sk; M.keygen(ref::sub(kp.rnd, 0, 32), ref::sub(kp.rnd, 32, 32), pk, sk); require_eq(kp.pk, pk, nm + ": public key"); require_eq(kp.sk, sk, nm + ": private key"); }
		auto pk = mkakey(c, kp.pk, prim(s), AsymmetricKeyTypes::CipherPublicKey, s.p), sk = mkakey(c, kp.sk, prim(s), AsymmetricKeyTypes::CipherPrivateKey, s.p);
		require_eq(pk->Polynomial(), kp.pk, "the public key as stored");
		Bytes dom = c.chance(1, 3) ? c.bytes(c.u(1, 80)) : Bytes(); size_t n = dom.empty() ? 32 : c.len(256, { 32, 72 }); k->DomainKey() = dom; c.desc << " domain " << dom.size() << " secret " << n; if (!dom.empty()) { c.tag("domain key"); }
		if (!s.kyber && !dom.empty() && n == 0) { n = 1; } if (n == 0) { n = 1; }
		R.given.clear(); k->Initialize(pk.get()); require(k->IsInitialized() && k->IsEncryption(), nm + ": flags after taking a public key"); Bytes ct(c.u(0, 3)), s1(n, 0x11), s2(n, 0x22); k->Encapsulate(ct, s1); require(ct.size() == s.ct, nm + ": ciphertext of " + std::to_string(ct.size()) + " bytes");
		Bytes wct, wss; if (s.kyber) { require(R.given.size() >= 32, nm + ": the encapsulation took " + std::to_string(R.given.size()) + " random bytes"); M.encaps(kp.pk, ref::sub(R.given, 0, 32), wct, wss); }
		else { Bytes e; size_t used = 0; require(mpk_error(s, R.given, e, used), nm + ": the random bytes taken do not make an error vector"); mpk_encaps(s, kp.pk, e, wct, wss); }
		require_eq(ct, wct, nm + ": ciphertext"); require_eq(s1, domain_secret(wss, dom, kemname(s), n), nm + (dom.empty() ? "" : " with a domain key") + ": secret of the sender");
		Kem other; CEX::Asymmetric::Encrypt::IAsymmetricCipher* d = k.get(); DetPrng R2(1); if (c.flip()) { other = mkkem(c.chance(1, 4) ? kemsets()[s.kyber ? c.u(0, 3) : 4 + c.u(0, 3)] : s, &R2); other->DomainKey() = dom; d = other.get(); }
		R.given.clear(); d->Initialize(sk.get()); require(!d->IsEncryption(), nm + ": flags after taking a private key"); bool ok = d->Decapsulate(ct, s2); require(ok, nm + ": the ciphertext was refused"); require_eq(s2, s1, nm + ": secret of the receiver"); require(R.given.empty() && R2.given.empty(), nm + ": decapsulation used the random source");
		if (!dom.empty()) { Bytes dom2 = dom; dom2[c.u(0, dom.size() - 1)] ^= (uint8_t)c.u(1, 255); d->DomainKey() = dom2; Bytes s3(n); require(d->Decapsulate(ct, s3), nm + ": refused under another domain key"); if (n >= 8) { require(s3 != s1, nm + ": another domain key gives the same secret"); } }
	}
}
PROP(kem, 8000, 400000) { session(c, kemsets()[c.u(0, 3)], 1 + (int)c.u(0, 2)); }
// every byte of a key pair and of a secret depends on the random source of the object, and on nothing else
static void source(pbt::Case& c, const KemSet& s)
{
	c.tag(s.name); c.desc << s.name; c.nontrivial(); std::string nm = s.name; uint64_t seed = pairseed(c, s); Bytes pk[3], sk[3]; size_t used = 0; long fl = -1; const KemPair& kp = kempair(s, seed); pk[0] = kp.pk; sk[0] = kp.sk; used = kp.rnd.size(); require(used >= (s.kyber ? 64u : 32u), nm + ": a key pair from " + std::to_string(used) + " random bytes");
	auto gen = [&](int i) { DetPrng r(seed * 7919 + s.k); r.flip = i == 2 ? fl : -1; Kem k = mkkem(s, &r); std::unique_ptr<AsymmetricKeyPair> p(k->Generate()); pk[i] = p->PublicKey()->Polynomial(); sk[i] = p->PrivateKey()->Polynomial(); };
	if (s.kyber || c.flip()) { gen(1); require(pk[1] == pk[0] && sk[1] == sk[0], nm + ": the same random bytes gave another key pair"); }
	fl = (long)c.u(0, s.kyber ? 63 : 31); c.desc << " byte " << fl << " altered"; gen(2); require(sk[2] != sk[0], nm + ": random byte " + std::to_string(fl) + " does not reach the private key");
	if (!s.kyber || fl < 32) { size_t same = 0, n = pk[0].size(); for (size_t i = 0; i < n; ++i) { same += pk[0][i] == pk[2][i]; } require(same < n / 64, nm + ": " + std::to_string(same) + " of " + std::to_string(n) + " bytes of the public key do not depend on random byte " + std::to_string(fl)); size_t ss = 0, m = s.kyber ? 384 * s.k : 8192; for (size_t i = 64; i < 64 + m - 128; ++i) { ss += sk[0][i] == sk[2][i]; } require(ss < m / 4, nm + ": the private key hardly depends on random byte " + std::to_string(fl)); }
	if (s.kyber) { DetPrng a(seed), b(seed); b.flip = (long)c.u(0, 31); Kem ka = mkkem(s, &a), kb = mkkem(s, &b); AsymmetricKey K(pk[0], prim(s), AsymmetricKeyTypes::CipherPublicKey, s.p); ka->Initialize(&K); kb->Initialize(&K); Bytes ca, cb, sa(32), sb(32); ka->Encapsulate(ca, sa); kb->Encapsulate(cb, sb); require(ca != cb && sa != sb, nm + ": random byte " + std::to_string(b.flip) + " does not reach the secret"); }
	else { DetPrng a(seed), b(seed + 1); Kem ka = mkkem(s, &a), kb = mkkem(s, &b); AsymmetricKey K(pk[0], prim(s), AsymmetricKeyTypes::CipherPublicKey, s.p); ka->Initialize(&K); kb->Initialize(&K); Bytes ca, cb, sa(32), sb(32); ka->Encapsulate(ca, sa); kb->Encapsulate(cb, sb); require(ca != cb && sa != sb, nm + ": two random sources gave the same secret"); }
}
PROP(kyber_source, 800, 40000) { source(c, kemsets()[c.u(0, 3)]); }
// objects that make their own random source, from the type or through the factory
static void own_source(pbt::Case& c, const KemSet& s)
{
	c.tag(s.name); Prngs g = c.pick<Prngs>({ Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::HCR }); Kem k; using namespace CEX::Asymmetric::Encrypt; c.nontrivial();
	if (c.flip()) { c.tag("through the factory"); k.reset(Helper::AsymmetricCipherFromName::GetInstance(s.kyber ? AsymmetricCiphers::Kyber : AsymmetricCiphers::McEliece, s.p)); } else if (s.kyber) { k.reset(new MLWE::Kyber((KyberParameters)s.p, g)); } else { k.reset(new MPKC::McEliece((McElieceParameters)s.p, g)); }
	c.desc << s.name << " prng " << (int)g; require(k->Name() == kemname(s), std::string(s.name) + ": Name() is " + k->Name()); require(k->Enumeral() == prim(s), "Enumeral()");
	std::unique_ptr<AsymmetricKeyPair> a(k->Generate()); k->Initialize(a->PublicKey()); Bytes c1, c2, s1(32), s2(32), s3(32); k->Encapsulate(c1, s1); k->Encapsulate(c2, s2); require(c1 != c2 && s1 != s2, std::string(s.name) + ": two encapsulations gave the same secret");
	k->Initialize(a->PrivateKey()); require(k->Decapsulate(c1, s3) && s3 == s1, std::string(s.name) + ": secret of the receiver"); require(k->Decapsulate(c2, s3) && s3 == s2, std::string(s.name) + ": secret of the receiver, second message");
	if (s.kyber) { std::unique_ptr<AsymmetricKeyPair> b(k->Generate()); require(b->PublicKey()->Polynomial() != a->PublicKey()->Polynomial(), std::string(s.name) + ": two key pairs are the same"); }
}
PROP(kyber_own_source, 200, 10000) { own_source(c, kemsets()[c.u(0, 3)]); }
// one case in the quick tier is one key pair and several messages: a McEliece key pair takes seconds
PROP(mceliece, 14, 600) { const KemSet& s = kemsets()[4 + c.u(0, 3)]; int what = (int)c.u(0, 7); if (SLOWBUILD) { what = 7; } switch (what) { case 0: c.tag("source"); return source(c, s); case 1: c.tag("own source"); return own_source(c, s); default: return session(c, s, 4 + (int)c.u(0, 4)); } }
PROP(ecdh, 10000, 500000)
{
	using CEX::Asymmetric::Encrypt::ECDH::ECDH; DetPrng R(c.u(0, ~0ull)); ECDHParameters p = c.pick<ECDHParameters>({ ECDHParameters::ECDHS1P25519K, ECDHParameters::ECDHS2P25519S }); ECDH a(p, &R), b(p, &R); c.nontrivial(); c.desc << "ECDH " << (int)p; c.tag(p == ECDHParameters::ECDHS1P25519K ? "SHA3" : "SHA2");
	auto ka = std::unique_ptr<AsymmetricKeyPair>(c.flip() ? a.Generate() : nullptr), kb = std::unique_ptr<AsymmetricKeyPair>(b.Generate()); if (!ka) { Bytes seed = c.bytes(32); ka.reset(a.Generate(seed)); auto k2 = std::unique_ptr<AsymmetricKeyPair>(b.Generate(seed)); require(k2->PublicKey()->Polynomial() == ka->PublicKey()->Polynomial() && k2->PrivateKey()->Polynomial() == ka->PrivateKey()->Polynomial(), "ECDH: the same seed gave another key pair"); }
	Bytes dom = c.flip() ? c.bytes(c.u(1, 80)) : Bytes(); size_t n = dom.empty() ? 32 : 1 + c.len(255, { 32, 72 }); a.DomainKey() = dom; b.DomainKey() = dom; Bytes s1(n, 1), s2(n, 2), s3(n, 3); c.desc << " domain " << dom.size() << " secret " << n;
	auto kap = mkakey(c, ka->PublicKey()->Polynomial(), AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, (AsymmetricParameters)p);
	require(a.KeyExchange(kb->PublicKey(), ka->PrivateKey(), s1), "ECDH: the exchange failed"); require(b.KeyExchange(kap.get(), kb->PrivateKey(), s2), "ECDH: the exchange failed"); require_eq(s1, s2, "ECDH: secrets of the two sides");
	auto kc = std::unique_ptr<AsymmetricKeyPair>(b.Generate()); require(a.KeyExchange(kc->PublicKey(), ka->PrivateKey(), s3), "ECDH: the exchange failed"); if (n >= 8) { require(s3 != s1, "ECDH: the secret does not depend on the public key"); }
	Bytes raw(32); a.DomainKey().clear(); require(a.KeyExchange(kb->PublicKey(), ka->PrivateKey(), raw), "ECDH: the exchange failed"); require_eq(s1, domain_secret(raw, dom, a.Name(), n), "ECDH: secret under a domain key");
	if (c.chance(1, 4)) { Bytes bad = c.bytes(c.pick<size_t>({ 0, 1, 31, 33, 64 })); require(throws([&] { a.Generate(bad); }), "ECDH: a seed of " + std::to_string(bad.size()) + " bytes was accepted"); }
}
