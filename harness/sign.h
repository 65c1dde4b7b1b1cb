#pragma once
#include "kem.h"
#include "sigmodel.h"
#include "Dilithium.h"
#include "ECDSA.h"
#include "SphincsPlus.h"
#include "XMSS.h"
#include <openssl/evp.h>
typedef std::unique_ptr<CEX::Asymmetric::Sign::IAsymmetricSigner> Signer;
enum Scheme { DLT, ECD, SPX, XMS };
struct SigSet { Scheme s; int v; AsymmetricParameters p; std::string name; size_t pk, sk, sig; int cost; /* 0 fast, 1 about a tenth of a second, 2 seconds */ };
inline AsymmetricPrimitives prim(const SigSet& s) { return s.s == DLT ? AsymmetricPrimitives::Dilithium : s.s == ECD ? AsymmetricPrimitives::ECDSA : s.s == SPX ? AsymmetricPrimitives::SphincsPlus : AsymmetricPrimitives::XMSS; }
struct XmssShape { int n; bool shake; int h, d; bool mt; };
// the shape of an XMSS parameter set, from its place in the enumeration
inline XmssShape xshape(AsymmetricParameters p) { int i = (int)p - (int)AsymmetricParameters::XMSSSHA2256H10; static const int mh[8][2] = { { 20, 2 }, { 20, 4 }, { 40, 2 }, { 40, 4 }, { 40, 8 }, { 60, 3 }, { 60, 6 }, { 60, 12 } }; static const int sh[3] = { 10, 16, 20 }; int f = i < 12 ? i / 3 : (i - 12) / 8; XmssShape r; r.n = f & 1 ? 64 : 32; r.shake = f >= 2; r.mt = i >= 12; r.h = r.mt ? mh[(i - 12) % 8][0] : sh[i % 3]; r.d = r.mt ? mh[(i - 12) % 8][1] : 1; return r; }
inline ref::Xmss xmodel(AsymmetricParameters p) { XmssShape s = xshape(p); return ref::Xmss(s.n, s.shake, s.h, s.d, s.mt); }
inline const std::vector<SigSet>& sigsets()
{
	static std::vector<SigSet> v; if (v.empty())
	{
		int i = 0; for (auto p : { AsymmetricParameters::DLTMS1P2544, AsymmetricParameters::DLTMS3P4016, AsymmetricParameters::DLTMS5P4880 }) { ref::Dilithium m(i); v.push_back({ DLT, i++, p, "Dilithium-" + std::to_string(i * 2 - (i == 1 ? 0 : 1)), m.PK, m.SK, m.SIG, 0 }); }
		v.push_back({ ECD, 0, AsymmetricParameters::ECDSAS1P25519K, "ECDSA-25519-SHA3", 32, 64, 64, 0 }); v.push_back({ ECD, 1, AsymmetricParameters::ECDSAS2P25519S, "ECDSA-25519-SHA2", 32, 64, 64, 0 });
		i = 0; for (auto p : { AsymmetricParameters::SPXPS1S128SHAKE, AsymmetricParameters::SPXPS3S192SHAKE, AsymmetricParameters::SPXPS5S256SHAKE, AsymmetricParameters::SPXPS6S512SHAKE }) { ref::Sphincs m(i); v.push_back({ SPX, i++, p, "SPHINCS+-" + std::to_string(8 * m.n) + "s", 2u * m.n, 4u * m.n, m.SIG, 2 }); }
		for (int k = (int)AsymmetricParameters::XMSSSHA2256H10; k < (int)AsymmetricParameters::XMSSSHA2256H10 + 44; ++k) { XmssShape s = xshape((AsymmetricParameters)k); if (s.h / s.d > 10) { continue; } ref::Xmss m = xmodel((AsymmetricParameters)k); v.push_back({ XMS, k, (AsymmetricParameters)k, std::string(s.mt ? "XMSSMT-" : "XMSS-") + (s.shake ? "SHAKE" : "SHA2") + "-" + std::to_string(8 * s.n) + "-h" + std::to_string(s.h) + "d" + std::to_string(s.d), 4 + 2u * s.n, 4 + m.idxn + 4 * s.n, m.SIG, s.h / s.d > 5 ? 2 : 1 }); }
	}
	return v;
}
inline std::vector<const SigSet*> sigsets(int scheme, int maxcost) { std::vector<const SigSet*> r; for (auto& s : sigsets()) { if ((scheme < 0 || s.s == scheme) && s.cost <= maxcost) { r.push_back(&s); } } return r; }
inline Signer mksigner(const SigSet& s, CEX::Prng::IPrng* r)
{
	using namespace CEX::Asymmetric::Sign;
	switch (s.s) { case DLT: return Signer(new DLTM::Dilithium((DilithiumParameters)s.p, r)); case ECD: return Signer(new CEX::Asymmetric::Sign::ECDSA::ECDSA((ECDSAParameters)s.p, r)); case SPX: return Signer(new SPXP::SphincsPlus((SphincsPlusParameters)s.p, r)); default: return Signer(new XMSS::XMSS((XmssParameters)s.p, r)); }
}
struct SigPair { Bytes pk, sk, rnd; };
inline const SigPair& sigpair(const SigSet& s, uint64_t seed)
{
	static std::map<std::pair<int, uint64_t>, SigPair> cache; auto key = std::make_pair((int)s.p, seed); auto it = cache.find(key); if (it != cache.end()) { return it->second; }
	DetPrng r(seed * 104729 + (int)s.p); Signer k = mksigner(s, &r); std::unique_ptr<AsymmetricKeyPair> kp(k->Generate()); SigPair p{ kp->PublicKey()->Polynomial(), kp->PrivateKey()->Polynomial(), r.given };
	require(p.pk.size() == s.pk && p.sk.size() == s.sk, s.name + ": sizes of a generated key pair"); require(k->PublicKeySize() == s.pk && k->PrivateKeySize() == s.sk && k->SignatureSize() == s.sig, s.name + ": sizes reported by the signer");
	require(kp->PublicKey()->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey && kp->PrivateKey()->KeyClass() == AsymmetricKeyTypes::SignaturePrivateKey && kp->PublicKey()->Parameters() == s.p && kp->PrivateKey()->Parameters() == s.p, s.name + ": labels of a generated key pair");
	if (cache.size() > 200) { cache.clear(); } return cache[key] = p;
}
inline uint64_t sigseed(pbt::Case& c, const SigSet& s) { return s.cost == 0 ? c.u(0, 1000000) : s.cost == 1 ? c.u(0, 2) : 0; }
inline std::unique_ptr<AsymmetricKey> sigkey(pbt::Case& c, const SigSet& s, const Bytes& b, bool priv) { return mkakey(c, b, prim(s), priv ? AsymmetricKeyTypes::SignaturePrivateKey : AsymmetricKeyTypes::SignaturePublicKey, s.p); }
inline Bytes sigmsg(pbt::Case& c) { size_t n = c.len(600, { 1, 32, 63, 64, 88, 136, 200, 512 }); return c.bytes(n ? n : 1); }
// verification by the model
inline bool model_verify(const SigSet& s, const Bytes& pk, const Bytes& msg, const Bytes& sig)
{
	switch (s.s)
	{
	case DLT: return ref::Dilithium(s.v).verify(pk, msg, sig);
	case SPX: return ref::Sphincs(s.v).verify(pk, msg, sig);
	case XMS: return xmodel(s.p).verify(ref::sub(pk, 4, pk.size() - 4), msg, sig);
	default: { if (s.v == 0) { return true; } EVP_PKEY* k = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pk.data(), 32); EVP_MD_CTX* x = EVP_MD_CTX_new(); bool ok = k && EVP_DigestVerifyInit(x, nullptr, nullptr, nullptr, k) == 1 && EVP_DigestVerify(x, sig.data(), 64, msg.data(), msg.size()) == 1; EVP_MD_CTX_free(x); EVP_PKEY_free(k); return ok; }
	}
}
