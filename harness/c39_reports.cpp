// C39: what an object reports about itself is true
// LIBS: -lcrypto
#include "anyobj.h"
#include "sign.h"
#include "kem.h"
#include "edmodel.h"
#include "ECDH.h"
#include "Dilithium.h"
#include "ECDSA.h"
#include "SphincsPlus.h"
#include "XMSS.h"
#include "Kyber.h"
#include "McEliece.h"
#include "DigestFromName.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "FileStream.h"
#include "StreamWriter.h"
#include "StreamReader.h"
#include "BitConverter.h"
#include "ParallelTools.h"
#include "IntegerTools.h"
#include "UInt128.h"
#include "CpuDetect.h"
#include "ErrorCodes.h"
#include "ExceptionTypes.h"
#include "CryptoAsymmetricException.h"
#include "CryptoAuthenticationFailure.h"
#include "CryptoCipherModeException.h"
#include "CryptoDigestException.h"
#include "CryptoGeneratorException.h"
#include "CryptoKdfException.h"
#include "CryptoMacException.h"
#include "CryptoPaddingException.h"
#include "CryptoProcessingException.h"
#include "CryptoRandomException.h"
#include "CryptoSymmetricException.h"
#include <atomic>
#include <thread>
#include <openssl/evp.h>
#if defined(__AVX2__)
#include "UInt256.h"
#include "ULong256.h"
#endif
using namespace any;
// what does not depend on the history: asked again after every step
static std::string facts(Any& a)
{
	std::string s; auto add = [&](const char* n, const std::string& v) { s += std::string(n) + "=" + v + " "; }; auto num = [&](const char* n, size_t v) { add(n, std::to_string(v)); };
	auto keys = [&](const std::vector<Cipher::SymmetricKeySize>& k) { std::string t; for (auto x : k) { t += fmt("%zu/%zu/%zu,", (size_t)x.KeySize(), (size_t)x.IVSize(), (size_t)x.InfoSize()); } add("keys", t); };
	if (auto o = dynamic_cast<Block*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); num("block", o->o->BlockSize()); keys(o->o->LegalKeySizes()); num("cache", o->o->StateCacheSize()); }
	else if (auto o = dynamic_cast<Mode*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); num("block", o->o->BlockSize()); num("cipher", (size_t)o->o->CipherType()); keys(o->o->LegalKeySizes()); num("engine", (size_t)o->o->Engine()->Enumeral()); num("same engine", o->lent == nullptr || o->o->Engine() == o->lent.get()); }
	else if (auto o = dynamic_cast<AeadAny*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); num("tag", o->o->TagSize()); keys(o->o->LegalKeySizes()); }
	else if (auto o = dynamic_cast<StreamAny*>(&a)) { add("name", o->S.auth ? std::string() : o->S->Name()); num("auth", o->S->IsAuthenticator()); }
	else if (auto o = dynamic_cast<MacAny*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); num("block", o->o->BlockSize()); num("tag", o->o->TagSize()); keys(o->o->LegalKeySizes()); num("minkey", o->o->MinimumKeySize()); num("minsalt", o->o->MinimumSaltSize()); }
	else if (auto o = dynamic_cast<DigestAny*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); num("block", o->o->BlockSize()); num("size", o->o->DigestSize()); }
	else if (auto o = dynamic_cast<KdfAny*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); keys(o->o->LegalKeySizes()); num("minkey", o->o->MinimumKeySize()); num("minsalt", o->o->MinimumSaltSize()); }
	else if (auto o = dynamic_cast<DrbgAny*>(&a)) { num("enum", (size_t)o->o->Enumeral()); add("name", o->o->Name()); keys(o->o->LegalKeySizes()); num("request", o->o->MaxRequestSize()); num("reseed", o->o->MaxReseedCount()); if (o->kind) { num("strength", o->o->SecurityStrength()); } num("cyclic", o->o->CyclicReseed()); }
	return s;
}
// 0 no, 1 yes, -1 the family has no such report
static int ready(Any& a)
{
	if (auto o = dynamic_cast<Block*>(&a)) { return o->o->IsInitialized(); } if (auto o = dynamic_cast<Mode*>(&a)) { return o->o->IsInitialized(); } if (auto o = dynamic_cast<AeadAny*>(&a)) { return o->o->IsInitialized(); } if (auto o = dynamic_cast<StreamAny*>(&a)) { return o->S->IsInitialized(); }
	if (auto o = dynamic_cast<MacAny*>(&a)) { return o->o->IsInitialized(); } if (auto o = dynamic_cast<KdfAny*>(&a)) { return o->o->IsInitialized(); } if (auto o = dynamic_cast<DrbgAny*>(&a)) { return o->o->IsInitialized(); } return -1;
}
static int direction(Any& a)
{
	if (auto o = dynamic_cast<Block*>(&a)) { return o->o->IsEncryption(); } if (auto o = dynamic_cast<Mode*>(&a)) { return o->o->IsEncryption(); } if (auto o = dynamic_cast<AeadAny*>(&a)) { return o->o->IsEncryption(); } if (auto o = dynamic_cast<StreamAny*>(&a)) { return o->S->IsEncryption(); } return -1;
}
template<typename T> static void profile(T& o, const std::string& w, bool never = false)
{
	bool p = o.IsParallel(); size_t b = o.ParallelBlockSize(); require(p == (never ? false : (bool)o.ParallelProfile().IsParallel()), w + fmt(": IsParallel is %d, the profile's %d", p, (int)o.ParallelProfile().IsParallel())); same(b, (size_t)o.ParallelProfile().ParallelBlockSize(), w + ": ParallelBlockSize, against the profile's");
}
static void profiles(Any& a)
{
	if (auto o = dynamic_cast<Mode*>(&a)) { profile(*o->o, a.name, o->k == M_OFB); } else if (auto o = dynamic_cast<AeadAny*>(&a)) { profile(*o->o, a.name); } else if (auto o = dynamic_cast<StreamAny*>(&a)) { profile(*o->S.o, a.name); } else if (auto o = dynamic_cast<DigestAny*>(&a)) { profile(*o->o, a.name); }
}
static bool works(Any& a, const Call& q, const Lay& l, std::string& why) { try { a.run(q, l); return true; } catch (Exception::CryptoException& e) { why = e.Message(); return false; } }
static void history(pbt::Case& c, int f)
{
	c.nontrivial(); vf::W->cores = f == F_DIGEST || c.chance(1, 3) ? c.pick({ 2, 4, 8 }) : 1; Factory F = pick(c, f); std::unique_ptr<Any> a(F()); c.desc << a->name << ": "; c.tag(a->name.substr(0, a->name.find_first_of("-( ")));
	std::string now = facts(*a), last = "construction"; if (ready(*a) == 0) { Any* k = a.get(); (void)k; } else if (ready(*a) == 1) { fail(a->name + ": says it is initialised before any key was given"); } int enc = -1;
	for (size_t n = c.u(1, 6); n; --n)
	{
		int what = enc < 0 ? 0 : (int)c.u(0, 5);
		switch (what)
		{
		case 0: { Par p = a->par(c); a->init(p); enc = p.enc; last = "a key"; require(ready(*a) != 0, a->name + ": says it is not initialised after a legal key"); break; }
		case 1: case 2:
		{
			Call q = a->call(c); Lay l; bool auth = dynamic_cast<AeadAny*>(a.get()) || (dynamic_cast<StreamAny*>(a.get()) && dynamic_cast<StreamAny*>(a.get())->S.auth), forged = auth && !enc && c.chance(1, 3); l.flip = forged; std::string why; int r = ready(*a); bool ok = works(*a, q, l, why);
			if (forged) { require(!ok, a->name + ": a forgery was accepted"); last = "a forgery"; Par p = a->par(c); a->init(p); enc = p.enc; } else { if (r == 1) { require(ok, a->name + " after " + last + ": says it is initialised, and refuses a legal call: " + why); } else if (r == 0) { require(!ok, a->name + " after " + last + ": says it is not initialised, and accepts a call"); } last = ok ? "a call" : "a refused call"; }
			break;
		}
		case 3: a->reset(); last = "a reset"; break;
		case 4: { if (dynamic_cast<AeadAny*>(a.get()) || dynamic_cast<StreamAny*>(a.get())) { break; } Call q = a->call(c); if (ready(*a) == 0) { break; } try { a->partial(q); last = "a message begun"; } catch (Exception::CryptoException& e) { if (ready(*a) == 1) { fail(a->name + " after " + last + ": says it is initialised, and refuses to begin a message: " + e.Message()); } } break; }
		default: // the profile is changed
		{
			if (auto o = dynamic_cast<Mode*>(a.get())) { if (o->k != M_OFB) { ParCfg::draw(c).apply(*o->o); } } else if (auto o = dynamic_cast<AeadAny*>(a.get())) { ParCfg::draw(c).apply(*o->o); } else if (auto o = dynamic_cast<StreamAny*>(a.get())) { if (!o->S.auth) { ParCfg::draw(c).apply(*o->S.o); } } last = "a profile"; break;
		}
		}
		c.desc << last << ", "; require(facts(*a) == now, a->name + " after " + last + ": reports " + facts(*a) + "and before: " + now); profiles(*a); int d = direction(*a); if (d >= 0 && ready(*a) == 1) { same(d, enc, a->name + " after " + last + ": IsEncryption"); }
	}
}
PROP(blocks, 700, 20000) { history(c, F_BLOCK); }
PROP(modes, 900, 30000) { history(c, F_MODE); }
PROP(aeads, 700, 20000) { history(c, F_AEAD); }
PROP(streams, 700, 20000) { history(c, F_STREAM); }
PROP(macs, 900, 30000) { history(c, F_MAC); }
PROP(digests, 600, 20000)
{
	history(c, F_DIGEST); DG d = c.pick(ALL_DIGESTS); using Helper::DigestFromName; std::string w = dg_name(d); same((size_t)DigestFromName::GetBlockSize(d), dg_block(d), w + ": GetBlockSize"); same((size_t)DigestFromName::GetDigestSize(d), dg_size(d), w + ": GetDigestSize"); std::unique_ptr<Digest::IDigest> o(DigestFromName::GetInstance(d)); same((size_t)o->BlockSize(), dg_block(d), w + ": BlockSize"); same((size_t)o->DigestSize(), dg_size(d), w + ": DigestSize"); Bytes t(200, 0x77); o->Finalize(t, 3); for (size_t i = 3 + dg_size(d); i < t.size(); ++i) { require(t[i] == 0x77, w + ": the code is longer than DigestSize"); }
}
PROP(kdfs, 500, 15000) { history(c, F_KDF); }
PROP(drbgs, 500, 15000)
{
	history(c, F_DRBG); int k = (int)c.u(0, 5); DrbgAny a(k, false); static const size_t bits[] = { 256, 128, 256, 512, 128, 256 }; if (k) { same((size_t)a.o->SecurityStrength(), bits[k], a.name + ": SecurityStrength, in bits"); } else { Par p = a.par(c); a.init(p); same((size_t)a.o->SecurityStrength(), p.key.size() * 8, a.name + ": SecurityStrength, in bits"); }
}
// every combination of sizes an object lists as legal is one it takes and works with
PROP(sizes, 2500, 60000)
{
	c.nontrivial(); vf::W->cores = 1; Factory F = pick(c, c.pick<int>({ F_BLOCK, F_MODE, F_AEAD, F_STREAM, F_MAC, F_KDF, F_DRBG })); std::unique_ptr<Any> a(F()); std::vector<Cipher::SymmetricKeySize> ks; bool decr = false;
	if (auto o = dynamic_cast<Block*>(a.get())) { ks = o->o->LegalKeySizes(); decr = true; } else if (auto o = dynamic_cast<Mode*>(a.get())) { ks = o->o->LegalKeySizes(); decr = true; } else if (auto o = dynamic_cast<AeadAny*>(a.get())) { ks = o->o->LegalKeySizes(); decr = true; } else if (auto o = dynamic_cast<StreamAny*>(a.get())) { ks = o->S->LegalKeySizes(); decr = true; }
	else if (auto o = dynamic_cast<MacAny*>(a.get())) { ks = o->o->LegalKeySizes(); } else if (auto o = dynamic_cast<KdfAny*>(a.get())) { ks = o->o->LegalKeySizes(); } else if (auto o = dynamic_cast<DrbgAny*>(a.get())) { ks = o->o->LegalKeySizes(); }
	require(!ks.empty(), a->name + ": lists no legal key size"); size_t i = c.u(0, ks.size() - 1); Par p; p.key = c.bytes(ks[i].KeySize()); p.iv = c.bytes(ks[i].IVSize()); p.enc = decr ? c.flip() : true; bool info = c.flip(); if (info) { p.info = c.bytes(ks[i].InfoSize()); } if (p.iv.size()) { p.iv[0] |= 1; }
	// a block mode takes its vector from its own width, whatever the cipher alone lists
	if (auto o = dynamic_cast<Mode*>(a.get())) { if (o->k != M_ECB && p.iv.empty()) { p.iv = c.bytes(16); } }
	std::string w = a->name + fmt(": legal size %zu: key %zu nonce %zu info %zu", i, p.key.size(), p.iv.size(), p.info.size()); c.desc << w; c.tag(a->name.substr(0, a->name.find_first_of("-( ")));
	try { a->init(p); } catch (Exception::CryptoException& e) { fail(w + " is refused: " + e.Message()); } Call q = a->call(c); if (dynamic_cast<DrbgAny*>(a.get()) && q.how == 4) { return; } std::string why; require(works(*a, q, Lay(), why), w + ": a call is refused: " + why);
}
PROP(specific, 1500, 40000)
{
	using namespace Cipher::Block::Mode; c.nontrivial(); vf::W->cores = 1;
	switch (c.u(0, 7))
	{
	case 0: { BC b = c.pick(ALL_BC); CTR m(b); m.ParallelProfile().IsParallel() = false; Bytes k = c.bytes(bc_key(c, b)), iv = c.bytes(16); c.desc << "CTR nonce"; Cipher::SymmetricKey sk(k, iv); m.Initialize(c.flip(), sk); require_eq(Bytes(m.Nonce()), iv, "CTR: Nonce after a key"); size_t n = c.u(0, 40); Bytes in = c.bytes(n * 16 + 1), out(in.size()); if (n) { m.Transform(in, 0, out, 0, n * 16); Bytes e = iv; for (size_t i = 0; i < n; ++i) { for (int j = 15; j >= 0 && ++e[j] == 0; --j) {} } require_eq(Bytes(m.Nonce()), e, fmt("CTR: Nonce after %zu blocks", n)); } break; }
	case 1: { BC b = c.pick(ALL_BC); c.desc << "cipher of a mac"; if (c.flip()) { Mac::CMAC m(b); same((int)m.CipherType(), (int)b, "CMAC: CipherType"); } else { Mac::GMAC m(b); same((int)m.CipherType(), (int)b, "GMAC: CipherType"); } break; }
	case 2: { KmacModes k = c.pick({ KmacModes::KMAC128, KmacModes::KMAC256, KmacModes::KMAC512 }); Mac::KMAC m(k); c.desc << "KMAC"; same((int)m.KmacMode(), (int)k, "KMAC: KmacMode"); KpaModes a = c.pick({ KpaModes::KPA128, KpaModes::KPA256, KpaModes::KPA512 }); Mac::KPA p(a); same((int)p.KbaMode(), (int)a, "KPA: KbaMode");
		// a distribution code of the largest size is one that is taken
		Bytes key = c.bytes(m.MinimumKeySize() + 64), salt = c.bytes(m.DistributionCodeMax()), t(m.TagSize()); Cipher::SymmetricKey sk(key, salt); m.Initialize(sk); Bytes in = c.bytes(c.u(1, 100)); m.Compute(in, t); Bytes key2 = c.bytes(p.MinimumKeySize() + 64), salt2 = c.bytes(p.DistributionCodeMax()), t2(p.TagSize()); Cipher::SymmetricKey sk2(key2, salt2); p.Initialize(sk2); p.Compute(in, t2); break; }
	case 3: { size_t cost = c.u(1, 4), par = c.u(1, 2); Kdf::SCBKDF s(ShakeModes::SHAKE256, cost, par); c.desc << fmt("SCBKDF cost %zu", cost); same((size_t)s.CpuCost(), cost, "SCBKDF: CpuCost"); size_t other = c.u(1, 4); s.CpuCost() = other; Kdf::SCBKDF d(ShakeModes::SHAKE256, other, par); Bytes k = c.bytes(64), x(40), y(40); Cipher::SymmetricKey sk(k); s.Initialize(sk); d.Initialize(sk); s.Generate(x); d.Generate(y); require_eq(x, y, fmt("SCBKDF: CpuCost set from %zu to %zu", cost, other)); break; }
	case 4: // the information of an HKDF is what Info holds
	{
		bool v = c.flip(); SHA2Digests sd = v ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256; Kdf::HKDF a(sd), b(sd); Bytes k = c.bytes(c.u(16, 90)), s = c.bytes(c.u(4, 40)), i = c.bytes(c.u(4, 40)); c.desc << "HKDF info"; Cipher::SymmetricKey ka(k, s, i), kb(k, s); a.Initialize(ka); require_eq(Bytes(a.Info()), i, "HKDF: Info after a key"); b.Initialize(kb); require(b.Info().empty(), "HKDF: Info without one"); b.Info() = i; Bytes x(c.u(1, 200)), y(x.size()); a.Generate(x); b.Generate(y); require_eq(x, y, "HKDF: generated with Info assigned"); break;
	}
	case 5: // extraction, RFC 5869
	{
		bool v = c.flip(), sv = c.flip(); size_t h = v ? 64 : 32; Kdf::HKDF a(v ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256); Bytes k = c.bytes(c.u(0, 150)), s = c.bytes(c.u(0, 150)), x(h); c.desc << fmt("extract %zu of %zu", k.size(), s.size()); c.tag(sv ? "secure" : "standard"); if (k.empty()) { k = c.bytes(1); }
		if (sv) { SBytes t(h); a.Extract(sec(k), sec(s), t); x = unsec(t); } else { a.Extract(k, s, x); } Bytes e(h); unsigned n = 0; Bytes z = s.empty() ? Bytes(h) : s; HMAC(v ? EVP_sha512() : EVP_sha256(), z.data(), (int)z.size(), k.data(), k.size(), e.data(), &n); require_eq(x, e, fmt("HKDF: Extract of %zu bytes with a salt of %zu", k.size(), s.size())); break;
	}
	case 6: { Drbg::CSG g(ShakeModes::SHAKE256, Providers::None, false); c.desc << "lanes"; bool two = CEX::CpuDetect().AVX2(); same((size_t)g.LaneCount(), (size_t)(two ? 4 : 1), "CSG: LaneCount"); same((bool)g.HasMultiLane(), two, "CSG: HasMultiLane"); break; }
	default:
	{
		Cipher::SymmetricKeySize z; c.desc << "key size"; require(z.KeySize() == 0 && z.IVSize() == 0 && z.InfoSize() == 0, "SymmetricKeySize: the empty one"); size_t a = c.u(0, 1 << 20), b = c.u(0, 1 << 20), d = c.u(0, 1 << 20); Cipher::SymmetricKeySize s(a, b, d); require(s.KeySize() == a && s.IVSize() == b && s.InfoSize() == d, "SymmetricKeySize: sizes"); break;
	}
	}
}
// the schemes: sizes, parameters, and what a key pair is
PROP(asym, 150, 6000)
{
	using namespace Asymmetric; c.nontrivial();
	switch (c.u(0, 3))
	{
	case 0: // Ed25519 of a chosen seed
	{
		bool k = c.flip(); ECDSAParameters p = k ? ECDSAParameters::ECDSAS1P25519K : ECDSAParameters::ECDSAS2P25519S; DetPrng r(c.u(1, 1u << 30)); Sign::ECDSA::ECDSA g(p, &r); Bytes seed = c.bytes(32), keep = seed; c.desc << "seeded pair"; c.tag("seed"); std::unique_ptr<AsymmetricKeyPair> q(g.Generate(seed)); require(seed == keep, "ECDSA: Generate changed the seed"); Bytes pk = q->PublicKey()->Polynomial(), sk = q->PrivateKey()->Polynomial();
		same(pk.size(), (size_t)g.PublicKeySize(), "ECDSA: public key"); same(sk.size(), (size_t)g.PrivateKeySize(), "ECDSA: private key"); require(Bytes(sk.begin(), sk.begin() + 32) == seed, "ECDSA: the private key of a seed does not begin with it"); require(Bytes(sk.begin() + 32, sk.end()) == pk, "ECDSA: the private key does not end with the public one");
		if (!k) { EVP_PKEY* e = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32); Bytes t(32); size_t n = 32; EVP_PKEY_get_raw_public_key(e, t.data(), &n); EVP_PKEY_free(e); require_eq(pk, t, "ECDSA: public key of a seed"); }
		Bytes bad = c.bytes(c.pick<size_t>({ 0, 31, 33, 64 })); bool threw = false; try { std::unique_ptr<AsymmetricKeyPair> z(g.Generate(bad)); } catch (Exception::CryptoException&) { threw = true; } require(threw, fmt("ECDSA: a seed of %zu bytes is taken", bad.size())); same((int)g.Enumeral(), (int)AsymmetricPrimitives::ECDSA, "ECDSA: Enumeral"); break;
	}
	case 1: // ECDH
	{
		ECDHParameters p = c.flip() ? ECDHParameters::ECDHS1P25519K : ECDHParameters::ECDHS2P25519S; bool own = c.flip(); DetPrng r(c.u(1, 1u << 30)); using Encrypt::ECDH::ECDH; std::unique_ptr<ECDH> g(own ? new ECDH(p, Prngs::BCR) : new ECDH(p, &r)); c.desc << "ECDH"; c.tag("ecdh"); same((int)g->Parameters(), (int)p, "ECDH: Parameters"); std::unique_ptr<AsymmetricKeyPair> a(g->Generate()), b(g->Generate());
		same(a->PublicKey()->Polynomial().size(), (size_t)g->PublicKeySize(), "ECDH: PublicKeySize"); same(a->PrivateKey()->Polynomial().size(), (size_t)g->PrivateKeySize(), "ECDH: PrivateKeySize"); require(a->PublicKey()->Polynomial() != b->PublicKey()->Polynomial(), "ECDH: two pairs alike"); Bytes x(g->SharedSecretSize()), y(g->SharedSecretSize()); require(g->KeyExchange(b->PublicKey(), a->PrivateKey(), x) && g->KeyExchange(a->PublicKey(), b->PrivateKey(), y), "ECDH: exchange"); require_eq(x, y, "ECDH: the two secrets"); same((int)a->PublicKey()->Parameters(), (int)p, "ECDH: the parameters of the key"); break;
	}
	case 2: // encapsulation
	{
		auto& sets = kemsets(); const KemSet* s; do { s = &sets[c.u(0, sets.size() - 1)]; } while (!s->kyber && c.chance(3, 4)); DetPrng r(c.u(1, 1u << 30)); Kem k = mkkem(*s, &r); c.desc << s->name; c.tag("kem"); std::string w = s->name; same((size_t)k->PublicKeySize(), s->pk, w + ": PublicKeySize"); same((size_t)k->PrivateKeySize(), s->sk, w + ": PrivateKeySize"); same((size_t)k->CipherTextSize(), s->ct, w + ": CipherTextSize"); same((int)k->Enumeral(), (int)prim(*s), w + ": Enumeral");
		if (s->kyber) { same((int)dynamic_cast<Encrypt::MLWE::Kyber&>(*k).Parameters(), (int)s->p, w + ": Parameters"); } else { same((int)dynamic_cast<Encrypt::MPKC::McEliece&>(*k).Parameters(), (int)s->p, w + ": Parameters"); }
		require(!k->IsInitialized(), w + ": initialised without a key"); const KemPair& kp = kempair(*s, pairseed(c, *s)); bool priv = c.flip(); auto key = mkakey(c, priv ? kp.sk : kp.pk, prim(*s), priv ? AsymmetricKeyTypes::CipherPrivateKey : AsymmetricKeyTypes::CipherPublicKey, s->p); k->Initialize(key.get()); require(k->IsInitialized() && k->IsEncryption() == !priv, w + ": flags"); Bytes ct, ss(k->SharedSecretSize());
		if (!priv) { k->Encapsulate(ct, ss); same(ct.size(), s->ct, w + ": size of the cipher text"); } break;
	}
	default:
	{
		auto sets = sigsets(-1, 0); const SigSet* s = sets[c.u(0, sets.size() - 1)]; DetPrng r(c.u(1, 1u << 30)); Signer g = mksigner(*s, &r); std::string w = s->name; c.desc << w; c.tag("signer"); same((size_t)g->PublicKeySize(), s->pk, w + ": PublicKeySize"); same((size_t)g->PrivateKeySize(), s->sk, w + ": PrivateKeySize"); same((size_t)g->SignatureSize(), s->sig, w + ": SignatureSize"); same((int)g->Enumeral(), (int)prim(*s), w + ": Enumeral"); require(!g->IsInitialized(), w + ": initialised without a key");
		const SigPair& kp = sigpair(*s, sigseed(c, *s)); bool priv = c.flip(); auto key = sigkey(c, *s, priv ? kp.sk : kp.pk, priv); g->Initialize(key.get()); require(g->IsInitialized() && g->IsSigner() == priv, w + ": flags"); Bytes m = sigmsg(c), sg; bool threw = false; try { if (priv) { Bytes z(s->sig); g->Verify(z, m); } else { g->Sign(m, sg); } } catch (Exception::CryptoException&) { threw = true; } require(threw, w + fmt(": IsSigner is %d, and the other direction is taken", priv));
		if (priv) { size_t n = g->Sign(m, sg); same(n, sg.size(), w + ": size returned"); require(n == s->sig + m.size() || n == s->sig, w + fmt(": a signature of %zu bytes, SignatureSize %zu", n, s->sig)); } break;
	}
	}
}
template<typename E> static void thrown(pbt::Case& c, ExceptionTypes t, const char* name)
{
	std::string l, o, m; for (std::string* s : { &l, &o, &m }) { Bytes b = c.bytes(c.u(0, 40)); *s = std::string(b.begin(), b.end()); } ErrorCodes e = (ErrorCodes)c.u(0, 30); std::string w = name; c.desc << w; bool caught = false;
	try { throw E(l, o, m, e); } catch (E& x) { caught = true; require(x.Location() == l && x.Origin() == o && x.Message() == m && x.ErrorCode() == e, w + ": does not hold what it was thrown with"); same((int)x.Enumeral(), (int)t, w + ": Enumeral"); require(x.Name() == ExceptionTypeConvert::ToName(x.Enumeral()), w + ": named '" + x.Name() + "'"); require(x.Name() == w, w + ": named '" + x.Name() + "'"); }
	require(caught, w); caught = false; try { throw E(l, o, m, e); } catch (Exception::CryptoException& x) { caught = true; require(x.Location() == l && x.Origin() == o && x.Message() == m && x.ErrorCode() == e, w + ": caught as its base, does not hold what it was thrown with"); } require(caught, w + ": not caught as CryptoException"); caught = false; try { throw E(l, o, m, e); } catch (std::exception&) { caught = true; } require(caught, w + ": not caught as std::exception");
}
PROP(exceptions, 6000, 100000)
{
	using namespace Exception; c.nontrivial();
	switch (c.u(0, 13))
	{
#define X(N, T) case N: thrown<T>(c, ExceptionTypes::T, #T); break;
	X(0, CryptoAsymmetricException) X(1, CryptoAuthenticationFailure) X(2, CryptoCipherModeException) X(3, CryptoDigestException) X(4, CryptoException) X(5, CryptoKdfException) X(6, CryptoMacException) X(7, CryptoPaddingException) X(8, CryptoProcessingException) X(9, CryptoRandomException) X(10, CryptoSymmetricException) X(11, CryptoGeneratorException)
#undef X
	case 12: { int a = (int)c.u(0, 30), b = (int)c.u(0, 30); c.desc << fmt("descriptions of %d and %d", a, b); std::string x = ErrorCodeConvert::Description((ErrorCodes)a), y = ErrorCodeConvert::Description((ErrorCodes)b); require(!x.empty(), fmt("error code %d has no description", a), "description"); if (a != b && x.size()) { require(x != y, fmt("error codes %d and %d have one description: ", a, b) + x, "description"); } break; }
	default: // what an object refuses names the object
	{
		Factory F = pick(c, c.pick<int>({ F_MODE, F_AEAD, F_STREAM, F_MAC, F_KDF, F_DRBG })); std::unique_ptr<Any> a(F()); Par p = a->par(c); p.key.resize(c.u(0, 3)); p.key.resize(c.u(1, 3)); c.desc << a->name << " short key"; ErrorCodes e = ErrorCodes::None; std::string m; try { a->init(p); return; } catch (CryptoException& x) { e = x.ErrorCode(); m = x.Message(); require(x.Location().size() && x.Origin().size(), a->name + ": an exception without a place"); } require(e != ErrorCodes::None && e != ErrorCodes::Success, a->name + ": a short key is refused with no error code"); require(!m.empty(), a->name + ": a short key is refused with no message"); break;
	}
	}
}
// byte streams and the wrappers around engines
PROP(containers, 2500, 50000)
{
	c.nontrivial(); Bytes b = c.bytes(c.u(0, 300));
	switch (c.u(0, 4))
	{
	case 0: { bool s = c.flip(); c.desc << (s ? "SecureStream" : "MemoryStream"); if (s) { IO::SecureStream m(b, 0); same((int)m.Enumeral(), (int)IO::StreamModes::SecureStream, "SecureStream: Enumeral"); require(m.Name() == "SecureStream" && m.CanRead() && m.CanWrite() && m.CanSeek(), "SecureStream: reports"); same((size_t)m.Length(), b.size(), "SecureStream: Length"); } else { IO::MemoryStream m(b); same((int)m.Enumeral(), (int)IO::StreamModes::MemoryStream, "MemoryStream: Enumeral"); require(m.Name() == "MemoryStream" && m.CanRead() && m.CanWrite() && m.CanSeek(), "MemoryStream: reports"); same((size_t)m.Length(), b.size(), "MemoryStream: Length"); same((size_t)m.Position(), (size_t)0, "MemoryStream: Position"); } break; }
	case 1: // writers: over a length, over bytes, over a stream
	{
		int how = (int)c.u(0, 2); IO::MemoryStream ms(b); std::unique_ptr<IO::StreamWriter> w(how == 0 ? new IO::StreamWriter(b.size()) : how == 1 ? new IO::StreamWriter(b) : new IO::StreamWriter(ms)); c.desc << fmt("StreamWriter %d of %zu", how, b.size()); same((size_t)w->Length(), b.size(), "StreamWriter: Length"); same((size_t)w->Position(), (size_t)0, "StreamWriter: Position"); require_eq(Bytes(w->Generate()), how == 0 ? Bytes(b.size()) : b, "StreamWriter: content at first");
		Bytes x = c.bytes(c.u(0, 60)), e = how == 0 ? Bytes(b.size()) : b; w->Write<Bytes>(x, 0, x.size()); if (e.size() < x.size()) { e.resize(x.size()); } std::copy(x.begin(), x.end(), e.begin()); same((size_t)w->Position(), x.size(), "StreamWriter: Position after a write"); Bytes g = w->Generate(); g.resize(e.size()); require_eq(g, e, "StreamWriter: content after a write"); std::unique_ptr<IO::MemoryStream> m(w->GetStream()); require_eq(Bytes(m->ToArray()), x, "StreamWriter: the stream of what was written"); break;
	}
	case 2: { DG d = c.pick(ALL_DIGESTS); vf::W->cores = 4; bool p = c.flip(); std::unique_ptr<Digest::IDigest> o(Helper::DigestFromName::GetInstance(d, p)); Processing::DigestStream s(o.get()); c.desc << "DigestStream"; same((bool)s.IsParallel(), (bool)o->IsParallel(), "DigestStream: IsParallel"); same((size_t)s.ParallelBlockSize(), (size_t)o->ParallelBlockSize(), "DigestStream: ParallelBlockSize"); require(&s.ParallelProfile() == &o->ParallelProfile(), "DigestStream: another profile"); break; }
	case 3: { BC bc = c.pick(ALL_BC); vf::W->cores = c.pick({ 1, 4 }); Cipher::Block::Mode::CTR m(bc); Processing::CipherStream s(&m); c.desc << "CipherStream"; require(s.Name() == m.Name(), "CipherStream: Name"); same((size_t)s.ParallelBlockSize(), (size_t)m.ParallelBlockSize(), "CipherStream: ParallelBlockSize"); require(&s.ParallelProfile() == &m.ParallelProfile(), "CipherStream: another profile"); break; }
	default: // secure vectors compare as their contents do
	{
		Bytes d = c.flip() ? b : c.bytes(b.size()); if (d.size() && c.flip()) { d[c.u(0, d.size() - 1)] ^= 1; } SBytes x = sec(b), y = sec(d); c.desc << "comparison"; require((x == y) == (b == d) && (x != y) == (b != d) && x == x, "SecureVector: comparison"); SBytes z = x; require(z == x, "SecureVector: a copy"); SBytes v(std::move(z)); require(v == x && v.get_allocator() == x.get_allocator() && !(v.get_allocator() != x.get_allocator()), "SecureVector: moved"); break;
	}
	}
}
template<typename V, typename T> static void lanes(pbt::Case& c, const char* name, size_t n)
{
	std::vector<T> a(n), b(n); for (auto& x : a) { x = c.flip() ? (T)c.u(0, 3) : (T)(c.u(0, 0xFFFFFFFFull) * 0x9E3779B97F4A7C15ull); } for (size_t i = 0; i < n; ++i) { b[i] = c.flip() ? a[i] : (T)(c.u(0, 0xFFFFFFFFull) * 0xD1B54A32D192ED03ull); } V x(a, 0), y(b, 0); std::string w = name; std::vector<T> r(n);
	auto chk = [&](V v, const char* op, const std::function<T(T, T)>& f) { v.Store(r, 0); for (size_t i = 0; i < n; ++i) { require(r[i] == f(a[i], b[i]), w + " " + op + fmt(": lane %zu", i)); } };
	chk(x || y, "||", [](T p, T q) { return (T)(p | q); }); chk(x && y, "&&", [](T p, T q) { return (T)(p & q); }); chk(x | y, "|", [](T p, T q) { return (T)(p | q); }); chk(x & y, "&", [](T p, T q) { return (T)(p & q); });
}
PROP(utilities, 4000, 80000)
{
	c.nontrivial(); using namespace Tools;
	switch (c.u(0, 5))
	{
	case 0: { Bytes b = c.bytes(c.u(4, 40)); size_t o = c.u(0, b.size() - 4); float f, g = IO::BitConverter::ToFloat(b, o); memcpy(&f, &b[o], 4); c.desc << "float"; require(memcmp(&f, &g, 4) == 0, "BitConverter: ToFloat"); break; }
	case 1: { c.desc << "task"; std::thread::id me = std::this_thread::get_id(), who = me; int ran = 0; ParallelTools::ParallelTask([&] { ++ran; who = std::this_thread::get_id(); }); same(ran, 1, "ParallelTask: runs"); int v = 0; ParallelTools::Vectorize([&] { ++v; }); same(v, 1, "Vectorize: runs"); size_t from = c.u(0, 5), to = from + c.u(0, 8); std::vector<std::atomic<int>> hit(16); for (auto& h : hit) { h = 0; } ParallelTools::ParallelFor(from, to, [&](size_t i) { ++hit[i]; }); for (size_t i = 0; i < 16; ++i) { same((int)hit[i], (int)(i >= from && i < to), fmt("ParallelFor(%zu, %zu): runs of %zu", from, to, i)); } break; }
	case 2: { int one = 1; bool le = *(char*)&one == 1; c.desc << "order"; same((bool)IntegerTools::IsLittleEndian(), le, "IsLittleEndian"); same((bool)IntegerTools::IsBigEndian(), !le, "IsBigEndian"); break; }
	case 3: c.desc << "UInt128"; lanes<Numeric::UInt128, uint32_t>(c, "UInt128", 4); same((size_t)Numeric::UInt128::size(), sizeof(Numeric::UInt128), "UInt128: size"); break;
#if defined(__AVX2__)
	case 4: c.desc << "UInt256"; lanes<Numeric::UInt256, uint32_t>(c, "UInt256", 8); same((size_t)Numeric::UInt256::size(), sizeof(Numeric::UInt256), "UInt256: size"); break;
	case 5: c.desc << "ULong256"; lanes<Numeric::ULong256, uint64_t>(c, "ULong256", 4); same((size_t)Numeric::ULong256::size(), sizeof(Numeric::ULong256), "ULong256: size"); break;
#endif
	}
}
