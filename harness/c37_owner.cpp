// C37: an object gives back everything it obtained, once, and leaves alone what it was lent
// LIBS: -lcrypto
#include "memwatch.h"
#include "anyobj.h"
#include "sign.h"
#include "kem.h"
#include "ECDH.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "CipherModeFromName.h"
#include "PaddingFromName.h"
#include "DigestFromName.h"
#include "MacFromName.h"
#include "KdfFromName.h"
#include "DrbgFromName.h"
#include "ProviderFromName.h"
#include "PrngFromName.h"
#include "AeadModeFromName.h"
#include "StreamCipherFromName.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include "AsymmetricSecureKey.h"
#include "SecureRandom.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "SHA2Params.h"
#include "KeccakParams.h"
#include "BlakeParams.h"
#include "SkeinParams.h"
using namespace any;
// f is one whole life; it must leave as many blocks as it found (what is set up once is set up by the first two rounds)
static void balanced(pbt::Case& c, const std::string& name, const std::function<void()>& f)
{
	f(); f(); c.nontrivial();
	{ int h = vf::g_handles.load(); f(); require(vf::g_handles.load() == h, name + fmt(": %d handle(s) of the operating system are not given back", vf::g_handles.load() - h), name + "-handle"); }
#if MEMWATCH
	long least = 1 << 30; for (int i = 0; i < 4 && least > 0; ++i) { long a = mw::g_alive.load(); f(); long d = mw::g_alive.load() - a; least = std::min(least, d); }
	require(least <= 0, name + fmt(": %ld block(s) are not given back", least), name);
#endif
}
template<typename F> static void quietly(F f) { try { f(); } catch (std::exception&) {} }
static void object(pbt::Case& c, int f)
{
	Factory F = pick(c, f); std::string name; struct Step { int what; Par p; Call q; }; std::vector<Step> h; vf::W->cores = f == F_DIGEST || c.chance(1, 4) ? 8 : 1;
	{
		std::unique_ptr<Any> a(F()); name = a->name; bool keyed = false;
		for (size_t n = c.u(0, 6); n; --n)
		{
			Step s; s.what = keyed ? (int)c.u(0, 5) : (int)c.pick<int>({ 0, 0, 0, 5 });
			switch (s.what) { case 0: s.p = a->par(c); quietly([&] { a->init(s.p); keyed = true; }); break; case 1: case 2: s.q = a->call(c); a->behave(s.q, Lay()); if (a->once()) { keyed = false; } break; case 3: s.q = a->call(c); a->behave(s.q, Lay()); s.what = 1; if (a->once()) { keyed = false; } break; case 4: a->reset(); keyed = false; break; default: s.p = a->par(c); s.p.key.resize(s.p.key.size() ? c.u(0, s.p.key.size() - 1) : 0); try { a->init(s.p); keyed = true; } catch (std::exception&) { keyed = false; } }
			static const char* N[] = { "key ", "call ", "call ", "call ", "reset ", "short key " }; c.desc << N[s.what]; h.push_back(s);
		}
	}
	c.desc << name; c.tag(name.substr(0, name.find_first_of("-( "))); bool part = c.flip();
	balanced(c, name, [&] { std::unique_ptr<Any> a(F()); for (auto& s : h) { quietly([&] { switch (s.what) { case 0: case 5: a->init(s.p); break; case 4: a->reset(); break; default: a->behave(s.q, Lay()); if (part) { a->partial(s.q); } } }); } });
}
PROP(modes, 900, 40000) { object(c, F_MODE); }
PROP(blocks, 600, 20000) { object(c, F_BLOCK); }
PROP(aeads, 900, 40000) { object(c, F_AEAD); }
PROP(streams, 900, 40000) { object(c, F_STREAM); }
PROP(macs, 900, 40000) { object(c, F_MAC); }
PROP(digests, 900, 40000) { object(c, F_DIGEST); }
PROP(kdfs, 900, 40000) { object(c, F_KDF); }
PROP(drbgs, 700, 30000) { object(c, F_DRBG); }
// a lent component: its owner can go on using it, and destroys it
static Bytes use(IBC& b, const Bytes& key) { Cipher::SymmetricKey k(key); b.Initialize(true, k); Bytes o(16); b.EncryptBlock(Bytes(16, 7), o); return o; }
static Bytes use(Digest::IDigest& d, const Bytes& m) { d.Reset(); Bytes o(d.DigestSize()); d.Compute(m, o); return o; }
PROP(lent, 3000, 100000)
{
	using namespace Cipher::Block::Mode; vf::W->cores = c.chance(1, 4) ? 8 : 1; BC bc = c.pick(ALL_BC); int k = (int)c.u(0, 17); bool twice = c.flip(), work = c.chance(3, 4); Bytes key = c.bytes(k == 6 || k == 7 ? 32 : bc_key(c, bc)), iv = c.bytes(16), msg = c.bytes(c.u(1, 300)), mkey = c.bytes(c.u(32, 80)); iv[0] |= 1; DG dg = c.pick(ALL_DIGESTS); SHA2Digests sd = c.flip() ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512; Macs mk = c.pick({ Macs::HMACSHA2256, Macs::KMAC256, Macs::KMAC512, Macs::Poly1305 });
	static const char* N[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM", "GCM", "HBA", "CMAC", "GMAC", "HMAC", "HKDF", "KDF2", "PBKDF2", "DigestStream", "MacStream", "CipherStream", "HCG" }; std::string name = std::string(N[k]) + (k < 10 ? " over " + bc_name(bc) : ""); c.desc << name << (twice ? " twice" : "") << (work ? "" : " unused"); c.tag(N[k]);
	std::vector<StreamAuthenticators> au = { StreamAuthenticators::HMACSHA2256, StreamAuthenticators::KMAC256, StreamAuthenticators::Poly1305 }; StreamAuthenticators sa = au[c.u(0, 2)]; Cipher::SymmetricKey full(key, k == 0 ? Bytes() : iv);
	auto over = [&](auto make, auto run) { std::unique_ptr<IBC> e(Helper::BlockCipherFromName::GetInstance(bc)); Bytes want = use(*e, key); for (int i = 0; i <= (int)twice; ++i) { auto o = make(e.get()); if (work) { run(*o); } } require(e->Enumeral() == bc, name + ": the lent cipher has changed"); require_eq(use(*e, key), want, name + ": the lent cipher afterwards"); };
	auto overd = [&](auto make, auto run, Digest::IDigest* dp) { std::unique_ptr<Digest::IDigest> e(dp); Bytes want = use(*e, msg); for (int i = 0; i <= (int)twice; ++i) { auto o = make(e.get()); if (work) { run(*o); } } require_eq(use(*e, msg), want, name + ": the lent digest afterwards"); };
	auto mode = [&](auto& o) { o.Initialize(true, full); Bytes in(64, 3), out(64); o.Transform(in, 0, out, 0, 64); }; auto mac = [&](auto& o) { Cipher::SymmetricKey q(k >= 10 ? mkey : key, k == 9 ? iv : Bytes()); o.Initialize(q); Bytes out(o.TagSize()); o.Compute(msg, out); }; auto kdf = [&](auto& o) { Cipher::SymmetricKey q(mkey); o.Initialize(q); Bytes out(77); o.Generate(out); };
	auto aead = [&](auto& o) { o.Initialize(true, full); Bytes out(msg.size() + o.TagSize()); o.SetAssociatedData(iv, 0, 9); o.Transform(msg, 0, out, 0, msg.size()); Bytes bad = out; bad[0] ^= 1; o.Initialize(false, full); o.SetAssociatedData(iv, 0, 9); Bytes p(msg.size()); quietly([&] { o.Transform(bad, 0, p, 0, msg.size()); }); };
	auto sha = [&] { return Helper::DigestFromName::GetInstance(sd == SHA2Digests::SHA2256 ? Enumeration::Digests::SHA2256 : Enumeration::Digests::SHA2512); };
	balanced(c, name, [&] {
		switch (k)
		{
		case 0: over([](IBC* e) { return std::make_unique<ECB>(e); }, mode); break; case 1: over([](IBC* e) { return std::make_unique<CBC>(e); }, mode); break; case 2: over([](IBC* e) { return std::make_unique<CFB>(e); }, mode); break; case 3: over([](IBC* e) { return std::make_unique<OFB>(e); }, mode); break; case 4: over([](IBC* e) { return std::make_unique<CTR>(e); }, mode); break; case 5: over([](IBC* e) { return std::make_unique<ICM>(e); }, mode); break;
		case 6: over([](IBC* e) { return std::make_unique<GCM>(e); }, aead); break; case 7: over([&](IBC* e) { return std::make_unique<HBA>(e, sa); }, aead); break; case 8: over([](IBC* e) { return std::make_unique<Mac::CMAC>(e); }, mac); break; case 9: over([](IBC* e) { return std::make_unique<Mac::GMAC>(e); }, mac); break;
		case 10: overd([](Digest::IDigest* e) { return std::make_unique<CEX::Mac::HMAC>(e); }, mac, sha()); break; case 11: overd([](Digest::IDigest* e) { return std::make_unique<Kdf::HKDF>(e); }, kdf, sha()); break; case 12: overd([](Digest::IDigest* e) { return std::make_unique<Kdf::KDF2>(e); }, kdf, sha()); break; case 13: overd([](Digest::IDigest* e) { return std::make_unique<Kdf::PBKDF2>(e, 2); }, kdf, sha()); break;
		case 14: { std::unique_ptr<Digest::IDigest> e(Helper::DigestFromName::GetInstance(dg)); Bytes want = use(*e, msg); for (int i = 0; i <= (int)twice; ++i) { Processing::DigestStream s(e.get()); if (work) { s.Compute(msg, 0, msg.size()); IO::MemoryStream* m = new IO::MemoryStream(msg); std::unique_ptr<IO::MemoryStream> own(m); s.Compute(m); } } require_eq(use(*e, msg), want, name + ": the lent digest afterwards"); break; }
		case 15: { std::unique_ptr<Mac::IMac> e(Helper::MacFromName::GetInstance(mk)); Bytes mk32 = mkey; auto ks = e->LegalKeySizes()[0]; mk32.resize(ks.KeySize()); Cipher::SymmetricKey q(mk32); for (int i = 0; i <= (int)twice; ++i) { Processing::MacStream s(e.get()); if (work) { s.Initialize(q); s.Compute(msg, 0, msg.size()); } } e->Initialize(q); Bytes o(e->TagSize()); e->Compute(msg, o); require(e->Enumeral() == mk, name + ": the lent mac afterwards"); break; }
		case 16: { std::unique_ptr<ICipherMode> e(Helper::CipherModeFromName::GetInstance(bc, CipherModes::CBC)); std::unique_ptr<Cipher::Block::Padding::IPadding> p(Helper::PaddingFromName::GetInstance(PaddingModes::PKCS7)); for (int i = 0; i <= (int)twice; ++i) { Processing::CipherStream s(e.get(), twice ? p.get() : nullptr); if (work) { Cipher::SymmetricKey q(key, iv); s.Initialize(true, q); IO::MemoryStream in(msg), out; s.Write(&in, &out); } } require(p->Enumeral() == PaddingModes::PKCS7 && e->Enumeral() == CipherModes::CBC, name + ": the lent mode afterwards"); Cipher::SymmetricKey q(key, iv); e->Initialize(true, q); Bytes o(16); e->EncryptBlock(iv, o); break; }
		default: { std::unique_ptr<Digest::IDigest> d(sha()); std::unique_ptr<Provider::IProvider> p(Helper::ProviderFromName::GetInstance(Providers::CSP)); Bytes want = use(*d, msg); for (int i = 0; i <= (int)twice; ++i) { Drbg::HCG g(d.get(), p.get()); if (work) { Cipher::SymmetricKey q(mkey); quietly([&] { g.Initialize(q); }); Bytes o(100); quietly([&] { g.Generate(o); }); } } require_eq(use(*d, msg), want, name + ": the lent digest afterwards"); Bytes o(8); p->Generate(o); break; }
		}
	});
}
// generators, and their sources
PROP(prngs, 400, 15000)
{
	int k = (int)c.u(0, 9); bool work = c.flip(), fail = c.chance(1, 4); static const char* NM[] = { "BCR", "CSR", "HCR", "SecureRandom", "BCG", "CSG", "HCG", "provider", "factory", "SymmetricKeyGenerator" }; std::string name = NM[k]; Providers pv = c.pick({ Providers::CSP, Providers::RDP, Providers::CJP, Providers::ACP, Providers::ECP }); c.desc << name << (work ? " used" : "") << (fail ? " with a failing source" : ""); c.tag(name); using namespace Prng;
	if (k != 7) { pv = Providers::CSP; } else { name = Enumeration::ProviderConvert::ToName(pv); c.desc << " " << name; }
	balanced(c, name, [&] {
		vf::W->csp_calls = 0; vf::W->csp_fail_after = fail ? 1 : -1; quietly([&] { Bytes o(50);
		switch (k)
		{
		case 0: { BCR g(pv); if (work) { g.Generate(o); g.NextUInt32(); g.Reset(); } break; } case 1: { CSR g(ShakeModes::SHAKE256, pv); if (work) { g.Generate(o); } break; } case 2: { HCR g(SHA2Digests::SHA2256, pv); if (work) { g.Generate(o); } break; } case 3: { SecureRandom g; if (work) { g.Generate(o); g.NextUInt64(); } break; }
		case 4: { Drbg::BCG g(pv); if (work) { Cipher::SymmetricKey q(Bytes(32, 1), Bytes(32, 2)); g.Initialize(q); g.Generate(o); } break; } case 5: { Drbg::CSG g(ShakeModes::SHAKE256, pv); if (work) { Cipher::SymmetricKey q(Bytes(32, 1)); g.Initialize(q); g.Generate(o); } break; } case 6: { Drbg::HCG g(SHA2Digests::SHA2256, pv); if (work) { Cipher::SymmetricKey q(Bytes(64, 1)); g.Initialize(q); g.Generate(o); } break; }
		case 7: { std::unique_ptr<Provider::IProvider> p(Helper::ProviderFromName::GetInstance(pv)); if (work) { p->Generate(o); p->Reset(); } break; } case 8: { std::unique_ptr<IPrng> g(Helper::PrngFromName::GetInstance(Prngs::CSR)); if (work) { g->NextUInt16(); } break; }
		default: { Cipher::SymmetricKeyGenerator g(SecurityPolicy::SPL256); Cipher::SymmetricKeySize s(32, 16, 10); std::unique_ptr<Cipher::SymmetricKey> q(g.GetSymmetricKey(s)); std::unique_ptr<Cipher::SymmetricSecureKey> z(g.GetSecureKey(s)); }
		} }); vf::W->csp_fail_after = -1;
	});
}
PROP(schemes, 260, 8000)
{
	int what = (int)c.u(0, 2); uint64_t seed = c.u(0, 1000); Bytes msg = c.bytes(c.u(1, 100)); bool bad = c.flip(); using namespace CEX::Asymmetric;
	if (what == 0)
	{
		const KemSet& s = kemsets()[c.u(0, 3)]; c.desc << s.name << (bad ? " altered" : ""); c.tag(s.name);
		balanced(c, s.name, [&] { DetPrng r(seed); Kem k = mkkem(s, &r); std::unique_ptr<AsymmetricKeyPair> kp(k->Generate()); Bytes ct, s1(32), s2(32); { Kem e = mkkem(s, &r); e->Initialize(kp->PublicKey()); e->Encapsulate(ct, s1); } if (bad) { ct[3] ^= 1; } { Kem d = mkkem(s, &r); d->Initialize(kp->PrivateKey()); quietly([&] { d->Decapsulate(ct, s2); }); } { Kem own(new Encrypt::MLWE::Kyber((KyberParameters)s.p, Prngs::CSR)); quietly([&] { own->Initialize(kp->PublicKey()); }); } });
	}
	else if (what == 1)
	{
		auto v = sigsets(-1, 0); const SigSet& s = *v[c.u(0, v.size() - 1)]; c.desc << s.name << (bad ? " altered" : ""); c.tag(s.name);
		balanced(c, s.name, [&] { DetPrng r(seed); Signer k = mksigner(s, &r); std::unique_ptr<AsymmetricKeyPair> kp(k->Generate()); Bytes sg, m2; { Signer e = mksigner(s, &r); e->Initialize(kp->PrivateKey()); e->Sign(msg, sg); } if (bad) { sg[5] ^= 1; } { Signer d = mksigner(s, &r); d->Initialize(kp->PublicKey()); quietly([&] { d->Verify(sg, m2); }); } });
	}
	else
	{
		c.desc << "ECDH"; c.tag("ECDH");
		balanced(c, "ECDH", [&] { DetPrng r(seed); CEX::Asymmetric::Encrypt::ECDH::ECDH a(ECDHParameters::ECDHS2P25519S, &r); std::unique_ptr<AsymmetricKeyPair> kp(a.Generate()), kq(a.Generate()); Bytes z(32); quietly([&] { a.KeyExchange(kq->PublicKey(), kp->PrivateKey(), z); }); });
	}
}
// keys, streams and parameter sets, legal and not
PROP(containers, 3000, 100000)
{
	using namespace Cipher; using namespace Asymmetric; using namespace IO; int k = (int)c.u(0, 8); Bytes key = c.random_bytes(c.pick<size_t>({ 16, 32, 64 })), n = c.random_bytes(16), i = c.random_bytes(c.u(0, 30)), cut; size_t at = c.u(0, 200); bool bad = c.flip(); static const char* NM[] = { "SymmetricKey", "SymmetricSecureKey", "AsymmetricKey", "AsymmetricSecureKey", "MemoryStream", "SecureStream", "parameters", "factories", "key pair" }; c.desc << NM[k] << (bad ? " damaged" : ""); c.tag(NM[k]);
	auto dmg = [&](SBytes& s) { if (bad && s.size()) { if (at & 1) { s.resize(at % s.size()); } else { s[at % std::min<size_t>(s.size(), 24)] ^= 0x41; } } };
	balanced(c, NM[k], [&] { quietly([&] {
		switch (k)
		{
		case 0: { SymmetricKey a(key, n, i); SBytes s = SymmetricKey::Serialize(a); dmg(s); std::unique_ptr<SymmetricKey> b(SymmetricKey::DeSerialize(s)), d(b->Clone()); b->Reset(); break; }
		case 1: { SymmetricSecureKey a(sec(key), sec(n), sec(i)); SBytes s = SymmetricSecureKey::Serialize(a); dmg(s); std::unique_ptr<SymmetricKey> b(SymmetricSecureKey::DeSerialize(s)); std::unique_ptr<SymmetricSecureKey> d(a.Clone()); d->Reset(); break; }
		case 2: { AsymmetricKey a(sec(key), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::KYBERS3P2400); SBytes s = AsymmetricKey::Serialize(a); dmg(s); std::unique_ptr<AsymmetricKey> b(AsymmetricKey::DeSerialize(s)); break; }
		case 3: { SBytes z = sec(key), salt = sec(i); AsymmetricSecureKey a(z, salt, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::KYBERS3P2400, SecurityPolicy::SPL256); SBytes q; a.SecurePolynomial(q); break; }
		case 4: { MemoryStream a(key), b; a.CopyTo(&b); b.SetLength(at); b.Seek(at, SeekOrigin::Begin); if (bad) { Bytes m = n; a.Read(m, 0, at % 17); a.Close(); a.Write(n, 0, 3); } break; }
		case 5: { SecureStream a(key); a.ToArray(); a.Write(n, 0, 4); a.Close(); break; }
		case 6: { switch (at % 4) { case 0: { Digest::SHA2Params p(8, 32, (uint8_t)at); Bytes b = p.ToBytes(); if (bad) { b.resize(at % b.size()); } Digest::SHA2Params q(b); break; } case 1: { Digest::KeccakParams p(8, 32, (uint8_t)at); Bytes b = p.ToBytes(); if (bad) { b.resize(at % b.size()); } Digest::KeccakParams q(b); break; } case 2: { Digest::BlakeParams p(32, 2, 4, 0, 32); Bytes b = p.ToBytes(); if (bad) { b.resize(at % b.size()); } Digest::BlakeParams q(b); break; } default: { Digest::SkeinParams p(32, 8, 32); Bytes b = p.ToBytes(); if (bad) { b.resize(at % b.size()); } Digest::SkeinParams q(b); } } break; }
		case 7: { int e = bad ? 200 : 1 + (int)(at % 7); switch (at % 8) { case 0: delete Helper::DigestFromName::GetInstance((Enumeration::Digests)e); break; case 1: delete Helper::MacFromName::GetInstance((Macs)e); break; case 2: delete Helper::KdfFromName::GetInstance((Enumeration::Kdfs)e); break; case 3: delete Helper::BlockCipherFromName::GetInstance((BC)e); break; case 4: delete Helper::CipherModeFromName::GetInstance(bad ? (BC)e : BC::AES, (CipherModes)e); break; case 5: delete Helper::AeadModeFromName::GetInstance(BC::AES, (AeadModes)e); break; case 6: delete Helper::StreamCipherFromName::GetInstance((StreamCiphers)e); break; default: delete Helper::PaddingFromName::GetInstance((PaddingModes)e); } break; }
		default: { AsymmetricKeyPair p(new AsymmetricKey(key, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS3P2400), bad ? nullptr : new AsymmetricKey(key, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::KYBERS3P2400), n); if (at & 1) { p.Reset(); } }
		}
	}); });
}
