// C32: objects used by one thread each compute what they compute alone, and nothing races (the deciding build runs under ThreadSanitizer)
// LIBS: -lcrypto
#include "anyobj.h"
#include "sign.h"
#include "CpuDetect.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
#include "ParallelTools.h"
#include "SecureRandom.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include "SystemTools.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "PaddingFromName.h"
#include "SHA2Params.h"
#include "SkeinParams.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SecureVector.h"
#include <thread>
#include <atomic>
using namespace any;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define UNDER_TSAN 1
#endif
#endif
#ifndef UNDER_TSAN
#define UNDER_TSAN 0
#endif
// what a thread does; two runs give the same bytes when the work is a function of its parameters
struct Job { std::string name; std::function<Bytes()> run; bool fixed = true; };
static Bytes lenient(const std::function<Bytes()>& f) { try { return f(); } catch (CEX::Exception::CryptoException& e) { return ref::str("exception " + e.Message()); } }
// all at once; what went wrong in a thread is reported after they have ended
static std::vector<Bytes> together(const std::vector<Job>& jobs)
{
	std::vector<Bytes> out(jobs.size()); std::vector<std::exception_ptr> err(jobs.size()); std::atomic<size_t> ready{ 0 }; std::vector<std::thread> t;
	for (size_t i = 0; i < jobs.size(); ++i) { t.emplace_back([&, i] { ++ready; while (ready.load() < jobs.size()) { std::this_thread::yield(); } try { out[i] = jobs[i].run(); } catch (...) { err[i] = std::current_exception(); } }); }
	for (auto& x : t) { x.join(); } for (auto& e : err) { if (e) { std::rethrow_exception(e); } } return out;
}
static void judge(pbt::Case& c, const std::vector<Job>& jobs, size_t rounds)
{
	std::vector<Bytes> want; for (auto& j : jobs) { c.desc << j.name << "; "; want.push_back(j.fixed ? j.run() : Bytes()); }
	for (size_t r = 0; r < rounds; ++r)
	{
		auto got = together(jobs); c.nontrivial();
		for (size_t i = 0; i < jobs.size(); ++i) { if (jobs[i].fixed) { require_eq(got[i], want[i], jobs[i].name + fmt(", with %zu other threads, against the same alone", jobs.size() - 1)); } for (size_t k = 0; k < i; ++k) { if (!jobs[i].fixed && !jobs[k].fixed && got[i].size() >= 32 && got[i].size() == got[k].size()) { require(got[i] != got[k], jobs[i].name + " and " + jobs[k].name + ": two random sources gave the same bytes"); } } }
	}
}
// a history of one object; the object may be made here or in its thread
static Job history(pbt::Case& c, int family = -1, std::shared_ptr<Cipher::ISymmetricKey> = nullptr)
{
	Factory f = pick(c, family); std::unique_ptr<Any> a(f()); Job j; j.name = a->name; c.tag(a->name.substr(0, a->name.find_first_of("-( "))); struct Step { Par p; std::vector<Call> q; }; auto steps = std::make_shared<std::vector<Step>>();
	size_t rounds = c.u(1, 2); for (size_t r = 0; r < rounds; ++r) { Step s; s.p = a->par(c); a->init(s.p); size_t n = a->once() ? 1 : c.u(1, 3); for (size_t k = 0; k < n; ++k) { s.q.push_back(a->call(c)); j.name += " " + s.q.back().text; a->behave(s.q.back(), Lay()); } steps->push_back(std::move(s)); }
	j.run = [f, steps] { std::unique_ptr<Any> o(f()); Bytes out; for (auto& s : *steps) { o->init(s.p); for (auto& q : s.q) { Bytes b = o->behave(q, Lay()); out.insert(out.end(), b.begin(), b.end()); } } return out; };
	return j;
}
static Job scheme(pbt::Case& c)
{
	Job j;
	if (c.flip())
	{
		const KemSet& s = kemsets()[c.u(0, kemsets().size() - 1)]; size_t pick = UNDER_TSAN || c.chance(3, 4) ? c.u(0, 3) : 0; const KemSet& t = s.kyber ? s : kemsets()[pick]; const KemSet* p = t.kyber ? &t : &kemsets()[0]; uint64_t seed = c.u(0, 50), seed2 = c.u(0, 1000000); j.name = std::string(p->name) + " exchange"; c.tag("key exchange");
		j.run = [p, seed, seed2] { DetPrng r(seed); Kem k = mkkem(*p, &r); std::unique_ptr<AsymmetricKeyPair> kp(k->Generate()); r.r = pbt::Rng{ seed2 }; Bytes ct, s1, s2; { Kem e = mkkem(*p, &r); e->Initialize(kp->PublicKey()); s1.resize(32); e->Encapsulate(ct, s1); } { Kem e = mkkem(*p, &r); e->Initialize(kp->PrivateKey()); s2.resize(32); require(e->Decapsulate(ct, s2), "decapsulation refused"); } require_eq(s2, s1, "shared secrets"); return ref::cat({ ct, s1 }); };
		return j;
	}
	auto v = sigsets(-1, 0); const SigSet* p = c.pick(v); uint64_t seed = c.u(0, 50); Bytes m = sigmsg(c); j.name = p->name + " signature"; c.tag("signature");
	j.run = [p, seed, m] { DetPrng r(seed); Signer g = mksigner(*p, &r); std::unique_ptr<AsymmetricKeyPair> kp(g->Generate()); Signer s = mksigner(*p, &r), w = mksigner(*p, &r); s->Initialize(kp->PrivateKey()); Bytes sig; s->Sign(m, sig); w->Initialize(kp->PublicKey()); Bytes o; require(w->Verify(sig, o), "a fresh signature was refused"); require_eq(o, m, "signed message"); return sig; };
	return j;
}
// what draws on the machine; the bytes depend on the order of the draws
static Job random_source(pbt::Case& c)
{
	Job j; j.fixed = false; size_t n = 32 + c.u(0, 100);
	switch (c.u(0, 4))
	{
	case 0: { Providers p = c.pick({ Providers::CSP, Providers::ECP, Providers::ACP }); j.name = "provider " + ProviderConvert::ToName(p); j.run = [p, n] { std::unique_ptr<Provider::IProvider> o(Helper::ProviderFromName::GetInstance(p)); Bytes b(n); o->Generate(b); return b; }; break; }
	case 1: { Prngs p = c.pick({ Prngs::BCR, Prngs::CSR, Prngs::HCR }); j.name = "prng " + PrngConvert::ToName(p); j.run = [p, n] { std::unique_ptr<Prng::IPrng> o(Helper::PrngFromName::GetInstance(p, Providers::CSP)); Bytes b(n); o->Generate(b); return b; }; break; }
	case 2: { Prngs p = c.pick({ Prngs::BCR, Prngs::CSR, Prngs::HCR }); j.name = "SecureRandom"; j.run = [p, n] { Prng::SecureRandom o(p, Providers::CSP); Bytes b = o.Generate(n); for (int i = 0; i < 20; ++i) { uint32_t v = o.NextUInt32(1000, 10); require(v >= 10 && v <= 1000, "a draw outside its bounds"); } return b; }; break; }
	case 3: { SecurityPolicy p = c.pick({ SecurityPolicy::SPL256, SecurityPolicy::SPL512 }); j.name = "SymmetricKeyGenerator"; j.run = [p, n] { Cipher::SymmetricKeyGenerator g(p, Providers::CSP); std::unique_ptr<Cipher::SymmetricKey> k(g.GetSymmetricKey(Cipher::SymmetricKeySize(n, 16, 0))); require(k->Key().size() == n && k->IV().size() == 16, "sizes of a generated key"); return k->Key(); }; break; }
	default: { Bytes k = c.bytes(32), s = c.bytes(16); j.name = "sealed key"; j.run = [k, s] { Cipher::SymmetricSecureKey o(k, s, s, SecurityPolicy::SPL256, s); require_eq(o.Key(), k, "a sealed key opened"); require_eq(o.IV(), s, "a sealed nonce opened"); return Bytes(); }; break; }
	}
	c.tag("random source"); return j;
}
// helpers and the library's own statics
static Job helper(pbt::Case& c)
{
	Job j; uint64_t seed = c.u(0, 1u << 30); c.tag("helper");
	switch (c.u(0, 3))
	{
	case 0: j.name = "CpuDetect"; j.run = [] { CEX::CpuDetect d; return Bytes{ (uint8_t)d.AESNI(), (uint8_t)d.AVX2(), (uint8_t)d.CMUL(), (uint8_t)d.RDRAND(), (uint8_t)(d.VirtualCores()), (uint8_t)(d.L1DataCacheTotal() / 1024) }; }; break;
	case 1: j.name = "secure vectors"; j.run = [seed] { pbt::Rng r{ seed }; std::vector<SecureVector<uint8_t>> v(6); Bytes out; for (int i = 0; i < 200; ++i) { size_t k = r.next() % v.size(), n = 1 + r.next() % 300; v[k] = SecureVector<uint8_t>(n, (uint8_t)i); for (size_t q = 0; q < v.size(); ++q) { for (auto x : v[q]) { require(x == v[q][0], "a secure vector was overwritten"); } } out.push_back(v[k][n / 2]); } return out; }; break;
	case 2: { int a = (int)c.u(1, 15), b = (int)c.u(1, 48); j.name = "names"; j.run = [a, b] { std::string s = DigestConvert::ToName((Digests)a) + BlockCipherConvert::ToName((BC)b) + MacConvert::ToName((Macs)a); return ref::str(s + fmt("%d", (int)DigestConvert::FromName(s))); }; break; }
	default: { size_t n = c.u(2, 12); j.name = fmt("ParallelFor of %zu", n); j.run = [n] { Bytes out(n * 64); CEX::Tools::ParallelTools::ParallelFor(0, n, [&](size_t i) { for (size_t k = 0; k < 64; ++k) { out[i * 64 + k] = (uint8_t)(i * 7 + k); } }); for (size_t i = 0; i < n * 64; ++i) { require(out[i] == (uint8_t)((i / 64) * 7 + i % 64), "ParallelFor returned before its tasks had ended"); } return out; }; break; }
	}
	return j;
}
// processors, streams, paddings, serialised keys and parameters
static Job processor(pbt::Case& c)
{
	using namespace CEX::Processing; using namespace CEX::IO; Job j; c.tag("processor"); Bytes m = c.bytes(1 + c.len(300, { 16, 64 })), key = c.bytes(32), iv = c.bytes(16); bool mem = c.flip();
	switch (c.u(0, 5))
	{
	case 0: case 1:
	{
		CipherModes md = c.pick({ CipherModes::CBC, CipherModes::CFB, CipherModes::CTR, CipherModes::OFB, CipherModes::ICM }); bool ctr = md == CipherModes::CTR || md == CipherModes::ICM; PaddingModes pm = ctr ? PaddingModes::None : c.pick({ PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne }); BC bc = c.pick({ BC::AES, BC::Serpent }); j.name = fmt("CipherStream %d %d %zu", (int)md, (int)pm, m.size());
		j.run = [=] { Cipher::SymmetricKey k(key, iv); CipherStream s(bc, md, pm); s.IsParallel() = false; Bytes all; s.Initialize(true, k); Bytes x(m.size()); if (mem) { MemoryStream i(m), o; s.Write(&i, &o); x = o.ToArray(); } else { s.Write(m, 0, x, 0); } s.Initialize(false, k); Bytes y(x.size()); if (mem) { MemoryStream i(x), o; s.Write(&i, &o); y = o.ToArray(); } else { s.Write(x, 0, y, 0); } require_eq(y, m, "decrypting with a CipherStream"); return x; }; break;
	}
	case 2: { DG d = c.pick(ALL_DIGESTS); bool p = c.flip() && vf::W->cores > 1; j.name = std::string("DigestStream ") + dg_name(d); j.run = [=] { DigestStream s(d, p); if (mem) { MemoryStream i(m); return s.Compute(&i); } return s.Compute(m, 0, m.size()); }; break; }
	case 3: { Macs t = c.pick({ Macs::HMACSHA2256, Macs::KMAC256, Macs::CMAC, Macs::HMACSHA2512, Macs::KPA256 }); j.name = "MacStream " + MacConvert::ToName(t); j.run = [=] { MacStream s(t); auto ks = s.LegalKeySizes(); Bytes kb = key; kb.resize(ks[0].KeySize(), 7); Cipher::SymmetricKey k(kb); s.Initialize(k); if (mem) { MemoryStream i(m); return s.Compute(&i); } return s.Compute(m, 0, m.size()); }; break; }
	case 4: { PaddingModes pm = c.pick({ PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne }); size_t at = c.u(0, 15); j.name = fmt("padding %d at %zu", (int)pm, at); j.run = [=] { std::unique_ptr<Cipher::Block::Padding::IPadding> p(Helper::PaddingFromName::GetInstance(pm)); Bytes b(16, 0x33), o; for (int i = 0; i < 20; ++i) { Bytes x = b; p->AddPadding(x, at, 16); same(p->GetBlockLength(x), at, "GetBlockLength"); o = ref::cat({ o, x }); } return o; }; break; }
	default: j.name = "streams and serialised keys"; j.run = [=] { SecureStream s; s.Write(m, 0, m.size()); MemoryStream t; { StreamWriter w(2 * m.size()); for (size_t i = 0; i < m.size(); ++i) { w.Write((uint16_t)(m[i] * 257)); } Bytes b = w.Generate(); t.Write(b, 0, b.size()); } Cipher::SymmetricKey k(key, iv, m); auto b = Cipher::SymmetricKey::Serialize(k); std::unique_ptr<Cipher::SymmetricKey> q(Cipher::SymmetricKey::DeSerialize(b)); require_eq(q->Info(), m, "a key restored"); require_eq(s.ToArray(), m, "what a SecureStream holds"); return ref::cat({ t.ToArray(), Bytes(b.begin(), b.end()) }); };
	}
	return j;
}
static size_t threads(pbt::Case& c) { return c.pick<size_t>({ 2, 2, 3, 4 }); }
// two to four objects of any kind at once
PROP(objects, 1500, 60000)
{
	world(c); size_t n = threads(c); std::vector<Job> jobs; bool twins = c.chance(1, 3); int f = c.chance(1, 2) ? -1 : (int)c.u(0, F_COUNT - 1);
	for (size_t i = 0; i < n; ++i) { if (twins && i) { jobs.push_back(jobs[0]); } else { jobs.push_back(history(c, f)); } }
	if (twins) { c.tag("the same work in every thread"); } judge(c, jobs, c.u(1, 2));
}
// a single caller and the library's own worker threads
PROP(workers, 1500, 60000)
{
	world(c); vf::W->cores = (uint32_t)c.pick<int>({ 2, 4, 6, 8 }); int f = (int)c.pick<int>({ F_MODE, F_MODE, F_AEAD, F_STREAM, F_STREAM, F_DIGEST }); std::vector<Job> jobs{ history(c, f) }; judge(c, jobs, 1);
}
// schemes, generators and helpers beside one another
PROP(services, 800, 30000)
{
	world(c); size_t n = threads(c); std::vector<Job> jobs; bool twins = c.chance(1, 3);
	for (size_t i = 0; i < n; ++i) { if (twins && i) { jobs.push_back(jobs[0]); continue; } switch (c.u(0, 6)) { case 0: jobs.push_back(scheme(c)); break; case 5: case 6: jobs.push_back(processor(c)); break; case 1: case 2: jobs.push_back(random_source(c)); break; case 3: jobs.push_back(helper(c)); break; default: jobs.push_back(history(c)); } }
	judge(c, jobs, 1);
}
// one key object read by several threads
PROP(sharedkey, 800, 30000)
{
	world(c); size_t n = threads(c); BC bc = c.pick({ BC::AES, BC::Serpent, BC::RHXH256, BC::SHXS256 }); auto key = std::make_shared<Cipher::SymmetricKey>(c.bytes(32), c.bytes(16), Bytes()); ModeKind k = c.pick({ M_CBC, M_CTR, M_ICM, M_CFB, M_OFB }); std::vector<Job> jobs; c.tag(bc_name(bc));
	for (size_t i = 0; i < n; ++i)
	{
		Job j; Bytes m = c.bytes(16 * c.u(1, 20)); int what = (int)c.u(0, 2); j.name = fmt("shared key, use %d", what);
		if (what == 0) { j.run = [=] { using namespace Cipher::Block::Mode; std::unique_ptr<ICipherMode> o; switch (k) { case M_CBC: o.reset(new CBC(bc)); break; case M_CTR: o.reset(new CTR(bc)); break; case M_ICM: o.reset(new ICM(bc)); break; case M_CFB: o.reset(new CFB(bc)); break; default: o.reset(new OFB(bc)); } o->ParallelProfile().IsParallel() = false; o->Initialize(true, *key); Bytes x(m.size()); o->Transform(m, 0, x, 0, m.size()); return x; }; }
		else if (what == 1) { j.run = [=] { Mac::HMAC o(SHA2Digests::SHA2256); o.Initialize(*key); Bytes x(32); o.Compute(m, x); return x; }; }
		else { j.run = [=] { std::unique_ptr<Cipher::SymmetricKey> d(key->Clone()); Bytes x = ref::cat({ d->Key(), d->IV() }); return x; }; }
		jobs.push_back(j);
	}
	judge(c, jobs, 1);
}
