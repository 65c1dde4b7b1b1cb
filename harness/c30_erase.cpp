// C30: memory given back by the destruction of an object that held a key does not depend on the key
// LIBS: -lcrypto
#include "memwatch.h"
#include "anyobj.h"
#include "sign.h"
#include "kem.h"
#include "SecureStream.h"
#include "SymmetricSecureKey.h"
#include "SecurityPolicy.h"
#include "SecureRandom.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "sign.h"
#include "kem.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include "SecurityPolicy.h"
#include "AsymmetricSecureKey.h"
#include "PrngFromName.h"
#include "SecureRandom.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
using namespace any;
#if MEMWATCH
typedef std::vector<Bytes> Blocks;
// new blocks are clear while this lives, so that what a released block holds was put there by its last owner
struct Clean { Clean() { mw::S.clear = true; } ~Clean() { mw::S.clear = false; } };
static bool pointerlike(uint64_t w) { return w == 0 || ((w >> 48) == 0 && (w >> 32) != 0); }
// the words in which the blocks released by two equal histories under different keys differ
static std::string differ(const Blocks& x, const Blocks& y, const std::vector<Bytes>& pubx, const std::vector<Bytes>& puby)
{
	if (x.size() != y.size()) { return ""; } auto pub = [](const std::vector<Bytes>& p, const uint8_t* w) { for (auto& b : p) { if (b.size() >= 8 && memmem(b.data(), b.size(), w, 8)) { return true; } } return false; };
	std::string out; size_t n = 0;
	for (size_t i = 0; i < x.size(); ++i)
	{
		if (x[i].size() != y[i].size()) { continue; }
		size_t words = 0, first = 0; for (size_t k = 0; k + 8 <= x[i].size(); k += 8) { uint64_t a, b; memcpy(&a, &x[i][k], 8); memcpy(&b, &y[i][k], 8); if (a == b || pointerlike(a) || pointerlike(b)) { continue; } if (pub(pubx, &x[i][k]) && pub(puby, &y[i][k])) { continue; } if (!words++) { first = k; } }
		if (words && n++ < 3) { out += fmt("; block %zu of %zu (%zu bytes): %zu words from offset %zu, such as ", i, x.size(), x[i].size(), words, first) + pbt::hex(&x[i][first], 8, 8); }
	}
	return out;
}
static void destroy(pbt::Case& c, int f)
{
	Factory F = pick(c, f); std::string name; Par p; std::vector<Call> calls;
	{ std::unique_ptr<Any> a(F()); name = a->name; p = a->par(c); a->init(p); size_t n = a->once() ? 1 : c.u(0, 3); for (size_t k = 0; k < n; ++k) { calls.push_back(a->call(c)); a->behave(calls.back(), Lay()); } }
	Par q; q.iv = p.iv; q.info = p.info; q.enc = p.enc; q.key = c.random_bytes(p.key.size()); p.key = c.random_bytes(p.key.size()); bool part = c.chance(1, 3); c.desc << name << " key " << p.key.size() << (part ? " unfinished" : "") << ", " << calls.size() << " calls"; for (auto& k : calls) { c.desc << " " << k.text; } if (p.key.size() < 16) { return; } c.nontrivial(); c.tag(name.substr(0, name.find_first_of("-( ")));
	bool secretout = f == F_KDF || f == F_DRBG;
	auto life = [&](const Par& par, std::vector<Bytes>& pub) { std::unique_ptr<Any> a; mw::S.clear = true; try { a.reset(F()); a->init(par); for (auto& k : calls) { Bytes o = a->behave(k, Lay()); pub.push_back(k.in); pub.push_back(k.aux); if (!secretout) { pub.push_back(o); } } if (part && !calls.empty() && !a->once()) { try { a->partial(calls[0]); } catch (CEX::Exception::CryptoException&) {} } } catch (...) { mw::S.clear = false; throw; } a->forget(); Blocks b = mw::recorded([&] { a.reset(); }); mw::S.clear = false; return b; };
	std::vector<Bytes> px, py; Blocks x = life(p, px), y = life(q, py); require(x.size() == y.size(), "harness: the number of blocks differs"); std::string d = differ(x, y, px, py); require(d.empty(), name + ": memory released by its destruction depends on the key" + d, name);
}
PROP(mode, 1500, 50000) { destroy(c, F_MODE); }
PROP(block, 1500, 50000) { destroy(c, F_BLOCK); }
PROP(aead, 1000, 40000) { destroy(c, F_AEAD); }
PROP(stream, 1000, 40000) { destroy(c, F_STREAM); }
PROP(mac, 2000, 60000) { destroy(c, F_MAC); }
PROP(kdf, 1500, 50000) { destroy(c, F_KDF); }
PROP(drbg, 1000, 40000) { destroy(c, F_DRBG); }

// a new key replaces the old one: what is given back then does not depend on the old one
static void replace(pbt::Case& c, int f)
{
	Factory F = pick(c, f); std::string name; Par p, n; std::vector<Call> calls; { std::unique_ptr<Any> a(F()); name = a->name; p = a->par(c); n = a->par(c); a->init(p); size_t k = a->once() ? 1 : c.u(0, 2); for (size_t i = 0; i < k; ++i) { calls.push_back(a->call(c)); a->behave(calls.back(), Lay()); } }
	if (p.key.size() < 16) { return; } Par q; q.iv = p.iv; q.info = p.info; q.enc = p.enc; q.key = c.random_bytes(p.key.size()); p.key = c.random_bytes(p.key.size()); c.desc << name << " key " << p.key.size() << " replaced by " << n.key.size() << ", " << calls.size() << " calls"; c.nontrivial(); c.tag(name.substr(0, name.find_first_of("-( "))); bool secretout = f == F_KDF || f == F_DRBG;
	auto life = [&](const Par& par, std::vector<Bytes>& pub) { std::unique_ptr<Any> a; mw::S.clear = true; Blocks b; try { a.reset(F()); a->init(par); for (auto& k : calls) { Bytes o = a->behave(k, Lay()); pub.push_back(k.in); pub.push_back(k.aux); if (!secretout) { pub.push_back(o); } } a->forget(); b = mw::recorded([&] { a->init(n); }); } catch (...) { mw::S.clear = false; throw; } mw::S.clear = false; return b; };
	std::vector<Bytes> px, py; Blocks x = life(p, px), y = life(q, py); std::string d = differ(x, y, px, py); require(d.empty(), name + ": memory released when its key is replaced depends on the old key" + d, name);
}
PROP(replaced, 3000, 100000) { int f; do { f = (int)c.u(0, F_COUNT - 1); } while (f == F_DIGEST); replace(c, f); }

// generators: what is given back does not depend on the entropy they were keyed with
PROP(prng, 400, 12000)
{
	int k = (int)c.u(0, 9); uint64_t s1 = c.u(1, 1u << 30), s2 = s1 + 1 + c.u(0, 1000); std::vector<size_t> req; for (size_t n = c.u(0, 4); n; --n) { req.push_back(1 + c.len(3000, { 16, 1024 })); } static const char* NM[] = { "BCR", "CSR128", "CSR256", "CSR512", "HCR256", "HCR512" }; std::string name = k < 6 ? NM[k] : fmt("SecureRandom(%d)", k - 6); c.desc << name << " requests:"; for (size_t n : req) { c.desc << " " << n; } c.nontrivial(); c.tag(name);
	auto life = [&](uint64_t seed) {
		using namespace Prng; vf::W->csp_state = seed; std::unique_ptr<IPrng> g; std::unique_ptr<SecureRandom> r; mw::S.clear = true; Blocks b;
		try {
			switch (k) { case 0: g.reset(new BCR(Providers::CSP)); break; case 1: g.reset(new CSR(ShakeModes::SHAKE128, Providers::CSP)); break; case 2: g.reset(new CSR(ShakeModes::SHAKE256, Providers::CSP)); break; case 3: g.reset(new CSR(ShakeModes::SHAKE512, Providers::CSP)); break; case 4: g.reset(new HCR(SHA2Digests::SHA2256, Providers::CSP)); break; case 5: g.reset(new HCR(SHA2Digests::SHA2512, Providers::CSP)); break; default: r.reset(new SecureRandom(k == 7 ? Prngs::CSR : k == 8 ? Prngs::HCR : Prngs::BCR, Providers::CSP)); }
			for (size_t n : req) { if (g) { Bytes o(n); g->Generate(o); } else { r->NextUInt64(); Bytes o = r->Generate(n); } }
			b = mw::recorded([&] { g.reset(); r.reset(); });
		} catch (...) { mw::S.clear = false; throw; }
		mw::S.clear = false; return b;
	};
	Blocks x = life(s1), y = life(s2); require(x.size() == y.size(), "harness: the number of blocks differs"); std::string d = differ(x, y, {}, {}); require(d.empty(), name + ": memory released by its destruction depends on its seed" + d, name);
}

// key containers
PROP(keys, 3000, 100000)
{
	Clean clean; using namespace Cipher; using namespace Asymmetric; Bytes k = c.random_bytes(c.pick<size_t>({ 32, 16, 64, 24, 40 })), n = c.random_bytes(c.pick<size_t>({ 16, 8, 32 })), i = c.random_bytes(c.u(8, 40)); int way = (int)c.u(0, 4); c.desc << "way " << way << " key " << k.size(); c.nontrivial(); mw::secrets({ &k, &n, &i }); std::string what, r; bool part = c.flip(), rst = c.flip();
	if (way == 0) { what = "SymmetricKey"; std::unique_ptr<SymmetricKey> o(part ? new SymmetricKey(sec(k), sec(n), sec(i)) : new SymmetricKey(k, n, i)); r = mw::released([&] { if (rst) { o->Reset(); } o.reset(); }); }
	else if (way == 1) { what = "SymmetricKey serialised"; SymmetricKey o(k, n, i); SBytes s = SymmetricKey::Serialize(o); std::unique_ptr<SymmetricKey> q(SymmetricKey::DeSerialize(s)); r = mw::released([&] { q.reset(); SecureClear(s); s = SBytes(); }); }
	else if (way == 2) { what = "SymmetricSecureKey"; SBytes a = sec(k), b = sec(n), d = sec(i); r = mw::released([&] { std::unique_ptr<SymmetricSecureKey> o(new SymmetricSecureKey(a, b, d)); { SBytes x = o->SecureKey(), y = o->SecureIV(), z = o->SecureInfo(); } o.reset(); }); }
	else if (way == 3) { what = "AsymmetricKey"; SBytes a = sec(k); std::unique_ptr<AsymmetricKey> o, q; o.reset(new AsymmetricKey(a, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS3P2400)); { SBytes s = AsymmetricKey::Serialize(*o); q.reset(AsymmetricKey::DeSerialize(s)); } r = mw::released([&] { q.reset(); if (part) { o->Reset(); } o.reset(); }); }
	else { what = "copies of the secure parts of a key"; SymmetricKey o(k, n, i); r = mw::released([&] { SBytes x = o.SecureKey(), y = o.SecureIV(), z = o.SecureInfo(); SBytes w(x); w = y; SBytes v(std::move(z)); v.insert(v.end(), x.begin(), x.end()); }); }
	c.tag(what); require(r.empty(), what + ": " + r);
}
// private keys and the objects that used them: the words of the private key that the public key does not have
static Bytes privparts(const Bytes& sk, const Bytes& pk) { Bytes r; for (size_t k = 0; k + 8 <= sk.size(); k += 8) { if (!memmem(pk.data(), pk.size(), &sk[k], 8)) { r.insert(r.end(), &sk[k], &sk[k] + 8); } } return r; }
PROP(kem, 120, 3000)
{
	Clean clean; const KemSet& s = kemsets()[c.u(0, c.chance(1, 8) ? kemsets().size() - 1 : 3)]; uint64_t seed = s.kyber ? c.u(0, 1000) : 0; const KemPair& p = kempair(s, seed); Bytes parts = privparts(p.sk, p.pk); mw::secrets({ &parts }); c.desc << s.name; c.nontrivial(); c.tag(s.name);
	std::unique_ptr<AsymmetricKey> pub(new AsymmetricKey(p.pk, prim(s), AsymmetricKeyTypes::CipherPublicKey, s.p)), prv(new AsymmetricKey(p.sk, prim(s), AsymmetricKeyTypes::CipherPrivateKey, s.p)); DetPrng r(seed); Bytes ct, s1(32), s2(32); { Kem e = mkkem(s, &r); e->Initialize(pub.get()); e->Encapsulate(ct, s1); }
	Kem d = mkkem(s, &r); d->Initialize(prv.get()); std::string w; require(d->Decapsulate(ct, s2), "refused"); require_eq(s1, s2, "secrets"); w = mw::released([&] { d.reset(); prv.reset(); }); require(w.empty(), std::string(s.name) + ": destruction: " + w);
}
PROP(signer, 120, 3000)
{
	Clean clean; auto sets = sigsets(-1, c.chance(1, 6) ? 1 : 0); const SigSet& s = *sets[c.u(0, sets.size() - 1)]; const SigPair& p = sigpair(s, s.cost ? 0 : c.u(0, 1000)); Bytes parts = privparts(p.sk, p.pk); mw::secrets({ &parts }); c.desc << s.name; c.nontrivial(); c.tag(s.name);
	std::unique_ptr<AsymmetricKey> prv(new AsymmetricKey(p.sk, prim(s), AsymmetricKeyTypes::SignaturePrivateKey, s.p)); DetPrng r(1); Signer d = mksigner(s, &r); d->Initialize(prv.get()); std::string w; Bytes m = c.bytes(20), g; d->Sign(m, g); w = mw::released([&] { d.reset(); prv.reset(); }); require(w.empty(), s.name + ": destruction: " + w);
}
// secure vectors, whatever is done with them
template<typename T> static void vectors(pbt::Case& c)
{
	Clean clean; Bytes raw = c.random_bytes(8 * c.u(2, 60)); mw::secrets({ &raw }); size_t n = raw.size() / sizeof(T); std::vector<T> src(n); memcpy(src.data(), raw.data(), raw.size()); size_t steps = c.u(1, 12); std::vector<std::pair<int, size_t>> ops; for (size_t i = 0; i < steps; ++i) { ops.push_back({ (int)c.u(0, 9), (size_t)c.u(0, 400) }); c.desc << " " << ops.back().first << "/" << ops.back().second; } c.nontrivial();
	std::string r = mw::released([&] {
		SecureVector<T> a(src.begin(), src.end()), b;
		for (auto& o : ops)
		{
			switch (o.first) { case 0: a.resize(o.second); break; case 1: a.reserve(o.second); break; case 2: a.push_back(src[o.second % n]); break; case 3: a.insert(a.begin(), src.begin(), src.end()); break; case 4: a.clear(); break; case 5: b = a; break; case 6: b = std::move(a); a = SecureVector<T>(src.begin(), src.end()); break; case 7: a.shrink_to_fit(); break; case 8: SecureClear(a); break; default: a.erase(a.begin(), a.begin() + a.size() / 2); }
		}
	});
	require(r.empty(), "secure vector: " + r);
	// the functions that clear their source
	int f = (int)c.u(0, 3); c.desc << " function " << f; std::vector<T> w = src; uint8_t* at = (uint8_t*)w.data();
	if (f == 0) { SecureVector<T> l = SecureLockClear(w); } else if (f == 1) { SecureVector<T> l(n); SecureMove(w, l, 0); } else if (f == 2) { SecureVector<T> l(n); SecureMove(w, 0, l, 0, n * sizeof(T)); } else { SecureVector<T> l(src.begin(), src.end()); uint8_t* sat = (uint8_t*)l.data(); std::vector<T> u = SecureUnlockClear(l); require(!mw::contains(sat, raw.size()), "SecureUnlockClear left the secret in its source"); return; }
	require(!mw::contains(at, raw.size()), fmt("function %d left the secret in its source", f));
}
PROP(containers, 6000, 200000) { switch (c.u(0, 3)) { case 0: vectors<uint8_t>(c); break; case 1: vectors<uint16_t>(c); break; case 2: vectors<uint32_t>(c); break; default: vectors<uint64_t>(c); } }
// the stream that keeps its contents encrypted in memory
PROP(securestream, 1500, 60000)
{
	Clean clean; using namespace IO; Bytes raw = c.random_bytes(8 * c.u(2, 100)); mw::secrets({ &raw }); uint64_t salt = c.flip() ? 0 : c.u(1, 1u << 30); int how = (int)c.u(0, 2); std::vector<std::pair<int, size_t>> ops; for (size_t i = c.u(1, 10); i; --i) { ops.push_back({ (int)c.u(0, 8), (size_t)c.u(0, 1000) }); } c.desc << raw.size() << " bytes, way " << how << ":"; for (auto& o : ops) { c.desc << " " << o.first << "/" << o.second; } c.nontrivial(); Bytes buf(2000);
	std::string r = mw::released([&] {
		std::unique_ptr<SecureStream> s; if (how == 0) { s.reset(new SecureStream(raw.size(), salt)); } else if (how == 1) { s.reset(new SecureStream(raw, salt)); } else { s.reset(new SecureStream(raw, 0, raw.size(), salt)); }
		for (auto& o : ops)
		{
			size_t len = s->Length();
			switch (o.first) { case 0: case 1: s->Write(raw, 0, raw.size()); break; case 2: s->Seek(len ? o.second % (len + 1) : 0, SeekOrigin::Begin); break; case 3: s->Read(buf, 0, std::min<size_t>(o.second, buf.size())); break; case 4: s->SetLength(o.second); if (s->Position() > o.second) { s->Seek(o.second, SeekOrigin::Begin); } break; case 5: s->WriteByte(raw[o.second % raw.size()]); break; case 6: if (o.second % 4 == 0) { s->Reset(); } break; case 7: if (s->Position() < len) { s->ReadByte(); } break; default: if (o.second % 4 == 0) { s->Close(); } }
		}
		s.reset();
	});
	require(r.empty(), "SecureStream: " + r);
}
#endif
