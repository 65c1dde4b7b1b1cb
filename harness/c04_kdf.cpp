// C04: key derivation functions and extendable-output functions
// LIBS: -lcrypto
#include "pbt.h"
#include "cexutil.h"
#include "modelref.h"
#include "kdfmodel.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SHAKE.h"
#include "SCBKDF.h"
#include "KdfFromName.h"
#include "SHA2256.h"
#include "SHA2512.h"
using namespace CEX;
using namespace CEX::Enumeration;

// block functions indexed by the block counter: a request always starts a new block
struct BlockStream : Stream
{
	std::function<Bytes(uint64_t)> f; uint64_t ctr = 1;
	BlockStream(std::function<Bytes(uint64_t)> g) : f(g) {}
	Bytes next(size_t n) override { Bytes r; while (r.size() < n) { Bytes b = f(ctr++); r.insert(r.end(), b.begin(), b.end()); } r.resize(n); return r; }
};
// the library's cost based kdf: absorb a growing cache of states
struct ScbStream : Stream
{
	ref::Sponge s; Bytes cache; size_t cpu, mem;
	void take(Bytes& o) { Bytes b(200); for (int i = 0; i < 25; ++i) { ref::ple(&b[8 * i], s.A[i], 8); } o.insert(o.end(), b.begin(), b.begin() + s.rate); }
	ScbStream(size_t rate, const Bytes& k, const Bytes& cust, const Bytes& name, size_t c, size_t m) : s(rate), cpu(c), mem(m)
	{
		if (cust.size() || name.size()) { s.absorb_full(ref::bytepad(ref::cat({ ref::encode_string(name), ref::encode_string(cust) }), rate)); }
		s.absorb_final(k, 0x24); ref::keccakf(s.A); take(cache);
	}
	Bytes next(size_t n) override
	{
		for (size_t i = 0; i < cpu; ++i) { s.absorb_final(cache, 0x24); if (cache.size() + s.rate <= mem * 1000000) { take(cache); } }
		return s.squeeze(n);
	}
};

struct K { std::unique_ptr<Kdf::IKdf> k; std::unique_ptr<Digest::IDigest> own; std::string name; int kind; size_t hs, bs, rate, cpu, mem; uint32_t iter; const char* md; };
static void make(pbt::Case& c, K& m)
{
	m.kind = (int)c.u(0, 4); bool b = c.flip(); m.hs = b ? 64 : 32; m.bs = b ? 128 : 64; m.md = b ? "SHA512" : "SHA256"; m.cpu = m.mem = 0; m.iter = 0;
	SHA2Digests sd = b ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256;
	uint64_t how = c.u(0, 2);
	auto dig = [&]() { m.own.reset(b ? (Digest::IDigest*)new Digest::SHA2512() : (Digest::IDigest*)new Digest::SHA2256()); c.tag("digest passed in"); return m.own.get(); };
	int sm = (int)c.u(0, 2); ShakeModes mode = sm == 0 ? ShakeModes::SHAKE128 : sm == 1 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512; m.rate = sm == 0 ? 168 : sm == 1 ? 136 : 72;
	switch (m.kind)
	{
	case 0: m.name = "HKDF"; m.k.reset(how == 0 ? new Kdf::HKDF(sd) : how == 1 ? Helper::KdfFromName::GetInstance(b ? Kdfs::HKDF512 : Kdfs::HKDF256) : new Kdf::HKDF(dig())); break;
	case 1: m.name = "KDF2"; m.k.reset(how == 0 ? new Kdf::KDF2(sd) : how == 1 ? Helper::KdfFromName::GetInstance(b ? Kdfs::KDF2512 : Kdfs::KDF2256) : new Kdf::KDF2(dig())); break;
	case 2:
		m.name = "PBKDF2"; m.iter = (uint32_t)c.pick({ 1, 2, 3, 5, 20 });
		if (how == 2) { m.k.reset(new Kdf::PBKDF2(dig(), m.iter)); } else { auto* p = new Kdf::PBKDF2(sd, how == 0 ? m.iter : 7); m.k.reset(p); p->Iterations() = m.iter; }
		break;
	case 3: m.name = "SHAKE"; m.hs = m.bs = m.rate; if (how == 0) { m.k.reset(new Kdf::SHAKE(mode)); } else { m.k.reset(Helper::KdfFromName::GetInstance(sm == 0 ? Kdfs::SHAKE128 : sm == 1 ? Kdfs::SHAKE256 : Kdfs::SHAKE512)); } break;
	default: m.name = "SCBKDF"; m.hs = m.bs = m.rate; m.cpu = c.u(0, 12); m.mem = c.u(0, 2); { auto* p = new Kdf::SCBKDF(mode, m.cpu, how ? m.mem : 3); m.k.reset(p); p->MemoryCost() = m.mem; }
	}
	c.desc << m.name << (m.kind < 3 ? m.md : "-") << " rate/hash " << m.hs << " iter " << m.iter << " cost " << m.cpu << "/" << m.mem;
	c.tag(m.name);
}
static std::unique_ptr<Stream> key(pbt::Case& c, K& m)
{
	size_t minkey = m.kind < 2 ? 16 : m.kind == 4 ? 16 : 4;
	Bytes k = c.bytes(minkey + c.len(300, { m.bs, m.hs })), iv, info;
	if (c.flip()) { iv = c.bytes(4 + c.len(300, { m.bs, m.hs })); }
	if (c.flip()) { info = c.bytes(1 + c.len(300, { m.bs, m.hs })); }
	if (m.kind == 2 && iv.empty() && info.size() && info.size() < 4) { info.resize(4, 7); }
	if ((m.kind == 3 || m.kind == 4) && info.size() && iv.size() && c.chance(1, 3))
	{
		// lengths of name and customisation around the end of the first block
		info = c.bytes(m.rate - (size_t)c.u(2, 9)); 
	}
	c.desc << "\n key " << k.size() << " salt " << iv.size() << " info " << info.size();
	auto kp = mkkey(c, k, iv, info);
	if (m.kind == 3 && c.chance(1, 3)) // the direct overloads
	{
		auto* s = static_cast<Kdf::SHAKE*>(m.k.get()); bool sv = c.flip();
		if (iv.empty() && info.empty()) { size_t pre = c.flip() ? c.u(0, 9) : 0; Bytes b(pre, 3); b.insert(b.end(), k.begin(), k.end()); b.resize(b.size() + c.u(0, 5)); if (pre == 0 && b.size() == k.size()) { if (sv) { s->Initialize(sec(k)); } else { s->Initialize(k); } } else if (sv) { s->Initialize(sec(b), pre, k.size()); } else { s->Initialize(b, pre, k.size()); } }
		else if (info.empty()) { if (sv) { s->Initialize(sec(k), sec(iv)); } else { s->Initialize(k, iv); } }
		else if (sv) { s->Initialize(sec(k), sec(iv), sec(info)); } else { s->Initialize(k, iv, info); }
	}
	else { m.k->Initialize(*kp); }
	require(m.k->IsInitialized(), m.name + ": not initialised after Initialize");
	std::string md = m.md;
	switch (m.kind)
	{
	case 0: return std::unique_ptr<Stream>(new HkdfStream(md, k, iv, info));
	case 1:
	{
		Bytes z = k, salt = ref::cat({ iv, info });
		// without a salt the key is one digest block, the rest of a longer key is the salt (ISO 18033 interpretation of the class)
		if (iv.empty()) { z.resize(m.bs, 0); salt = ref::cat({ k.size() > m.bs ? Bytes(k.begin() + m.bs, k.end()) : Bytes(), info }); }
		return std::unique_ptr<Stream>(new BlockStream([=](uint64_t n) { Bytes ctr(4); ref::pbe(&ctr[0], n, 4); return ref::ossl_md(md.c_str(), ref::cat({ z, ctr, salt })); }));
	}
	case 2:
	{
		Bytes salt = ref::cat({ iv, info }); uint32_t it = m.iter;
		return std::unique_ptr<Stream>(new BlockStream([=](uint64_t n) { Bytes ctr(4); ref::pbe(&ctr[0], n, 4); Bytes u = ref::hmac(md.c_str(), k, ref::cat({ salt, ctr })), t = u; for (uint32_t i = 1; i < it; ++i) { u = ref::hmac(md.c_str(), k, u); t = ref::xorb(t, u); } return t; }));
	}
	case 3: return std::unique_ptr<Stream>(new XofStream(m.rate, k, iv, info));
	default: return std::unique_ptr<Stream>(new ScbStream(m.rate, k, iv, info, m.cpu, m.mem));
	}
}

PROP(kdf_stream_equals_specification, 60000, 1200000)
{
	K m; make(c, m);
	size_t keyings = c.u(1, 3);
	for (size_t i = 0; i < keyings; ++i)
	{
		auto s = key(c, m);
		size_t reqs = c.u(1, 3), left = m.kind < 2 ? 255 : 100000;
		for (size_t r = 0; r < reqs; ++r)
		{
			size_t n = 1 + c.len(m.kind == 2 ? 300 : 1000, { m.hs });
			if (m.kind == 2 && m.iter <= 3 ? c.chance(1, 30) : m.kind == 3 && c.chance(1, 100)) { n = c.len(m.hs * 600, { m.hs * 255, m.hs * 256 }) + 1; c.tag("long output"); }
			if (left == 0) { break; }
			if (m.kind < 2 && c.chance(1, 40)) { n = left * m.hs - c.u(0, 3); c.tag("maximum output"); }
			size_t blocks = (n + m.hs - 1) / m.hs; if (blocks > left) { break; } left -= blocks;
			bool sv = c.flip(), whole = c.flip(); size_t pre = whole ? 0 : c.u(0, 70), post = whole ? 0 : c.u(0, 70);
			c.desc << " out " << n << (sv ? "s" : "") << (whole ? "" : "@" + std::to_string(pre));
			pbt::Guarded g(pre, n, post, 0xC3);
			if (sv) { SBytes o = sec(g.b); if (whole) { m.k->Generate(o); } else { m.k->Generate(o, pre, n); } require(o.size() == g.b.size(), "the output vector changed size"); g.b = unsec(o); }
			else if (whole) { m.k->Generate(g.b); } else { m.k->Generate(g.b, pre, n); }
			require(g.b.size() == pre + n + post, "the output vector changed size");
			g.check(m.name);
			require_eq(g.out(), s->next(n), m.name + " request " + std::to_string(r));
			c.nontrivial(n > m.hs || r || i);
		}
		if (c.chance(1, 5)) { m.k->Reset(); require(!m.k->IsInitialized(), "initialised after Reset"); c.tag("reset"); }
	}
}

#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
// the cache of SCBKDF grows up to the memory cost and stays there: as many rounds as fill one megabyte, and a few more (slow: in the thorough tier only)
PROP(memory_bound, 0, 4)
{
	int sm = (int)c.u(0, 1); ShakeModes mode = sm == 0 ? ShakeModes::SHAKE128 : ShakeModes::SHAKE256; size_t rate = sm == 0 ? 168 : 136, rounds = 1000000 / rate + c.u(2, 4);
	Kdf::SCBKDF k(mode, rounds, 1); Bytes key = c.bytes(16 + c.len(100)); auto kp = mkkey(c, key, Bytes(), Bytes()); k.Initialize(*kp); Bytes o(c.u(1, 400)); k.Generate(o); ScbStream s(rate, key, Bytes(), Bytes(), rounds, 1); c.desc << "SCBKDF rate " << rate << " rounds " << rounds << " memory 1"; c.nontrivial(); require_eq(o, s.next(o.size()), "SCBKDF that fills its memory");
}
#endif

PROP(output_limit_is_enforced, 4000, 40000)
{
	K m; do { make(c, m); } while (m.kind > 1 && c.tape.size() < 200);
	if (m.kind > 1) { c.discard(); }
	auto s = key(c, m);
	size_t first = c.u(0, 255), over = first + c.u(1, 3), n1 = first * m.hs, n2 = (255 - first) * m.hs + c.u(1, 40);
	(void)over;
	if (n1) { Bytes o(n1); m.k->Generate(o); require_eq(o, s->next(n1), m.name + " up to the limit"); }
	Bytes o(n2, 0x77); bool t = throws([&]() { if (c.flip()) { m.k->Generate(o); } else { SBytes x = sec(o); m.k->Generate(x, 0, x.size()); } });
	c.desc << " first " << n1 << " then " << n2; c.nontrivial();
	require(t, m.name + ": more than 255 blocks were produced");
}

PROP(models_agree_with_openssl, 3000, 30000)
{
	bool b = c.flip(); const char* md = b ? "SHA512" : "SHA256"; size_t hs = b ? 64 : 32;
	Bytes k = c.bytes(c.u(1, 200)), salt = c.bytes(c.u(1, 200)), info = c.bytes(c.u(0, 200)), o(1 + c.len(600, { hs }));
	int which = (int)c.u(0, 3);
	auto kdf = [&](const char* name, std::vector<OSSL_PARAM> p) { EVP_KDF* f = EVP_KDF_fetch(nullptr, name, nullptr); EVP_KDF_CTX* x = EVP_KDF_CTX_new(f); p.push_back(OSSL_PARAM_construct_end()); if (EVP_KDF_derive(x, o.data(), o.size(), p.data()) != 1) { abort(); } EVP_KDF_CTX_free(x); EVP_KDF_free(f); };
	OSSL_PARAM dg = OSSL_PARAM_construct_utf8_string("digest", (char*)md, 0), ky = OSSL_PARAM_construct_octet_string("key", k.data(), k.size()), sl = OSSL_PARAM_construct_octet_string("salt", salt.data(), salt.size()), inf = OSSL_PARAM_construct_octet_string("info", info.data(), info.size());
	Bytes want;
	if (which == 0) { kdf("HKDF", { dg, ky, sl, inf }); want = HkdfStream(md, k, salt, info).next(o.size()); }
	else if (which == 1) { kdf("X963KDF", { dg, ky, inf }); std::string m = md; want = BlockStream([=](uint64_t n) { Bytes ctr(4); ref::pbe(&ctr[0], n, 4); return ref::ossl_md(m.c_str(), ref::cat({ k, ctr, info })); }).next(o.size()); }
	else if (which == 2) { uint32_t it = (uint32_t)c.u(1, 6); PKCS5_PBKDF2_HMAC((char*)k.data(), (int)k.size(), salt.data(), (int)salt.size(), (int)it, EVP_get_digestbyname(md), (int)o.size(), o.data()); std::string m = md; want = BlockStream([=](uint64_t n) { Bytes ctr(4); ref::pbe(&ctr[0], n, 4); Bytes u = ref::hmac(m.c_str(), k, ref::cat({ salt, ctr })), t = u; for (uint32_t i = 1; i < it; ++i) { u = ref::hmac(m.c_str(), k, u); t = ref::xorb(t, u); } return t; }).next(o.size()); }
	else { bool s = c.flip(); o = ref::ossl_md(s ? "SHAKE128" : "SHAKE256", k, o.size()); want = XofStream(s ? 168 : 136, k, {}, {}).next(o.size()); }
	c.nontrivial(o.size() > hs);
	require_eq(want, o, "harness model against OpenSSL");
}
