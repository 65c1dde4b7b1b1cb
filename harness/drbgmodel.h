// Models of the deterministic generators, and entropy providers with a known output
#pragma once
#include "cexutil.h"
#include "ref.h"
#include "stream.h"
#include "IProvider.h"
// an entropy provider that is a function of its seed and keeps what it gave
struct DetProvider : CEX::Provider::IProvider
{
	pbt::Rng r; Bytes given; size_t calls = 0; bool* gone = nullptr; size_t failat = (size_t)-1;
	DetProvider(uint64_t s) : r{ s } {}
	~DetProvider() override { if (gone != nullptr) { *gone = true; } }
	uint8_t byte() { if (given.size() == failat) { throw CEX::Exception::CryptoRandomException(Name(), std::string("Generate"), std::string("the source has failed"), CEX::Enumeration::ErrorCodes::NoAccess); } uint8_t b = (uint8_t)(r.next() >> 40); given.push_back(b); return b; }
	const CEX::Enumeration::Providers Enumeral() override { return CEX::Enumeration::Providers::CSP; }
	const bool IsAvailable() override { return true; }
	const std::string Name() override { return "CSP"; }
	void Generate(std::vector<uint8_t>& o, size_t off, size_t n) override { ++calls; for (size_t i = 0; i < n; ++i) { o.at(off + i) = byte(); } }
	void Generate(SecureVector<uint8_t>& o, size_t off, size_t n) override { ++calls; for (size_t i = 0; i < n; ++i) { o.at(off + i) = byte(); } }
	void Generate(std::vector<uint8_t>& o) override { Generate(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t>& o) override { Generate(o, 0, o.size()); }
	uint16_t NextUInt16() override { return (uint16_t)(byte() | byte() << 8); }
	uint32_t NextUInt32() override { uint32_t v = 0; for (int i = 0; i < 4; ++i) { v |= (uint32_t)byte() << (8 * i); } return v; }
	uint64_t NextUInt64() override { return NextUInt32() | (uint64_t)NextUInt32() << 32; }
	void Reset() override {}
	Bytes take(size_t n) { Bytes b(n); for (auto& x : b) { x = byte(); } return b; } // used by the models
};
struct DrbgModel
{
	DetProvider* prov = nullptr; uint64_t counter = 0, threshold = 102400000; size_t reseeds = 0;
	virtual ~DrbgModel() {}
	virtual void init(const Bytes& key, const Bytes& iv, const Bytes& info) = 0;
	virtual Bytes gen(size_t n) = 0;
	virtual void reseed() = 0;
	virtual void update(const Bytes& key) = 0;
	Bytes generate(size_t n) { Bytes r = gen(n); if (prov != nullptr) { counter += n; if (counter >= threshold) { reseed(); counter = 0; } } return r; }
};
struct BcgModel : DrbgModel
{
	Bytes rk, ctr, custom;
	void init(const Bytes& key, const Bytes& iv, const Bytes& info) override { reseeds = 0; counter = 0; rekey(key, iv, info); }
	void rekey(const Bytes& key, const Bytes& iv, const Bytes& info)
	{
		custom = ref::cat({ ref::str("BCG version 1.0b"), info }); size_t rounds = key.size() == 32 ? 22 : key.size() == 64 ? 30 : 38; uint16_t bits = (uint16_t)(8 * key.size());
		rk = ref::cshake(136, key, 32 * (rounds + 1), ref::cat({ Bytes{ (uint8_t)bits, (uint8_t)(bits >> 8) }, ref::str("BCG") }), custom); ctr = iv;
	}
	Bytes gen(size_t n) override { Bytes r; r.reserve(n + 32); while (r.size() < n) { Bytes b = ref::rijndael(rk, ctr); for (size_t i = 0; i < 16 && ++ctr[i] == 0; ++i) {} r.insert(r.end(), b.begin(), b.end()); } r.resize(n); return r; }
	void reseed() override { update(gen(32)); }
	void update(const Bytes& key) override { ++reseeds; Bytes k = key; if (prov != nullptr) { Bytes c = prov->take(32); k = ref::cshake(136, key, key.size(), Bytes(), c); } rekey(k, ctr, custom); counter = 0; }
};
struct CsgModel : DrbgModel
{
	ref::Sponge s; Bytes buf; uint8_t dom = 0;
	CsgModel(size_t rate) : s(rate) {}
	void fill() { ref::keccakf(s.A, 24); buf.resize(200); for (int i = 0; i < 25; ++i) { ref::ple(&buf[8 * i], s.A[i], 8); } buf.resize(s.rate); }
	void init(const Bytes& key, const Bytes& iv, const Bytes& info) override
	{
		s = ref::Sponge(s.rate); buf.clear(); reseeds = 0; counter = 0; dom = 0x1F;
		if (iv.size() || info.size()) { dom = 0x04; s.absorb_full(ref::bytepad(ref::cat({ ref::encode_string(info), ref::encode_string(iv) }), s.rate)); }
		s.absorb_final(key, dom);
	}
	Bytes gen(size_t n) override { Bytes r; while (r.size() < n) { if (buf.empty()) { fill(); } size_t m = std::min(n - r.size(), buf.size()); r.insert(r.end(), buf.begin(), buf.begin() + m); buf.erase(buf.begin(), buf.begin() + m); } return r; }
	void reseed() override { ++reseeds; derive(); }
	void derive() { s.absorb_final(prov->take((200 - s.rate) / 2), dom); fill(); }
	void update(const Bytes& key) override { ++reseeds; if (prov != nullptr) { derive(); } s.absorb_final(key, dom); fill(); }
};
struct HcgModel : DrbgModel
{
	std::string md; size_t dg; Bytes key, code, nonce, buf; size_t cached = 0;
	HcgModel(bool b512) : md(b512 ? "SHA512" : "SHA256"), dg(b512 ? 64 : 32) {}
	void add(uint64_t v) { for (int i = 7; i >= 0 && v != 0; --i) { v += nonce[i]; nonce[i] = (uint8_t)v; v >>= 8; } }
	Bytes mac(const Bytes& m) { return ref::hmac(md.c_str(), key, m); }
	void init(const Bytes& k, const Bytes& iv, const Bytes& info) override
	{
		reseeds = 0; counter = 0; key = k; uint16_t st = dg == 32 ? 128 : 256;
		code = ref::cat({ ref::str(dg == 32 ? "CEX-HCG-SHA2256" : "CEX-HCG-SHA2512"), Bytes{ (uint8_t)st, (uint8_t)(st >> 8) }, info });
		nonce = Bytes(8, 0); std::copy(iv.begin(), iv.begin() + std::min<size_t>(8, iv.size()), nonce.begin()); add(code.size());
		buf = mac(ref::cat({ code, nonce })); cached = 0;
	}
	void fill() { add(2 * dg); buf = mac(ref::cat({ buf, code, nonce })); cached = dg; }
	// the bytes a long request took from the last block are erased in the state the next block is made of
	Bytes gen(size_t n) override
	{
		Bytes r; size_t m = std::min(n, cached); r.insert(r.end(), buf.end() - cached, buf.end() - cached + m); bool more = cached < n; cached -= m; if (!more) { return r; }
		while (r.size() < n) { fill(); m = std::min(n - r.size(), cached); r.insert(r.end(), buf.begin(), buf.begin() + m); cached -= m; }
		if (cached != 0) { std::fill(buf.begin(), buf.end() - cached, 0); } return r;
	}
	void rekey(const Bytes& first) { fill(); key = ref::cat({ first, mac(buf) }); fill(); }
	void reseed() override { ++reseeds; rekey(prov->take(dg)); }
	void update(const Bytes& k) override { ++reseeds; rekey(mac(k)); }
};
