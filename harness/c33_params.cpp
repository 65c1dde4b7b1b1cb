// C33: parameter sets serialise to bytes that restore an equal set, describing the same function
// LIBS: -lcrypto
#include "cexutil.h"
#include "digestutil.h"
#include "SHA2Params.h"
#include "KeccakParams.h"
#include "SkeinParams.h"
#include "BlakeParams.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
#include "Blake256.h"
#include "Blake512.h"
using namespace CEX;
using namespace CEX::Digest;
static std::string hx(const Bytes& b) { return pbt::hex(b.data(), b.size(), 40); }
// the values of a set, and where the serialised form holds each of them
struct Field { const char* name; size_t at, n; };
struct Model
{
	int kind; std::vector<uint64_t> v; Bytes code;
	static const std::vector<Field>& fields(int k)
	{
		static const std::vector<Field> sha{ { "node offset", 0, 4 }, { "version", 4, 2 }, { "output size", 6, 8 }, { "leaf size", 14, 4 }, { "depth", 18, 1 }, { "fan-out", 19, 1 }, { "reserved", 20, 4 } };
		static const std::vector<Field> skein{ { "schema", 0, 4 }, { "version", 4, 2 }, { "reserved 1", 6, 2 }, { "output size", 8, 8 }, { "leaf size", 16, 1 }, { "depth", 17, 1 }, { "fan-out", 18, 1 }, { "reserved 2", 19, 1 }, { "reserved 3", 20, 4 } };
		static const std::vector<Field> blake{ { "output size", 0, 1 }, { "key length", 1, 1 }, { "fan-out", 2, 1 }, { "max depth", 3, 1 }, { "leaf length", 4, 4 }, { "node offset", 8, 1 }, { "node depth", 9, 1 }, { "inner length", 10, 1 }, { "reserved", 11, 1 } };
		return k < 2 ? sha : k == 2 ? skein : blake;
	}
	size_t osf() const { return kind < 2 ? 2 : kind == 2 ? 3 : 0; }
	uint64_t os() const { return v[osf()]; }
	size_t head() const { return kind == 3 ? 12 : 24; }
	size_t codelen() const { return kind < 2 ? (os() == 32 ? 112 : 48) : kind == 2 ? (os() > 24 ? os() - 24 : 0) : os() == 32 ? 12 : 40; }
	size_t total() const { return kind == 3 ? (os() == 32 ? 32 : 64) : head() + codelen(); }
	Bytes bytes() const { Bytes b(total()); auto& f = fields(kind); for (size_t i = 0; i < f.size(); ++i) { for (size_t k = 0; k < f[i].n; ++k) { b[f[i].at + k] = (uint8_t)(v[i] >> (8 * k)); } } for (size_t k = 0; k < std::min(code.size(), codelen()); ++k) { b[head() + k] = code[k]; } return b; }
	static const char* name(int k) { static const char* n[] = { "SHA2Params", "KeccakParams", "SkeinParams", "BlakeParams" }; return n[k]; }
};
// the same operations on every kind of set
struct Set
{
	int kind; std::unique_ptr<SHA2Params> a; std::unique_ptr<KeccakParams> b; std::unique_ptr<SkeinParams> s; std::unique_ptr<BlakeParams> l;
	Set(int k) : kind(k) {}
	template<typename F> auto with(F f) -> decltype(f(*a)) { switch (kind) { case 0: return f(*a); case 1: return f(*b); case 2: return f(*s); default: return f(*l); } }
	static Set empty(int k) { Set r(k); switch (k) { case 0: r.a.reset(new SHA2Params()); break; case 1: r.b.reset(new KeccakParams()); break; case 2: r.s.reset(new SkeinParams()); break; default: r.l.reset(new BlakeParams()); } return r; }
	static Set from(int k, const Bytes& x) { Set r(k); switch (k) { case 0: r.a.reset(new SHA2Params(x)); break; case 1: r.b.reset(new KeccakParams(x)); break; case 2: r.s.reset(new SkeinParams(x)); break; default: r.l.reset(new BlakeParams(x)); } return r; }
	static Set make(const Model& m)
	{
		Set r(m.kind); auto& v = m.v; Bytes code = m.code;
		switch (m.kind)
		{
		case 0: r.a.reset(new SHA2Params((uint32_t)v[0], v[2], (uint16_t)v[1], (uint32_t)v[3], (uint8_t)v[5], (uint8_t)v[4], code)); r.a->Reserved() = (uint32_t)v[6]; break;
		case 1: r.b.reset(new KeccakParams((uint32_t)v[0], v[2], (uint16_t)v[1], (uint32_t)v[3], (uint8_t)v[5], (uint8_t)v[4], code)); r.b->Reserved() = (uint32_t)v[6]; break;
		case 2: { Bytes sch(4); for (int i = 0; i < 4; ++i) { sch[i] = (uint8_t)(v[0] >> (8 * i)); } r.s.reset(new SkeinParams(sch, v[3], (uint16_t)v[1], (uint32_t)v[4], (uint8_t)v[6], (uint8_t)v[5], code)); r.s->Reserved1() = (uint16_t)v[2]; r.s->Reserved2() = (uint8_t)v[7]; r.s->Reserved3() = (uint32_t)v[8]; break; }
		default: r.l.reset(new BlakeParams((uint8_t)v[0], (uint8_t)v[1], (uint8_t)v[2], (uint8_t)v[3], (uint32_t)v[4], (uint8_t)v[5], (uint8_t)v[6], (uint8_t)v[7], code)); r.l->Reserved() = (uint8_t)v[8];
		}
		require(code == m.code, "the distribution code passed in was changed"); return r;
	}
	Bytes bytes() { return with([](auto& p) { return p.ToBytes(); }); }
	size_t header() { return with([](auto& p) { return p.GetHeaderSize(); }); }
	int32_t hash() { return with([](auto& p) { return p.GetHashCode(); }); }
	void reset() { with([](auto& p) { p.Reset(); return 0; }); }
	bool equals(Set& o) { switch (kind) { case 0: return a->Equals(*o.a); case 1: return b->Equals(*o.b); case 2: return s->Equals(*o.s); default: return l->Equals(*o.l); } }
	Set copy(bool deep) { Set r(kind); switch (kind) { case 0: r.a.reset(deep ? a->DeepCopy() : new SHA2Params(a->Clone())); break; case 1: r.b.reset(deep ? b->DeepCopy() : new KeccakParams(b->Clone())); break; case 2: r.s.reset(deep ? s->DeepCopy() : new SkeinParams(s->Clone())); break; default: r.l.reset(deep ? l->DeepCopy() : new BlakeParams(l->Clone())); } return r; }
	// what the accessors say
	std::vector<uint64_t> values(const Model& m)
	{
		std::vector<uint64_t> v = m.v;
		switch (kind)
		{
		case 0: v[0] = a->NodeOffset(); v[1] = a->Version(); v[2] = a->OutputSize(); v[3] = a->LeafSize(); v[5] = a->FanOut(); v[6] = a->Reserved(); break;
		case 1: v[0] = b->NodeOffset(); v[1] = b->Version(); v[2] = b->OutputSize(); v[3] = b->LeafSize(); v[5] = b->FanOut(); v[6] = b->Reserved(); break;
		case 2: v[0] = 0; for (int i = 0; i < 4; ++i) { v[0] |= (uint64_t)s->Schema()[i] << (8 * i); } v[1] = s->Version(); v[2] = s->Reserved1(); v[3] = s->OutputSize(); v[4] = s->LeafSize(); v[6] = s->FanOut(); v[7] = s->Reserved2(); v[8] = s->Reserved3(); break;
		default: v[0] = l->OutputSize(); v[1] = l->KeyLength(); v[2] = l->FanOut(); v[3] = l->MaxDepth(); v[4] = l->LeafLength(); v[5] = l->NodeOffset(); v[6] = l->NodeDepth(); v[7] = l->InnerLength(); v[8] = l->Reserved();
		}
		return v;
	}
	// the words a digest starts from
	std::vector<uint64_t> config() { if (kind == 2) { return s->GetConfig(); } if (l->OutputSize() == 64) { std::vector<uint64_t> r(8); l->GetConfig(r); return r; } std::vector<uint32_t> r(8); l->GetConfig(r); return std::vector<uint64_t>(r.begin(), r.end()); }
	Bytes code() { return with([](auto& p) { return Bytes(p.DistributionCode()); }); }
};
static uint64_t value(pbt::Case& c, size_t n) { uint64_t m = n == 8 ? ~0ull : (1ull << (8 * n)) - 1; switch (c.u(0, 3)) { case 0: return 0; case 1: return c.u(0, 255) & m; case 2: return m; default: return c.u(0, ~0ull) & m; } }
static Model model(pbt::Case& c, int k)
{
	Model m; m.kind = k; for (auto& f : Model::fields(k)) { m.v.push_back(value(c, f.n)); }
	m.v[m.osf()] = k == 3 ? c.pick<uint64_t>({ 32, 64 }) : c.pick<uint64_t>({ 32, 64, 128 }); if (k == 2) { m.v[5] = 0; m.v[1] = 1; } m.code = c.bytes(c.flip() ? m.codelen() : c.u(0, m.codelen())); return m;
}
static void check(Set& x, const Model& m, const std::string& w)
{
	same(x.header(), m.total(), w + ": GetHeaderSize"); require_eq(x.bytes(), m.bytes(), w + ": ToBytes"); auto v = x.values(m); for (size_t i = 0; i < v.size(); ++i) { require(v[i] == m.v[i], w + ": " + Model::fields(m.kind)[i].name + fmt(" is %llu, expected %llu", (unsigned long long)v[i], (unsigned long long)m.v[i])); }
	Bytes code = m.code; code.resize(m.codelen()); require_eq(x.code(), code, w + ": distribution code");
}
// a set, its bytes, the set restored from them, and copies
PROP(roundtrip, 30000, 1000000)
{
	int k = (int)c.u(0, 3); Model m = model(c, k); std::string w = Model::name(k); c.tag(w); c.nontrivial(); c.desc << w << " " << hx(m.bytes()); Set x = Set::make(m); check(x, m, w);
	Bytes b = x.bytes(); if (c.chance(1, 3) && k < 3) { Bytes t = c.bytes(c.u(1, 9)); b.insert(b.end(), t.begin(), t.end()); w += " with trailing bytes"; } Set y = Set::from(k, b); check(y, m, w + " restored"); require(x.equals(y) && y.equals(x), w + ": the restored set is not equal"); same(y.hash(), x.hash(), w + ": hash code of the restored set");
	Set z = x.copy(c.flip()); check(z, m, w + " copied"); require(x.equals(z), w + ": the copy is not equal");
	// one value differs, or two are exchanged
	Model n = m; size_t i = c.u(0, n.v.size()); if (i < n.v.size() && i != n.osf() && !(k == 2 && (i == 1 || i == 5))) { if (c.flip()) { n.v[i] ^= 1ull << c.u(0, 8 * Model::fields(k)[i].n - 1); } else { size_t j = c.u(0, n.v.size() - 1); if (j != n.osf() && !(k == 2 && (j == 1 || j == 5)) && Model::fields(k)[i].n == Model::fields(k)[j].n) { std::swap(n.v[i], n.v[j]); c.tag("exchanged values"); } } } else if (n.code.size() > 1) { size_t p = c.u(0, n.code.size() - 1), q = c.u(0, n.code.size() - 1); if (c.flip()) { std::swap(n.code[p], n.code[q]); c.tag("exchanged bytes"); } else { n.code[p] ^= (uint8_t)c.u(1, 255); } }
	Set o = Set::make(n); bool eq = n.bytes() == m.bytes(); require(x.equals(o) == eq && o.equals(x) == eq, w + (eq ? ": equal sets are called different" : ": different sets are called equal: ") + hx(m.bytes()) + " and " + hx(n.bytes()));
	if (k >= 2) { require((x.config() == o.config()) == eq, w + (eq ? ": equal sets configure different functions: " : ": different sets configure one function: ") + hx(m.bytes()) + " and " + hx(n.bytes())); require(x.config() == y.config() && x.config() == z.config(), w + ": the restored set, or the copy, configures another function"); }
	// values changed through the accessors
	if (c.flip()) { uint8_t f = (uint8_t)c.u(0, 255); x.with([&](auto& p) { p.FanOut() = f; return 0; }); m.v[k < 2 ? 5 : k == 2 ? 6 : 2] = f; check(x, m, w + " changed"); check(y, n.kind == k ? [&] { Model r = m; r.v = y.values(m); return r; }() : m, w + " restored, after the first was changed"); }
	// an overlong code is cut
	if (c.chance(1, 4)) { Bytes big = c.bytes(m.codelen() + c.u(1, 40)); x.with([&](auto& p) { p.DistributionCode() = big; return 0; }); m.code = big; require_eq(x.bytes(), m.bytes(), w + " with an overlong distribution code: ToBytes"); c.tag("overlong code"); }
	if (c.chance(1, 3)) { x.reset(); Bytes e = x.bytes(); same(e.size(), x.header(), w + " after Reset: size"); require(e == Bytes(e.size()), w + " after Reset: a value remains: " + hx(e)); Set r = Set::from(k, e); require(r.equals(x), w + " after Reset: not restored"); c.tag("reset"); }
}
// blank sets
PROP(blank, 2000, 20000) { int k = (int)c.u(0, 3); std::string w = std::string("empty ") + Model::name(k); c.tag(w); c.desc << w; c.nontrivial(); Set x = Set::empty(k); Bytes b = x.bytes(); same(b.size(), x.header(), w + ": size"); Set y = Set::from(k, b); require(y.equals(x), w + ": not restored"); Set z = x.copy(c.flip()); require(z.equals(x), w + ": not copied"); }
// any bytes: refused, or a set that has them
PROP(anybytes, 40000, 2000000)
{
	int k = (int)c.u(0, 3); Model m = model(c, k); Bytes b = m.bytes(); std::string w = Model::name(k); c.tag(w);
	switch (c.u(0, 3)) { case 0: b.resize(c.u(0, b.size())); break; case 1: b = c.random_bytes(c.pick<size_t>({ 0, 1, 12, 23, 24, 25, 31, 32, 33, 63, 64, 71, 72, 73, 128, 135, 136, 200 })); break; case 2: { size_t at = Model::fields(k)[m.osf()].at, n = Model::fields(k)[m.osf()].n; uint64_t v = c.pick<uint64_t>({ 0, 8, 16, 23, 24, 25, 32, 64, 128, 136, 255, 0xFFFFFFFFull, ~0ull, ~0ull - 24, 1ull << 63 }); for (size_t i = 0; i < n; ++i) { b[at + i] = (uint8_t)(v >> (8 * i)); } break; } default: { Bytes t = c.bytes(c.u(0, 40)); b.insert(b.end(), t.begin(), t.end()); if (c.flip()) { b.resize(c.u(0, b.size())); } } }
	if (c.chance(1, 2)) { const Field& fl = c.pick(Model::fields(k)); if (strcmp(fl.name, "output size") && b.size() >= m.head()) { for (size_t i = 0; i < fl.n; ++i) { b[fl.at + i] = (uint8_t)c.u(0, 255); } c.tag("any value of a field"); } }
	c.desc << w << " from " << b.size() << " bytes " << hx(b); c.nontrivial();
	// does it hold a set?
	Model n; n.kind = k; bool whole = b.size() >= n.head() && (k != 3 || b.size() == 32 || b.size() == 64); if (whole) { for (auto& f : Model::fields(k)) { uint64_t v = 0; for (size_t i = 0; i < f.n; ++i) { v |= (uint64_t)b[f.at + i] << (8 * i); } n.v.push_back(v); } whole = n.codelen() <= b.size() && b.size() >= n.total(); }
	Bytes in(b); in.shrink_to_fit();
	try { Set x = Set::from(k, in); require(whole, w + ": accepted although too short"); n.code.assign(b.begin() + n.head(), b.begin() + n.head() + n.codelen()); check(x, n, w); c.tag("accepted"); }
	catch (CEX::Exception::CryptoDigestException& e) { require(!whole, w + ": refused: " + e.Message()); c.tag("refused"); }
	require(in == b, w + ": the bytes were changed");
}
// the function the set describes
PROP(digest, 4000, 100000)
{
	world(c); int d = (int)c.u(0, 8); static const int kinds[] = { 0, 0, 1, 1, 2, 2, 2, 3, 3 }; int k = kinds[d]; Model m; m.kind = k; static const uint64_t os[] = { 32, 64, 32, 64, 32, 64, 128, 32, 64 }, rate[] = { 64, 128, 136, 72, 32, 64, 128, 64, 128 }; static const char* N[] = { "SHA2256", "SHA2512", "SHA3256", "SHA3512", "Skein256", "Skein512", "Skein1024", "Blake256", "Blake512" };
	uint64_t fan = c.pick<uint64_t>({ 1, 2, 4, 6, 8, 16 }); bool tree = fan > 1; uint64_t leaf = k == 3 ? (c.flip() ? 0 : rate[d] * c.u(1, 4)) : rate[d];
	if (k < 2) { m.v = { value(c, 4), 1, os[d], leaf, 0, fan, c.flip() ? 0 : value(c, 4) }; } else if (k == 2) { m.v = { 0x33414853, 1, c.flip() ? 0 : value(c, 2), os[d], leaf, 0, fan, value(c, 1), value(c, 4) }; } else { m.v = { os[d], 0, fan, 2, leaf, 0, 0, os[d], 0 }; }
	m.code = c.bytes(m.codelen()); std::string w = N[d] + fmt(" with fan-out %d", (int)fan); c.tag(N[d]); c.desc << w;
	auto build = [&](Set& x) -> std::unique_ptr<IDigest> { switch (d) { case 0: return std::unique_ptr<IDigest>(new SHA2256(*x.a)); case 1: return std::unique_ptr<IDigest>(new SHA2512(*x.a)); case 2: return std::unique_ptr<IDigest>(new SHA3256(*x.b)); case 3: return std::unique_ptr<IDigest>(new SHA3512(*x.b)); case 4: return std::unique_ptr<IDigest>(new Skein256(*x.s)); case 5: return std::unique_ptr<IDigest>(new Skein512(*x.s)); case 6: return std::unique_ptr<IDigest>(new Skein1024(*x.s)); case 7: return std::unique_ptr<IDigest>(new Blake256(*x.l)); default: return std::unique_ptr<IDigest>(new Blake512(*x.l)); } };
	size_t n = c.len(6000, { rate[d], rate[d] * fan, rate[d] * fan * 2 }); Bytes msg = c.bytes(n); c.desc << " message " << n; c.nontrivial();
	auto hash = [&](Set& x) { auto o = build(x); Bytes h(o->DigestSize()); for (size_t at = 0; at < msg.size();) { size_t s = std::min<size_t>(msg.size() - at, 1 + (at * 7 + 131) % 700); o->Update(msg, at, s); at += s; } o->Finalize(h, 0); return h; };
	Set x = Set::make(m), y = Set::from(k, x.bytes()), z = x.copy(c.flip()); Bytes h = hash(x); require_eq(hash(y), h, w + ": with the restored set"); require_eq(hash(z), h, w + ": with the copied set"); check(x, m, w + ": the set after use");
	// in a tree every byte of the code belongs to the function
	size_t eff = d == 0 ? 40 : m.code.size(); /* the leaf block of SHA2-256 is one block of 64 bytes */ if (tree && eff) { Model o = m; size_t i = c.u(0, eff - 1); o.code[i] ^= (uint8_t)c.u(1, 255); Set q = Set::make(o); require(hash(q) != h, w + fmt(": byte %zu of the distribution code has no effect", i)); c.tag("tree"); }
}
