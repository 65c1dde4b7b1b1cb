// C20: the random generators against the stream of their deterministic generator, keyed from the recorded entropy source
// LIBS: -lcrypto
#include "pbt.h"
#include "cexutil.h"
#include "drbgmodel.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "SecureRandom.h"
#include "PrngFromName.h"
#include <cmath>
using namespace CEX; using namespace CEX::Enumeration;
enum Kind { K_BCR, K_CSR128, K_CSR256, K_CSR512, K_HCR256, K_HCR512, KINDS };
static const char* NM[] = { "BCR", "CSR-SHAKE128", "CSR-SHAKE256", "CSR-SHAKE512", "HCR-SHA2256", "HCR-SHA2512" };
// what the entropy source gave, by calls
struct Record { std::vector<Bytes> calls; Record() { vf::W->on_random = [this](const uint8_t* p, size_t n) { calls.push_back(Bytes(p, p + n)); }; } ~Record() { vf::W->on_random = nullptr; }
	Bytes take(size_t n) { for (size_t i = 0; i < calls.size(); ++i) { if (calls[i].size() == n) { Bytes b = calls[i]; calls.erase(calls.begin(), calls.begin() + i + 1); return b; } } fail("the generator did not ask the entropy source for " + std::to_string(n) + " bytes"); } };
struct Model
{
	Kind k; std::unique_ptr<DrbgModel> m; Bytes ahead;
	Model(Kind kind) : k(kind) {}
	// key from the recorded calls
	void key(Record& r)
	{
		ahead.clear(); Bytes key, iv;
		if (k == K_BCR) { m.reset(new BcgModel()); key = r.take(64); iv = r.take(32); }
		else if (k <= K_CSR512) { m.reset(new CsgModel(k == K_CSR128 ? 168 : k == K_CSR256 ? 136 : 72)); key = r.take(k == K_CSR128 ? 16 : k == K_CSR256 ? 32 : 64); }
		else { m.reset(new HcgModel(k == K_HCR512)); key = r.take(k == K_HCR512 ? 64 : 32); }
		m->init(key, iv, Bytes()); r.calls.clear();
	}
	Bytes next(size_t n) { while (ahead.size() < n) { Bytes b = m->gen(2048); ahead.insert(ahead.end(), b.begin(), b.end()); } Bytes r(ahead.begin(), ahead.begin() + n); ahead.erase(ahead.begin(), ahead.begin() + n); return r; } // 2048: a whole number of blocks of every generator
	uint64_t le(size_t n) { Bytes b = next(n); return ref::le(&b[0], (int)n); }
};
static Prng::IPrng* mk(pbt::Case& c, Kind k)
{
	bool byname = c.flip();
	switch (k)
	{
	case K_BCR: return byname ? Helper::PrngFromName::GetInstance(Prngs::BCR, Providers::CSP) : new Prng::BCR(Providers::CSP);
	case K_CSR128: return new Prng::CSR(ShakeModes::SHAKE128, Providers::CSP);
	case K_CSR256: return byname ? Helper::PrngFromName::GetInstance(Prngs::CSR, Providers::CSP) : new Prng::CSR(ShakeModes::SHAKE256, Providers::CSP);
	case K_CSR512: return byname ? Helper::PrngFromName::GetInstance(Prngs::CSRC512, Providers::CSP) : new Prng::CSR(ShakeModes::SHAKE512, Providers::CSP);
	case K_HCR256: return byname ? Helper::PrngFromName::GetInstance(Prngs::HCR, Providers::CSP) : new Prng::HCR(SHA2Digests::SHA2256, Providers::CSP);
	default: return byname ? Helper::PrngFromName::GetInstance(Prngs::HCRS512, Providers::CSP) : new Prng::HCR(SHA2Digests::SHA2512, Providers::CSP);
	}
}
template<typename G> static void fillreq(pbt::Case& c, G& g, Model& m, const std::string& what)
{
	size_t n = c.len(5000, { 1, 31, 32, 1023, 1024, 1025, 2048, 16, 64, 4096 }), off = 0, after = 0; if (c.flip()) { off = c.u(0, 40); after = c.u(0, 40); } Bytes got;
	auto run = [&](auto& o) { for (size_t i = 0; i < o.size(); ++i) { o[i] = (uint8_t)(0xA5 ^ i); } if (off == 0 && after == 0) { g.Generate(o); } else { g.Generate(o, off, n); } got = Bytes(o.begin(), o.end()); };
	if (c.flip()) { std::vector<uint8_t> o(off + n + after); run(o); } else { SecureVector<uint8_t> o(off + n + after); run(o); }
	require_eq(ref::sub(got, off, n), m.next(n), what + ": bytes of a request for " + std::to_string(n)); for (size_t i = 0; i < got.size(); ++i) { if (i < off || i >= off + n) { require(got[i] == (uint8_t)(0xA5 ^ i), what + ": a request wrote outside of its range"); } }
	c.desc << n << " ";
}
PROP(prngs, 20000, 300000)
{
	world(c); Record r; Model m((Kind)c.u(0, KINDS - 1)); vf::W->csp_state = c.u(1, 1000000); std::unique_ptr<Prng::IPrng> g(mk(c, m.k)); m.key(r); std::string w = NM[m.k]; c.tag(w); c.desc << w << ": ";
	size_t ops = c.u(1, 10);
	for (size_t i = 0; i < ops; ++i)
	{
		switch (c.u(0, 7))
		{
		case 0: same(g->NextUInt16(), (uint16_t)m.le(2), w + ": NextUInt16"); break;
		case 1: same(g->NextUInt32(), (uint32_t)m.le(4), w + ": NextUInt32"); break;
		case 2: same(g->NextUInt64(), (uint64_t)m.le(8), w + ": NextUInt64"); break;
		case 3: if (c.chance(1, 3)) { g->Reset(); m.key(r); c.tag("reset"); } break;
		default: fillreq(c, *g, m, w); break;
		}
	}
	// a source that fails: an error, or nothing lost
	if (c.chance(1, 6)) { vf::W->csp_fail_after = vf::W->csp_calls + (int)c.u(0, 1); bool t = throws([&] { g->Reset(); }); vf::W->csp_fail_after = -1; if (!t) { m.key(r); fillreq(c, *g, m, w); } else { c.tag("source failed"); r.calls.clear(); g->Reset(); m.key(r); fillreq(c, *g, m, w); } }
	c.nontrivial();
}
// reference of the bounded draws: uniform by rejection; the value range is all that is fixed, so a draw is checked for its range here and for its distribution below
template<typename T> static T edge(pbt::Case& c) { typedef std::numeric_limits<T> L; switch (c.u(0, 6)) { case 0: return L::max(); case 1: return L::min(); case 2: return (T)(L::max() - c.u(0, 3)); case 3: return (T)c.u(0, 5); case 4: return (T)(L::max() / 2 + c.u(0, 3)); default: { uint64_t x = c.u(0, UINT64_MAX); return (T)(x >> c.u(0, 63)); } } }
template<typename T, typename F1, typename F2, typename F0> static void bounds(pbt::Case& c, const char* nm, F0 f0, F1 f1, F2 f2, Model& m)
{
	T a = edge<T>(c), b = edge<T>(c); std::ostringstream o; o << nm << "(" << a; c.desc << nm << " ";
	if (c.flip()) { o << ")"; if (a < 1) { require(throws([&] { f1(a); }), o.str() + ": an illegal bound was accepted"); return; } for (int i = 0; i < 20; ++i) { T x = f1(a); require(x >= 0 && x <= a, o.str() + " is out of range: " + std::to_string(x)); } return; }
	o << ", " << b << ")"; if (a < 1 || a < b) { require(throws([&] { f2(a, b); }), o.str() + ": illegal bounds were accepted"); return; }
	for (int i = 0; i < 20; ++i) { T x = f2(a, b); require(x >= b && x <= a, o.str() + " is out of range: " + std::to_string(x)); }
}
static const Prngs P[] = { Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::HCR, Prngs::HCRS512 }; static const Kind PK[] = { K_BCR, K_CSR256, K_CSR512, K_HCR256, K_HCR512 };
PROP(secure_random, 20000, 300000)
{
	world(c); Record r; size_t pi = c.u(0, 4); Model m(PK[pi]); vf::W->csp_state = c.u(1, 1000000); Prng::SecureRandom g(P[pi], Providers::CSP); m.key(r); c.tag(NM[m.k]); c.desc << "SecureRandom " << NM[m.k] << ": "; const std::string w = std::string("SecureRandom ") + NM[m.k];
	for (size_t i = 0, ops = c.u(1, 12); i < ops; ++i)
	{
		switch (c.u(0, 17))
		{
		case 0: same((int)(uint8_t)g.NextChar(), (int)m.le(1), w + ": NextChar"); break;
		case 1: same((int)g.NextUChar(), (int)m.le(1), w + ": NextUChar"); break;
		case 2: same(g.NextInt16(), (int16_t)m.le(2), w + ": NextInt16"); break;
		case 3: same(g.NextUInt16(), (uint16_t)m.le(2), w + ": NextUInt16"); break;
		case 4: same(g.NextInt32(), (int32_t)m.le(4), w + ": NextInt32"); break;
		case 5: same(g.NextUInt32(), (uint32_t)m.le(4), w + ": NextUInt32"); break;
		case 6: same(g.NextInt64(), (int64_t)m.le(8), w + ": NextInt64"); break;
		case 7: same(g.NextUInt64(), (uint64_t)m.le(8), w + ": NextUInt64"); break;
		case 8: { double d = g.NextDouble(); uint64_t u; memcpy(&u, &d, 8); same(u, (uint64_t)m.le(8), w + ": NextDouble"); break; }
		case 9: { size_t n = c.len(3000, { 1024 }); require_eq(g.Generate(n), m.next(n), w + ": Generate(length)"); break; }
		case 10: case 11:
		{
			size_t n = c.len(600), off = c.u(0, 5), af = c.u(0, 5), wd = (size_t)c.pick<int>({ 2, 4, 8, 3 }); Bytes got, exp;
			auto run = [&](auto v) { for (auto& x : v) { x = 0x5A; } g.Fill(v, off, n); size_t e = sizeof v[0]; exp = m.next(n * e); got = Bytes((uint8_t*)v.data() + off * e, (uint8_t*)v.data() + (off + n) * e); for (size_t j = 0; j < v.size(); ++j) { if (j < off || j >= off + n) { require(v[j] == 0x5A, w + ": Fill wrote outside of its range"); } } require(throws([&] { g.Fill(v, off + af + 1, n); }), w + ": Fill accepted a range past the end"); if (c.chance(1, 4)) { size_t wo = ~(size_t)0 - c.u(0, 3); require(throws([&] { g.Fill(v, wo, ~wo + 1 + c.u(0, v.size())); }), w + ": Fill accepted an offset that wraps"); c.tag("wrapping offset"); } };
			if (wd == 2) { run(std::vector<uint16_t>(off + n + af)); } else if (wd == 4) { run(std::vector<uint32_t>(off + n + af)); } else if (wd == 8) { run(std::vector<uint64_t>(off + n + af)); } else { run(SecureVector<uint16_t>(off + n + af)); }
			require_eq(got, exp, w + ": Fill"); break;
		}
		case 12: { Bytes o(c.u(0, 50)); size_t off = c.u(0, 60), n = c.u(0, 60); if (off + n <= o.size()) { break; } require(throws([&] { if (c.flip()) { SecureVector<uint8_t> s = sec(o); g.Generate(s, off, n); } else { g.Generate(o, off, n); } }), w + ": a range past the end of the output was accepted"); break; }
		default: fillreq(c, g, m, w); break;
		}
	}
	c.nontrivial();
}
PROP(ranges, 12000, 200000)
{
	Record r; size_t pi = c.u(0, 4); Model m(PK[pi]); vf::W->csp_state = c.u(1, 1000000); Prng::SecureRandom g(P[pi], Providers::CSP);
	switch (c.u(0, 5))
	{
	case 0: bounds<int16_t>(c, "NextInt16", [&] { return g.NextInt16(); }, [&](int16_t a) { return g.NextInt16(a); }, [&](int16_t a, int16_t b) { return g.NextInt16(a, b); }, m); break;
	case 1: bounds<uint16_t>(c, "NextUInt16", [&] { return g.NextUInt16(); }, [&](uint16_t a) { return g.NextUInt16(a); }, [&](uint16_t a, uint16_t b) { return g.NextUInt16(a, b); }, m); break;
	case 2: bounds<int32_t>(c, "NextInt32", [&] { return g.NextInt32(); }, [&](int32_t a) { return g.NextInt32(a); }, [&](int32_t a, int32_t b) { return g.NextInt32(a, b); }, m); break;
	case 3: bounds<uint32_t>(c, "NextUInt32", [&] { return g.NextUInt32(); }, [&](uint32_t a) { return g.NextUInt32(a); }, [&](uint32_t a, uint32_t b) { return g.NextUInt32(a, b); }, m); break;
	case 4: bounds<int64_t>(c, "NextInt64", [&] { return g.NextInt64(); }, [&](int64_t a) { return g.NextInt64(a); }, [&](int64_t a, int64_t b) { return g.NextInt64(a, b); }, m); break;
	default: bounds<uint64_t>(c, "NextUInt64", [&] { return g.NextUInt64(); }, [&](uint64_t a) { return g.NextUInt64(a); }, [&](uint64_t a, uint64_t b) { return g.NextUInt64(a, b); }, m); break;
	}
	c.nontrivial();
}
// every value of a range is as likely as any other: counts of many draws, with a bound no fair source reaches (9 standard deviations)
PROP(uniform, 400, 6000)
{
	Record r; vf::W->csp_state = c.u(1, 1000000); Prng::SecureRandom g(P[c.u(0, 4)], Providers::CSP); size_t type = c.u(0, 5); int cells; std::function<int()> f; std::string nm;
	static const char* T[] = { "NextInt16", "NextUInt16", "NextInt32", "NextUInt32", "NextInt64", "NextUInt64" };
	// how the draws of a range are put into cells: small ranges by value, wide ones by their place in the range
	bool two = c.flip(), wide = c.chance(1, 3); int64_t lo = 0; uint64_t width;
	int bits = type / 2 == 0 ? 16 : type / 2 == 1 ? 32 : 64; bool sg = type % 2 == 0; uint64_t tmax = sg ? (1ULL << (bits - 1)) - 1 : bits == 64 ? UINT64_MAX : (1ULL << bits) - 1;
	if (!wide) { width = c.u(2, 12); cells = (int)width; if (two) { lo = sg ? (int64_t)c.u(0, 20) - 10 : (int64_t)c.u(0, 20); if (lo + (int64_t)width - 1 < 1) { lo = 0; } } }
	else { cells = 8; uint64_t top = tmax - c.u(0, 1) * (tmax / 3); if (two) { lo = 0; if (sg && c.flip()) { lo = -(int64_t)(tmax / c.u(2, 9)); } else if (c.flip()) { lo = (int64_t)(top / c.u(2, 9)); } width = top - (uint64_t)lo + 1; if (width == 0 || width < 1000) { lo = 1; width = top; } } else { width = top; } }
	auto draw = [&]() -> uint64_t {
		uint64_t mx = two ? (uint64_t)lo + width - 1 : width;
		switch (type)
		{
		case 0: return (uint64_t)(int64_t)(two ? g.NextInt16((int16_t)mx, (int16_t)lo) : g.NextInt16((int16_t)mx)) - (uint64_t)lo;
		case 1: return (uint64_t)(two ? g.NextUInt16((uint16_t)mx, (uint16_t)lo) : g.NextUInt16((uint16_t)mx)) - (uint64_t)lo;
		case 2: return (uint64_t)(int64_t)(two ? g.NextInt32((int32_t)mx, (int32_t)lo) : g.NextInt32((int32_t)mx)) - (uint64_t)lo;
		case 3: return (uint64_t)(two ? g.NextUInt32((uint32_t)mx, (uint32_t)lo) : g.NextUInt32((uint32_t)mx)) - (uint64_t)lo;
		case 4: return (uint64_t)(two ? g.NextInt64((int64_t)mx, (int64_t)lo) : g.NextInt64((int64_t)mx)) - (uint64_t)lo;
		default: return (uint64_t)(two ? g.NextUInt64(mx, (uint64_t)lo) : g.NextUInt64(mx)) - (uint64_t)lo;
		} };
	std::ostringstream o; o << T[type] << " from " << lo << ", " << width << " values" << (two ? "" : ", one bound"); c.desc << o.str(); const int N = 3000; std::vector<int> n(cells);
	for (int i = 0; i < N; ++i) { uint64_t x = draw(); if (!two && x == width) { fail(o.str() + ": a single bound was returned, which the other calls exclude"); } require(x < width, o.str() + ": out of range"); ++n[(size_t)(wide ? std::min<uint64_t>((uint64_t)cells - 1, x / (width / cells)) : x)]; }
	double e = (double)N / cells, sd = std::sqrt(e * (1 - 1.0 / cells)); for (int i = 0; i < cells; ++i) { require(std::fabs(n[i] - e) < 9 * sd, o.str() + fmt(": cell %d of %d was drawn %d times of %d", i, cells, n[i], N)); }
	c.tag(T[type]); c.tag(two ? "two bounds" : "one bound"); c.nontrivial();
}
