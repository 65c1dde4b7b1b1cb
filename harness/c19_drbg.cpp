// C19: the deterministic generators against models of their constructions
// LIBS: -lcrypto
#include "pbt.h"
#include "cexutil.h"
#include "modes.h"
#include "drbgmodel.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "DrbgFromName.h"
#include "SHA2256.h"
#include "SHA2512.h"
using namespace CEX; using namespace CEX::Enumeration; using namespace CEX::Drbg;
enum Kind { BCGK, CSG128, CSG256, CSG512, HCG256, HCG512, KINDS };
static const char* NAMES[] = { "BCG", "CSG-SHAKE128", "CSG-SHAKE256", "CSG-SHAKE512", "HCG-SHA2256", "HCG-SHA2512" };
static const size_t RATES[] = { 0, 168, 136, 72 };
static const ShakeModes MODES[] = { ShakeModes::None, ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512 };
struct Gen
{
	Kind k; bool provided = false, borrowed = false, gone = false; std::unique_ptr<Digest::IDigest> dgt; std::unique_ptr<DetProvider> prov, mine; std::unique_ptr<DrbgBase> g; std::unique_ptr<DrbgModel> m; bool live = false;
	~Gen() { g.reset(); }
};
static void make(pbt::Case& c, Gen& x)
{
	x.k = (Kind)c.u(0, KINDS - 1); x.provided = c.flip(); int how = (int)c.u(0, 3);
	if (x.provided) { uint64_t s = c.u(0, 1000000); x.prov.reset(new DetProvider(s)); x.prov->gone = &x.gone; x.mine.reset(new DetProvider(s)); }
	if (x.k == BCGK) { x.m.reset(new BcgModel()); x.g.reset(x.provided ? new BCG(x.prov.get(), c.flip()) : new BCG(Providers::None, c.flip())); }
	else if (x.k <= CSG512) { x.m.reset(new CsgModel(RATES[x.k])); x.g.reset(x.provided ? new CSG(MODES[x.k], x.prov.get(), c.flip()) : new CSG(MODES[x.k], Providers::None, c.flip())); }
	else
	{
		bool b = x.k == HCG512; x.m.reset(new HcgModel(b));
		if (x.provided || how == 0) { if (b) { x.dgt.reset(new Digest::SHA2512()); } else { x.dgt.reset(new Digest::SHA2256()); } x.g.reset(new HCG(x.dgt.get(), x.provided ? x.prov.get() : nullptr)); x.borrowed = true; }
		else { x.g.reset(new HCG(b ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256, Providers::None)); }
		same(x.g->Name(), std::string(NAMES[x.k]), "HCG: name");
	}
	x.m->prov = x.mine.get(); c.tag(NAMES[x.k]); c.desc << (std::string(NAMES[x.k]) + (x.provided ? " with a provider" : "")) << "; ";
	if (x.provided) { if (c.chance(3, 4)) { x.m->threshold = c.u(1, 600); } x.g->ReseedThreshold() = x.m->threshold; }
	if (x.k == BCGK) { c.desc << (set_parallel(c, *(BCG*)x.g.get())) << "; "; }
}
static void init(pbt::Case& c, Gen& x)
{
	Bytes key, iv, info;
	if (x.k == BCGK) { static const size_t K[] = { 32, 64, 128 }; key = c.bytes(K[c.u(0, 2)]); iv = c.bytes(32); if (c.chance(1, 3)) { size_t n = c.u(1, 16); std::fill(iv.begin(), iv.begin() + n, 0xFF); iv[0] = (uint8_t)(256 - c.u(1, 90)); c.tag("counter carries"); } if (c.flip()) { info = c.bytes(c.len(200, { 16, 100, 117, 118, 119, 120 })); } }
	else if (x.k <= CSG512) { size_t r = RATES[x.k]; key = c.bytes(16 + c.len(400, { r - 16, r - 17, r - 15, 2 * r - 16 })); if (c.flip()) { iv = c.bytes(c.len(300, { r, r - 4, r - 5, r - 6 })); } if (c.flip()) { info = c.bytes(c.len(420, { r - 4, r - 5, r - 6, r - 7, r - 3, 2 * r - 4, 2 * r - 5, 2 * r - 6 })); } }
	else { size_t b = x.k == HCG256 ? 64 : 128; key = c.bytes(16 + c.len(200, { b - 16, b - 15, b - 17 })); if (c.flip()) { iv = c.bytes(c.len(16, { 8, 7, 1 })); if (c.flip()) { std::fill(iv.begin(), iv.end(), 0xFF); } } if (c.flip()) { info = c.bytes(c.len(300, { 8, 40 })); } }
	c.desc << (fmt("key %zu iv %zu info %zu", key.size(), iv.size(), info.size())) << "; ";
	auto kp = mkkey(c, key, iv, info); x.g->Initialize(*kp); x.m->init(key, iv, info); x.live = true; require(x.g->IsInitialized(), "IsInitialized after Initialize");
}
static void request(pbt::Case& c, Gen& x, size_t n)
{
	Bytes exp = x.m->generate(n), got; size_t off = 0, after = 0;
	if (c.flip()) { off = c.u(0, 40); after = c.u(0, 40); }
	auto run = [&](auto& o) { for (size_t i = 0; i < o.size(); ++i) { o[i] = (uint8_t)(0xA5 ^ i); } if (off == 0 && after == 0) { x.g->Generate(o); } else { x.g->Generate(o, off, n); } got = Bytes(o.begin(), o.end()); };
	if (c.flip()) { std::vector<uint8_t> o(off + n + after); run(o); } else { SecureVector<uint8_t> o(off + n + after); run(o); }
	require_eq(ref::sub(got, off, n), exp, std::string(NAMES[x.k]) + ": output of a request"); for (size_t i = 0; i < got.size(); ++i) { if (i < off || i >= off + n) { require(got[i] == (uint8_t)(0xA5 ^ i), "a request wrote outside of its range"); } }
	if (x.provided) { same(x.prov->given.size(), x.mine->given.size(), std::string(NAMES[x.k]) + ": bytes taken from the entropy provider"); }
}
static void update(pbt::Case& c, Gen& x)
{
	static const size_t B[] = { 32, 64, 128 }; size_t n = x.k == BCGK ? B[c.u(0, 2)] : x.k <= CSG512 ? 16 + c.len(300, { RATES[x.k] - 16, RATES[x.k] - 17 }) : x.k == HCG256 ? 32 + c.len(100) : 64 + c.len(100);
	Bytes k = c.bytes(n); if (c.flip()) { x.g->Update(k); } else { x.g->Update(sec(k)); } x.m->update(k); c.desc << (fmt("update %zu", n)) << "; "; c.tag("update");
}
PROP(history, 30000, 400000)
{
	world(c); Gen x; make(c, x);
	if (c.chance(1, 20)) { std::vector<uint8_t> o(c.u(1, 40)); require(throws([&] { x.g->Generate(o); }), "a generator that is not initialised was used"); }
	init(c, x); size_t ops = c.u(1, 8), made = 0; bool big = false;
	for (size_t i = 0; i < ops; ++i)
	{
		size_t what = c.u(0, 9);
		if (what == 0) { init(c, x); c.tag("initialised again"); }
		else if (what == 1) { update(c, x); }
		else
		{
			size_t n = c.len(600, { 16, 31, 32, 33, 36, 64, 72, 136, 168, 256, 512 });
			if (x.k == BCGK && !big && c.chance(1, 6)) { size_t pb = ((BCG*)x.g.get())->ParallelBlockSize(); n = pb + c.len(200, { 0, 1, 32 }); if (n > 200000) { n = 200000; } big = true; c.tag("parallel size"); }
			else if (c.chance(1, 20)) { n = c.u(600, 5000); }
			c.desc << (fmt("request %zu", n)) << "; "; request(c, x, n); made += n;
		}
	}
	if (x.m->reseeds) { c.tag("reseeded"); }
	x.g.reset(); require(!x.gone, "a generator destroyed the provider of its caller"); if (made > 0) { c.nontrivial(); }
}
// the number of reseeds is limited, and starts again with a new key
PROP(limit, 40, 400)
{
	world(c); Gen x; do { x.provided = true; uint64_t s = c.u(0, 1000); x.prov.reset(new DetProvider(s)); x.mine.reset(new DetProvider(s)); x.k = (Kind)c.u(0, KINDS - 1); } while (false);
	if (x.k == BCGK) { x.m.reset(new BcgModel()); x.g.reset(new BCG(x.prov.get())); } else if (x.k <= CSG512) { x.m.reset(new CsgModel(RATES[x.k])); x.g.reset(new CSG(MODES[x.k], x.prov.get())); }
	else { x.m.reset(new HcgModel(x.k == HCG512)); if (x.k == HCG512) { x.dgt.reset(new Digest::SHA2512()); } else { x.dgt.reset(new Digest::SHA2256()); } x.g.reset(new HCG(x.dgt.get(), x.prov.get())); }
	x.m->prov = x.mine.get(); x.g->ReseedThreshold() = 1; x.m->threshold = 1; init(c, x); size_t done = 0, max = x.g->MaxReseedCount(); same(max, (size_t)10000, "MaxReseedCount"); std::vector<uint8_t> o(1); c.tag(NAMES[x.k]);
	bool up = c.flip(); Bytes k = c.bytes(x.k == BCGK ? 32 : 64); size_t ups = 0;
	try { for (; done < max + 5; ++done) { if (up && done % 3 == 1) { x.g->Update(k); ++ups; } else { x.g->Generate(o); } } } catch (const CEX::Exception::CryptoException&) {}
	same(done, max, std::string(NAMES[x.k]) + ": reseeds before the generator refuses to go on");
	x.prov->given.clear(); x.mine->r = x.prov->r; x.mine->given.clear(); x.g->ReseedThreshold() = 50; x.m->threshold = 50; init(c, x); for (int i = 0; i < 5; ++i) { request(c, x, c.len(100)); } c.nontrivial();
}
// the same history gives the same output on every machine: the generators of two worlds, and those of the name helper
PROP(same, 4000, 60000)
{
	world(c); static const Drbgs D[] = { Drbgs::BCG, Drbgs::CSG, Drbgs::HCG }; Drbgs d = D[c.u(0, 2)];
	std::unique_ptr<IDrbg> a(Helper::DrbgFromName::GetInstance(d)); std::unique_ptr<DrbgModel> m; Bytes key, iv, info = c.bytes(c.len(60));
	require(a->Enumeral() == d, "DrbgFromName returns another generator");
	if (d == Drbgs::BCG) { m.reset(new BcgModel()); key = c.bytes(32); iv = c.bytes(32); } else if (d == Drbgs::CSG) { m.reset(new CsgModel(136)); key = c.bytes(32); iv = c.bytes(c.len(40)); } else { bool b = a->Name() == "HCG-SHA2512"; m.reset(new HcgModel(b)); key = c.bytes(b ? 64 : 32); iv = c.bytes(8); }
	auto kp = mkkey(c, key, iv, info); a->Initialize(*kp); m->init(key, iv, info); size_t n = c.len(3000, { 32, 2048 }); std::vector<uint8_t> o(n); a->Generate(o); require_eq(o, m->generate(n), "output of a generator made by name"); c.tag(a->Name()); if (n) { c.nontrivial(); }
}
