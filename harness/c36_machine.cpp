// LIBS: -lcrypto
// C36: on every processor the library sees the features the processor has, and its default objects work there
#include "anyobj.h"
#include "CpuDetect.h"
#include "ParallelOptions.h"
#include "TSX256.h"
using namespace any;
typedef std::array<unsigned, 4> Regs;
// a processor made of random registers
struct Machine
{
	std::map<std::pair<int, int>, Regs> leaf; unsigned top; std::string vendor;
	void draw(pbt::Case& c)
	{
		vendor = c.pick<std::string>({ "GenuineIntel", "AuthenticAMD", "GenuineIntel", "AuthenticAMD", "HygonGenuine", "CentaurHauls", "KVMKVMKVM\0\0\0", "VIA VIA VIA " }); vendor.resize(12);
		top = c.pick<unsigned>({ 0x16, 0x16, 0x20, 0xd, 7, 5, 4, 1, 0x15 });
		for (int l : { 0, 1, 2, 3, 4, 7, 0x16, (int)0x80000001, (int)0x80000005, (int)0x80000006 })
		{
			Regs r; unsigned how = (unsigned)c.u(0, 4); for (auto& x : r) { x = how == 0 ? 0 : how == 1 ? ~0u : (unsigned)c.u(0, 0xFFFFFFFFull); if (how == 2) { x = 1u << (x & 31); } if (how == 3) { x = ~(1u << (x & 31)); } }
			if (l == 0) { r[0] = top; memcpy(&r[1], &vendor[0], 4); memcpy(&r[3], &vendor[4], 4); memcpy(&r[2], &vendor[8], 4); }
			if (l == (int)0x80000006 && c.flip()) { r[2] = (unsigned)(c.pick<unsigned>({ 256, 512, 1024, 2048, 0 }) << 16 | c.u(0, 15) << 12 | c.pick<unsigned>({ 64, 0, 32, 128, 64 })); }
			leaf[{ l, 0 }] = r;
		}
		vf::W->on_cpuid = [this](int l, int s, unsigned* r) { auto it = leaf.find({ l, s }); Regs z{ 0xFFFFFFFF, 0xA5A5A5A5, 0x5A5A5A5A, 0xFFFFFFFF }; const Regs& x = it == leaf.end() ? z : it->second; std::copy(x.begin(), x.end(), r); };
		vf::W->cores = (unsigned)(c.flip() ? c.u(0, 9) : c.pick<int>({ 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384 }));
	}
	bool bit(int l, int reg, int n) const { return leaf.at({ l, 0 })[reg] >> n & 1; }
};
// the features, by the published layout of CPUID
PROP(detect, 60000, 2000000)
{
	Machine m; m.draw(c); vf::W->xcr0 = c.pick<uint64_t>({ 7, 3, 1, 0xE7, 0xE3, 5, 2, 6, 0x1F }); c.desc << m.vendor.substr(0, 12) << " levels " << m.top << " cores " << vf::W->cores; c.nontrivial(m.top >= 7); c.tag(fmt("levels %u", m.top));
	CpuDetect d; struct F { const char* n; bool got; int l, reg, bit; };
	std::vector<F> fs = { { "SSE2", d.SSE2(), 1, 3, 26 }, { "SSE3", d.SSE3(), 1, 2, 0 }, { "CMUL", d.CMUL(), 1, 2, 1 }, { "SSSE3", d.SSSE3(), 1, 2, 9 }, { "SSE41", d.SSE41(), 1, 2, 19 }, { "SSE42", d.SSE42(), 1, 2, 20 }, { "AESNI", d.AESNI(), 1, 2, 25 }, { "AVX", d.AVX(), 1, 2, 28 }, { "RDRAND", d.RDRAND(), 1, 2, 30 }, { "HyperThread", d.HyperThread(), 1, 3, 28 }, { "IsX86Emulation", d.IsX86Emulation(), 1, 3, 30 },
		{ "AVX2", d.AVX2(), 7, 1, 5 }, { "BMI2", d.BMT2(), 7, 1, 8 }, { "RTM", d.RTM(), 7, 1, 11 }, { "PQM", d.PQM(), 7, 1, 12 }, { "MPX", d.MPX(), 7, 1, 14 }, { "PQE", d.PQE(), 7, 1, 15 }, { "AVX512F", d.AVX512F(), 7, 1, 16 }, { "RDSEED", d.RDSEED(), 7, 1, 18 }, { "ADX", d.ADS(), 7, 1, 19 }, { "SMAP", d.SMAP(), 7, 1, 20 }, { "SHA", d.SHA(), 7, 1, 29 }, { "PREFETCH", d.PREFETCH(), 7, 2, 0 },
		{ "ABM", d.ABM(), (int)0x80000001, 2, 5 }, { "SSE4A", d.SSE4A(), (int)0x80000001, 2, 6 }, { "XOP", d.XOP(), (int)0x80000001, 2, 11 }, { "FMA4", d.FMA4(), (int)0x80000001, 2, 16 }, { "RDTSCP", d.RDTSCP(), (int)0x80000001, 3, 27 }, { "X64", d.IsX64(), (int)0x80000001, 3, 29 } };
	for (auto& f : fs)
	{
		bool has = m.bit(f.l, f.reg, f.bit), read = f.l == 1 || m.top >= 7; if (f.l == 7 && m.top < 7) { has = false; read = true; }
		require(f.got == has || (!f.got && !read), fmt("%s is reported as %s, cpuid says %s (levels %u)", f.n, f.got ? "present" : "missing", has ? "present" : "missing", m.top));
	}
	bool os = m.bit(1, 2, 27) && m.bit(1, 2, 28) && (vf::W->xcr0 & 6) == 6; c.tag(os ? "AVX usable" : "AVX not usable");
	same(d.AvxEnabled(), os, fmt("AvxEnabled, xcr0 %x", (unsigned)vf::W->xcr0)); same(d.Avx2Enabled(), os, fmt("Avx2Enabled, xcr0 %x", (unsigned)vf::W->xcr0));
	auto want = m.vendor.find("Intel") != std::string::npos ? CpuDetect::CpuVendors::INTEL : m.vendor.find("AMD") != std::string::npos ? CpuDetect::CpuVendors::AMD : CpuDetect::CpuVendors::UNKNOWN;
	require(d.Vendor() == want, "Vendor of " + m.vendor);
	size_t v = std::max<size_t>(vf::W->cores, 1), ph = m.bit(1, 3, 28) && v > 1 ? v / 2 : v;
	same(d.VirtualCores(), v, "VirtualCores"); same(d.PhysicalCores(), ph, "PhysicalCores"); same(d.LogicalPerCore(), v / ph, "LogicalPerCore");
	require(d.L1CacheSize() > 0 && d.L1CacheLineSize() > 0 && d.L1CacheTotal() >= d.L1CacheSize() && d.L1DataCacheTotal() > 0, "cache sizes");
	if (m.top >= 0x16) { same(d.FrequencyBase(), (size_t)m.leaf[{ 0x16, 0 }][0], "FrequencyBase"); same(d.FrequencyMax(), (size_t)m.leaf[{ 0x16, 0 }][1], "FrequencyMax"); same(d.BusRefFrequency(), (size_t)m.leaf[{ 0x16, 0 }][2], "BusRefFrequency"); }
}
// the parallel profile keeps its promises under every sequence of settings
PROP(profile, 40000, 1500000)
{
	Machine m; m.draw(c); size_t bs = c.pick<size_t>({ 16, 64, 128, 32, 72, 136, 144, 256 }), res = c.pick<size_t>({ 0, 2048, 5120, 1024 }), deg = c.pick<size_t>({ 0, 8, 1, 2, 4, 16, 3 }); bool mul = c.flip(), split = c.flip(); int how = (int)c.u(0, 2);
	c.desc << "cores " << vf::W->cores << (m.bit(1, 3, 28) ? " ht" : "") << " block " << bs << " reserved " << res << " degree " << deg << (mul ? " simd" : "") << (split ? " split" : "") << " constructor " << how;
	bool par = c.flip(); size_t pbs = c.pick<size_t>({ 0, 1, 4096, 65536, 1000 }); std::unique_ptr<ParallelOptions> p;
	switch (how) { case 0: p.reset(new ParallelOptions(bs, mul, res, split, deg)); break; case 1: p.reset(new ParallelOptions(bs, par, mul, res, split, deg)); break; default: p.reset(new ParallelOptions(bs, par, pbs, deg, mul, res, split)); }
	size_t v = std::max<size_t>(vf::W->cores, 1), cpus = v > 1 ? v & ~(size_t)1 : v, lanes = mul ? 8 : 1, want = deg == 0 || deg > cpus ? cpus : deg; bool def = true;
	auto good = [&](const std::string& when)
	{
		same(p->BlockSize(), bs, when + ": BlockSize"); same(p->ParallelMaxDegree(), want, when + ": ParallelMaxDegree"); same(p->ParallelMinimumSize(), want * bs * lanes, when + ": ParallelMinimumSize");
		require(p->ParallelMinimumSize() > 0 && p->ParallelBlockSize() % p->ParallelMinimumSize() == 0, when + fmt(": block size %zu, minimum %zu", p->ParallelBlockSize(), p->ParallelMinimumSize()));
		require(p->ProcessorCount() >= 1 && p->PhysicalCores() >= 1, when + ": no processor");
		if (p->IsParallel() && !(how == 1 && def)) { require(p->ParallelBlockSize() >= p->ParallelMinimumSize(), when + fmt(": parallel with a block size of %zu, minimum %zu", p->ParallelBlockSize(), p->ParallelMinimumSize())); }
	};
	good("new");
	{
		CpuDetect d; same(p->HasPrefetch(), d.PREFETCH(), "HasPrefetch"); same(p->HasSHA2(), d.SHA(), "HasSHA2"); same(p->HasSimd128(), d.AVX(), "HasSimd128"); same(p->HasSimd256(), d.AVX2(), "HasSimd256"); same(p->HasSimd512(), d.AVX512F(), "HasSimd512"); same(p->VirtualCores(), d.VirtualCores(), "VirtualCores");
		require(p->SimdProfile() == (d.AVX512F() ? SimdProfiles::Simd512 : d.AVX2() ? SimdProfiles::Simd256 : d.AVX() ? SimdProfiles::Simd128 : SimdProfiles::None), "SimdProfile is not the widest the processor has");
		same(p->PhysicalCores(), d.PhysicalCores(), "PhysicalCores"); require(p->ProcessorCount() >= d.PhysicalCores(), "ProcessorCount");
	}
	require(p->IsDefault(), "a new profile is not the default one", ""); if (how == 0) { same(p->IsParallel(), cpus > 1, "parallel by default"); }
	for (int i = 0, n = (int)c.u(0, 6); i < n; ++i)
	{
		def = false; c.nontrivial(true);
		switch (c.u(0, 3))
		{
		case 0: { size_t min = p->ParallelMinimumSize(), s = c.flip() ? min * c.u(1, 9) + c.u(0, 40) : c.u(0, 2 * min); c.desc << " SetBlockSize " << s; if (s < min) { require(throws([&] { p->SetBlockSize(s); }), "a block size below the minimum was accepted"); } else { p->SetBlockSize(s); same(p->ParallelBlockSize(), s - s % min, "SetBlockSize"); } break; }
		case 1: { size_t d = c.u(0, 9); c.desc << " SetMaxDegree " << d; if (d == 0) { require(throws([&] { p->SetMaxDegree(d); }), "degree zero was accepted"); } else { p->SetMaxDegree(d); want = d; } break; }
		case 2: { bool on = c.flip(); size_t b = c.flip() ? 0 : c.u(1, 200000); c.desc << " Calculate " << on << " " << b; p->Calculate(on, b, 0); if (!(want <= cpus)) { want = p->ParallelMaxDegree(); } same(p->IsParallel(), on && cpus > 1, "Calculate: IsParallel"); break; }
		default: { p->IsParallel() = c.flip() && cpus > 1; p->Calculate(p->IsParallel(), p->ParallelBlockSize(), 0); want = p->ParallelMaxDegree(); c.desc << " IsParallel " << p->IsParallel(); break; }
		}
		good("after " + std::to_string(i + 1) + " settings");
	}
}
// a default object works on every machine and computes what it computes on one core
PROP(anywhere, 3000, 100000)
{
	Machine m; int family = (int)c.pick<int>({ F_MODE, F_AEAD, F_STREAM, F_DRBG, F_DIGEST }); bool serial = family == F_DIGEST;
	c.tag(family_name(family));
	int kind = (int)c.u(0, 5); BC bc = c.pick<BC>({ BC::AES, BC::Serpent, BC::AES }); SK sk = (SK)c.u(0, S_COUNT - 1); bool auth = c.flip(); Macs mac = c.pick({ Macs::KMAC256, Macs::HMACSHA2256, Macs::Poly1305 }); bool gcm = c.flip(); DG dg = c.pick(ALL_DIGESTS);
	ParCfg asis; asis.mode = 1; asis.deg = 0; asis.mult = 1; asis.extra = 0; ParCfg off = asis; off.mode = 0;
	auto make = [&](const ParCfg& p) -> Any*
	{
		switch (family) { case F_MODE: return new Mode((ModeKind)kind, bc, 16, false, p); case F_AEAD: return new AeadAny(gcm, bc, mac, false, p); case F_STREAM: return new StreamAny(sk, auth, p); case F_DRBG: return new DrbgAny(kind, p.mode != 0); default: return new DigestAny(dg, false, 0); }
	};
	(void)serial;
	vf::W->cores = 1; std::unique_ptr<Any> a(make(off)); Par par = a->par(c); Call q = a->call(c); c.desc << a->name << " " << q.text;
	a->init(par); Bytes want = a->behave(q, Lay()); a.reset();
	m.draw(c); c.desc << " on " << vf::W->cores << " cores"; c.tag(vf::W->cores > 32 ? "more than 32 cores" : vf::W->cores < 2 ? "0 or 1 core" : "2 to 32 cores"); c.nontrivial(vf::W->cores != 8);
	a.reset(make(asis)); a->init(par); require_eq(a->behave(q, Lay()), want, a->name + " " + q.text + fmt(" on a machine with %u cores", vf::W->cores));
}
// ... and with the parallel block size it gives itself
PROP(parallel, 400, 20000)
{
	Machine m; bool mode = c.flip(); int kind = (int)c.u(0, 5); SK sk = (SK)c.u(0, S_COUNT - 1); bool auth = c.flip(); BC bc = c.pick<BC>({ BC::AES, BC::AES, BC::Serpent, BC::RHXS256 });
	ParCfg asis; asis.mode = 1; asis.deg = 0; asis.mult = 1; asis.extra = 0; ParCfg off = asis; off.mode = 0; size_t pbs = 0; bool on = false;
	auto make = [&](const ParCfg& p) -> Any* { if (mode) { Mode* x = new Mode((ModeKind)kind, bc, 16, false, p); if (kind != M_OFB) { pbs = x->o->ParallelProfile().ParallelBlockSize(); on = x->o->ParallelProfile().IsParallel(); } return x; } StreamAny* x = new StreamAny(sk, auth, p); pbs = x->S->ParallelProfile().ParallelBlockSize(); on = x->S->ParallelProfile().IsParallel(); return x; };
	vf::W->cores = 1; std::unique_ptr<Any> a(make(off)); Par par = a->par(c); Call q = a->call(c);
	m.draw(c); vf::W->cores = (unsigned)c.u(1, 25); std::unique_ptr<Any> b(make(asis)); size_t k = c.u(1, 2), n = on ? pbs * k + (c.flip() ? c.u(0, 300) : 0) - (c.chance(1, 3) ? c.u(0, 300) : 0) : 1000 + c.u(0, 300);
	n = std::max<size_t>(16, mode && kind != M_CTR && kind != M_ICM ? n & ~(size_t)15 : n); q.in = c.random_bytes(n); q.n = n; q.how = 0; c.desc << a->name << " " << n << " bytes on " << vf::W->cores << " cores, parallel block " << (on ? pbs : 0); c.nontrivial(on && n >= pbs); c.tag(on ? "parallel" : "sequential");
	a->init(par); b->init(par); Bytes want = a->behave(q, Lay()), got = b->behave(q, Lay()); require_eq(got, want, a->name + fmt(" of %zu bytes on a machine with %u cores, against one core", n, vf::W->cores));
}
