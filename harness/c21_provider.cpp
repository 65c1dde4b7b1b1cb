// C21: entropy providers over simulated devices, clocks and system tables
// LIBS: -lcrypto
#include "pbt.h"
#include "cexutil.h"
#include "ACP.h"
#include "CJP.h"
#include "CSP.h"
#include "ECP.h"
#include "RDP.h"
#include "ProviderFromName.h"
#include "ProviderSelfTest.h"
#include <set>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
// the time of day is a source of the collectors too: it stands still while two machines are compared
static bool g_freeze = false; static int64_t g_ns = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept { if (g_freeze) { g_ns += 1000; ts->tv_sec = 1700000000 + g_ns / 1000000000; ts->tv_nsec = g_ns % 1000000000; return 0; } return (int)syscall(SYS_clock_gettime, id, ts); }
struct Freeze { Freeze() { g_freeze = true; } ~Freeze() { g_freeze = false; } };
using namespace CEX; using namespace CEX::Enumeration; using Provider::IProvider;
enum Kind { ACPK, CSPK, ECPK, RANDK, SEEDK, CJPK };
static const char* NM[] = { "ACP", "CSP", "ECP", "RDP(rdrand)", "RDP(rdseed)", "CJP" };
static bool statics_rd, statics_tsc; static struct Statics { Statics() { statics_rd = vf::W->cpu_rdrand; statics_tsc = vf::W->cpu_rdtscp; } } g_statics;
struct Setup { uint64_t csp, rd, sys, clock; void apply() const { g_ns = 0; auto* w = vf::W; auto cpu = *w; vf::reset_world(1); w = vf::W; w->cpu_rdrand = cpu.cpu_rdrand; w->cpu_rdseed = cpu.cpu_rdseed; w->cpu_rdtscp = cpu.cpu_rdtscp; w->cores = cpu.cores; w->hyperthread = cpu.hyperthread; w->csp_state = csp; w->rd_state = rd; w->sys_state = sys; w->clock = clock; } };
static Setup setup(pbt::Case& c) { return Setup{ c.u(1, 1000000), c.u(1, 1000000), c.u(1, 1000000), c.u(1, 1000000) }; }
static Kind kind(pbt::Case& c) { if (statics_tsc && c.chance(1, 8)) { return CJPK; } return (Kind)c.u(0, 4); }
static bool available(Kind k) { return k == CJPK ? statics_tsc : k >= RANDK && k <= SEEDK ? vf::W->cpu_rdrand || vf::W->cpu_rdseed : true; }
static IProvider* mk(Kind k, bool byname)
{
	switch (k)
	{
	case ACPK: return byname ? Helper::ProviderFromName::GetInstance(Providers::ACP) : new Provider::ACP();
	case CSPK: return byname ? Helper::ProviderFromName::GetInstance(Providers::CSP) : new Provider::CSP();
	case ECPK: return byname ? Helper::ProviderFromName::GetInstance(Providers::ECP) : new Provider::ECP();
	case RANDK: return byname && vf::W->cpu_rdrand ? Helper::ProviderFromName::GetInstance(Providers::RDP) : new Provider::RDP(DrandEngines::RdRand);
	case SEEDK: return new Provider::RDP(DrandEngines::RdSeed);
	default: return byname && vf::W->cpu_rdtscp ? Helper::ProviderFromName::GetInstance(Providers::CJP) : new Provider::CJP();
	}
}
struct Op { int what; size_t n, off, after; bool secure, whole; };
struct Res { bool thrown = false; Bytes out; };
static std::vector<Op> plan(pbt::Case& c, Kind k, size_t maxops) { std::vector<Op> v; size_t big = k == CJPK ? 40 : 700; for (size_t i = 0, e = c.u(1, maxops); i < e; ++i) { Op o{ (int)c.u(0, 11), c.len(big, { 1, 7, 8, 9, 16, 64 }), 0, 0, c.flip(), c.flip() }; if (!o.whole) { o.off = c.u(0, 30); o.after = c.u(0, 30); } v.push_back(o); } return v; }
static Res apply(IProvider& p, const Op& o, uint8_t fill, const std::string& w)
{
	Res r; size_t n = o.n;
	try
	{
		if (o.what == 0) { uint16_t x = p.NextUInt16(); r.out = Bytes{ (uint8_t)x, (uint8_t)(x >> 8) }; return r; }
		if (o.what == 1) { uint32_t x = p.NextUInt32(); r.out.resize(4); ref::ple(&r.out[0], x, 4); return r; }
		if (o.what == 2) { uint64_t x = p.NextUInt64(); r.out.resize(8); ref::ple(&r.out[0], x, 8); return r; }
		if (o.what == 3) { p.Reset(); return r; }
		auto run = [&](auto& v) { for (auto& b : v) { b = fill; } if (o.whole) { p.Generate(v); } else { p.Generate(v, o.off, n); } r.out = Bytes(v.begin() + o.off, v.begin() + o.off + n); for (size_t i = 0; i < v.size(); ++i) { if (i < o.off || i >= o.off + n) { require(v[i] == fill, w + ": wrote outside of the requested range"); } } };
		if (o.secure) { SecureVector<uint8_t> v(o.off + n + o.after); run(v); } else { std::vector<uint8_t> v(o.off + n + o.after); run(v); }
	}
	catch (CEX::Exception::CryptoException&) { r.thrown = true; }
	return r;
}
// the requests of a history on two machines that give the same entropy, into buffers with different content
static std::vector<Res> twice(pbt::Case& c, Kind k, bool byname, const Setup& s, const std::vector<Op>& ops, const std::function<void(size_t)>& fault, bool& ctor)
{
	Freeze fz; std::vector<Res> r[2]; bool ct[2] = { false, false }; Bytes rec; std::string w = NM[k];
	for (int t = 0; t < 2; ++t)
	{
		s.apply(); fault(0); vf::W->on_random = [&](const uint8_t* p, size_t n) { rec.insert(rec.end(), p, p + n); }; std::unique_ptr<IProvider> p;
		try { p.reset(mk(k, byname)); } catch (CEX::Exception::CryptoException&) { ct[t] = true; }
		if (!ct[t])
		{
			same(p->IsAvailable(), available(k), w + ": IsAvailable");
			for (size_t i = 0; i < ops.size(); ++i)
			{
				fault(i + 1); rec.clear(); Res x = apply(*p, ops[i], t ? 0x5C : 0xA3, w); if (!x.thrown && !available(k) && ops[i].what != 3) { fail(w + ": gave output although it is not available"); }
				// the devices: what was returned is what the device gave last
				if (!x.thrown && (k == CSPK || k == RANDK || k == SEEDK) && x.out.size()) { size_t len = k == CSPK ? x.out.size() : (x.out.size() + 7) / 8 * 8; require(rec.size() >= len, w + ": returned more bytes than the device gave"); require_eq(x.out, ref::sub(rec, rec.size() - len, x.out.size()), w + ": bytes of the device"); }
				r[t].push_back(x);
			}
		}
		vf::W->on_random = nullptr;
	}
	same(ct[0], ct[1], w + ": construction on equal machines"); size_t flagged = 0;
	for (size_t i = 0; i < r[0].size(); ++i)
	{
		const Bytes &x = r[0][i].out, &y = r[1][i].out; same(r[0][i].thrown, r[1][i].thrown, w + ": a request on equal machines");
		if (k != ACPK && k != ECPK) { require_eq(y, x, w + ": output of equal machines depends on the previous content of the buffer"); continue; }
		// these also collect addresses of the process, so the output of equal machines can differ: look for bytes that keep the content of the buffer
		if (ops[i].what > 3) { size_t run = 0; for (size_t j = 0; j < x.size(); ++j) { if (x[j] == 0xA3 && y[j] == 0x5C) { ++flagged; require(++run < 4, w + ": bytes of the request were not written"); } else { run = 0; } } }
	}
	require(flagged < 5, w + ": bytes of several requests were not written");
	ctor = ct[0]; return r[0];
}
static void describe(pbt::Case& c, Kind k, const std::vector<Op>& ops) { c.desc << NM[k] << " requests:"; for (auto& o : ops) { c.desc << " " << (o.what < 4 ? "-" : "") << (o.what < 4 ? o.what : (int)o.n); } c.tag(NM[k]); }
static void distinct(const std::vector<Res>& r, const std::string& w)
{
	std::set<Bytes> seen; for (auto& x : r) { for (size_t i = 0; i + 8 <= x.out.size(); i += 8) { require(seen.insert(ref::sub(x.out, i, 8)).second, w + ": the same eight bytes were returned twice"); } }
}
PROP(fill, 6000, 80000)
{
	Kind k = kind(c); if (k == CJPK && !c.chance(1, 4)) { k = ECPK; } world(c); Setup s = setup(c); auto ops = plan(c, k, k == CJPK ? 3 : 8); describe(c, k, ops); bool ctor; auto r = twice(c, k, c.flip(), s, ops, [](size_t) {}, ctor);
	if (available(k)) { require(!ctor, std::string(NM[k]) + ": cannot be constructed"); for (auto& x : r) { require(!x.thrown, std::string(NM[k]) + ": a request failed although every source works"); } } distinct(r, NM[k]); if (available(k)) { c.nontrivial(); }
}
// cpus without the instructions, sources that fail for ever, for a while, or give the same word again
PROP(faults, 8000, 100000)
{
	Kind k = kind(c); if (k == CJPK && !c.chance(1, 4)) { k = CSPK; } std::string w = NM[k]; Setup s = setup(c); auto ops = plan(c, k, k == CJPK ? 2 : 6); describe(c, k, ops);
	int what = (int)c.u(0, 6); size_t when = c.u(0, ops.size()); int after = (int)c.u(0, 6), count = c.flip() ? -1 : c.pick<int>({ 1, 5, 9, 10, 11, 30, 999, 1000, 1001 }); bool heals = c.flip();
	static const char* F[] = { "acquire fails", "the device fails at a call", "null handle", "rdrand fails", "rdrand is stuck", "system calls fail", "the clock stands still" }; c.tag(F[what]); c.desc << "; " << F[what] << " from request " << when << (heals ? ", for one request" : ""); vf::W->cpu_rdseed = k == SEEDK; 
	auto fault = [&](size_t i) {
		auto* w = vf::W; if (i < when) { return; } bool on = i == when || !heals; if (what == 3) { c.desc << ""; }
		switch (what)
		{
		case 0: w->csp_acquire_fail = on; break;
		case 1: w->csp_fail_after = on ? w->csp_calls + (i == when ? after % 3 : 0) : -1; break;
		case 2: w->csp_null_handle = on; break;
		case 3: if (on) { w->rd_fail_after = w->rd_calls + (i == when ? after : 0); w->rd_fail_count = count; } else { w->rd_fail_after = -1; } break;
		case 4: w->rd_stuck = on; break;
		case 5: w->sys_fail = on; break;
		default: w->clock_step = on ? 0 : 7; break;
		} };
	bool ctor; auto r = twice(c, k, c.flip(), s, ops, fault, ctor); c.nontrivial();
	// what has to be reported: a device that gives nothing during a request
	bool devfail = (k == CSPK && (what == 0 || what == 2 || (what == 1 && after % 3 == 0))) || ((k == RANDK || k == SEEDK) && what == 3 && after == 0 && count == -1);
	for (size_t i = 0; i < r.size(); ++i)
	{
		bool need = ops[i].what != 3 && (ops[i].what < 3 || ops[i].n != 0); bool on = i + 1 == when || (!heals && i + 1 > when);
		if (available(k) && devfail && need && on) { require(r[i].thrown, w + ": a request succeeded while the device gives nothing"); }
		if (available(k) && !on && (i + 1 < when) && !ctor) { require(!r[i].thrown, w + ": a request failed before the source did"); }
		if ((k == RANDK || k == SEEDK) && available(k) && what == 3 && i + 1 == when && count > 0 && heals) { int lim = k == RANDK || !vf::W->cpu_rdseed ? 10 : 1000; if (need && count >= lim && after == 0) { require(r[i].thrown, w + fmt(": %d failures in a row were not reported", count)); } if (count < lim) { require(!r[i].thrown, w + fmt(": %d failures in a row, fewer than the retries, were reported as an error", count)); c.tag("retries succeed"); } }
		if ((k == RANDK || k == SEEDK) && available(k) && what == 4 && !heals && i + 1 > when && need && when > 0 && ops[i].what != 3) { bool before = false; for (size_t j = when - 1; j < i; ++j) { before = before || (ops[j].what != 3); } if (before) { require(r[i].thrown, w + ": a generator that repeats its sample was not reported"); } }
	}
	// after the fault no stale output: blocks are distinct, except those of a stuck device within its first request
	if (what != 4 || (k != RANDK && k != SEEDK)) { distinct(r, w); }
}
// a cpu generator that refuses a few times before each word, fewer than the retries: every request is served, and with the words of the device
PROP(flaky, 1500, 30000)
{
	Kind k = c.flip() ? RANDK : SEEDK; if (!statics_rd) { c.discard(); } world(c); Setup s = setup(c); auto ops = plan(c, k, 6); describe(c, k, ops); vf::W->cpu_rdrand = true; vf::W->cpu_rdseed = k == SEEDK; std::vector<int> m; for (size_t i = 0; i <= ops.size(); ++i) { m.push_back(k == RANDK ? (int)c.u(0, 9) : c.pick<int>({ 0, 1, 9, 10, 20, 50 })); }
	if (k == SEEDK && c.chance(1, 50)) { m[0] = 999; }
	c.desc << "; refusals before each word:"; for (int x : m) { c.desc << " " << x; } bool ctor; auto r = twice(c, k, false, s, ops, [&](size_t i) { vf::W->rd_flaky = m[i]; vf::W->rd_flaky_left = 0; }, ctor);
	require(!ctor, std::string(NM[k]) + ": construction failed although every word comes within the retries"); size_t words = 0; for (size_t i = 0; i < r.size(); ++i) { require(!r[i].thrown, std::string(NM[k]) + fmt(": a request failed although every word comes after %d refusals", m[i + 1])); words += m[i + 1] ? r[i].out.size() / 8 : 0; } distinct(r, NM[k]); c.nontrivial(words > 1);
}
// a provider that collects from several sources depends on each of them
PROP(sources, 3000, 40000)
{
	Freeze fz; Kind k = c.flip() ? ACPK : ECPK; Setup a = setup(c), b = a; static const char* S[] = { "", "csp", "rdrand", "system state" }; int what = (int)c.u(1, 3); if (what == 2 && (k == ECPK || !statics_rd)) { what = 1; }
	if (what == 1) { b.csp ^= 1ULL << c.u(0, 40); } else if (what == 2) { b.rd ^= 1ULL << c.u(0, 40); } else if (what == 3) { b.sys ^= 1ULL << c.u(0, 40); }
	c.desc << NM[k] << ": other " << S[what]; c.tag(S[what]); c.tag(NM[k]); Bytes o[2]; for (int t = 0; t < 2; ++t) { (t ? b : a).apply(); std::unique_ptr<IProvider> p(mk(k, false)); o[t].resize(32); p->Generate(o[t]); }
	require(o[0] != o[1], std::string(NM[k]) + " does not depend on the source: " + S[what]); c.nontrivial();
}
// a reset collects again
PROP(reset, 1500, 20000)
{
	Freeze fz; Kind k = c.flip() ? ACPK : ECPK; Setup a = setup(c); a.apply(); std::unique_ptr<IProvider> p(mk(k, false)), q; a.apply(); q.reset(mk(k, false)); Bytes x(32), y(32); p->Generate(x); q->Generate(y); q->Reset(); p->Generate(x); q->Generate(y); require(x != y, std::string(NM[k]) + ": a reset did not change the state"); c.tag(NM[k]); c.nontrivial();
}
// the continuous self test: a sample that equals the one before fails
PROP(selftest, 20000, 200000)
{
	Provider::ProviderSelfTest t; Bytes last(8, 0); for (size_t i = 0, n = c.u(1, 10); i < n; ++i) { Bytes s = c.chance(1, 3) ? last : c.bytes(8); if (c.chance(1, 3)) { s = last; s[c.u(0, 7)] ^= (uint8_t)(1 << c.u(0, 7)); } SecureVector<uint8_t> v = sec(s); bool ok = t.SelfTest(v); same(ok, s != last, "continuous self test"); for (auto b : v) { require(b == 0, "the sample was not cleared"); } last = s; } c.nontrivial();
}
