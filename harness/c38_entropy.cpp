// C38: every source of entropy a collecting provider names reaches what it delivers.
// A pretended machine answers every question about its state. The provider is made and used on the same machine in two
// copies of one process (so that even addresses agree): the outputs must agree, or the oracle could say nothing. Then one
// source alone answers differently: the output must differ.
// LIBS: -lcrypto
#include "pbt.h"
#include "cexutil.h"
#include "ACP.h"
#include "CJP.h"
#include "CSP.h"
#include "ECP.h"
#include "RDP.h"
#include "SystemTools.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace CEX; using namespace pbt; using vf::World;
static const char* SN[World::SOURCES] = { "free disk space", "memory status", "network adapters", "tcp statistics", "processes", "modules", "heap list", "cursor", "computer name", "process id", "thread id", "system info", "user name", "user sid", "user token", "cycle counter", "system time", "time since boot", "system generator", "cpu generator" };
struct Ask { int provider; size_t len; int vec; bool again; };
static const char* PN[] = { "ACP", "ECP", "CSP", "RDP", "CJP" };
// which of them each provider's documentation and code name as its sources
static bool names(int p, int s)
{
	switch (p)
	{
	case 0: return s == World::SMEMORY || s == World::SPROCESS || s == World::SMODULE || s == World::SHEAP || s == World::SCURSOR || s == World::SHOST || s == World::SPID || s == World::STID || s == World::SSYSTEM || s == World::SCLOCK || s == World::STIME || s == World::SBOOT || s == World::SCSP || s == World::SRAND;
	case 1: return s != World::SRAND;
	case 2: return s == World::SCSP;
	case 3: return s == World::SRAND;
	default: return s == World::SCLOCK;
	}
}
struct Shared { uint8_t st[8]; uint8_t out[8][128]; int sig[8]; }; static Shared* g_sh;
static void __attribute__((noinline)) scrub() { volatile uint8_t b[200000]; for (size_t i = 0; i < sizeof(b); ++i) { b[i] = 0; } }
static void child(const Ask& a, int k, int source, uint64_t salt)
{
	World& w = *vf::W; if (w.fixed_time < 0) { w.fixed_time = 1700000000000000000ll; }
	if (source == World::SHOST) { w.computer[1] = (wchar_t)('a' + salt % 26); } else if (source == World::SUSER) { w.user[1] = (wchar_t)('A' + salt % 26); } else if (source == World::SSID) { w.sid[9] = (wchar_t)('A' + salt % 26); }
	else if (source == World::STIME) { w.fixed_time += (int64_t)(salt >> 16); } else if (source >= 0) { w.salt[source] = salt; }
	scrub(); g_sh->st[k] = 1;
	try
	{
		Bytes o(a.len); std::unique_ptr<Provider::IProvider> p;
		switch (a.provider) { case 0: p.reset(new Provider::ACP); break; case 1: p.reset(new Provider::ECP); break; case 2: p.reset(new Provider::CSP); break; case 3: p.reset(new Provider::RDP); break; default: p.reset(new Provider::CJP); }
		for (int i = 0; i < (a.again ? 2 : 1); ++i) { if (i) { p->Reset(); } if (a.vec == 0) { p->Generate(o); } else if (a.vec == 1) { p->Generate(o, 0, o.size()); } else { SecureVector<uint8_t> t(o.size()); p->Generate(t); o.assign(t.begin(), t.end()); } }
		memcpy(g_sh->out[k], o.data(), o.size()); g_sh->st[k] = 2;
	}
	catch (std::exception&) { g_sh->st[k] = 3; }
	_exit(0);
}
// five copies of this process, nothing allocated between them: the machine as it is, again, and with the one source changed three times
static void machines(const Ask& a, int source, const uint64_t* salt)
{
	for (int k = 0; k < 5; ++k) { pid_t pid = fork(); if (pid == 0) { child(a, k, k < 2 ? -1 : source, k < 2 ? 0 : salt[k - 2]); } int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} g_sh->sig[k] = WIFEXITED(st) ? 0 : WTERMSIG(st); }
}
PROP(reaches, 500, 12000)
{
	Ask a; a.provider = (int)c.pick({ 0, 1, 0, 1, 1, 2, 3, 4 }); a.len = c.u(16, 64); a.vec = (int)c.u(0, 2); a.again = c.chance(1, 5);
	int s = (int)c.u(0, World::SOURCES - 1); if (!names(a.provider, s)) { int k = 0; while (!names(a.provider, s) && k++ < World::SOURCES) { s = (s + 1) % World::SOURCES; } }
	vf::reset_world(c.u(1, 1u << 30)); vf::W->fake_clock = true;
	if (a.provider == 3 || s == World::SRAND) { if (!Tools::SystemTools::HasRdRand()) { c.discard(); return; } }
	if (a.provider == 4 && !vf::W->fake_clock) { return; }
	c.desc << PN[a.provider] << " " << a.len << " bytes, the " << SN[s] << " alone answers otherwise"; c.tag(std::string(PN[a.provider]) + " " + SN[s]);
	uint64_t salt[3]; for (auto& t : salt) { t = c.u(1, ~0ull >> 1) | 1ull << 62 | 0x0101010101010100ull; } if (salt[1] == salt[0]) { salt[1] += 0x0123456700ull; } 
	if (!g_sh) { g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } memset(g_sh, 0, sizeof(Shared)); fflush(stdout); fflush(stderr);
	machines(a, s, salt);
	std::string p = PN[a.provider];
	for (int k = 0; k < 5; ++k) { require(g_sh->sig[k] == 0, p + fmt(" died with signal %d", g_sh->sig[k]), "died"); }
	if (g_sh->st[0] == 3) { c.discard(); return; }
	Bytes r[5]; for (int k = 0; k < 5; ++k) { require(g_sh->st[k] == 2, p + ": no output", "none"); r[k].assign(g_sh->out[k], g_sh->out[k] + a.len); }
	if (r[1] != r[0]) { c.discard(); return; } // then a difference would mean nothing
	c.nontrivial();
	require(r[2] != r[0] || r[3] != r[0] || r[4] != r[0], p + ": the " + SN[s] + " makes no difference", p + "-" + SN[s]);
}
