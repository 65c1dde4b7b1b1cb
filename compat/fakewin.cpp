#include "inc/windows.h"
#include "fakewin.h"
#include <array>
#include <cstring>
#include <cstdlib>
#include <mutex>
#include <sys/mman.h>
#include <unistd.h>
#include <cpuid.h>
#include <immintrin.h>
#include <thread>
#include <algorithm>

namespace vf {
static World g_world __attribute__((init_priority(101))); // the library asks the cpu from static initialisers
World* W = &g_world;
std::atomic<int> g_handles{ 0 };
// VF_CPUMASK: what the static initialisers of the library find missing (r rdrand/rdseed, s sha, a aesni, c clmul, v avx2) or present (T rdtscp)
struct CpuMask { CpuMask() { const char* m = getenv("VF_CPUMASK"); if (m) { W->cpu_rdrand = W->cpu_rdseed = !strchr(m, 'r'); W->cpu_sha = !strchr(m, 's'); W->cpu_aesni = !strchr(m, 'a'); W->cpu_cmul = !strchr(m, 'c'); W->cpu_avx2 = !strchr(m, 'v'); W->cpu_rdtscp = strchr(m, 'T') != nullptr; } } };
static CpuMask g_cpumask __attribute__((init_priority(102)));
static std::recursive_mutex g_m;
static std::map<void*, std::pair<size_t, DWORD>> g_pages;
static uint64_t mix(uint64_t& s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void reset_world(uint64_t seed)
{
	std::lock_guard<std::recursive_mutex> l(g_m);
	g_world = World();
	g_world.csp_state = seed * 3 + 1;
	g_world.rd_state = seed * 5 + 2;
	g_world.sys_state = seed * 7 + 3;
}
}
using namespace vf;
typedef std::lock_guard<std::recursive_mutex> LK;

extern "C" int vf_rdrand(uint64_t* v)
{
	LK l(g_m);
	int n = W->rd_calls++;
	if (W->rd_flaky > 0) { if (W->rd_flaky_left < W->rd_flaky) { W->rd_flaky_left++; *v = 0; return 0; } W->rd_flaky_left = 0; }
	if (W->rd_fail_after >= 0 && n >= W->rd_fail_after && (W->rd_fail_count < 0 || n < W->rd_fail_after + W->rd_fail_count)) { *v = 0; return 0; }
	*v = W->rd_stuck ? 0x5555555555555555ull : (mix(W->rd_state) ^ W->salt[vf::World::SRAND]);
	if (W->on_random) { W->on_random((uint8_t*)v, 8); }
	return 1;
}
extern "C" int vf_rdseed(uint64_t* v) { return vf_rdrand(v); }
extern "C" void vf_cpuid(int o[4], int leaf, int sub)
{
	static std::map<std::pair<int, int>, std::array<unsigned, 4>> cache;
	LK l(g_m);
	auto it = cache.find({ leaf, sub });
	if (it == cache.end()) { unsigned a = 0, b = 0, c = 0, d = 0; __cpuid_count(leaf, sub, a, b, c, d); it = cache.insert({ { leaf, sub }, { a, b, c, d } }).first; }
	unsigned a = it->second[0], b = it->second[1], c = it->second[2], d = it->second[3];
	if (leaf == 0) { a = 0x16; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; } // one processor for every machine the check may run on: GenuineIntel
	if (leaf == 1)
	{
		c |= 1u << 30; d &= ~(1u << 28); if (W->hyperthread) { d |= 1u << 28; }
		if (!W->cpu_rdrand) { c &= ~(1u << 30); }
		if (!W->cpu_avx) { c &= ~(1u << 28); }
		if (!W->cpu_aesni) { c &= ~(1u << 25); }
		if (!W->cpu_cmul) { c &= ~(1u << 1); }
	}
	if (leaf == 7 && sub == 0)
	{
		b |= 1u << 18; b &= ~((1u << 16) | (1u << 31));
		if (!W->cpu_rdseed) { b &= ~(1u << 18); }
		if (!W->cpu_avx2) { b &= ~(1u << 5); }
		if (!W->cpu_sha) { b &= ~(1u << 29); }
	}
	if (leaf == (int)0x80000001) { d &= ~(1u << 27); if (W->cpu_rdtscp) { d |= 1u << 27; } }
	if (leaf == (int)0x80000006) { c = (256u << 16) | (6u << 12) | 64u; }
	if (leaf == 3 || leaf == 0x16) { a = 2400; b = 3600; c = 100; d = 0; }
	unsigned r[4] = { a, b, c, d }; if (W->on_cpuid) { W->on_cpuid(leaf, sub, r); }
	memcpy(o, r, 16);
}
extern "C" uint64_t vf_xgetbv(unsigned) { return W->xcr0; }
// the library sizes its thread pools and tree fan-out by this
unsigned int std::thread::hardware_concurrency() noexcept { return W->cores; }
// and mixes this clock into the entropy it collects
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { if (W && W->fixed_time >= 0) { return time_point(duration(W->fixed_time)); } timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); }

static BOOL wput(const std::wstring& s, LPTSTR b, LPDWORD n, bool withnull) { if (W->sys_fail) { *n = 0; return 0; } if (*n <= s.size()) { return 0; } wmemcpy(b, s.c_str(), s.size() + 1); *n = (DWORD)(s.size() + (withnull ? 1 : 0)); return 1; }
BOOL GetComputerName(LPTSTR b, LPDWORD n) { return wput(W->computer, b, n, false); }
BOOL GetUserName(LPTSTR b, LPDWORD n) { return wput(W->user, b, n, true); }
UINT GetDriveType(LPCTSTR) { return 3; }
BOOL GetDiskFreeSpaceEx(LPCTSTR, ULARGE_INTEGER* a, ULARGE_INTEGER* b, ULARGE_INTEGER* c) { LK l(g_m); if (W->sys_fail) { return 0; } a->QuadPart = (mix(W->sys_state) ^ W->salt[vf::World::SDRIVE]) >> 24; b->QuadPart = 1ull << 40; c->QuadPart = a->QuadPart; return 1; }
DWORD GetLogicalDriveStrings(DWORD n, LPTSTR b) { if (W->sys_fail) { return 0; } const wchar_t s[] = L"C:\\\0D:\\\0"; memcpy(b, s, std::min<size_t>(n * sizeof(wchar_t), sizeof(s))); return 8; }
void Sleep(DWORD ms) { LK l(g_m); if (W->fake_clock) { W->clock += ms * 10000ull; } else { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); } }
BOOL GlobalMemoryStatusEx(MEMORYSTATUSEX* m) { LK l(g_m); DWORD k = m->dwLength; memset(m, 0, sizeof(*m)); m->dwLength = k; if (W->sys_fail) { return 0; } m->dwMemoryLoad = 40; m->ullTotalPhys = 1ull << 34; m->ullAvailPhys = (mix(W->sys_state) ^ W->salt[vf::World::SMEMORY]) >> 31; m->ullTotalPageFile = 1ull << 35; m->ullAvailPageFile = mix(W->sys_state) >> 31; m->ullTotalVirtual = 1ull << 47; m->ullAvailVirtual = mix(W->sys_state) >> 18; return 1; }
DWORD GetCurrentProcessId() { return 4242 + (DWORD)(W->salt[vf::World::SPID] >> 8); }
DWORD GetCurrentThreadId() { return 77 + (DWORD)(W->salt[vf::World::STID] >> 8); }
HANDLE GetCurrentProcess() { return (HANDLE)-1; }
HANDLE GetCurrentThread() { return (HANDLE)-2; }
static uint64_t tick() { LK l(g_m); W->clock += W->clock_step ? 1 + (mix(W->sys_state) % (2 * W->clock_step)) : 0; return W->clock; }
extern "C" unsigned long long vf_rdtsc() { if (!W->fake_clock) { return __builtin_ia32_rdtsc(); } return tick() + (W->salt[vf::World::SCLOCK] >> 8); }
BOOL QueryPerformanceCounter(LARGE_INTEGER* v) { v->QuadPart = (long long)(tick() + (W->salt[vf::World::SCLOCK] >> 24)); return 1; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER* v) { v->QuadPart = 10000000; return 1; }
void GetSystemTimeAsFileTime(FILETIME* f) { uint64_t t = 132000000000000000ull + tick() + (W->salt[vf::World::STIME] >> 16); f->dwLowDateTime = (DWORD)t; f->dwHighDateTime = (DWORD)(t >> 32); }
ULONGLONG GetTickCount64() { return tick() / 10000 + (W->salt[vf::World::SBOOT] >> 40); }
BOOL GetThreadTimes(HANDLE, FILETIME* a, FILETIME* b, FILETIME* c, FILETIME* d) { GetSystemTimeAsFileTime(a); *b = *c = *d = *a; return 1; }
HANDLE GetProcessHeap() { return (HANDLE)1; }
LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T n) { return malloc(n); }
BOOL HeapFree(HANDLE, DWORD, LPVOID p) { free(p); return 1; }
BOOL GetCursorPos(POINT* p) { LK l(g_m); p->x = (LONG)((mix(W->sys_state) ^ W->salt[vf::World::SCURSOR]) % 1920); p->y = (LONG)(mix(W->sys_state) % 1080); return 1; }
BOOL GetModuleHandleEx(DWORD, LPCTSTR, HMODULE* h) { *h = (HMODULE)0x400000; return 1; }
LPVOID VirtualAlloc(LPVOID, SIZE_T n, DWORD, DWORD prot)
{
	LK l(g_m);
	if (W->va_fail || n == 0) { return nullptr; }
	size_t r = (n + 4095) / 4096 * 4096;
	void* p = aligned_alloc(4096, r); // zero-filled, under the address sanitizer's eye
	if (!p) { return nullptr; }
	memset(p, 0, r);
	g_pages[p] = { n, prot };
	return p;
}
BOOL VirtualLock(LPVOID, SIZE_T) { return !W->vlock_fail; }
BOOL VirtualUnlock(LPVOID, SIZE_T) { return 1; }
BOOL VirtualFree(LPVOID p, SIZE_T, DWORD)
{
	LK l(g_m);
	auto it = g_pages.find(p);
	if (it == g_pages.end()) { return 0; }
	if (W->on_free) { W->on_free(p, it->second.first); }
	g_pages.erase(it);
	free(p);
	return 1;
}
SIZE_T VirtualQueryEx(HANDLE, const void* p, MEMORY_BASIC_INFORMATION* m, SIZE_T n)
{
	LK l(g_m);
	memset(m, 0, sizeof(*m));
	m->Protect = PAGE_READWRITE;
	auto it = g_pages.upper_bound((void*)p);
	if (it != g_pages.begin()) { --it; if ((char*)p < (char*)it->first + it->second.first) { m->Protect = it->second.second; m->BaseAddress = it->first; m->RegionSize = it->second.first; } }
	return n;
}
BOOL VirtualProtectEx(HANDLE, LPVOID p, SIZE_T, DWORD prot, ULONG* old)
{
	LK l(g_m);
	++W->page_guard_calls;
	*old = PAGE_READWRITE;
	auto it = g_pages.find(p);
	if (it != g_pages.end()) { *old = it->second.second; it->second.second = prot; }
	return 1;
}
PVOID RtlSecureZeroMemory(PVOID p, SIZE_T n) { volatile uint8_t* v = (volatile uint8_t*)p; for (size_t i = 0; i < n; ++i) { v[i] = 0; } return p; }
BOOL GetProcessWorkingSetSize(HANDLE, PSIZE_T a, PSIZE_T b) { *a = 204800; *b = 1413120; return 1; }
void GetSystemInfo(SYSTEM_INFO* s) { memset(s, 0, sizeof(*s)); s->dwPageSize = 4096; s->wProcessorRevision = (WORD)(W->salt[vf::World::SSYSTEM] >> 8); s->lpMaximumApplicationAddress = (LPVOID)(W->salt[vf::World::SSYSTEM] >> 20); s->dwNumberOfProcessors = 4; s->dwProcessorType = 8664; s->dwAllocationGranularity = 65536; s->dwActiveProcessorMask = 15; }
LSTATUS RegOpenKeyEx(HKEY, LPCTSTR, DWORD, DWORD, HKEY* k) { *k = (HKEY)5; if (!W->sys_fail) { ++vf::g_handles; } return W->sys_fail ? 5 : 0; }
LSTATUS RegEnumKeyEx(HKEY, DWORD i, LPTSTR b, LPDWORD n, LPDWORD, LPTSTR, LPDWORD, FILETIME*)
{
	if (i >= 200) { return 259; }
	wchar_t t[64];
	uint64_t s = 1000 + i, x = mix(s), y = mix(s);
	swprintf(t, 64, L"{%08X-%04X-%04X-%04X-%012llX}", (unsigned)x, (unsigned)(x >> 32) & 0xFFFF, (unsigned)(x >> 48) & 0xFFFF, (unsigned)(y >> 48) & 0xFFFF, (unsigned long long)(y & 0xFFFFFFFFFFFFull));
	wmemcpy(b, t, wcslen(t) + 1); *n = (DWORD)wcslen(t);
	return 0;
}
LSTATUS RegCloseKey(HKEY) { --vf::g_handles; return 0; }
static thread_local DWORD t_err = 0;
BOOL OpenProcessToken(HANDLE, DWORD, HANDLE* h) { *h = W->sys_fail ? (HANDLE)0 : (HANDLE)9; if (!W->sys_fail) { ++vf::g_handles; } return !W->sys_fail; }
BOOL GetTokenInformation(HANDLE, TOKEN_INFORMATION_CLASS, LPVOID p, DWORD n, LPDWORD r)
{
	const DWORD need = sizeof(TOKEN_USER) + 28;
	*r = need;
	if (!p || n < need) { t_err = ERROR_INSUFFICIENT_BUFFER; return 0; }
	memset(p, 0, need);
	TOKEN_USER* t = (TOKEN_USER*)p;
	t->User.Sid = (uint8_t*)p + sizeof(TOKEN_USER);
	for (int i = 0; i < 28; ++i) { ((uint8_t*)t->User.Sid)[i] = (uint8_t)(i * 7 + 1 + (W->salt[vf::World::STOKEN] >> (i % 8))); }
	t_err = 0;
	return 1;
}
DWORD GetLastError() { return t_err; }
BOOL CloseHandle(HANDLE h) { if (h == nullptr || h == INVALID_HANDLE_VALUE) { return 0; } --vf::g_handles; return 1; }
BOOL IsValidSid(PVOID) { return 1; }
BOOL ConvertSidToStringSid(PVOID, LPTSTR* s) { LK l(g_m); *s = (LPTSTR)malloc((W->sid.size() + 1) * sizeof(wchar_t)); wmemcpy(*s, W->sid.c_str(), W->sid.size() + 1); return 1; }
LPVOID LocalFree(LPVOID p) { free(p); return nullptr; }

BOOL CryptAcquireContextW(HCRYPTPROV* h, LPCWSTR, LPCWSTR, DWORD, DWORD) { if (W->csp_acquire_fail) { return 0; } *h = W->csp_null_handle ? 0 : 11; if (*h) { ++vf::g_handles; } return 1; }
BOOL CryptGenRandom(HCRYPTPROV, DWORD n, BYTE* p)
{
	LK l(g_m);
	int k = W->csp_calls++;
	if (W->csp_fail_after >= 0 && k >= W->csp_fail_after) { return 0; }
	for (DWORD i = 0; i < n; i += 8) { uint64_t v = mix(W->csp_state) ^ W->salt[vf::World::SCSP]; memcpy(p + i, &v, std::min<size_t>(8, n - i)); }
	if (W->on_random) { W->on_random(p, n); }
	return 1;
}
BOOL CryptReleaseContext(HCRYPTPROV, DWORD) { --vf::g_handles; return 1; }

struct Snap { int i = 0; };
static thread_local int t_heaplist, t_heap, t_mod, t_proc, t_thr;
HANDLE CreateToolhelp32Snapshot(DWORD, DWORD) { ++vf::g_handles; return (HANDLE)21; }
BOOL Heap32ListFirst(HANDLE, HEAPLIST32* h) { if (W->sys_fail) { return 0; } t_heaplist = 0; h->th32ProcessID = 4242; h->th32HeapID = 1; h->dwFlags = 0; return 1; }
BOOL Heap32ListNext(HANDLE, HEAPLIST32* h) { if (++t_heaplist >= 4) { return 0; } h->th32HeapID = 1 + t_heaplist; return 1; }
static void fill(HEAPENTRY32* e) { LK l(g_m); e->hHandle = (HANDLE)(mix(W->sys_state) ^ W->salt[vf::World::SHEAP]); e->dwAddress = mix(W->sys_state); e->dwBlockSize = mix(W->sys_state) % 65536; e->dwFlags = 1; e->dwLockCount = 0; e->dwResvd = 0; e->th32ProcessID = 4242; e->th32HeapID = 1; }
BOOL Heap32First(HEAPENTRY32* e, DWORD, ULONG_PTR) { t_heap = 0; fill(e); return 1; }
BOOL Heap32Next(HEAPENTRY32* e) { if (++t_heap >= 16) { return 0; } fill(e); return 1; }
static void fill(MODULEENTRY32* e) { LK l(g_m); DWORD k = e->dwSize; memset(e, 0, sizeof(*e)); e->dwSize = k; e->modBaseAddr = (BYTE*)(mix(W->sys_state) ^ W->salt[vf::World::SMODULE]); e->modBaseSize = (DWORD)mix(W->sys_state); e->hModule = (HMODULE)mix(W->sys_state); wcscpy(e->szModule, L"module.dll"); }
BOOL Module32First(HANDLE, MODULEENTRY32* e) { if (W->sys_fail) { return 0; } t_mod = 0; fill(e); return 1; }
BOOL Module32Next(HANDLE, MODULEENTRY32* e) { if (++t_mod >= 6) { return 0; } fill(e); return 1; }
static void fill(PROCESSENTRY32* e) { LK l(g_m); DWORD k = e->dwSize; memset(e, 0, sizeof(*e)); e->dwSize = k; e->th32ProcessID = (DWORD)(mix(W->sys_state) ^ W->salt[vf::World::SPROCESS]); e->cntThreads = (DWORD)mix(W->sys_state) % 50; wcscpy(e->szExeFile, L"proc.exe"); }
BOOL Process32First(HANDLE, PROCESSENTRY32* e) { if (W->sys_fail) { return 0; } t_proc = 0; fill(e); return 1; }
BOOL Process32Next(HANDLE, PROCESSENTRY32* e) { if (++t_proc >= 10) { return 0; } fill(e); return 1; }
static void fill(THREADENTRY32* e) { LK l(g_m); DWORD k = e->dwSize; memset(e, 0, sizeof(*e)); e->dwSize = k; e->th32ThreadID = (DWORD)mix(W->sys_state); e->th32OwnerProcessID = (DWORD)mix(W->sys_state); e->tpBasePri = 8; }
BOOL Thread32First(HANDLE, THREADENTRY32* e) { if (W->sys_fail) { return 0; } t_thr = 0; fill(e); return 1; }
BOOL Thread32Next(HANDLE, THREADENTRY32* e) { if (++t_thr >= 20) { return 0; } fill(e); return 1; }
ULONG GetAdaptersInfo(PIP_ADAPTER_INFO a, ULONG* n)
{
	if (W->sys_fail) { return 50; }
	const ULONG need = 2 * sizeof(IP_ADAPTER_INFO);
	if (!a || *n < need) { *n = need; return ERROR_BUFFER_OVERFLOW; }
	memset(a, 0, need);
	a[0].Next = &a[1]; strcpy(a[0].AdapterName, "eth0"); a[0].AddressLength = 6; for (int i = 0; i < 8; ++i) { a[1].Address[i] = (BYTE)(i * 31 + (W->salt[vf::World::SADAPTER] >> (8 * i))); } strcpy(a[0].Description, "Verif Ethernet"); strcpy(a[0].IpAddressList.IpAddress.String, "10.0.0.7"); a[0].LeaseExpires = 99; strcpy(a[1].AdapterName, "eth1");
	return NO_ERROR;
}
ULONG GetTcpStatistics(MIB_TCPSTATS* s) { LK l(g_m); memset(s, 0, sizeof(*s)); if (W->sys_fail) { return 50; } s->dwInSegs = (DWORD)(mix(W->sys_state) ^ W->salt[vf::World::STCP]); s->dwOutSegs = (DWORD)mix(W->sys_state); return 0; }
bool IsWindowsServer() { return false; }
bool IsWindowsVersionOrGreater(WORD, WORD, WORD) { return true; }
