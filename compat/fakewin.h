// Knobs of the stand-in Windows API: what a harness can set and observe.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <atomic>

namespace vf {
// An operating system whose answers are a pure function of the harness' choices.
struct World {
	// entropy devices
	bool csp_acquire_fail = false;      // CryptAcquireContext fails
	int csp_fail_after = -1;            // CryptGenRandom fails at its n-th call (0 = first); -1 never
	int csp_calls = 0;
	uint64_t csp_state = 1;             // deterministic generator behind CryptGenRandom
	bool csp_null_handle = false;
	int rd_fail_after = -1;             // RDRAND/RDSEED starts failing at its n-th step
	int rd_fail_count = 0;              // ... for this many steps (-1 = for ever)
	int rd_calls = 0;
	int rd_flaky = 0;                   // ... fails this many times before each word it gives
	int rd_flaky_left = 0;
	uint64_t rd_state = 1;
	bool rd_stuck = false;              // the cpu generator always gives the same word
	// cpuid
	bool cpu_rdrand = true, cpu_rdseed = true, cpu_rdtscp = false, cpu_avx2 = true, cpu_avx = true, cpu_sha = true, cpu_aesni = true, cpu_cmul = true;
	unsigned cores = 8;                 // what std::thread::hardware_concurrency() answers
	bool hyperthread = true;
	std::function<void(int, int, unsigned*)> on_cpuid;   // another processor: fills eax ebx ecx edx of a leaf
	uint64_t xcr0 = 7;                  // what xgetbv answers
	// virtual memory
	bool va_fail = false, vlock_fail = false;
	// clock
	bool fake_clock = true;
	uint64_t clock = 1000;
	uint64_t clock_step = 7;
	// identity
	std::wstring computer = L"VERIF-HOST", user = L"verif-user", sid = L"S-1-5-21-1111-2222-3333-1001";
	// system state tables (the things ACP/ECP/CJP sample)
	uint64_t sys_state = 42;
	// one word per source of system state, mixed into what that source alone answers
	enum Source { SDRIVE, SMEMORY, SADAPTER, STCP, SPROCESS, SMODULE, SHEAP, SCURSOR, SHOST, SPID, STID, SSYSTEM, SUSER, SSID, STOKEN, SCLOCK, STIME, SBOOT, SCSP, SRAND, SOURCES };
	uint64_t salt[SOURCES] = {};
	int64_t fixed_time = -1;            // what the system clock answers, -1 the truth

	// when set, every answer of the system state family fails / is empty
	bool sys_fail = false;
	// observation
	std::function<void(void*, size_t)> on_free;          // VirtualFree
	std::function<void(const uint8_t*, size_t)> on_random; // bytes a device delivered
	uint64_t page_guard_calls = 0;
};
extern World* W;         // never null
extern std::atomic<int> g_handles; // handles of the operating system the library holds
void reset_world(uint64_t seed);
}
