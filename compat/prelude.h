// Force-included before every source file of the native (Linux/clang) verification build.
// It plays the part of /opt/vp/compat/prelude.h: CexConfig.h is shown the compiler and the OS the project is
// written for (MSVC on Windows x64), so that every translation unit takes the same preprocessor branches
// as in the mingw build that runs the project's own tests.  The Windows API itself is a stand-in (inc/windows.h).
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <immintrin.h>
#include <x86intrin.h>
#include <cpuid.h>

static inline void* vf_aligned_malloc(size_t s, size_t a) { void* p = nullptr; if (a < sizeof(void*)) { a = sizeof(void*); } return posix_memalign(&p, a, s) ? nullptr : p; }
#include <malloc.h>
static inline void* vf_aligned_realloc(void* p, size_t s, size_t a) { void* q = vf_aligned_malloc(s, a); if (q && p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < s ? o : s); } free(p); return q; }
static inline void vf_aligned_free(void* p) { free(p); }
#define _aligned_malloc vf_aligned_malloc
#define _aligned_realloc vf_aligned_realloc
#define _aligned_free vf_aligned_free

// uint64_t is 'unsigned long' here and 'unsigned long long' on Windows: these take either.
static inline uint64_t vf_umul128(uint64_t a, uint64_t b, uint64_t* h) { unsigned __int128 r = (unsigned __int128)a * b; *h = (uint64_t)(r >> 64); return (uint64_t)r; }
static inline uint64_t vf_umul128(uint64_t a, uint64_t b, unsigned long long* h) { unsigned __int128 r = (unsigned __int128)a * b; *h = (unsigned long long)(r >> 64); return (uint64_t)r; }
#define _umul128 vf_umul128

// RDRAND/RDSEED: stand-ins, so that a check can make the processor's generator fail or repeat (see fakewin.cpp)
extern "C" int vf_rdrand(uint64_t* v);
extern "C" int vf_rdseed(uint64_t* v);
template<typename T> static inline int vf_rdrand_t(T* v) { uint64_t x = 0; int r = vf_rdrand(&x); *v = (T)x; return r; }
template<typename T> static inline int vf_rdseed_t(T* v) { uint64_t x = 0; int r = vf_rdseed(&x); *v = (T)x; return r; }
#define _rdrand64_step vf_rdrand_t
extern "C" unsigned long long vf_rdtsc();
#define __rdtsc vf_rdtsc
#define _rdrand32_step vf_rdrand_t
#define _rdrand16_step vf_rdrand_t
#define _rdseed64_step vf_rdseed_t
#define _rdseed32_step vf_rdseed_t
#define _rdseed16_step vf_rdseed_t

// cpuid: a stand-in that a check can put a different processor behind
extern "C" void vf_cpuid(int out[4], int leaf, int sub);
static inline void vf_cpuid_t(int* o, int l) { vf_cpuid(o, l, 0); }
static inline void vf_cpuidex_t(int* o, int l, int s) { vf_cpuid(o, l, s); }
template<typename T> static inline void vf_cpuid_t(T* o, int l) { int b[4]; vf_cpuid(b, l, 0); for (int i = 0; i < 4; ++i) { o[i] = (T)b[i]; } }
template<typename T> static inline void vf_cpuidex_t(T* o, int l, int s) { int b[4]; vf_cpuid(b, l, s); for (int i = 0; i < 4; ++i) { o[i] = (T)b[i]; } }
#undef __cpuid
#undef __cpuidex
#define __cpuid vf_cpuid_t
#define __cpuidex vf_cpuidex_t
#define _XCR_XFEATURE_ENABLED_MASK 0
extern "C" uint64_t vf_xgetbv(unsigned xcr);
#undef _xgetbv
#define _xgetbv(x) vf_xgetbv(x)

// unsigned long has 32 bits on Windows
#undef _lrotl
#undef _lrotr
#define _lrotl(a, b) _rotl((a), (b))
#define _lrotr(a, b) _rotr((a), (b))

#define _M_X64 100
#define _M_AMD64 100
#define UNICODE 1
#define _UNICODE 1
#define _MSC_VER 1930
#define _WIN32 1
#define _WIN64 1
#undef __linux
#undef __linux__
#undef __unix
#undef __unix__
#undef linux
#undef unix
#pragma push_macro("__SIZEOF_INT128__")
#undef __SIZEOF_INT128__
#include "CexConfig.h"
#pragma pop_macro("__SIZEOF_INT128__")
#undef _MSC_VER
#undef _WIN32
#undef _WIN64
#define __linux 1
#define __linux__ 1
#define __unix 1
#define __unix__ 1
#undef CEX_OPTIMIZE_IGNORE
#undef CEX_OPTIMIZE_RESUME
#define CEX_OPTIMIZE_IGNORE _Pragma("clang optimize off")
#define CEX_OPTIMIZE_RESUME _Pragma("clang optimize on")
#define _mm_load_si128 _mm_loadu_si128
#define _mm_store_si128 _mm_storeu_si128
#define _mm256_load_si256 _mm256_loadu_si256
#define _mm256_store_si256 _mm256_storeu_si256
