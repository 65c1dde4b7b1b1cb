// watches the allocator: scans what is given back, and what stays allocated, for the bytes of a secret (plain variant only)
#pragma once
#include <malloc.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <vector>
#include <string>
#include <atomic>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MEMWATCH 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define MEMWATCH 0
#endif
#endif
#ifndef MEMWATCH
#define MEMWATCH 1
#endif
namespace mw {
static const size_t MAXLIVE = 1 << 14;
struct State { bool scan = false, track = false, clear = false; const uint8_t* secret[8]; size_t len[8]; size_t ns = 0; size_t freed = 0, bytes = 0, hits = 0, hitsize = 0, hitoff = 0, hitsecret = 0, hitpart = 0; void* live[MAXLIVE]; size_t nlive = 0; bool full = false; };
static State S;
static std::atomic<long> g_alive{ 0 }; // blocks given out and not given back, always counted
static thread_local int t_off = 0;
// does [p,p+n) contain eight consecutive bytes of a secret?
static bool contains(const uint8_t* p, size_t n, size_t* which = nullptr, size_t* off = nullptr, size_t* part = nullptr)
{
	if (n < 8) { return false; }
	for (size_t s = 0; s < S.ns; ++s) { for (size_t k = 0; k + 8 <= S.len[s]; k += 8) { const uint8_t* w = S.secret[s] + k; size_t d = 0; for (size_t i = 1; i < 8; ++i) { d += w[i] != w[i - 1]; } if (d < 5) { continue; /* runs of equal bytes are everywhere */ } void* h = memmem(p, n, w, 8); if (h) { if (which) { *which = s; *off = (uint8_t*)h - p; *part = k; } return true; } } }
	return false;
}
static void freed(void* p)
{
	size_t n = malloc_usable_size(p); ++S.freed; S.bytes += n; size_t w, o, k;
	if (contains((uint8_t*)p, n, &w, &o, &k)) { if (S.hits++ == 0) { S.hitsize = n; S.hitoff = o; S.hitsecret = w; S.hitpart = k; } }
}
static void secrets(std::initializer_list<const std::vector<uint8_t>*> v) { S.ns = 0; for (auto* x : v) { if (x->size() >= 8) { S.secret[S.ns] = x->data(); S.len[S.ns++] = x->size(); } } }
// everything given back while f runs
template<typename F> std::string released(F f)
{
	S.freed = S.bytes = S.hits = 0; S.scan = true; try { f(); } catch (...) { S.scan = false; throw; } S.scan = false;
	if (!S.hits) { return ""; }
	return std::to_string(S.hits) + " block(s) were released with bytes of the secret in them: part " + std::to_string(S.hitsecret) + " from byte " + std::to_string(S.hitpart) + " at offset " + std::to_string(S.hitoff) + " of a block of " + std::to_string(S.hitsize);
}
// everything allocated while f runs and still allocated after it
template<typename F> std::string kept(F f)
{
	S.nlive = 0; S.full = false; S.track = true; try { f(); } catch (...) { S.track = false; throw; } S.track = false; size_t w, o, k;
	for (size_t i = 0; i < S.nlive; ++i) { size_t n = malloc_usable_size(S.live[i]); if (contains((uint8_t*)S.live[i], n, &w, &o, &k)) { return "a live block of " + std::to_string(n) + " bytes holds part " + std::to_string(w) + " from byte " + std::to_string(k) + " at offset " + std::to_string(o); } }
	return "";
}
// what is given back while f runs, block by block; new blocks are clear as long as S.clear is set, so that what a block holds was written by its owner
static const size_t TAPE = 24 << 20;
static uint8_t* g_tape = nullptr; static size_t g_used = 0; static bool g_record = false;
static void note(void* p) { size_t n = malloc_usable_size(p); if (g_used + n + 16 > TAPE) { return; } memcpy(g_tape + g_used, &n, 8); memcpy(g_tape + g_used + 16, p, n); g_used += (n + 16 + 15) / 16 * 16; }
template<typename F> std::vector<std::vector<uint8_t>> recorded(F f)
{
	if (!g_tape) { g_tape = (uint8_t*)mmap(nullptr, TAPE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	g_used = 0; g_record = true; try { f(); } catch (...) { g_record = false; throw; } g_record = false; std::vector<std::vector<uint8_t>> out; for (size_t at = 0; at < g_used;) { size_t n; memcpy(&n, g_tape + at, 8); out.emplace_back(g_tape + at + 16, g_tape + at + 16 + n); at += (n + 16 + 15) / 16 * 16; } return out;
}
static inline void* got(void* p) { if (S.clear && p) { memset(p, 0, malloc_usable_size(p)); } if (S.track && p) { if (S.nlive < MAXLIVE) { S.live[S.nlive++] = p; } else { S.full = true; } } return p; }
static inline void gone(void* p) { if (!p) { return; } if (S.scan) { freed(p); } if (g_record) { note(p); } if (S.track) { for (size_t i = S.nlive; i-- > 0;) { if (S.live[i] == p) { S.live[i] = S.live[--S.nlive]; break; } } } }
}
#if MEMWATCH
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) { mw::g_alive.fetch_add(1, std::memory_order_relaxed); } return mw::got(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) { mw::g_alive.fetch_add(1, std::memory_order_relaxed); } return mw::got(p); }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) { mw::g_alive.fetch_add(1, std::memory_order_relaxed); } return mw::got(p); }
void* aligned_alloc(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) { mw::g_alive.fetch_add(1, std::memory_order_relaxed); } return mw::got(p); }
int posix_memalign(void** p, size_t a, size_t n) { *p = mw::got(__libc_memalign(a, n)); if (*p) { mw::g_alive.fetch_add(1, std::memory_order_relaxed); } return *p ? 0 : 12; }
void* realloc(void* p, size_t n) { if ((mw::S.scan || mw::S.track || mw::g_record || mw::S.clear) && p) { void* q = n ? malloc(n) : nullptr; if (q) { size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); } mw::gone(p); __libc_free(p); return q; } if (!p) { mw::g_alive.fetch_add(1, std::memory_order_relaxed); } return mw::got(__libc_realloc(p, n)); }
void free(void* p) { if (p) { mw::g_alive.fetch_sub(1, std::memory_order_relaxed); } mw::gone(p); __libc_free(p); }
}
#endif
