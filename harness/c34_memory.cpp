// C34: the pool, the page allocator, the element allocator and the secure containers against interval and vector models
// LIBS: -lcrypto
#include "cexutil.h"
#include "LockingAllocator.h"
#include "MemoryPool.h"
#include "SecureMemory.h"
#include <thread>
#include <atomic>
#include <map>
using namespace CEX;
using CEX::Tools::MemoryPool; using CEX::Tools::LockingAllocator;

static bool zero(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) { if (p[i]) { return false; } } return true; }
// a pool inside a larger aligned block, with guards on both sides
struct Arena
{
	uint8_t* raw; uint8_t* base; size_t size; static const size_t G = 512;
	Arena(size_t n) : size(n) { raw = (uint8_t*)aligned_alloc(4096, (n + 2 * G + 4095) / 4096 * 4096); memset(raw, 0xE7, n + 2 * G); base = raw + G; }
	~Arena() { free(raw); }
	Arena(const Arena&) = delete;
	bool intact() const { for (size_t i = 0; i < G; ++i) { if (raw[i] != 0xE7 || base[size + i] != 0xE7) { return false; } } return true; }
};
struct Live { size_t len; uint8_t pat; };
struct Model
{
	std::map<size_t, Live> live; size_t size, mn, mx, align;
	// is there an aligned place for len in a hole?
	bool fits(size_t len) const
	{
		if (len < mn || len > mx || len > size) { return false; }
		size_t at = 0; auto room = [&](size_t a, size_t b) { size_t s = (a + align - 1) / align * align; return s <= b && b - s >= len; };
		for (auto& l : live) { if (room(at, l.first)) { return true; } at = l.first + l.second.len; }
		return room(at, size);
	}
};
static void fillp(uint8_t* p, size_t n, uint8_t pat) { for (size_t i = 0; i < n; ++i) { p[i] = (uint8_t)(pat + i * 7) | 1; } }
static bool heldp(const uint8_t* p, size_t n, uint8_t pat) { for (size_t i = 0; i < n; ++i) { if (p[i] != (uint8_t)((uint8_t)(pat + i * 7) | 1)) { return false; } } return true; }

PROP(pool, 6000, 400000)
{
	size_t size = c.pick<size_t>({ 64, 256, 1000, 4096, 16, 300, 77, 20000 }), mn = c.pick<size_t>({ 1, 16, 8, 3 }), mx = mn + c.pick<size_t>({ 112, 0, 30, 500, 100000 }); unsigned ab = (unsigned)c.u(0, 6);
	Arena a(size); memset(a.base, 0x5A, size); std::unique_ptr<MemoryPool> p(new MemoryPool(a.base, size, 4096, mn, mx, (uint8_t)ab)); require(zero(a.base, size), "the pool was not cleared when it was made");
	Model m; m.size = size; m.mn = mn; m.mx = mx; m.align = (size_t)1 << ab; c.desc << "pool " << size << " min " << mn << " max " << mx << " align " << m.align << ":";
	size_t steps = c.u(2, 60); uint8_t next = 1; std::vector<size_t> gone;
	auto give = [&](std::map<size_t, Live>::iterator it) { uint8_t* q = a.base + it->first; size_t len = it->second.len; require(heldp(q, len, it->second.pat), "a live block was changed by the pool"); require(p->Deallocate(q, len), "a block of the pool was not taken back"); require(zero(q, len), "a released block was not cleared"); gone.push_back(it->first); m.live.erase(it); };
	for (size_t s = 0; s < steps; ++s)
	{
		size_t k = c.u(0, 15);
		if (k < 9)
		{
			size_t len = c.chance(1, 6) ? c.u(0, std::min<size_t>(size + 40, mx + 20)) : mn + c.len(std::min(mx, size) > mn ? std::min(mx, size) - mn : 0, { 1, 16, 32, 64 });
			if (c.chance(1, 8) && !gone.empty()) { len = std::max(mn, std::min(mx, size)); } // as much as there can be
			if (len == 0) { continue; }
			bool want = m.fits(len); uint8_t* q = (uint8_t*)p->Allocate(len); c.desc << " +" << len << (q ? "" : "!");
			if (want) { require(q != nullptr, fmt("%zu bytes were refused though they fit", len)); } else { require(q == nullptr, fmt("%zu bytes were given though the limits or the room forbid it", len)); }
			if (!q) { continue; }
			require(q >= a.base && q + len <= a.base + size, "a block outside the pool"); size_t at = q - a.base; require((uintptr_t)q % m.align == 0, "a misaligned block");
			for (auto& l : m.live) { require(at + len <= l.first || l.first + l.second.len <= at, fmt("block %zu+%zu overlaps the live block %zu+%zu", at, len, l.first, l.second.len)); }
			require(zero(q, len), "a block was not cleared when it was given out"); c.nontrivial(); Live b{ len, next }; next = (uint8_t)(next + 13); fillp(q, len, b.pat); m.live[at] = b; if (m.live.size() >= 3) { c.tag("three or more blocks"); }
		}
		else if (k < 14)
		{
			if (m.live.empty()) { continue; } auto it = m.live.begin(); std::advance(it, c.u(0, m.live.size() - 1)); c.desc << " -" << it->second.len; c.tag("release"); give(it);
		}
		else if (k == 14)
		{
			// memory which is not the pool's
			uint8_t other[64]; memset(other, 0x33, sizeof other); size_t which = c.u(0, 5), len = c.u(1, 64); c.desc << " foreign " << which; c.tag("foreign pointer");
			const Bytes before(a.base, a.base + size);
			if (which == 0) { require(!p->Deallocate(other, len), "foreign memory was taken"); }
			if (which == 1) { require(!p->Deallocate(a.base - len, len), "memory in front of the pool was taken"); }
			if (which == 2) { require(!p->Deallocate(a.base + size, len), "memory behind the pool was taken"); }
			if (which == 3) { require(!p->Deallocate(a.base + size - 1, len + 1), "memory across the end of the pool was taken"); }
			if (which == 4) { require(!p->Deallocate(nullptr, len), "a null pointer was taken"); }
			if (which == 5) { require(!p->Deallocate(a.base, (size_t)0 - (uintptr_t)a.base - c.u(0, 40)), "a length past the end of the address space was taken"); }
			require(before == Bytes(a.base, a.base + size), "a refused release changed the pool"); for (uint8_t x : other) { require(x == 0x33, "a refused release changed foreign memory"); }
		}
		else if (c.chance(1, 4)) { c.desc << " reset"; c.tag("reset"); p->Reset(); m.live.clear(); require(zero(a.base, size), "Reset did not clear the pool"); }
	}
	// when everything came back, all of it is there again
	while (!m.live.empty()) { auto it = m.live.begin(); std::advance(it, c.u(0, m.live.size() - 1)); give(it); }
	size_t all = std::min(mx, size); if (all >= mn) { uint8_t* q = (uint8_t*)p->Allocate(all); require(q != nullptr, "the empty pool does not give its largest block"); std::map<size_t, Live> l; fillp(q, all, 9); require(p->Deallocate(q, all), "the largest block was not taken back"); }
	require(a.intact(), "memory around the pool was written"); p.reset(); require(a.intact(), "memory around the pool was written");
}

PROP(limits, 300, 6000)
{
	Arena a(4096); size_t mn = c.u(0, 200), mx = c.u(0, 200); unsigned ab = (unsigned)c.u(0, 12); bool null = c.chance(1, 4); c.desc << "min " << mn << " max " << mx << " bit " << ab << (null ? " null" : ""); bool bad = null || ab > 6 || mn > mx; c.nontrivial(); c.tag(bad ? "illegal" : "legal");
	bool t = throws([&] { MemoryPool p(null ? nullptr : a.base, 4096, 4096, mn, mx, (uint8_t)ab); }); require(t == bad, bad ? "an illegal pool was made" : "a legal pool was refused"); require(a.intact(), "memory around the pool was written");
}

// several threads on one pool: blocks stay apart and keep what was written
PROP(poolthreads, 60, 3000)
{
	size_t nt = c.u(2, 6), size = c.pick<size_t>({ 2048, 512, 16384 }), rounds = c.u(20, 120); Arena a(size); MemoryPool p(a.base, size, 4096, 16, 128, 4); uint64_t seed = c.u(0, 1u << 30); std::vector<std::thread> t; std::vector<std::string> bad(nt); std::atomic<size_t> got{ 0 }, ready{ 0 };
	c.desc << nt << " threads, pool " << size << ", " << rounds << " rounds"; c.nontrivial();
	for (size_t i = 0; i < nt; ++i)
	{
		t.emplace_back([&, i] {
			pbt::Rng r{ seed * 31 + i }; std::vector<std::pair<uint8_t*, Live>> mine; ++ready; while (ready.load() < nt) { std::this_thread::yield(); }
			for (size_t k = 0; k < rounds; ++k)
			{
				if (mine.size() < 6 && r.next() % 3) { size_t len = 16 + r.next() % 113; uint8_t* q = (uint8_t*)p.Allocate(len); if (!q) { continue; } ++got; if (!zero(q, len)) { bad[i] = "a block was not clear"; } Live b{ len, (uint8_t)r.next() }; fillp(q, len, b.pat); mine.push_back({ q, b }); }
				else if (!mine.empty()) { size_t x = r.next() % mine.size(); auto b = mine[x]; mine.erase(mine.begin() + x); if (!heldp(b.first, b.second.len, b.second.pat)) { bad[i] = "a block was changed by another thread"; } if (!p.Deallocate(b.first, b.second.len)) { bad[i] = "a block was not taken back"; } }
			}
			for (auto& b : mine) { if (!heldp(b.first, b.second.len, b.second.pat)) { bad[i] = "a block was changed by another thread"; } if (!p.Deallocate(b.first, b.second.len)) { bad[i] = "a block was not taken back"; } }
		});
	}
	for (auto& x : t) { x.join(); } for (auto& b : bad) { require(b.empty(), b); }
	for (size_t k = 0; k < size / 128; ++k) { require(p.Allocate(128) != nullptr, "the pool lost memory"); } require(a.intact(), "memory around the pool was written");
}

PROP(pages, 1500, 60000)
{
	struct B { uint8_t* p; size_t len; uint8_t pat; }; std::vector<B> live; size_t steps = c.u(1, 20); require(SecureMemory::PageSize() == 4096, "PageSize is not the system's"); require(SecureMemory::Limit() > 0 && SecureMemory::Available(), "locked memory is not available");
	auto rel = [&](size_t i) { B b = live[i]; live.erase(live.begin() + i); require(heldp(b.p, b.len, b.pat), "a live block changed"); bool seen = false, clean = true; vf::W->on_free = [&](void* q, size_t) { seen = q == b.p; clean = zero((uint8_t*)q, b.len); }; SecureMemory::Free(b.p, b.len); vf::W->on_free = nullptr; require(seen, "the memory was not given back to the system"); require(clean, "the memory was given back to the system without being erased"); };
	for (size_t s = 0; s < steps; ++s)
	{
		size_t k = c.u(0, 9);
		if (k < 5)
		{
			size_t len = 1 + c.len(12000, { 16, 4095, 4096, 8191 }); bool vf1 = c.chance(1, 8), vf2 = c.chance(1, 6); size_t freed = 0; vf::W->va_fail = vf1; vf::W->vlock_fail = vf2; vf::W->on_free = [&](void*, size_t) { ++freed; };
			uint8_t* q = (uint8_t*)SecureMemory::Allocate(len); vf::W->va_fail = vf::W->vlock_fail = false; vf::W->on_free = nullptr; c.desc << " +" << len << (vf1 ? " no memory" : vf2 ? " no lock" : "");
			if (vf1 || vf2) { require(q == nullptr, "memory was given which could not be reserved and locked"); require(freed == (vf1 ? 0u : 1u), "memory which could not be locked was not given back"); c.tag("refused by the system"); c.nontrivial(); continue; }
			require(q != nullptr, "no memory"); require((uintptr_t)q % 4096 == 0, "not at a page"); size_t r = (len + 4095) / 4096 * 4096; require(zero(q, r), "not clear"); for (auto& b : live) { require(q + r <= b.p || b.p + (b.len + 4095) / 4096 * 4096 <= q, "overlapping blocks"); } B b{ q, len, (uint8_t)c.u(0, 255) }; fillp(q, r, b.pat); fillp(q, len, b.pat); live.push_back(b); c.nontrivial();
		}
		else if (k < 8) { if (!live.empty()) { c.desc << " -"; rel(c.u(0, live.size() - 1)); } }
		else if (k == 8) { bool any = false; vf::W->on_free = [&](void*, size_t) { any = true; }; SecureMemory::Free(nullptr, c.u(0, 100)); vf::W->on_free = nullptr; require(!any, "freeing nothing freed something"); }
		else { Bytes b = c.bytes(c.u(0, 100)); size_t n = c.u(0, b.size()); Bytes w = b; std::fill(w.begin(), w.begin() + n, 0); SecureMemory::Erase(b.data(), n); require_eq(b, w, fmt("Erase of %zu bytes", n)); }
	}
	while (!live.empty()) { rel(c.u(0, live.size() - 1)); }
}

// the allocator under the secure vectors
PROP(elements, 1500, 60000)
{
	struct B { uint8_t* p; size_t n, e; uint8_t pat; }; std::vector<B> live; size_t steps = c.u(1, 40);
	auto rel = [&](size_t i) { B b = live[i]; live.erase(live.begin() + i); require(heldp(b.p, b.n * b.e, b.pat), "a live block changed"); LockingAllocator::Deallocate(b.p, b.n, b.e); };
	for (size_t s = 0; s < steps; ++s)
	{
		size_t k = c.u(0, 9), e = c.pick<size_t>({ 1, 2, 4, 8 });
		if (k < 6)
		{
			size_t n = 1 + c.len(600, { 16, 128, 256 }); uint8_t* q = (uint8_t*)LockingAllocator::Allocate(n, e); size_t len = n * e; c.desc << " +" << n << "x" << e; require(q != nullptr, "no memory"); require((uintptr_t)q % e == 0, "misaligned"); require(zero(q, len), "not clear"); for (auto& b : live) { require(q + len <= b.p || b.p + b.n * b.e <= q, "overlapping blocks"); }
			B b{ q, n, e, (uint8_t)c.u(0, 255) }; fillp(q, len, b.pat); live.push_back(b); c.nontrivial();
		}
		else if (k < 9) { if (!live.empty()) { c.desc << " -"; rel(c.u(0, live.size() - 1)); } }
		else
		{
			// a product that overflows, or memory no machine has
			size_t big = c.chance(1, 3) ? ((size_t)1 << 60) / e : ((size_t)-1) / e + 1 + c.u(0, 200) / e; if (e == 1) { big = (size_t)-1 - c.u(0, 100); } c.desc << " huge " << big << "x" << e; c.tag("impossible size"); c.nontrivial(); void* q = nullptr; bool t = throws([&] { q = LockingAllocator::Allocate(big, e); }); require(t, fmt("%zu elements of %zu bytes were given", big, e));
		}
	}
	LockingAllocator::Deallocate(nullptr, c.u(0, 10), 1); while (!live.empty()) { rel(c.u(0, live.size() - 1)); }
}

// secure vectors behave as vectors, and the functions on them move exactly what they are asked to
template<typename T> static std::vector<T> draw(pbt::Case& c, size_t max) { std::vector<T> v(c.len(max, { 1, 16, 32, 64 })); for (auto& x : v) { Bytes b = c.bytes(sizeof(T)); memcpy(&x, b.data(), sizeof(T)); } return v; }
template<typename T> static void vectors(pbt::Case& c)
{
	typedef std::vector<T> V; typedef SecureVector<T> S; auto eq = [&](const S& s, const V& v, const std::string& what) { require(s.size() == v.size(), what + fmt(": %zu elements, expected %zu", s.size(), v.size())); for (size_t i = 0; i < v.size(); ++i) { require(s[i] == v[i], what + fmt(": element %zu of %zu", i, v.size())); } };
	auto eqv = [&](const V& s, const V& v, const std::string& what) { require(s.size() == v.size(), what + fmt(": %zu elements, expected %zu", s.size(), v.size())); for (size_t i = 0; i < v.size(); ++i) { require(s[i] == v[i], what + fmt(": element %zu of %zu", i, v.size())); } };
	const size_t N = 3; S s[N]; V m[N]; V p[N], pm[N]; size_t steps = c.u(1, 24);
	for (size_t k = 0; k < N; ++k) { m[k] = draw<T>(c, 90); s[k] = S(m[k].begin(), m[k].end()); pm[k] = p[k] = draw<T>(c, 90); }
	auto same2 = [&](size_t a, size_t b) { return a == b; };
	for (size_t st = 0; st < steps; ++st)
	{
		size_t i = c.u(0, N - 1), j = c.u(0, N - 1), op = c.u(0, 24); c.desc << " " << op << ":" << i << j; std::string what = fmt("step %zu, operation %zu", st, op); c.tag(op < 10 ? "vector operation" : "secure function");
		auto off = [&](size_t n) { return (size_t)c.u(0, n); };
		switch (op)
		{
		case 0: { size_t n = c.len(200, { 0, 16 }); s[i].resize(n); m[i].resize(n); break; }
		case 1: { size_t n = c.u(0, 300); s[i].reserve(n); break; }
		case 2: { V d = draw<T>(c, 3); for (auto x : d) { s[i].push_back(x); m[i].push_back(x); } break; }
		case 3: { V d = draw<T>(c, 20); size_t at = off(m[i].size()); s[i].insert(s[i].begin() + at, d.begin(), d.end()); m[i].insert(m[i].begin() + at, d.begin(), d.end()); break; }
		case 4: { size_t a = off(m[i].size()), b = a + off(m[i].size() - a); s[i].erase(s[i].begin() + a, s[i].begin() + b); m[i].erase(m[i].begin() + a, m[i].begin() + b); break; }
		case 5: { s[i].shrink_to_fit(); break; }
		case 6: { s[i] = s[j]; m[i] = m[j]; break; }
		case 7: { if (!same2(i, j)) { s[i] = std::move(s[j]); m[i] = std::move(m[j]); s[j].clear(); m[j].clear(); } break; }
		case 8: { std::swap(s[i], s[j]); std::swap(m[i], m[j]); break; }
		case 9: { S t(s[i]); require(t == s[i], "a copy differs"); S u(std::move(t)); eq(u, m[i], what); require((s[i] == s[j]) == (m[i] == m[j]), "comparison of two secure vectors"); break; }
		case 10: SecureClear(s[i]); m[i].clear(); break;
		case 11: { if (same2(i, j) || m[i].empty() || m[j].empty()) { break; } size_t a = off(m[i].size() - 1), b = off(m[j].size() - 1), n = std::min(m[i].size() - a, m[j].size() - b); size_t l = c.u(0, n); std::copy(m[i].begin() + a, m[i].begin() + a + l, m[j].begin() + b); if (l) { SecureCopy(s[i], a, s[j], b, l * sizeof(T)); } break; }
		case 12: SecureExtract(s[i], p[j]); pm[j].insert(pm[j].end(), m[i].begin(), m[i].end()); break;
		case 13: { if (same2(i, j)) { break; } SecureExtract(s[i], s[j]); m[j].insert(m[j].end(), m[i].begin(), m[i].end()); break; }
		case 14: case 15: case 16: case 17:
		{
			if (same2(i, j)) { break; } bool sv = op == 14 || op == 15 || op == 17; const V& src = sv ? m[i] : pm[i]; V& dst = op == 14 ? pm[j] : m[j]; if (src.empty()) { break; }
			size_t a = off(src.size() - 1), n = c.u(0, src.size() - a), b = c.u(0, dst.size() + 5); if (dst.size() < b + n) { dst.resize(b + n); } std::copy(src.begin() + a, src.begin() + a + n, dst.begin() + b);
			if (op == 14) { SecureExtract(s[i], a, p[j], b, n); } if (op == 15) { SecureExtract(s[i], a, s[j], b, n); } if (op == 16) { SecureInsert(p[i], a, s[j], b, n); } if (op == 17) { SecureInsert(s[i], a, s[j], b, n); } break;
		}
		case 18: { SecureInsert(p[i], s[j]); m[j].insert(m[j].end(), pm[i].begin(), pm[i].end()); break; }
		case 19: { if (same2(i, j)) { break; } SecureInsert(s[i], s[j]); m[j].insert(m[j].end(), m[i].begin(), m[i].end()); break; }
		case 20: { S t = SecureLock(p[i]); eq(t, pm[i], what); V u = SecureUnlock(s[i]); eqv(u, m[i], what); break; }
		case 21: { const T* d = p[i].data(); size_t n = p[i].size(); S t = SecureLockClear(p[i]); eq(t, pm[i], what); require(p[i].empty(), "the source was not emptied"); require(n == 0 || zero((const uint8_t*)d, 0), ""); pm[i].clear(); break; }
		case 22: { V u = SecureUnlockClear(s[i]); eqv(u, m[i], what); require(s[i].empty(), "the source was not emptied"); m[i].clear(); break; }
		case 23:
		{
			size_t way = c.u(0, 2); V& src = way == 0 ? pm[i] : m[i]; V& dst = way == 1 ? pm[j] : m[j]; if (way == 2 && same2(i, j)) { break; } if (dst.size() < src.size()) { break; } size_t b = off(dst.size() - src.size()); std::copy(src.begin(), src.end(), dst.begin() + b); if (!src.empty()) { c.nontrivial(); }
			if (way == 0) { SecureMove(p[i], s[j], b); } if (way == 1) { SecureMove(s[i], p[j], b); } if (way == 2) { SecureMove(s[i], s[j], b); } src.clear(); break;
		}
		default:
		{
			size_t way = c.u(0, 2); V& src = way == 0 ? pm[i] : m[i]; V& dst = way == 1 ? pm[j] : m[j]; if ((way == 2 && same2(i, j)) || src.empty() || dst.empty()) { break; } size_t a = off(src.size() - 1), b = off(dst.size() - 1), n = c.u(0, std::min(src.size() - a, dst.size() - b)); if (n == 0) { break; } std::copy(src.begin() + a, src.begin() + a + n, dst.begin() + b); std::fill(src.begin() + a, src.begin() + a + n, (T)0);
			if (way == 0) { SecureMove(p[i], a, s[j], b, n * sizeof(T)); } if (way == 1) { SecureMove(s[i], a, p[j], b, n * sizeof(T)); } if (way == 2) { SecureMove(s[i], a, s[j], b, n * sizeof(T)); } break;
		}
		}
		if (!m[i].empty() || !pm[i].empty()) { c.nontrivial(); }
		for (size_t k = 0; k < N; ++k) { eq(s[k], m[k], what); eqv(p[k], pm[k], what); }
	}
}
PROP(containers, 2500, 120000) { switch (c.u(0, 3)) { case 0: vectors<uint8_t>(c); break; case 1: vectors<uint16_t>(c); break; case 2: vectors<uint32_t>(c); break; default: vectors<uint64_t>(c); } }
