// Property-based testing engine: every random choice of a case is a draw from a recorded tape of integers.
//  - a case is a pure function of its tape (and of the code under test); tape i of a run is a pure function of (VERIF_SEED, property, i)
//  - shrinking edits the tape (delete, zero, minimise) and re-runs the case in a forked child, so crashes shrink too
//  - the minimal tape is the replay file
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <initializer_list>
#include <algorithm>
#include "fakewin.h"

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Failure { std::string what, sig; };
struct Discard {};

std::string hex(const uint8_t* p, size_t n, size_t max = 48);
inline std::string hex(const Bytes& b, size_t max = 48) { return hex(b.data(), b.size(), max); }
Bytes unhex(const std::string& s);

struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

class Case
{
public:
	std::vector<uint64_t> tape;   // choices made
	bool replaying = false;
	const std::vector<uint64_t>* in = nullptr;
	size_t pos = 0;
	Rng rng{ 0 };
	bool is_nontrivial = false;
	std::map<std::string, uint64_t> tags;
	std::ostringstream desc;
	bool thorough = false;

	// uniform in [lo, hi]
	uint64_t u(uint64_t lo, uint64_t hi)
	{
		uint64_t range = hi - lo, v;
		if (replaying) { v = pos < in->size() ? (*in)[pos] : 0; ++pos; if (range != ~0ull) { v %= range + 1; } }
		else { v = rng.next(); if (range != ~0ull) { v = (uint64_t)(((unsigned __int128)v * (range + 1)) >> 64); } }
		tape.push_back(v);
		return lo + v;
	}
	bool chance(unsigned num, unsigned den) { return u(0, den - 1) >= den - num; } // shrinks to false
	bool flip() { return u(0, 1) != 0; }
	template<typename T> T pick(const std::vector<T>& v) { return v[u(0, v.size() - 1)]; }
	template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + u(0, v.size() - 1)); }
	// a length in [0,max]: small, next to a mark (block sizes and their multiples), or anywhere
	size_t len(size_t max, std::initializer_list<size_t> marks = {})
	{
		uint64_t k = u(0, 9);
		size_t n;
		if (k < 3 || marks.size() == 0 && k < 6) { n = u(0, std::min<size_t>(max, 40)); }
		else if (k < 8 && marks.size() != 0)
		{
			size_t m = pick(marks);
			uint64_t mul = m ? std::max<uint64_t>(1, max / m) : 1;
			uint64_t w = u(0, 2);
			mul = w == 0 ? 1 : u(1, std::min<uint64_t>(mul, w == 1 ? 5 : mul));
			int d = (int)pick({ 0, 1, 2, 3, 4 });  // 0, +1, -1, +small, -small
			long long v = (long long)(m * mul);
			if (d == 1) { v += 1; } else if (d == 2) { v -= 1; } else if (d == 3) { v += (long long)u(0, std::max<size_t>(m, 1) - 1); } else if (d == 4) { v -= (long long)u(0, std::max<size_t>(m, 1) - 1); }
			n = v < 0 ? 0 : (size_t)v;
		}
		else { n = u(0, max); }
		return std::min(n, max);
	}
	// n bytes: zero, constant, counter, random, sparse -- two draws whatever the length
	void fill(uint8_t* p, size_t n)
	{
		uint64_t kind = u(0, 7), seed = u(0, ~0ull);
		Rng r{ seed };
		if (kind == 0) { memset(p, (int)(seed & 0xFF), n); }
		else if (kind == 1) { for (size_t i = 0; i < n; ++i) { p[i] = (uint8_t)(i + seed); } }
		else if (kind == 2) { memset(p, 0, n); if (n) { p[seed % n] = (uint8_t)(1u << ((seed >> 32) & 7)); } }
		else if (kind == 3) { memset(p, 0xFF, n); if (n) { p[seed % n] = (uint8_t)(seed >> 40); } }
		else { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); } if (i < n) { uint64_t v = r.next(); memcpy(p + i, &v, n - i); } }
	}
	Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
	Bytes random_bytes(size_t n) { Bytes b(n); Rng r{ u(0, ~0ull) }; for (size_t i = 0; i < n; i += 8) { uint64_t v = r.next(); memcpy(b.data() + i, &v, std::min<size_t>(8, n - i)); } return b; }
	// a partition of total into chunk lengths (some may be zero when zeros is set)
	std::vector<size_t> chunks(size_t total, size_t mark, bool zeros = false, size_t maxparts = 12)
	{
		std::vector<size_t> r;
		size_t left = total;
		uint64_t style = u(0, 3);
		while (left != 0 && r.size() + 1 < maxparts)
		{
			size_t n;
			if (style == 0) { n = left; }
			else if (style == 1) { n = u(1, left); }
			else if (style == 2) { n = len(left, { mark, 2 * mark }); }
			else { n = std::min<size_t>(left, u(1, std::max<size_t>(1, mark))); }
			if (n == 0 && !zeros) { n = 1; }
			r.push_back(n);
			left -= n;
		}
		if (left != 0) { r.push_back(left); }
		if (zeros && r.empty() && flip()) { r.push_back(0); }
		return r;
	}
	void nontrivial(bool v = true) { if (v) { is_nontrivial = true; } }
	void tag(const std::string& t) { ++tags[t]; }
	void discard() { throw Discard(); }
};

[[noreturn]] inline void fail(const std::string& what, const std::string& sig = "") { throw Failure{ what, sig }; }
inline void require(bool c, const std::string& what, const std::string& sig = "") { if (!c) { fail(what, sig); } }
void require_eq(const uint8_t* got, const uint8_t* want, size_t n, const std::string& what, const std::string& sig = "");
template<typename A, typename B> void require_eq(const A& got, const B& want, const std::string& what, const std::string& sig = "")
{
	if (got.size() != want.size()) { fail(what + ": length " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()), sig); }
	require_eq(got.data(), want.data(), got.size(), what, sig);
}

typedef std::function<void(Case&)> Fn;
struct Prop { std::string name; uint64_t quick, thorough; Fn fn; };
std::vector<Prop>& props();
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, Fn f) { props().push_back({ n, q, t, f }); } };
// PROP(name, cases in the quick tier, cases in the thorough tier)
#define PROP(NAME, Q, T) static void prop_##NAME(pbt::Case& c); static pbt::Reg reg_##NAME(#NAME, Q, T, prop_##NAME); static void prop_##NAME(pbt::Case& c)

// a buffer with guard bytes on both sides that the code under test is not entitled to touch
struct Guarded
{
	Bytes b; size_t off, n; uint8_t g;
	Guarded(size_t front, size_t len, size_t back, uint8_t fillv) : b(front + len + back, fillv), off(front), n(len), g(fillv) {}
	void check(const std::string& what, const std::string& sig = "") const
	{
		for (size_t i = 0; i < b.size(); ++i) { if (i >= off && i < off + n) { continue; } if (b[i] != g) { fail(what + ": byte " + std::to_string(i) + " outside the output range [" + std::to_string(off) + "," + std::to_string(off + n) + ") was written", sig); } }
	}
	Bytes out() const { return Bytes(b.begin() + off, b.begin() + off + n); }
};
}
