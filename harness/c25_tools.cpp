// C25: integer, array and memory helpers
// LIBS: -lcrypto
#include "cexutil.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
#include "ArrayTools.h"
#include <type_traits>
using namespace CEX; using namespace pbt; using CEX::Tools::IntegerTools; using CEX::Tools::MemoryTools; using CEX::Tools::ArrayTools;
typedef unsigned __int128 u128;
static Bytes sub(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
static Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }
template<class T> static T val(pbt::Case& c) { uint64_t k = c.u(0, 5), v = c.u(0, ~0ull), w = sizeof(T) * 8; if (k == 0) { v &= 0xFF; } else if (k == 1) { v = ~0ull - (v & 0xF); } else if (k == 2) { v = 1ull << (v % w); } else if (k == 3) { v = (1ull << (v % w)) - 1; } else if (k == 4) { v = (1ull << (w - 1)) + (v & 3) - 1; } return (T)v; }
template<class V> static Bytes raw(const V& v) { Bytes b(v.size() * sizeof(typename V::value_type)); if (!b.empty()) { memcpy(b.data(), v.data(), b.size()); } return b; }
template<class V> static V filled(pbt::Case& c, size_t n) { V v(n); if (n) { c.fill((uint8_t*)v.data(), n * sizeof(typename V::value_type)); } return v; }
static Bytes be(uint64_t v, size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) { b[n - 1 - i] = (uint8_t)(v >> (8 * i)); } return b; }
static Bytes le(uint64_t v, size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) { b[i] = (uint8_t)(v >> (8 * i)); } return b; }
static Bytes patched(Bytes b, size_t off, const Bytes& p) { std::copy(p.begin(), p.end(), b.begin() + off); return b; }
static Bytes exact(pbt::Case& c, size_t n, std::unique_ptr<uint8_t[]>& p) { Bytes b = c.bytes(n); p.reset(new uint8_t[n]); if (n) { memcpy(p.get(), b.data(), n); } return b; }
template<class V> struct Scalar
{
	template<class T> static void w(pbt::Case& c, void (*put)(T, V&, size_t), V (*mk)(T), T (*get)(const V&, size_t), void (*praw)(T, uint8_t*), T (*graw)(const uint8_t*), bool big, const char* nm)
	{
		T x = val<T>(c); size_t off = c.u(0, 9), back = c.u(0, 9); V v = filled<V>(c, off + sizeof(T) + back); Bytes was = raw(v), e = big ? be(x, sizeof(T)) : le(x, sizeof(T)); std::string s(nm);
		put(x, v, off); require_eq(raw(v), patched(was, off, e), s + "ToBytes"); same(get(v, off), x, s + "BytesTo"); require_eq(raw(mk(x)), e, s + "ToBytes, returned"); std::unique_ptr<uint8_t[]> p; Bytes in = exact(c, sizeof(T), p); T y = graw(p.get()); require_eq(big ? be(y, sizeof(T)) : le(y, sizeof(T)), in, s + "BytesToRaw"); praw(x, p.get()); require_eq(p.get(), e.data(), e.size(), s + "ToBytesRaw");
	}
	static void go(pbt::Case& c)
	{
		typedef IntegerTools I;
		w<uint16_t>(c, &I::Be16ToBytes<V>, &I::Be16ToBytes<V>, &I::BeBytesTo16<V>, &I::Be16ToBytesRaw, &I::BeBytesTo16Raw, true, "Be16");
		w<uint32_t>(c, &I::Be32ToBytes<V>, &I::Be32ToBytes<V>, &I::BeBytesTo32<V>, &I::Be32ToBytesRaw, &I::BeBytesTo32Raw, true, "Be32");
		w<uint64_t>(c, &I::Be64ToBytes<V>, &I::Be64ToBytes<V>, &I::BeBytesTo64<V>, &I::Be64ToBytesRaw, &I::BeBytesTo64Raw, true, "Be64");
		w<uint16_t>(c, &I::Le16ToBytes<V>, &I::Le16ToBytes<V>, &I::LeBytesTo16<V>, &I::Le16ToBytesRaw, &I::LeBytesTo16Raw, false, "Le16");
		w<uint32_t>(c, &I::Le32ToBytes<V>, &I::Le32ToBytes<V>, &I::LeBytesTo32<V>, &I::Le32ToBytesRaw, &I::LeBytesTo32Raw, false, "Le32");
		w<uint64_t>(c, &I::Le64ToBytes<V>, &I::Le64ToBytes<V>, &I::LeBytesTo64<V>, &I::Le64ToBytesRaw, &I::LeBytesTo64Raw, false, "Le64");
		V v = filled<V>(c, 20); size_t off = c.u(0, 12), l4 = c.u(1, 4), l8 = c.u(1, 8); uint64_t e4 = 0, e8 = 0; for (size_t i = 0; i < l8; ++i) { e8 |= (uint64_t)v[off + i] << (8 * i); } for (size_t i = 0; i < l4; ++i) { e4 |= (uint64_t)v[off + i] << (8 * i); }
		same(I::LeBytesTo32(v, off, l4), (uint32_t)e4, "LeBytesTo32 of " + std::to_string(l4)); same(I::LeBytesTo64(v, off, l8), e8, "LeBytesTo64 of " + std::to_string(l8));
	}
};
PROP(endian, 6000, 200000) { if (c.flip()) { Scalar<Bytes>::go(c); } else { Scalar<SBytes>::go(c); } c.desc << "byte order of scalars"; c.nontrivial(); }
// arrays of words against arrays of bytes
template<class T> static void blocks(pbt::Case& c)
{
	const size_t W = sizeof(T); size_t n = c.u(0, 40), io = c.u(0, 5), oo = c.u(0, 5); c.desc << n << " words of " << W; std::vector<T> w = filled<std::vector<T>>(c, io + n + c.u(0, 3)); size_t bo = c.u(0, 5); Bytes o = c.bytes(bo + n * W + c.u(0, 3)), was = o; bool big = c.flip(); Bytes e(n * W); for (size_t i = 0; i < n; ++i) { Bytes q = big ? be(w[io + i], W) : le(w[io + i], W); std::copy(q.begin(), q.end(), e.begin() + i * W); }
	if (n) { if (big) { IntegerTools::BeToBlock(w, io, o, bo, n * W); } else { IntegerTools::LeToBlock(w, io, o, bo, n * W); } } require_eq(o, patched(was, bo, e), big ? "BeToBlock" : "LeToBlock");
	std::vector<T> r = filled<std::vector<T>>(c, oo + n + c.u(0, 3)), rw = r; for (size_t i = 0; i < n; ++i) { rw[oo + i] = w[io + i]; } if (n) { if (big) { IntegerTools::BlockToBe(o, bo, r, oo, n * W); } else { IntegerTools::BlockToLe(o, bo, r, oo, n * W); } } require_eq(raw(r), raw(rw), big ? "BlockToBe" : "BlockToLe");
}
PROP(words, 6000, 200000)
{
	int k = (int)c.u(0, 2); if (k == 0) { blocks<uint16_t>(c); } else if (k == 1) { blocks<uint32_t>(c); } else { blocks<uint64_t>(c); }
	std::vector<uint32_t> w4 = filled<std::vector<uint32_t>>(c, 24); std::vector<uint64_t> w8 = filled<std::vector<uint64_t>>(c, 24); size_t io = c.u(0, 8), oo = c.u(0, 16); Bytes o = c.bytes(150), was = o;
	auto cat4 = [&](size_t n, bool big) { Bytes e; for (size_t i = 0; i < n; ++i) { Bytes q = big ? be(w4[io + i], 4) : le(w4[io + i], 4); e.insert(e.end(), q.begin(), q.end()); } return e; };
	auto cat8 = [&](size_t n, bool big) { Bytes e; for (size_t i = 0; i < n; ++i) { Bytes q = big ? be(w8[io + i], 8) : le(w8[io + i], 8); e.insert(e.end(), q.begin(), q.end()); } return e; };
	typedef IntegerTools I; Bytes e; std::string nm;
	switch (c.u(0, 5)) { case 0: nm = "BeUL256ToBlock"; I::BeUL256ToBlock(w4, io, o, oo); e = cat4(8, true); break; case 1: nm = "BeULL512ToBlock"; I::BeULL512ToBlock(w8, io, o, oo); e = cat8(8, true); break; case 2: nm = "LeUL256ToBlock"; I::LeUL256ToBlock(w4, io, o, oo); e = cat4(8, false); break; case 3: nm = "LeULL256ToBlock"; I::LeULL256ToBlock(w8, io, o, oo); e = cat8(4, false); break; case 4: nm = "LeULL512ToBlock"; I::LeULL512ToBlock(w8, io, o, oo); e = cat8(8, false); break; default: nm = "LeULL1024ToBlock"; I::LeULL1024ToBlock(w8, io, o, oo); e = cat8(16, false); }
	require_eq(o, patched(was, oo, e), nm);
	std::vector<uint32_t> r4 = filled<std::vector<uint32_t>>(c, 24); std::vector<uint64_t> r8 = filled<std::vector<uint64_t>>(c, 24); Bytes r4w = raw(r4), r8w = raw(r8); size_t n = 0;
	switch (c.u(0, 3)) { case 0: n = 64; nm = "LeBytesToUL512"; I::LeBytesToUL512(o, oo, r4, io); break; case 1: n = 32; nm = "LeBytesToULL256"; I::LeBytesToULL256(o, oo, r8, io); break; case 2: n = 64; nm = "LeBytesToULL512"; I::LeBytesToULL512(o, oo, r8, io); break; default: n = 128; nm = "LeBytesToULL1024"; I::LeBytesToULL1024(o, oo, r8, io); }
	Bytes part(o.begin() + oo, o.begin() + oo + n); if (nm == "LeBytesToUL512") { r4w = patched(r4w, io * 4, part); } else { r8w = patched(r8w, io * 8, part); } require_eq(raw(r4), r4w, nm); require_eq(raw(r8), r8w, nm); c.nontrivial();
}
// counters: multi precision addition
static Bytes counter(pbt::Case& c, size_t n) { Bytes b = c.bytes(n); size_t ff = c.u(0, n); bool front = c.flip(); if (c.flip()) { for (size_t i = 0; i < ff; ++i) { b[front ? i : n - 1 - i] = 0xFF; } } return b; }
static Bytes add(Bytes b, uint64_t v, bool big) { unsigned carry = 0; for (size_t i = 0; i < b.size(); ++i) { uint8_t& x = b[big ? b.size() - 1 - i : i]; unsigned s = x + (i < 8 ? (unsigned)((v >> (8 * i)) & 0xFF) : 0) + carry; x = (uint8_t)s; carry = s >> 8; } return b; }
template<class T> static void counters(pbt::Case& c)
{
	typedef IntegerTools I; size_t n = c.u(1, 40), off = c.u(0, 9), back = c.u(0, 9); T x = val<T>(c); c.desc << n << " byte counter + " << (uint64_t)x << " (" << sizeof(T) * 8 << " bits) "; Bytes b = counter(c, n), o = c.bytes(off + n + back), was = o; SBytes s = sec(b); Bytes t = b;
	I::BeIncrease8(t, x); require_eq(t, add(b, x, true), "BeIncrease8"); I::BeIncrease8(s, x); require_eq(s, add(b, x, true), "BeIncrease8, secure"); t = b; I::LeIncrease8(t, x); require_eq(t, add(b, x, false), "LeIncrease8");
	o = was; I::BeIncrease8(b, o, x); require_eq(o, patched(was, 0, add(b, x, true)), "BeIncrease8(In, Out)"); o = was; I::LeIncrease8(b, o, x); require_eq(o, patched(was, 0, add(b, x, false)), "LeIncrease8(In, Out)"); t = b; I::BeIncrease8(t, t, x); require_eq(t, add(b, x, true), "BeIncrease8 onto itself"); t = b; I::LeIncrease8(t, t, x); require_eq(t, add(b, x, false), "LeIncrease8 onto itself");
	o = was; I::BeIncrease8(b, o, off, x); require_eq(o, patched(was, off, add(b, x, true)), "BeIncrease8(In, Out, Offset)"); o = was; I::LeIncrease8(b, o, off, x); require_eq(o, patched(was, off, add(b, x, false)), "LeIncrease8(In, Out, Offset)");
	size_t len = c.u(1, n); Bytes head(b.begin(), b.begin() + len); o = was; I::BeIncrease8(b, o, off, len, x); require_eq(o, patched(patched(was, off, b), off, add(head, x, true)), "BeIncrease8(In, Out, Offset, Length)"); o = was; I::LeIncrease8(b, o, off, len, x); require_eq(o, patched(patched(was, off, b), off, add(head, x, false)), "LeIncrease8(In, Out, Offset, Length)");
	t = b; I::BeIncrement8(t); require_eq(t, add(b, 1, true), "BeIncrement8"); t = b; I::LeIncrement(t); require_eq(t, add(b, 1, false), "LeIncrement"); t = b; I::LeIncrement(t, len); require_eq(t, patched(b, 0, add(head, 1, false)), "LeIncrement(Length)");
	o = patched(was, off, b); Bytes w2 = o; I::BeIncrement8(o, off, len); require_eq(o, patched(w2, off, add(head, 1, true)), "BeIncrement8(Offset, Length)");
}
PROP(counters, 8000, 300000)
{
	switch (c.u(0, 3)) { case 0: counters<uint8_t>(c); break; case 1: counters<uint16_t>(c); break; case 2: counters<uint32_t>(c); break; default: counters<uint64_t>(c); }
	typedef IntegerTools I; { std::vector<uint64_t> a = { val<uint64_t>(c), val<uint64_t>(c) }, t = a, z = { 0, 0, 7 }; uint64_t x = val<uint64_t>(c); u128 v = ((u128)a[1] << 64) | a[0]; auto chk = [](const std::vector<uint64_t>& g, u128 e, const char* w) { require(g[0] == (uint64_t)e && g[1] == (uint64_t)(e >> 64), w); }; I::LeIncreaseW(t, (size_t)x); chk(t, v + x, "LeIncreaseW(64 bit words)"); t = a; I::LeIncrementW(t); chk(t, v + 1, "LeIncrementW(64 bit words)"); I::LeIncreaseW(a, z, (size_t)x); chk(z, v + x, "LeIncreaseW(In, Out)"); t = a; I::LeIncreaseW(t, t, (size_t)x); chk(t, v + x, "LeIncreaseW of a 64 bit counter onto itself"); same(z[2], 7ull, "word after the counter"); }
	{ std::vector<uint32_t> a = { val<uint32_t>(c), val<uint32_t>(c) }, t = a, z = { 0, 0, 7 }; uint32_t x = val<uint32_t>(c); uint64_t v = ((uint64_t)a[1] << 32) | a[0]; auto chk = [](const std::vector<uint32_t>& g, uint64_t e, const char* w) { require(g[0] == (uint32_t)e && g[1] == (uint32_t)(e >> 32), w); }; I::LeIncreaseW(t, (size_t)x); chk(t, v + x, "LeIncreaseW(32 bit words)"); t = a; I::LeIncrementW(t); chk(t, v + 1, "LeIncrementW(32 bit words)"); I::LeIncreaseW(a, z, (size_t)x); chk(z, v + x, "LeIncreaseW(In, Out, 32 bit)"); t = a; I::LeIncreaseW(t, t, (size_t)x); chk(t, v + x, "LeIncreaseW of a 32 bit counter onto itself"); same(z[2], 7u, "word after the counter"); }
	c.nontrivial();
}
template<class T> static void scalars(pbt::Case& c)
{
	typedef IntegerTools I; const unsigned W = sizeof(T) * 8; T a = val<T>(c), b = c.chance(1, 4) ? a : val<T>(c); T M = (T)~(T)0; c.desc << (uint64_t)a << " " << (uint64_t)b << " (" << W << " bits)";
	same(I::Max<T>(a, b), std::max(a, b), "Max"); same(I::Min<T>(a, b), std::min(a, b), "Min"); same(I::CMax<T>(a, b), std::max(a, b), "CMax"); same(I::CMin<T>(a, b), std::min(a, b), "CMin"); same(I::Abs<T>(a, b), (T)(a > b ? a - b : b - a), "Abs"); same(I::SaturatingSubtract(a, b), (T)(a > b ? a - b : 0), "SaturatingSubtract");
	same(I::IsPowerOf2<T>(a), __builtin_popcountll((uint64_t)a) == 1, "IsPowerOf2"); unsigned sh = (unsigned)c.u(0, W - 1); T p2 = (T)((T)1 << sh); same(I::ModPowerOf2(a, p2), (T)(a % p2), "ModPowerOf2");
	same(I::template ExpandMask<T>(a), (T)(a ? M : 0), "ExpandMask"); same(I::template ExpandTopBit<T>(a), (T)((a >> (W - 1)) ? M : 0), "ExpandTopBit"); same(I::template IsEqual<T>(a, b), (T)(a == b ? M : 0), "IsEqual"); same(I::template IsLess<T>(a, b), (T)(a < b ? M : 0), "IsLess"); same(I::template IsLte<T>(a, b), (T)(a <= b ? M : 0), "IsLte"); same(I::template IsZero<T>(a), (T)(a == 0 ? M : 0), "IsZero"); T m = val<T>(c); same(I::template Select<T>(m, a, b), (T)((a & m) | (b & ~m)), "Select"); same(I::ValueOrZero(a, b), (T)(a ? b : 0), "ValueOrZero");
	size_t ix = c.u(0, sizeof(T) - 1); same((unsigned)I::GetByte<T>(a, ix), (unsigned)(uint8_t)(a >> (8 * (sizeof(T) - 1 - ix))), "GetByte");
	size_t n = c.u(0, 30), len = c.u(0, n); std::vector<T> x = filled<std::vector<T>>(c, n), y = filled<std::vector<T>>(c, n), z = filled<std::vector<T>>(c, n), e = z; T cond = c.flip() ? (T)0 : val<T>(c); for (size_t i = 0; i < len; ++i) { e[i] = cond ? x[i] : y[i]; } I::template ConditionalCopy<T>(cond, z.data(), x.data(), y.data(), len); require_eq(raw(z), raw(e), "ConditionalCopy"); e = x; for (size_t i = 0; i < len && cond; ++i) { e[i] = 0; } I::template ConditionalZeroMem<T>(cond, x, len); require_eq(raw(x), raw(e), "ConditionalZeroMem");
	y = x; if (n && c.flip()) { size_t i = c.u(0, n - 1); y[i] ^= (T)((T)1 << c.u(0, W - 1)); } bool eq = std::equal(x.begin(), x.begin() + len, y.begin()); same(I::template DiffMask<T>(x, y, len), eq ? 0 : -1, "DiffMask"); same(I::Compare(x, 0, y, 0, len), eq, "Compare"); same(I::Verify(x, y, len) == 0, eq, "Verify"); same(MemoryTools::Compare(x, 0, y, 0, len), eq, "MemoryTools::Compare");
	size_t xo = n - len; bool eq2 = std::equal(x.begin() + xo, x.end(), y.begin() + xo); same(I::Compare(x, xo, y, xo, len), eq2, "Compare with an offset"); same(I::Verify(x, xo, y, xo, len) == 0, eq2, "Verify with an offset"); same(MemoryTools::Compare(x, xo, y, xo, len), eq2, "MemoryTools::Compare with an offset"); bool eq3 = std::equal(x.begin() + xo, x.end(), y.begin()); same(I::Compare(x, xo, y, 0, len), eq3, "Compare at two offsets"); same(I::Verify(y, 0, x, xo, len) == 0, eq3, "Verify at two offsets"); same(MemoryTools::Compare(y, 0, x, xo, len), eq3, "MemoryTools::Compare at two offsets");
	std::string h = I::IntToHex(a), up = "0123456789ABCDEF", eh; for (int i = (int)W - 4; i >= 0; i -= 4) { eh += up[(a >> i) & 15]; } require(h == eh, "IntToHex " + h + " expected " + eh); std::string pre(c.u(0, 5), '7'), in = pre + h + std::string(c.u(0, 4), 'F'); same(I::template HexToInt<T>(in, pre.size()), a, "HexToInt"); std::string dec = pre + std::to_string((uint64_t)a) + "x"; same(I::template FromString<T>(dec, pre.size(), dec.size() - pre.size() - 1), a, "FromString"); same(std::stoull(I::ToString(a)), (unsigned long long)a, "ToString");
	std::string hx = I::ToHex(a); size_t nz = eh.find_first_not_of('0'); require(hx == (nz == std::string::npos ? "0" : eh.substr(nz)), "ToHex of an integer: " + hx);
}
PROP(scalars, 10000, 400000)
{
	typedef IntegerTools I; switch (c.u(0, 3)) { case 0: scalars<uint8_t>(c); break; case 1: scalars<uint16_t>(c); break; case 2: scalars<uint32_t>(c); break; default: scalars<uint64_t>(c); }
	uint32_t a = val<uint32_t>(c); uint64_t b = val<uint64_t>(c); unsigned s = (unsigned)c.u(0, 31), t = (unsigned)c.u(0, 63); auto l32 = [](uint32_t v, unsigned n) { return n ? (v << n) | (v >> (32 - n)) : v; }; auto l64 = [](uint64_t v, unsigned n) { return n ? (v << n) | (v >> (64 - n)) : v; };
	same(I::RotL32(a, s), l32(a, s), "RotL32"); same(I::RotR32(a, s), l32(a, (32 - s) & 31), "RotR32"); same(I::RotL64(b, t), l64(b, t), "RotL64"); same(I::RotR64(b, t), l64(b, (64 - t) & 63), "RotR64"); s = s ? s : 1; t = t ? t : 1; same(I::RotFL32(a, s), l32(a, s), "RotFL32"); same(I::RotFR32(a, s), l32(a, 32 - s), "RotFR32"); same(I::RotFL64(b, t), l64(b, t), "RotFL64"); same(I::RotFR64(b, t), l64(b, 64 - t), "RotFR64");
	same(I::Parity(b), (uint64_t)(__builtin_popcountll(b) & 1), "Parity"); size_t cl = c.u(0, 70); same(I::Crop(b, cl), cl >= 64 ? b : cl == 0 ? 0 : b & (~0ull >> (64 - cl)), "Crop"); c.nontrivial();
}
// byte strings: comparison, conditional move, shift, hexadecimal
PROP(bytes, 8000, 300000)
{
	typedef IntegerTools I; size_t n = c.len(200, { 16, 32, 64 }), ao = c.u(0, 9), bo = c.u(0, 9); Bytes a = c.bytes(ao + n + c.u(0, 5)), b = c.bytes(bo + n + c.u(0, 5)); std::copy(a.begin() + ao, a.begin() + ao + n, b.begin() + bo); bool diff = n && c.flip(); size_t at = 0; if (diff) { at = c.u(0, n - 1); b[bo + at] ^= (uint8_t)(1 << c.u(0, 7)); } c.desc << n << (diff ? " differ at " : " equal ") << at;
	same(I::Compare(a, ao, b, bo, n), !diff, "Compare"); same(I::Verify(a, ao, b, bo, n) == 0, !diff, "Verify"); same(I::VerifyRaw(a.data() + ao, b.data() + bo, n) == 0, !diff, "VerifyRaw"); same(MemoryTools::Compare(a, ao, b, bo, n), !diff, "MemoryTools::Compare"); SBytes sb = sec(b); same(I::Compare(a, ao, sb, bo, n), !diff, "Compare with a secure vector"); same(I::Verify(a, ao, sb, bo, n) == 0, !diff, "Verify with a secure vector");
	Bytes o = c.bytes(b.size()), was = o, part(a.begin() + ao, a.begin() + ao + n); bool on = c.flip(); I::CMov(a, ao, o, bo, n, on ? 1 : 0); require_eq(o, on ? patched(was, bo, part) : was, "CMov"); o = was; I::CMovRaw(a.data() + ao, o.data() + bo, n, on ? 1 : 0); require_eq(o, on ? patched(was, bo, part) : was, "CMovRaw");
	if (!a.empty()) { Bytes z = c.bytes(a.size() + c.u(0, 3)), zw = z, e(a.size()); for (size_t i = 0; i < a.size(); ++i) { e[i] = (uint8_t)((a[i] << 1) | (i + 1 < a.size() ? a[i + 1] >> 7 : 0)); } z.resize(a.size()); same(I::ShiftLeft(a, z), (uint32_t)(a[0] >> 7), "bit shifted out"); require_eq(z, e, "ShiftLeft"); }
	std::string h = I::ToHex(a, ao, n), e; for (size_t i = 0; i < n; ++i) { char t[3]; snprintf(t, 3, "%02X", a[ao + i]); e += t; } require(h == e, "ToHex"); require_eq(I::FromHex(h, h.size()), part, "FromHex"); size_t k = c.u(0, n); require_eq(I::FromHex(h, 2 * k), Bytes(part.begin(), part.begin() + k), "FromHex of a part"); std::string low = h; for (auto& x : low) { x = (char)tolower(x); } require_eq(I::FromHex(low, low.size()), part, "FromHex of lower case");
	std::string s = I::ToString(a, ao, n); require_eq(str(s), part, "ToString"); if (n) { require_eq(I::FromString(s), part, "FromString"); } SBytes cl = sec(a); I::Clear(cl); require_eq(cl, SBytes(a.size(), 0), "Clear"); std::vector<uint64_t> w = filled<std::vector<uint64_t>>(c, c.u(0, 9)); I::Clear(w); require_eq(raw(w), Bytes(w.size() * 8, 0), "Clear of words"); std::array<std::array<uint32_t, 5>, 3> aa; for (auto& r : aa) { c.fill((uint8_t*)r.data(), 20); } I::ClearArray(aa); for (auto& r : aa) { for (auto x : r) { same(x, 0u, "ClearArray"); } }
	c.nontrivial();
}
// memory helpers: a byte model of the two arrays
template<class A, class B> static void mem(pbt::Case& c)
{
	typedef MemoryTools M; const size_t WA = sizeof(typename A::value_type), WB = sizeof(typename B::value_type); size_t io = c.u(0, 5), oo = c.u(0, 5), n = c.len(600, { 16, 32, 64, 128, 256 }); bool same_w = WA == WB; int op = (int)c.u(0, same_w ? 11 : 5); if (op < 2) { n -= n % WB; n -= n % WA; }
	A a = filled<A>(c, io + (n + WA - 1) / WA + c.u(0, 3)); B b = filled<B>(c, oo + (n + WB - 1) / WB + c.u(0, 3)); Bytes ra = raw(a), was = raw(b), e = was; size_t ib = io * WA, ob = oo * WB; std::string nm; uint8_t v = (uint8_t)c.u(0, 255); a.push_back(0); b.push_back(0); ra = raw(a); was = raw(b); e = was;
	switch (op)
	{
	case 0: nm = "AND"; M::AND(a, io, b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] &= ra[ib + i]; } break;
	case 1: nm = "OR"; M::OR(a, io, b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] |= ra[ib + i]; } break;
	case 2: nm = "XOR"; M::XOR(a, io, b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] ^= ra[ib + i]; } break;
	case 3: nm = "Copy"; M::Copy(a, io, b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] = ra[ib + i]; } break;
	case 4: nm = "Clear"; M::Clear(b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] = 0; } break;
	case 5: nm = "SetValue"; M::SetValue(b, oo, n, v); for (size_t i = 0; i < n; ++i) { e[ob + i] = v; } break;
	case 6: nm = "CopyFromObject"; M::CopyFromObject(ra.data() + ib, b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] = ra[ib + i]; } break;
	case 7: { nm = "CopyToObject"; Bytes o = c.bytes(n + 8), ow = o; M::CopyToObject(a, io, o.data(), n); for (size_t i = 0; i < n; ++i) { ow[i] = ra[ib + i]; } require_eq(o, ow, nm); break; }
	case 8: { nm = "CopyToValue"; uint64_t x = 0; size_t k = std::min<size_t>(n, 8); M::CopyToValue(a, io, x, k); Bytes q = le(x, 8); require_eq(q, patched(Bytes(8), 0, sub(ra, ib, k)), nm); break; }
	case 9: { nm = "CopyFromValue"; uint64_t x = c.u(0, ~0ull); size_t k = std::min<size_t>(n, 8); M::CopyFromValue(x, b, oo, k); Bytes q = le(x, 8); q.resize(k); e = patched(e, ob, q); break; }
	case 10: { nm = "Move"; size_t o2 = c.u(0, 5); n = std::min(n, was.size() - std::max(o2, oo) * WB); M::Move(b, oo, b, o2, n); for (size_t i = 0; i < n; ++i) { e[o2 * WB + i] = was[ob + i]; } break; }
	default: { nm = "XorPartial"; M::XorPartial(a, io, b, oo, n); for (size_t i = 0; i < n; ++i) { e[ob + i] ^= ra[ib + i]; } }
	}
	c.desc << nm << " " << n << " bytes, elements " << WA << " at " << io << " -> " << WB << " at " << oo; c.tag(nm); require_eq(raw(b), e, nm); require_eq(raw(a), ra, nm + ": input"); if (n) { c.nontrivial(); }
}
PROP(memory, 16000, 600000)
{
	switch (c.u(0, 9)) { case 0: mem<Bytes, Bytes>(c); break; case 1: mem<std::vector<uint16_t>, std::vector<uint16_t>>(c); break; case 2: mem<std::vector<uint32_t>, std::vector<uint32_t>>(c); break; case 3: mem<std::vector<uint64_t>, std::vector<uint64_t>>(c); break; case 4: mem<Bytes, SBytes>(c); break; case 5: mem<SBytes, SBytes>(c); break; case 6: mem<Bytes, std::vector<uint64_t>>(c); break; case 7: mem<std::vector<uint64_t>, Bytes>(c); break; case 8: mem<std::vector<uint32_t>, std::vector<uint64_t>>(c); break; default: mem<Bytes, std::vector<uint32_t>>(c); }
}
template<class A, class B> static void fixedmem(pbt::Case& c)
{
	typedef MemoryTools M; const size_t WA = sizeof(typename A::value_type), WB = sizeof(typename B::value_type); size_t io = c.u(0, 5), oo = c.u(0, 5); A a = filled<A>(c, io + 128 / WA + 2); B b = filled<B>(c, oo + 128 / WB + 2); Bytes ra = raw(a), e = raw(b); size_t ib = io * WA, ob = oo * WB; int sz = (int)c.u(0, 3), op = (int)c.u(0, 5); if (sz == 3) { op = 2; } size_t n = 16u << sz; uint8_t v = (uint8_t)c.u(0, 255); std::string nm;
	switch (op)
	{
	case 0: nm = "AND"; sz == 0 ? M::AND128(a, io, b, oo) : sz == 1 ? M::AND256(a, io, b, oo) : M::AND512(a, io, b, oo); for (size_t i = 0; i < n; ++i) { e[ob + i] &= ra[ib + i]; } break;
	case 1: nm = "OR"; sz == 0 ? M::OR128(a, io, b, oo) : sz == 1 ? M::OR256(a, io, b, oo) : M::OR512(a, io, b, oo); for (size_t i = 0; i < n; ++i) { e[ob + i] |= ra[ib + i]; } break;
	case 2: nm = "XOR"; sz == 0 ? M::XOR128(a, io, b, oo) : sz == 1 ? M::XOR256(a, io, b, oo) : sz == 2 ? M::XOR512(a, io, b, oo) : M::XOR1024(a, io, b, oo); for (size_t i = 0; i < n; ++i) { e[ob + i] ^= ra[ib + i]; } break;
	case 3: nm = "COPY"; sz == 0 ? M::COPY128(a, io, b, oo) : sz == 1 ? M::COPY256(a, io, b, oo) : M::COPY512(a, io, b, oo); for (size_t i = 0; i < n; ++i) { e[ob + i] = ra[ib + i]; } break;
	case 4: nm = "CLEAR"; sz == 0 ? M::CLEAR128(b, oo) : sz == 1 ? M::CLEAR256(b, oo) : M::CLEAR512(b, oo); for (size_t i = 0; i < n; ++i) { e[ob + i] = 0; } break;
	default: nm = "SETVAL"; sz == 0 ? M::SETVAL128(b, oo, v) : sz == 1 ? M::SETVAL256(b, oo, v) : M::SETVAL512(b, oo, v); for (size_t i = 0; i < n; ++i) { e[ob + i] = v; }
	}
	nm += std::to_string(n * 8); c.desc << nm; c.tag(nm); require_eq(raw(b), e, nm); require_eq(raw(a), ra, nm + ": input"); c.nontrivial();
}
PROP(vectors, 8000, 200000)
{
	switch (c.u(0, 3)) { case 0: fixedmem<Bytes, Bytes>(c); break; case 1: fixedmem<std::vector<uint64_t>, std::vector<uint64_t>>(c); break; case 2: fixedmem<Bytes, std::vector<uint64_t>>(c); break; default: fixedmem<std::vector<uint32_t>, Bytes>(c); }
	typedef MemoryTools M; size_t n = c.len(300, { 16, 32, 64 }); std::unique_ptr<uint8_t[]> p, q; Bytes a = exact(c, n, p), b = exact(c, n, q), e = b; for (size_t i = 0; i < n; ++i) { e[i] ^= a[i]; } M::XorRaw(p.get(), q.get(), n); require_eq(q.get(), e.data(), n, "XorRaw"); M::CopyRaw(p.get(), q.get(), n); require_eq(q.get(), a.data(), n, "CopyRaw"); M::ClearRaw(q.get(), n); require_eq(q.get(), Bytes(n).data(), n, "ClearRaw"); uint8_t v = (uint8_t)c.u(0, 255); Bytes x = a; M::XorPad(x, v); e = a; for (auto& t : e) { t ^= v; } require_eq(x, e, "XorPad"); SBytes sx = sec(a); M::XorPad(sx, v); require_eq(sx, e, "XorPad, secure");
	size_t len = c.u(0, 200); void* blk = M::Malloc(len); require((blk != nullptr) == (len != 0), "Malloc"); if (blk) { memset(blk, 0x5A, len); size_t l2 = c.u(1, 300); blk = M::Realloc(blk, l2); require(blk != nullptr, "Realloc"); for (size_t i = 0; i < std::min(len, l2); ++i) { require(((uint8_t*)blk)[i] == 0x5A, "Realloc lost the contents"); } memset(blk, 1, l2); M::MallocFree(blk); }
}
PROP(arrays, 6000, 100000)
{
	typedef ArrayTools T; Bytes out = c.bytes(c.u(0, 40)), e = out; size_t steps = c.u(1, 6); SBytes so = sec(out); c.desc << "append " << steps;
	for (size_t i = 0; i < steps; ++i)
	{
		size_t r = 0, n = 0; Bytes add; switch (c.u(0, 4)) { case 0: { Bytes o = c.bytes(c.len(200, { 16, 32 })); n = o.size(); r = T::AppendObject(o.data(), out, n); T::AppendObject(o.data(), so, n); add = o; break; } case 1: { Bytes s = c.bytes(c.u(0, 50)); r = T::AppendString(std::string(s.begin(), s.end()), out); T::AppendString(std::string(s.begin(), s.end()), so); add = s; break; } case 2: { uint64_t v = c.u(0, ~0ull); r = T::AppendValue(v, out); T::AppendValue(v, so); add = le(v, 8); break; } case 3: { uint16_t v = (uint16_t)c.u(0, 65535); r = T::AppendValue(v, out); T::AppendValue(v, so); add = le(v, 2); break; } default: if (c.flip()) { Bytes o = c.bytes(c.len(200, { 16, 32 })); r = T::AppendVector(o, out); T::AppendVector(o, so); add = o; } else { std::vector<uint32_t> o = filled<std::vector<uint32_t>>(c, c.u(0, 30)); r = T::AppendVector(o, out); T::AppendVector(o, so); add = raw(o); } }
		e.insert(e.end(), add.begin(), add.end()); require_eq(out, e, "appended"); require_eq(so, e, "appended to a secure vector"); same(r, add.size(), "number of bytes appended");
	}
	size_t lanes = c.u(0, 17); std::vector<uint64_t> st = filled<std::vector<uint64_t>>(c, 25), sw = st; size_t io = c.u(0, 9); Bytes in = c.bytes(io + lanes * 8 + 1); T::AbsorbBlock8to64(in, io, st, lanes * 8); for (size_t i = 0; i < lanes; ++i) { uint64_t v = 0; for (int k = 7; k >= 0; --k) { v = (v << 8) | in[io + i * 8 + k]; } sw[i] ^= v; } require_eq(raw(st), raw(sw), "AbsorbBlock8to64");
	std::vector<uint32_t> v(c.u(0, 20)); for (auto& x : v) { x = (uint32_t)c.u(0, 5); } uint32_t f = (uint32_t)c.u(0, 5); bool has = std::find(v.begin(), v.end(), f) != v.end(); same(T::Contains(v, f), has, "Contains"); std::vector<uint32_t> left; for (auto x : v) { if (x != f) { left.push_back(x); } } std::vector<uint32_t> rm = v; same(T::Remove(f, rm), left.size(), "Remove"); require_eq(raw(rm), raw(left), "Remove");
	std::string s(c.u(0, 20), 'a'); for (auto& x : s) { x = (char)('a' + c.u(0, 3)); } char ch = (char)('a' + c.u(0, 3)); same(T::Contains(s.data(), s.size(), ch), s.find(ch) != std::string::npos, "Contains(char)"); std::vector<std::string> parts = T::Split(s, ch), ep; { size_t p0 = 0; while (p0 < s.size()) { size_t p1 = s.find(ch, p0); if (p1 == std::string::npos) { p1 = s.size(); } ep.push_back(s.substr(p0, p1 - p0)); p0 = p1 + 1; } } require(parts == ep, "Split");
	std::string z = s; if (!z.empty() && c.flip()) { z[c.u(0, z.size() - 1)] = 0; } same(T::StringSize(z.data(), z.size()), std::min(z.size(), z.find('\0')), "StringSize"); require_eq(T::ToByteArray(v.data(), v.size()), raw(v), "ToByteArray"); Bytes pb(s.begin(), s.end()); require_eq(str(T::ToString(pb)), str(s), "ToString(vector)"); require_eq(str(T::ToString(pb.data(), pb.size())), str(s), "ToString(pointer)"); std::wstring ws(s.begin(), s.end()); require_eq(str(T::ToString(ws.data(), ws.size(), true)), str(s), "ToString(wide)"); c.nontrivial();
}
PROP(shuffle, 300, 5000)
{
	std::vector<uint32_t> v(c.u(0, 60)); for (auto& x : v) { x = (uint32_t)c.u(0, 100); } std::vector<uint32_t> w = v; c.desc << v.size(); ArrayTools::RandomShuffle(v); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); require_eq(raw(v), raw(w), "a shuffle is a permutation"); c.nontrivial(v.size() > 1);
	// every one of the six orders of three elements comes up about as often as the others
	if (c.chance(1, 10)) { std::map<std::vector<uint8_t>, int> n; for (int i = 0; i < 600; ++i) { std::vector<uint8_t> t = { 1, 2, 3 }; ArrayTools::RandomShuffle(t); ++n[t]; } same(n.size(), (size_t)6, "orders of three elements"); for (auto& p : n) { require(p.second > 100 - 84 && p.second < 100 + 84, "a shuffle favours an order: " + std::to_string(p.second) + " of 600"); } c.tag("distribution"); }
}
