// C26: every variant of a permutation computes the same function; lane arithmetic; one-shot sponge and SHA-2 functions
// LIBS: -lcrypto
#define OPENSSL_SUPPRESS_DEPRECATED
#include "cexutil.h"
#include "cipherref.h"
#include "aead.h"
#include "stream.h"
#include "Keccak.h"
#include "SHA2.h"
#include "Blake.h"
#include "ChaCha.h"
#include "Threefish.h"
#include "Skein.h"
#include "CMUL.h"
#include "UInt128.h"
#include "UInt256.h"
#include "ULong256.h"
#include <openssl/sha.h>
using namespace CEX; using namespace CEX::Digest; using namespace pbt; using CEX::Numeric::UInt128; using CEX::Numeric::UInt256; using CEX::Numeric::ULong256;
typedef std::vector<uint64_t> W64; typedef std::vector<uint32_t> W32v;
template<class T> static T word(pbt::Case& c) { uint64_t k = c.u(0, 4), v = c.u(0, ~0ull), w = sizeof(T) * 8; return (T)(k == 0 ? v : k == 1 ? (v & 1 ? 0 : ~0ull) : k == 2 ? 1ull << (v % w) : k == 3 ? v & 0xFF : ~v); }
template<class A> static A block(pbt::Case& c) { A a; c.fill((uint8_t*)a.data(), sizeof(a)); if (c.chance(3, 10)) { for (auto& x : a) { x = word<typename A::value_type>(c); } } return a; }
template<class T> static std::vector<T> blockv(pbt::Case& c, size_t n) { std::vector<T> a(n); c.fill((uint8_t*)a.data(), n * sizeof(T)); if (c.chance(3, 10)) { for (auto& x : a) { x = word<T>(c); } } return a; }
template<class V> static Bytes raw(const V& v) { Bytes b(v.size() * sizeof(v[0])); memcpy(b.data(), v.data(), b.size()); return b; }
static Bytes cut(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
typedef std::array<uint64_t, 25> KS;
PROP(keccak, 24000, 900000)
{
	KS s = block<KS>(c), a = s, e = s; size_t steps = c.u(1, 4); c.desc << "Keccak-f, " << steps << " times";
	std::array<ULong256, 25> w; std::array<KS, 4> lane; for (auto& l : lane) { l = block<KS>(c); } lane[c.u(0, 3)] = s; auto pack = [&] { for (size_t i = 0; i < 25; ++i) { std::array<uint64_t, 4> t = { lane[0][i], lane[1][i], lane[2][i], lane[3][i] }; w[i].Load(t, 0); } }; pack();
	auto lanes = [&](int rounds, const char* nm) { for (size_t l = 0; l < 4; ++l) { ref::keccakf(lane[l].data(), rounds); Bytes g; for (size_t i = 0; i < 25; ++i) { std::array<uint64_t, 4> t; w[i].Store(t, 0); uint8_t b[8]; memcpy(b, &t[l], 8); g.insert(g.end(), b, b + 8); } require_eq(g, raw(lane[l]), std::string(nm) + ", lane " + std::to_string(l)); } };
	for (size_t k = 0; k < steps; ++k)
	{
		switch (c.u(0, 6))
		{
		case 0: { Keccak::Permute(a, Keccak::PermutationRounds::RX24); ref::keccakf(e.data(), 24); break; }
		case 1: { Keccak::Permute(a, Keccak::PermutationRounds::RX12); ref::keccakf(e.data(), 12); break; }
		case 2: { Keccak::Permute(a, Keccak::PermutationRounds::RX48); ref::keccakf(e.data(), 48); break; }
		case 3: { Keccak::PermuteR24P1600U(a); ref::keccakf(e.data(), 24); break; }
		case 4: { Keccak::PermuteR48P1600U(a); ref::keccakf(e.data(), 48); break; }
		case 5: { int r = c.flip() ? 24 : 12; if (r == 24 && c.flip()) { Keccak::PermuteR24P4x1600H(w); } else { Keccak::PermuteR24P4x1600H(w, r); } lanes(r, "PermuteR24P4x1600H"); break; }
		default: { Keccak::PermuteR48P4x1600H(w); lanes(48, "PermuteR48P4x1600H"); }
		}
		require_eq(raw(a), raw(e), "state after a Keccak permutation");
	}
	c.nontrivial();
}
// the four-lane sponge and the stateless forms
PROP(sponge, 30000, 900000)
{
	static const size_t RATES[] = { 168, 136, 104, 72, 144 }; size_t ri = c.u(0, 3), rate = RATES[ri]; int k = (int)c.u(0, 6); static const char* NM[] = { "SHA3", "SHAKE", "cSHAKE", "KMAC", "absorb and squeeze", "incremental", "four lanes" }; std::string nm = NM[k];
	size_t n = c.len(3 * rate + 40, { rate, rate - 1, rate + 1, rate - 2, rate - 3, 2 * rate, 2 * rate - 1, rate - 4, 8, 7 }), on = c.len(2 * rate + 40, { rate, rate - 1, rate + 1, 2 * rate, 32 }), io = c.u(0, 9), oo = c.u(0, 9), back = c.u(0, 9); int rounds = (k == 4 || k == 1 || k == 2) ? (c.chance(7, 10) ? 24 : c.flip() ? 12 : 48) : 24; Keccak::PermutationRounds R = rounds == 24 ? Keccak::PermutationRounds::RX24 : rounds == 12 ? Keccak::PermutationRounds::RX12 : Keccak::PermutationRounds::RX48;
	Bytes in = c.bytes(io + n + c.u(0, 3)), m = cut(in, io, n), e; if (k == 0) { on = (200 - rate) / 2; } c.desc << nm << " rate " << rate << " message " << n << " output " << on << " rounds " << rounds; c.tag(nm); c.nontrivial();
	Bytes out = c.bytes(oo + on + back), was = out; auto want = [&](const Bytes& x) { std::copy(x.begin(), x.end(), was.begin() + oo); require_eq(out, was, nm); };
	switch (k)
	{
	case 0: { if (rate == 168) { rate = 144; on = 28; } out = was = c.bytes(oo + on + back); Keccak::Compute(in, io, n, out, oo, rate); want(ref::keccak(rate, 6, m, on)); break; }
	case 1: { Keccak::XOFP1600(in, io, n, out, oo, on, rate, R); want(ref::keccak(rate, 0x1F, m, on, rounds)); break; }
	case 2: { Bytes S = c.bytes(c.len(rate + 30, { rate, rate - 4, 32 })), N = c.bytes(c.len(rate + 30, { rate - 4, 4, 8 })); Keccak::CXOFP1600(m, S, N, out, oo, on, rate, R); want(ref::keccak(rate, 4, ref::cat({ ref::bytepad(ref::cat({ ref::encode_string(N), ref::encode_string(S) }), rate), m }), on, rounds)); break; }
	case 3: { Bytes K = c.bytes(c.len(2 * rate, { 32, rate - 4, rate - 5, rate })), S = c.bytes(c.len(rate + 30, { rate - 8, rate - 9 })); out = was = c.bytes(on); oo = 0; Keccak::MACP1600(K, S, in, io, n, out, rate); want(ref::kmac(rate, K, m, on, S)); break; }
	case 4: { KS s = { 0 }; uint8_t dom = c.flip() ? 0x1F : (uint8_t)c.u(1, 127); Keccak::Absorb(in, io, n, rate, dom, s, R); size_t blocks = on / rate; Keccak::Squeeze(s, out, oo, blocks, rate, R); if (on % rate) { Keccak::SqueezePartial(s, out, oo + blocks * rate, on % rate, (uint32_t)rate, R); } want(ref::keccak(rate, dom, m, on, rounds)); break; }
	case 5: { KS s = { 0 }; size_t pos = 0, p = io; for (size_t q : c.chunks(n, 6)) { pos = Keccak::Incremental(in, p, q, pos, rate, 0x1F, s); p += q; } Keccak::Incremental(in, p, 0, pos, rate, 0x1F, s, true); Keccak::Squeeze(s, out, oo, on / rate, rate); if (on % rate) { Keccak::SqueezePartial(s, out, oo + on / rate * rate, on % rate, (uint32_t)rate); } want(ref::keccak(rate, 0x1F, m, on)); break; }
	default:
	{
		struct L { CEX_ALIGN(32) std::array<__m256i, 25> s; } st; memset(&st, 0, sizeof(st)); Bytes x[4]; size_t pad = c.u(8, 16); for (auto& b : x) { b = c.bytes(n + pad); } uint8_t dom = c.flip() ? 0x1F : 6; size_t blocks = c.u(1, 3); Keccak::AbsorbR24x1600H(st.s, rate, x[0], x[1], x[2], x[3], n, dom); Bytes o[4]; for (auto& b : o) { b = Bytes(blocks * rate); } Keccak::SqueezeBlocksR24x1600H(st.s, rate, o[0], o[1], o[2], o[3], blocks);
		for (int l = 0; l < 4; ++l) { require_eq(o[l], ref::keccak(rate, dom, cut(x[l], 0, n), blocks * rate), nm + ", lane " + std::to_string(l)); }
	}
	}
}
PROP(sha2, 30000, 900000)
{
	size_t off = c.u(0, 9), k = c.u(0, 3); c.nontrivial();
	auto t256 = [](std::array<uint32_t, 8> s, const uint8_t* p) { SHA256_CTX x; SHA256_Init(&x); std::copy(s.begin(), s.end(), x.h); SHA256_Transform(&x, p); std::copy(x.h, x.h + 8, s.begin()); return s; };
	auto t512 = [](std::array<uint64_t, 8> s, const uint8_t* p) { SHA512_CTX x; SHA512_Init(&x); for (int i = 0; i < 8; ++i) { x.h[i] = s[i]; } SHA512_Transform(&x, p); for (int i = 0; i < 8; ++i) { s[i] = x.h[i]; } return s; };
	if (k == 0)
	{
		Bytes in = c.bytes(off + 64 + c.u(0, 3)); auto s = block<std::array<uint32_t, 8>>(c), e = t256(s, &in[off]), a = s; c.desc << "SHA2-256 compression"; SHA2::PermuteR64P512C(in, off, a); require_eq(raw(a), raw(e), "PermuteR64P512C"); a = s; SHA2::PermuteR64P512U(in, off, a); require_eq(raw(a), raw(e), "PermuteR64P512U");
#if defined(__SHA__)
		a = s; SHA2::PermuteR64P512V(in, off, a); require_eq(raw(a), raw(e), "PermuteR64P512V");
#endif
		Bytes w = c.bytes(off + 512); std::array<std::array<uint32_t, 8>, 8> L; for (auto& l : L) { l = block<std::array<uint32_t, 8>>(c); } std::array<UInt256, 8> v; for (size_t i = 0; i < 8; ++i) { v[i].Load(L[0][i], L[1][i], L[2][i], L[3][i], L[4][i], L[5][i], L[6][i], L[7][i]); } SHA2::PermuteR64P8x512H(w, off, v); for (size_t l = 0; l < 8; ++l) { auto x = t256(L[l], &w[off + 64 * l]); std::array<uint32_t, 8> g; for (size_t i = 0; i < 8; ++i) { std::array<uint32_t, 8> t; v[i].Store(t, 0); g[i] = t[7 - l]; } require_eq(raw(g), raw(x), "PermuteR64P8x512H, lane " + std::to_string(l)); }
	}
	else if (k == 1)
	{
		Bytes in = c.bytes(off + 128 + c.u(0, 3)); auto s = block<std::array<uint64_t, 8>>(c), e = t512(s, &in[off]), a = s; c.desc << "SHA2-512 compression"; SHA2::PermuteR80P1024C(in, off, a); require_eq(raw(a), raw(e), "PermuteR80P1024C"); a = s; SHA2::PermuteR80P1024U(in, off, a); require_eq(raw(a), raw(e), "PermuteR80P1024U");
		Bytes w = c.bytes(off + 512); std::array<std::array<uint64_t, 8>, 4> L; for (auto& l : L) { l = block<std::array<uint64_t, 8>>(c); } std::array<ULong256, 8> v; for (size_t i = 0; i < 8; ++i) { v[i].Load(L[0][i], L[1][i], L[2][i], L[3][i]); } SHA2::PermuteR80P4x1024H(w, off, v); for (size_t l = 0; l < 4; ++l) { auto x = t512(L[l], &w[off + 128 * l]); std::array<uint64_t, 8> g; for (size_t i = 0; i < 8; ++i) { std::array<uint64_t, 4> t; v[i].Store(t, 0); g[i] = t[3 - l]; } require_eq(raw(g), raw(x), "PermuteR80P4x1024H, lane " + std::to_string(l)); }
	}
	else
	{
		size_t n = c.len(300, { 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 119, 120, 239, 240 }), oo = c.u(0, 9), v = c.u(0, 2), b = v == 0 ? 64 : 128; if (k == 3 && v == 1) { v = 2; } static const char* MD[] = { "SHA256", "SHA384", "SHA512" }; size_t dl = v == 0 ? 32 : v == 1 ? 48 : 64; c.desc << (k == 2 ? "digest " : "HMAC ") << MD[v] << " of " << n; Bytes in = c.bytes(off + n + c.u(0, 3)), m = cut(in, off, n), out = c.bytes(oo + dl + c.u(0, 3)), was = out, e;
		if (k == 2) { if (v == 0) { SHA2::Compute256(in, off, n, out, oo); } else if (v == 1) { SHA2::Compute384(in, off, n, out, oo); } else { SHA2::Compute512(in, off, n, out, oo); } e = ref::ossl_md(MD[v], m); }
		else { Bytes K = c.bytes(c.len(b, { b, b - 1, 32 })); if (v == 0) { SHA2::MACR64P512(K, in, off, n, out, oo); } else { SHA2::MACR80P1024(K, in, off, n, out, oo); } e = ref::hmac(MD[v], K, m); }
		std::copy(e.begin(), e.end(), was.begin() + oo); require_eq(out, was, k == 2 ? "stateless digest" : "stateless HMAC");
	}
}
// BLAKE2 compression with an arbitrary second half of the work vector
template<typename V> static std::array<typename V::W, 8> b2(const std::array<typename V::W, 8>& s, const std::array<typename V::W, 8>& iv, const std::vector<typename V::W>& m)
{
	typedef typename V::W W; W v[16]; for (int i = 0; i < 8; ++i) { v[i] = s[i]; v[8 + i] = iv[i]; } auto g = [&](int a, int b, int cc, int d, W x, W y) { v[a] += v[b] + x; v[d] = V::rot(v[d] ^ v[a], V::r(0)); v[cc] += v[d]; v[b] = V::rot(v[b] ^ v[cc], V::r(1)); v[a] += v[b] + y; v[d] = V::rot(v[d] ^ v[a], V::r(2)); v[cc] += v[d]; v[b] = V::rot(v[b] ^ v[cc], V::r(3)); };
	for (int r = 0; r < V::R; ++r) { const uint8_t* p = ref::B2SIGMA[r % 10]; g(0, 4, 8, 12, m[p[0]], m[p[1]]); g(1, 5, 9, 13, m[p[2]], m[p[3]]); g(2, 6, 10, 14, m[p[4]], m[p[5]]); g(3, 7, 11, 15, m[p[6]], m[p[7]]); g(0, 5, 10, 15, m[p[8]], m[p[9]]); g(1, 6, 11, 12, m[p[10]], m[p[11]]); g(2, 7, 8, 13, m[p[12]], m[p[13]]); g(3, 4, 9, 14, m[p[14]], m[p[15]]); }
	std::array<W, 8> o; for (int i = 0; i < 8; ++i) { o[i] = s[i] ^ v[i] ^ v[8 + i]; } return o;
}
PROP(blake, 30000, 900000)
{
	size_t off = c.u(0, 9); c.nontrivial();
	if (c.flip())
	{
		typedef std::array<uint32_t, 8> S; Bytes in = c.bytes(off + 64 + c.u(0, 3)); W32v m(16); memcpy(m.data(), &in[off], 64); S s = block<S>(c), iv = block<S>(c), e = b2<ref::B2s>(s, iv, m), a = s; c.desc << "BLAKE2s compression"; Blake::PermuteR10P512C(in, off, a, iv); require_eq(raw(a), raw(e), "PermuteR10P512C"); a = s; Blake::PermuteR10P512U(in, off, a, iv); require_eq(raw(a), raw(e), "PermuteR10P512U"); a = s; Blake::PermuteR10P512V(in, off, a, iv); require_eq(raw(a), raw(e), "PermuteR10P512V");
		Bytes w = c.bytes(off + 512); S L[8], I[8]; for (int l = 0; l < 8; ++l) { L[l] = block<S>(c); I[l] = block<S>(c); } std::array<UInt256, 8> v, vi; for (int i = 0; i < 8; ++i) { S t, u; for (int l = 0; l < 8; ++l) { t[l] = L[l][i]; u[l] = I[l][i]; } v[i].Load(t, 0); vi[i].Load(u, 0); } Blake::PermuteR10P8x512H(w, off, v, vi); for (int l = 0; l < 8; ++l) { for (int i = 0; i < 16; ++i) { memcpy(&m[i], &w[off + (i * 8 + l) * 4], 4); } S x = b2<ref::B2s>(L[l], I[l], m), g; for (int i = 0; i < 8; ++i) { S t; v[i].Store(t, 0); g[i] = t[l]; } require_eq(raw(g), raw(x), "PermuteR10P8x512H, lane " + std::to_string(l)); }
	}
	else
	{
		typedef std::array<uint64_t, 8> S; Bytes in = c.bytes(off + 128 + c.u(0, 3)); W64 m(16); memcpy(m.data(), &in[off], 128); S s = block<S>(c), iv = block<S>(c), e = b2<ref::B2b>(s, iv, m), a = s; c.desc << "BLAKE2b compression"; Blake::PermuteR12P1024C(in, off, a, iv); require_eq(raw(a), raw(e), "PermuteR12P1024C"); a = s; Blake::PermuteR12P1024U(in, off, a, iv); require_eq(raw(a), raw(e), "PermuteR12P1024U"); a = s; Blake::PermuteR12P1024V(in, off, a, iv); require_eq(raw(a), raw(e), "PermuteR12P1024V");
		Bytes w = c.bytes(off + 512); S L[4], I[4]; for (int l = 0; l < 4; ++l) { L[l] = block<S>(c); I[l] = block<S>(c); } std::array<ULong256, 8> v, vi; for (int i = 0; i < 8; ++i) { std::array<uint64_t, 4> t, u; for (int l = 0; l < 4; ++l) { t[l] = L[l][i]; u[l] = I[l][i]; } v[i].Load(t, 0); vi[i].Load(u, 0); } Blake::PermuteR12P4x1024H(w, off, v, vi); for (int l = 0; l < 4; ++l) { for (int i = 0; i < 16; ++i) { memcpy(&m[i], &w[off + (i * 4 + l) * 8], 8); } S x = b2<ref::B2b>(L[l], I[l], m), g; for (int i = 0; i < 8; ++i) { std::array<uint64_t, 4> t; v[i].Store(t, 0); g[i] = t[l]; } require_eq(raw(g), raw(x), "PermuteR12P4x1024H, lane " + std::to_string(l)); }
	}
}
PROP(chacha, 30000, 900000)
{
	using Cipher::Stream::ChaCha; static const int RC[8][4] = { {16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7} }, RX[8][4] = { {38,19,10,55},{33,4,51,13},{16,34,56,51},{4,53,42,41},{34,41,59,17},{23,31,37,20},{31,44,47,46},{12,47,44,30} };
	size_t oo = c.u(0, 9), r = 2 * c.u(1, 20), lanes = 8; Bytes out, was; std::string nm; c.nontrivial();
	auto put = [&](size_t at, const Bytes& e) { std::copy(e.begin(), e.end(), was.begin() + at); };
	if (c.flip())
	{
		std::array<uint32_t, 14> s = block<std::array<uint32_t, 14>>(c); auto e = [&](uint32_t a, uint32_t b, size_t rr) { W32v x(s.begin(), s.begin() + 12); x.push_back(a); x.push_back(b); x.push_back(s[12]); x.push_back(s[13]); return raw(ref::chacha_block(x, (int)rr, RC)); };
		std::array<uint32_t, 2> k = block<std::array<uint32_t, 2>>(c); out = was = c.bytes(oo + 64 + c.u(0, 3)); switch (c.u(0, 2)) { case 0: nm = "PermuteP512C"; ChaCha::PermuteP512C(out, oo, k, s, r); put(oo, e(k[0], k[1], r)); break; case 1: nm = "PermuteR20P512U"; ChaCha::PermuteR20P512U(out, oo, k, s); put(oo, e(k[0], k[1], 20)); break;
		default: { nm = "PermuteP8x512H"; out = was = c.bytes(oo + 512 + c.u(0, 3)); auto q = block<std::array<uint32_t, 16>>(c); ChaCha::PermuteP8x512H(out, oo, q, s, r); for (size_t l = 0; l < lanes; ++l) { put(oo + 64 * l, e(q[l], q[8 + l], r)); } } }
	}
	else
	{
		std::array<uint64_t, 14> s = block<std::array<uint64_t, 14>>(c); auto e = [&](uint64_t a, uint64_t b) { W64 x(s.begin(), s.begin() + 12); x.push_back(a); x.push_back(b); x.push_back(s[12]); x.push_back(s[13]); return raw(ref::chacha_block(x, (int)r, RX)); };
		std::array<uint64_t, 2> k = block<std::array<uint64_t, 2>>(c); out = was = c.bytes(oo + 128 + c.u(0, 3)); if (c.flip()) { nm = "PermuteP1024C"; ChaCha::PermuteP1024C(out, oo, k, s, r); put(oo, e(k[0], k[1])); }
		else { nm = "PermuteP4x1024H"; out = was = c.bytes(oo + 512 + c.u(0, 3)); auto q = block<std::array<uint64_t, 8>>(c); ChaCha::PermuteP4x1024H(out, oo, q, s, r); for (size_t l = 0; l < 4; ++l) { put(oo + 128 * l, e(q[l], q[4 + l])); } }
	}
	c.desc << nm << " rounds " << r; c.tag(nm); require_eq(out, was, nm);
}
template<size_t N> struct TF
{
	typedef std::array<uint64_t, N> B; typedef std::array<uint64_t, 2> T; typedef std::array<uint64_t, N * 4> B4; typedef std::array<uint64_t, 8> C8;
	static Bytes e(const B& k, uint64_t c0, uint64_t c1, const T& t, int rounds) { W64 x(N, ~0ull); x[0] = c0; x[1] = c1; ref::threefish(W64(k.begin(), k.end()), t[0], t[1], x, rounds, N == 16 ? 20 : 18); return raw(x); }
	static void go(pbt::Case& c, void (*C)(const B&, const T&, const T&, B&, size_t), void (*U)(const B&, const T&, const T&, B&), int ur, void (*H)(const B&, const C8&, const T&, B4&, size_t))
	{
		B k = block<B>(c), o = block<B>(c); T ctr = block<T>(c), tw = block<T>(c); int r = 8 * (int)c.u(9, 16); c.desc << "Threefish-" << N * 64 << " rounds " << r;
		C(k, ctr, tw, o, r); require_eq(raw(o), e(k, ctr[0], ctr[1], tw, r), "compact Threefish"); U(k, ctr, tw, o); require_eq(raw(o), e(k, ctr[0], ctr[1], tw, ur), "unrolled Threefish");
		C8 q = block<C8>(c); B4 w = block<B4>(c); H(k, q, tw, w, r); Bytes g = raw(w); for (size_t l = 0; l < 4; ++l) { require_eq(cut(g, l * N * 8, N * 8), e(k, q[l], q[4 + l], tw, r), "wide Threefish, lane " + std::to_string(l)); }
	}
	// state is the key; the message is the block
	static void skein(pbt::Case& c, void (*C)(const B&, const T&, B&, size_t), std::vector<std::pair<void (*)(const B&, const T&, B&), int>> U)
	{
		B m = block<B>(c), s = block<B>(c), o = s; T tw = block<T>(c); int r = 8 * (int)c.u(9, 16); c.desc << "Skein-" << N * 64 << " rounds " << r; auto e = [&](int rounds) { W64 x(m.begin(), m.end()); ref::threefish(W64(s.begin(), s.end()), tw[0], tw[1], x, rounds, N == 16 ? 20 : 18); return raw(x); };
		C(m, tw, o, r); require_eq(raw(o), e(r), "compact Skein"); for (auto& u : U) { o = s; u.first(m, tw, o); require_eq(raw(o), e(u.second), "unrolled Skein, " + std::to_string(u.second) + " rounds"); }
	}
};
PROP(threefish, 30000, 900000)
{
	using Cipher::Stream::Threefish; c.nontrivial(); typedef std::array<uint64_t, 2> T;
	switch (c.u(0, 5))
	{
	case 0: TF<4>::go(c, &Threefish::PemuteP256C<TF<4>::T, TF<4>::B>, &Threefish::PemuteR72P256U<T, TF<4>::B>, 72, &Threefish::PemuteP4x256H<T, TF<4>::B, TF<4>::C8, TF<4>::B4>); break;
	case 1: TF<8>::go(c, &Threefish::PemuteP512C<T, TF<8>::B>, &Threefish::PemuteR96P512U<T, TF<8>::B>, 96, &Threefish::PemuteP4x512H<T, TF<8>::B, TF<8>::B4>); break;
	case 2: TF<16>::go(c, &Threefish::PemuteP1024C<T, TF<16>::B>, &Threefish::PemuteR120P1024U<T, TF<16>::B>, 120, &Threefish::PemuteP4x1024H<T, TF<16>::C8, TF<16>::B, TF<16>::B4>); break;
	case 3: TF<4>::skein(c, &Skein::PemuteP256C<T, TF<4>::B>, { { &Skein::PemuteR72P256U<T, TF<4>::B>, 72 } }); break;
	case 4: TF<8>::skein(c, &Skein::PemuteP512C<T, TF<8>::B>, { { &Skein::PemuteR72P512U<T, TF<8>::B>, 72 }, { &Skein::PemuteR96P512U<T, TF<8>::B>, 96 }, { &Skein::PemuteR72P512V<T, TF<8>::B>, 72 } }); break;
	default: TF<16>::skein(c, &Skein::PemuteP1024C<T, TF<16>::B>, { { &Skein::PemuteR80P1024U<T, TF<16>::B>, 80 }, { &Skein::PemuteR120P1024U<T, TF<16>::B>, 120 } });
	}
}
PROP(cmul, 18000, 360000)
{
	std::array<uint64_t, 2> h = block<std::array<uint64_t, 2>>(c); std::array<uint8_t, 16> x; c.fill(x.data(), 16); if (c.chance(3, 10)) { uint64_t a = word<uint64_t>(c), b = word<uint64_t>(c); memcpy(&x[0], &a, 8); memcpy(&x[8], &b, 8); } Bytes H(16); ref::pbe(&H[0], h[0], 8); ref::pbe(&H[8], h[1], 8); Bytes e = ref::gfmul(Bytes(x.begin(), x.end()), H); c.desc << "product in GF(2^128)"; c.nontrivial();
	auto a = x; auto s = h; Numeric::CMUL::PermuteR128P128U(s, a); require_eq(Bytes(a.begin(), a.end()), e, "PermuteR128P128U"); a = x; s = h; Numeric::CMUL::PermuteR128P128C(s, a); require_eq(Bytes(a.begin(), a.end()), e, "PermuteR128P128C"); a = x; s = h; Numeric::CMUL::PermuteR128P128V(s, a); require_eq(Bytes(a.begin(), a.end()), e, "PermuteR128P128V");
}
// the SIMD integers act on each lane as the unsigned integer they hold
template<class V, class T, size_t N> struct Lanes
{
	typedef std::array<T, N> A; static A get(const V& v) { A a; v.Store(a, 0); return a; } static V put(const A& a) { V v; v.Load(a, 0); return v; }
	template<class F> static void bin(const V& r, const A& a, const A& b, F f, const std::string& nm) { A g = get(r); for (size_t i = 0; i < N; ++i) { require(g[i] == (T)f(a[i], b[i]), nm + ": lane " + std::to_string(i) + " of " + hex(raw(a)) + " and " + hex(raw(b)) + " gives " + hex(raw(g))); } }
	static void common(pbt::Case& c, const std::string& cls)
	{
		A a, b; for (auto& x : a) { x = word<T>(c); } for (auto& x : b) { x = word<T>(c); } if (c.flip()) { b[c.u(0, N - 1)] = a[c.u(0, N - 1)]; size_t i = c.u(0, N - 1); b[i] = a[i]; } V x = put(a), y = put(b), z; const int W = sizeof(T) * 8; int sh = (int)c.u(0, W - 1); c.nontrivial();
		bin(x + y, a, b, [](T p, T q) { return p + q; }, cls + " +"); z = x; z += y; bin(z, a, b, [](T p, T q) { return p + q; }, cls + " +="); bin(x - y, a, b, [](T p, T q) { return p - q; }, cls + " -"); z = x; z -= y; bin(z, a, b, [](T p, T q) { return p - q; }, cls + " -=");
		bin(x * y, a, b, [](T p, T q) { return p * q; }, cls + " *"); z = x; z *= y; bin(z, a, b, [](T p, T q) { return p * q; }, cls + " *=");
		bin(x ^ y, a, b, [](T p, T q) { return p ^ q; }, cls + " ^"); z = x; z ^= y; bin(z, a, b, [](T p, T q) { return p ^ q; }, cls + " ^="); bin(x | y, a, b, [](T p, T q) { return p | q; }, cls + " |"); z = x; z |= y; bin(z, a, b, [](T p, T q) { return p | q; }, cls + " |="); bin(x & y, a, b, [](T p, T q) { return p & q; }, cls + " &"); z = x; z &= y; bin(z, a, b, [](T p, T q) { return p & q; }, cls + " &="); bin(~x, a, b, [](T p, T) { return ~p; }, cls + " ~"); z = x; bin(z.AndNot(y), a, b, [](T p, T q) { return ~p & q; }, cls + " AndNot");
		bin(x << sh, a, b, [&](T p, T) { return p << sh; }, cls + " <<"); z = x; z <<= sh; bin(z, a, b, [&](T p, T) { return p << sh; }, cls + " <<="); bin(x >> sh, a, b, [&](T p, T) { return p >> sh; }, cls + " >>"); z = x; z >>= sh; bin(z, a, b, [&](T p, T) { return p >> sh; }, cls + " >>=");
		const T M = (T)~(T)0; bin(x == y, a, b, [&](T p, T q) { return p == q ? M : 0; }, cls + " =="); bin(x != y, a, b, [&](T p, T q) { return p != q ? M : 0; }, cls + " !="); bin(!x, a, b, [&](T p, T) { return p == 0 ? M : 0; }, cls + " !"); bin(x > y, a, b, [&](T p, T q) { return p > q ? M : 0; }, cls + " >"); bin(x < y, a, b, [&](T p, T q) { return p < q ? M : 0; }, cls + " <"); bin(x >= y, a, b, [&](T p, T q) { return p >= q ? M : 0; }, cls + " >="); bin(x <= y, a, b, [&](T p, T q) { return p <= q ? M : 0; }, cls + " <=");
		for (auto& q : b) { if (!q) { q = (T)c.u(1, 255); } } y = put(b); bin(x / y, a, b, [](T p, T q) { return p / q; }, cls + " /"); z = x; z /= y; bin(z, a, b, [](T p, T q) { return p / q; }, cls + " /="); bin(x % y, a, b, [](T p, T q) { return p % q; }, cls + " %"); z = x; z %= y; bin(z, a, b, [](T p, T q) { return p % q; }, cls + " %=");
		z = x; V r = ++z; bin(r, a, b, [](T p, T) { return p + 1; }, cls + " ++x"); bin(z, a, b, [](T p, T) { return p + 1; }, cls + " after ++x"); z = x; z++; bin(z, a, b, [](T p, T) { return p + 1; }, cls + " after x++");
		auto sw = [](T p, T) { T o = 0; for (size_t i = 0; i < sizeof(T); ++i) { o = (T)(o << 8 | ((p >> (8 * i)) & 0xFF)); } return o; }; bin(x.Swap(), a, b, sw, cls + " Swap"); z = x; bin(V::Swap(z), a, b, sw, cls + " static Swap"); V one = V::ONE(), zero = V::ZERO(), all(a[0]); bin(one, a, b, [](T, T) { return 1; }, cls + " ONE"); bin(zero, a, b, [](T, T) { return 0; }, cls + " ZERO"); bin(all, a, b, [&](T, T) { return a[0]; }, cls + " broadcast");
	}
};
template<class V, size_t N> static void small(pbt::Case& c, const std::string& cls)
{
	typedef std::array<uint32_t, N> A; typedef Lanes<V, uint32_t, N> L; L::common(c, cls); A a; for (auto& x : a) { x = word<uint32_t>(c); } V x = L::put(a), z; int sh = (int)c.u(0, 32); auto rl = [](uint32_t v, int n) { n &= 31; return n ? v << n | v >> (32 - n) : v; };
	L::bin(V::RotL32(x, sh), a, a, [&](uint32_t p, uint32_t) { return rl(p, sh); }, cls + " RotL32"); L::bin(V::RotR32(x, sh), a, a, [&](uint32_t p, uint32_t) { return rl(p, 32 - sh); }, cls + " RotR32"); z = x; z.RotL32(sh); L::bin(z, a, a, [&](uint32_t p, uint32_t) { return rl(p, sh); }, cls + " in place RotL32"); z = x; z.RotR32(sh); L::bin(z, a, a, [&](uint32_t p, uint32_t) { return rl(p, 32 - sh); }, cls + " in place RotR32");
	L::bin(V::Negate(x), a, a, [](uint32_t p, uint32_t) { return 0u - p; }, cls + " Negate"); L::bin(V::Abs(x), a, a, [](uint32_t p, uint32_t) { return (int32_t)p < 0 ? 0u - p : p; }, cls + " Abs"); sh = (int)c.u(0, 31); L::bin(V::ShiftRA(x, sh), a, a, [&](uint32_t p, uint32_t) { return (uint32_t)((int32_t)p >> sh); }, cls + " ShiftRA"); L::bin(V::ShiftRL(x, sh), a, a, [&](uint32_t p, uint32_t) { return p >> sh; }, cls + " ShiftRL");
	z = x; --z; L::bin(z, a, a, [](uint32_t p, uint32_t) { return p - 1; }, cls + " after --x"); z = x; z--; L::bin(z, a, a, [](uint32_t p, uint32_t) { return p - 1; }, cls + " after x--");
	Bytes u = c.bytes(N + 3); size_t o = c.u(0, 3); z.LoadUL(u, o); A g = L::get(z); for (size_t i = 0; i < N; ++i) { same(g[N - 1 - i], (uint32_t)u[o + i], cls + " LoadUL"); }
	W32v m = blockv<uint32_t>(c, 4 * N + 3), w(4 * N + 3, 7); V p, q, r, s; V::Load4(m, o, p, q, r, s); V* P[] = { &p, &q, &r, &s }; for (size_t i = 0; i < 4; ++i) { A t = L::get(*P[i]); for (size_t k = 0; k < N; ++k) { same(t[k], m[o + N * (k % 4) + i + 4 * (k / 4)], cls + " Load4"); } } V::Store4(w, o, p, q, r, s); require_eq(raw(W32v(w.begin() + o, w.begin() + o + 4 * N)), raw(W32v(m.begin() + o, m.begin() + o + 4 * N)), cls + " Store4 of Load4");
}
PROP(lanes, 48000, 1800000)
{
	switch (c.u(0, 2))
	{
	case 0: c.desc << "UInt128"; small<UInt128, 4>(c, "UInt128"); break;
	case 1: c.desc << "UInt256"; small<UInt256, 8>(c, "UInt256"); break;
	default: { c.desc << "ULong256"; typedef Lanes<ULong256, uint64_t, 4> L; L::common(c, "ULong256"); L::A a; for (auto& x : a) { x = word<uint64_t>(c); } ULong256 x = L::put(a), z; int sh = (int)c.u(0, 64); L::bin(ULong256::RotL64(x, sh), a, a, [&](uint64_t p, uint64_t) { return ref::rotl64(p, sh); }, "ULong256 RotL64"); L::bin(ULong256::RotR64(x, sh), a, a, [&](uint64_t p, uint64_t) { return ref::rotr64(p, sh); }, "ULong256 RotR64"); z = x; z.RotL64(sh); L::bin(z, a, a, [&](uint64_t p, uint64_t) { return ref::rotl64(p, sh); }, "ULong256 in place RotL64"); z = x; z.RotR64(sh); L::bin(z, a, a, [&](uint64_t p, uint64_t) { return ref::rotr64(p, sh); }, "ULong256 in place RotR64"); uint64_t s0, s1, s2, s3; x.Store(s0, s1, s2, s3); same(s0, a[0], "Store"); same(s1, a[1], "Store"); same(s2, a[2], "Store"); same(s3, a[3], "Store"); ULong256 y(a[3], a[2], a[1], a[0]); L::bin(y, a, a, [](uint64_t p, uint64_t) { return p; }, "ULong256 of four"); }
	}
}
