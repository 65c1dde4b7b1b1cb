// Reference models written from the published specifications (FIPS 180/197/198/202, SP 800-185, RFC 7693, the Skein and Serpent papers, RFC 8439 ...),
// not from the code under test.  Slow and plain on purpose.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <array>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
#include <openssl/kdf.h>

namespace ref {
typedef std::vector<uint8_t> Bytes;
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) { r.insert(r.end(), b.begin(), b.end()); } return r; }
inline Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline Bytes sub(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
inline uint64_t le(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) { v = (v << 8) | p[i]; } return v; }
inline uint64_t be(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) { v = (v << 8) | p[i]; } return v; }
inline void ple(uint8_t* p, uint64_t v, int n) { for (int i = 0; i < n; ++i) { p[i] = (uint8_t)(v >> (8 * i)); } }
inline void pbe(uint8_t* p, uint64_t v, int n) { for (int i = 0; i < n; ++i) { p[n - 1 - i] = (uint8_t)(v >> (8 * i)); } }
inline uint64_t rotl64(uint64_t v, int r) { r &= 63; return r ? (v << r) | (v >> (64 - r)) : v; }
inline uint64_t rotr64(uint64_t v, int r) { return rotl64(v, 64 - r); }
inline uint32_t rotl32(uint32_t v, int r) { r &= 31; return r ? (v << r) | (v >> (32 - r)) : v; }
inline uint32_t rotr32(uint32_t v, int r) { return rotl32(v, 32 - r); }

// ---- OpenSSL one-shots
inline Bytes ossl_md(const char* name, const Bytes& m, size_t xoflen = 0)
{
	static EVP_MD_CTX* c = EVP_MD_CTX_new();
	const EVP_MD* md = EVP_get_digestbyname(name);
	Bytes r(xoflen ? xoflen : (size_t)EVP_MD_size(md)); unsigned n = 0;
	EVP_DigestInit_ex(c, md, nullptr); EVP_DigestUpdate(c, m.data(), m.size());
	if (xoflen) { EVP_DigestFinalXOF(c, r.data(), r.size()); } else { EVP_DigestFinal_ex(c, r.data(), &n); }
	return r;
}
inline Bytes hmac(const char* md, const Bytes& key, const Bytes& m) { unsigned n = 0; Bytes r(64); uint8_t z = 0; HMAC(EVP_get_digestbyname(md), key.size() ? key.data() : &z, (int)key.size(), m.size() ? m.data() : &z, m.size(), r.data(), &n); r.resize(n); return r; }

// ---- BLAKE2 (RFC 7693 and the BLAKE2 paper's parameter block)
static const uint8_t B2SIGMA[10][16] = {
	{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
	{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
	{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0} };
struct B2b { typedef uint64_t W; static const int R = 12, WB = 8; static int r(int i) { static const int t[] = { 32,24,16,63 }; return t[i]; } static W rot(W v, int n) { return rotr64(v, n); }
	static const W* iv() { static const W t[8] = { 0x6A09E667F3BCC908ull,0xBB67AE8584CAA73Bull,0x3C6EF372FE94F82Bull,0xA54FF53A5F1D36F1ull,0x510E527FADE682D1ull,0x9B05688C2B3E6C1Full,0x1F83D9ABFB41BD6Bull,0x5BE0CD19137E2179ull }; return t; } };
struct B2s { typedef uint32_t W; static const int R = 10, WB = 4; static int r(int i) { static const int t[] = { 16,12,8,7 }; return t[i]; } static W rot(W v, int n) { return rotr32(v, n); }
	static const W* iv() { static const W t[8] = { 0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19 }; return t; } };
template<typename V> void b2_compress(typename V::W* h, const uint8_t* blk, unsigned __int128 t, bool last, bool lastnode)
{
	typedef typename V::W W; W v[16], m[16];
	for (int i = 0; i < 16; ++i) { m[i] = (W)le(blk + i * V::WB, V::WB); }
	for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = V::iv()[i]; }
	v[12] ^= (W)t; v[13] ^= (W)(t >> (8 * V::WB)); if (last) { v[14] = ~v[14]; } if (lastnode) { v[15] = ~v[15]; }
	for (int r = 0; r < V::R; ++r)
	{
		const uint8_t* s = B2SIGMA[r % 10];
		auto G = [&](int a, int b, int c, int d, W x, W y) { v[a] += v[b] + x; v[d] = V::rot(v[d] ^ v[a], V::r(0)); v[c] += v[d]; v[b] = V::rot(v[b] ^ v[c], V::r(1)); v[a] += v[b] + y; v[d] = V::rot(v[d] ^ v[a], V::r(2)); v[c] += v[d]; v[b] = V::rot(v[b] ^ v[c], V::r(3)); };
		G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]); G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]]);
		G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]); G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
	}
	for (int i = 0; i < 8; ++i) { h[i] ^= v[i] ^ v[i + 8]; }
}
// parameter block of 8 words; msg already has the key block in front when keyed
template<typename V> Bytes blake2(const Bytes& param, const Bytes& msg, bool lastnode = false)
{
	typedef typename V::W W; W h[8]; const size_t B = 16 * V::WB;
	for (int i = 0; i < 8; ++i) { h[i] = V::iv()[i] ^ (W)le(param.data() + i * V::WB, V::WB); }
	size_t pos = 0; unsigned __int128 t = 0;
	while (msg.size() - pos > B) { t += B; b2_compress<V>(h, msg.data() + pos, t, false, false); pos += B; }
	Bytes last(B, 0); if (msg.size() > pos) { memcpy(last.data(), msg.data() + pos, msg.size() - pos); } t += msg.size() - pos;
	b2_compress<V>(h, last.data(), t, true, lastnode);
	Bytes r(8 * V::WB); for (int i = 0; i < 8; ++i) { ple(r.data() + i * V::WB, h[i], V::WB); }
	return r;
}
struct B2P { uint8_t digest = 0, key = 0, fanout = 1, depth = 1; uint32_t leaf = 0; uint64_t node = 0; uint8_t ndepth = 0, inner = 0; Bytes salt, person; };
inline Bytes b2b_param(const B2P& p) { Bytes r(64, 0); r[0] = p.digest; r[1] = p.key; r[2] = p.fanout; r[3] = p.depth; ple(&r[4], p.leaf, 4); ple(&r[8], p.node, 8); r[16] = p.ndepth; r[17] = p.inner; if (p.salt.size()) memcpy(&r[32], p.salt.data(), 16); if (p.person.size()) memcpy(&r[48], p.person.data(), 16); return r; }
inline Bytes b2s_param(const B2P& p) { Bytes r(32, 0); r[0] = p.digest; r[1] = p.key; r[2] = p.fanout; r[3] = p.depth; ple(&r[4], p.leaf, 4); ple(&r[8], p.node, 6); r[14] = p.ndepth; r[15] = p.inner; if (p.salt.size()) memcpy(&r[16], p.salt.data(), 8); if (p.person.size()) memcpy(&r[24], p.person.data(), 8); return r; }
inline Bytes pad_to(const Bytes& b, size_t n) { Bytes r(b); r.resize(n, 0); return r; }

// ---- Threefish / Skein v1.3
inline void threefish(const std::vector<uint64_t>& key, uint64_t t0, uint64_t t1, std::vector<uint64_t>& x, int rounds = 0, int lastkey = -1) // lastkey: another subkey than rounds / 4 in the last injection
{
	static const int R4[8][2] = { {14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32} };
	static const int R8[8][4] = { {46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22} };
	static const int R16[8][8] = { {24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20} };
	static const int P4[4] = { 0,3,2,1 }, P8[8] = { 2,1,4,7,6,5,0,3 }, P16[16] = { 0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1 };
	const int n = (int)x.size(); if (!rounds) { rounds = n == 16 ? 80 : 72; }
	std::vector<uint64_t> k(key); uint64_t px = 0x1BD11BDAA9FC1A22ull; for (int i = 0; i < n; ++i) { px ^= key[i]; } k.push_back(px);
	uint64_t t[3] = { t0, t1, t0 ^ t1 };
	auto inject = [&](int s, int cnt) { for (int i = 0; i < n; ++i) { uint64_t v = k[(s + i) % (n + 1)]; if (i == n - 3) { v += t[s % 3]; } if (i == n - 2) { v += t[(s + 1) % 3]; } if (i == n - 1) { v += cnt; } x[i] += v; } };
	for (int d = 0; d < rounds; ++d)
	{
		if (d % 4 == 0) { inject(d / 4, d / 4); }
		for (int j = 0; j < n / 2; ++j) { int r = n == 4 ? R4[d % 8][j] : n == 8 ? R8[d % 8][j] : R16[d % 8][j]; uint64_t a = x[2 * j], b = x[2 * j + 1]; a += b; b = rotl64(b, r) ^ a; x[2 * j] = a; x[2 * j + 1] = b; }
		std::vector<uint64_t> y(n); for (int i = 0; i < n; ++i) { y[i] = x[n == 4 ? P4[i] : n == 8 ? P8[i] : P16[i]]; } x = y;
	}
	inject(lastkey < 0 ? rounds / 4 : lastkey, rounds / 4);
}
inline std::vector<uint64_t> words(const Bytes& b) { std::vector<uint64_t> r(b.size() / 8); for (size_t i = 0; i < r.size(); ++i) { r[i] = le(&b[8 * i], 8); } return r; }
inline Bytes unwords(const std::vector<uint64_t>& w) { Bytes r(w.size() * 8); for (size_t i = 0; i < w.size(); ++i) { ple(&r[8 * i], w[i], 8); } return r; }
enum { UBI_KEY = 0, UBI_CFG = 4, UBI_MSG = 48, UBI_OUT = 63 };
// one UBI block: returns the next chaining value
inline Bytes ubi_block(const Bytes& G, const Bytes& blk, uint64_t pos, int type, bool first, bool final)
{
	std::vector<uint64_t> x = words(blk), m = x;
	uint64_t t1 = ((uint64_t)type << 56) | (first ? 1ull << 62 : 0) | (final ? 1ull << 63 : 0);
	threefish(words(G), pos, t1, x);
	for (size_t i = 0; i < x.size(); ++i) { x[i] ^= m[i]; }
	return unwords(x);
}
inline Bytes ubi(Bytes G, const Bytes& msg, int type)
{
	size_t nb = G.size(), pos = 0; bool first = true;
	do { size_t n = std::min(nb, msg.size() - pos); Bytes blk(nb, 0); if (n) memcpy(blk.data(), msg.data() + pos, n); pos += n; G = ubi_block(G, blk, pos, type, first, pos == msg.size()); first = false; } while (pos < msg.size());
	return G;
}
inline Bytes skein_cfg(uint64_t outbits, uint8_t yl = 0, uint8_t yf = 0, uint8_t ym = 0) { Bytes c(32, 0); memcpy(c.data(), "SHA3", 4); c[4] = 1; ple(&c[8], outbits, 8); c[16] = yl; c[17] = yf; c[18] = ym; return c; }
inline Bytes skein(size_t nb, const Bytes& msg) { Bytes G = ubi(Bytes(nb, 0), skein_cfg(nb * 8), UBI_CFG); G = ubi(G, msg, UBI_MSG); return ubi(G, Bytes(8, 0), UBI_OUT); }

// ---- Keccak
inline void keccakf(uint64_t* A, int rounds = 24)
{
	static const int rc[24] = { 1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44 }, pl[24] = { 10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1 };
	uint8_t lfsr = 1;
	for (int r = 0; r < rounds; ++r)
	{
		uint64_t C[5]; for (int i = 0; i < 5; ++i) { C[i] = A[i] ^ A[i + 5] ^ A[i + 10] ^ A[i + 15] ^ A[i + 20]; }
		for (int i = 0; i < 5; ++i) { uint64_t d = C[(i + 4) % 5] ^ rotl64(C[(i + 1) % 5], 1); for (int j = 0; j < 25; j += 5) { A[j + i] ^= d; } }
		uint64_t t = A[1]; for (int i = 0; i < 24; ++i) { uint64_t b = A[pl[i]]; A[pl[i]] = rotl64(t, rc[i]); t = b; }
		for (int j = 0; j < 25; j += 5) { uint64_t B[5]; memcpy(B, A + j, 40); for (int i = 0; i < 5; ++i) { A[j + i] = B[i] ^ (~B[(i + 1) % 5] & B[(i + 2) % 5]); } }
		for (int j = 0; j < 7; ++j) { bool bit = lfsr & 1; if (bit) { A[0] ^= 1ull << ((1 << j) - 1); } lfsr = (lfsr & 0x80) ? (uint8_t)((lfsr << 1) ^ 0x71) : (uint8_t)(lfsr << 1); }
	}
}
struct Sponge
{
	uint64_t A[25]; size_t rate; int rounds;
	Sponge(size_t r, int rd = 24) : rate(r), rounds(rd) { memset(A, 0, sizeof A); }
	void xorb(size_t i, uint8_t v) { A[i / 8] ^= (uint64_t)v << (8 * (i % 8)); }
	void absorb_full(const Bytes& m) { for (size_t p = 0; p + rate <= m.size(); p += rate) { for (size_t i = 0; i < rate; ++i) { xorb(i, m[p + i]); } keccakf(A, rounds); } }
	void absorb_final(const Bytes& m, uint8_t dom) { absorb_full(m); size_t p = m.size() / rate * rate, n = m.size() - p; for (size_t i = 0; i < n; ++i) { xorb(i, m[p + i]); } xorb(n, dom); xorb(rate - 1, 0x80); }
	Bytes squeeze(size_t n) { Bytes r; while (r.size() < n) { keccakf(A, rounds); Bytes b(200); for (int i = 0; i < 25; ++i) { ple(&b[8 * i], A[i], 8); } r.insert(r.end(), b.begin(), b.begin() + std::min(rate, n - r.size())); } return r; }
};
inline Bytes keccak(size_t rate, uint8_t dom, const Bytes& m, size_t n, int rounds = 24) { Sponge s(rate, rounds); s.absorb_final(m, dom); return s.squeeze(n); }
inline Bytes left_encode(uint64_t v) { int n = 1; while (n < 8 && (v >> (8 * n))) { ++n; } Bytes r(1 + n); r[0] = (uint8_t)n; pbe(&r[1], v, n); return r; }
inline Bytes right_encode(uint64_t v) { int n = 1; while (n < 8 && (v >> (8 * n))) { ++n; } Bytes r(1 + n); pbe(&r[0], v, n); r[n] = (uint8_t)n; return r; }
inline Bytes encode_string(const Bytes& s) { return cat({ left_encode(s.size() * 8), s }); }
inline Bytes bytepad(const Bytes& x, size_t w) { Bytes r = cat({ left_encode(w), x }); r.resize((r.size() + w - 1) / w * w, 0); return r; }
inline Bytes cshake(size_t rate, const Bytes& m, size_t n, const Bytes& N, const Bytes& S, int rounds = 24) { if (N.empty() && S.empty()) { return keccak(rate, 0x1F, m, n, rounds); } return keccak(rate, 0x04, cat({ bytepad(cat({ encode_string(N), encode_string(S) }), rate), m }), n, rounds); }
inline Bytes kmac(size_t rate, const Bytes& K, const Bytes& m, size_t n, const Bytes& S, int rounds = 24) { return cshake(rate, cat({ bytepad(encode_string(K), rate), m, right_encode(n * 8) }), n, str("KMAC"), S, rounds); }
}
