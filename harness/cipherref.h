// AES with given round keys, Serpent (bitwise from the AES submission), the library's extended key schedules, HKDF and cSHAKE as plain functions
#pragma once
#include "modelref.h"
namespace ref {
inline uint8_t gmul8(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) { r ^= a; } a = (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1B : 0)); b >>= 1; } return r; }
struct AesTab { uint8_t s[256], i[256], m[16][256]; AesTab() { for (int x = 0; x < 256; ++x) { uint8_t v = 0; if (x) { for (int y = 1; y < 256; ++y) { if (gmul8((uint8_t)x, (uint8_t)y) == 1) { v = (uint8_t)y; } } } uint8_t r = 0x63; for (int k = 0; k < 5; ++k) { r ^= (uint8_t)(v << k | v >> (8 - k)); } s[x] = r; i[r] = (uint8_t)x; } for (int k : { 1, 2, 3, 9, 11, 13, 14 }) { for (int x = 0; x < 256; ++x) { m[k][x] = gmul8((uint8_t)x, (uint8_t)k); } } } };
inline const AesTab& aestab() { static AesTab t; return t; }
// rk: (rounds + 1) * 16 bytes, FIPS 197 order
inline Bytes aes_enc(const Bytes& rk, Bytes x)
{
	const AesTab& T = aestab(); const size_t R = rk.size() / 16 - 1;
	for (int i = 0; i < 16; ++i) { x[i] ^= rk[i]; }
	for (size_t r = 1; r <= R; ++r)
	{
		Bytes y(16); for (int c = 0; c < 4; ++c) { for (int k = 0; k < 4; ++k) { y[4 * c + k] = T.s[x[4 * ((c + k) % 4) + k]]; } }
		if (r != R) { for (int c = 0; c < 4; ++c) { uint8_t a[4]; memcpy(a, &y[4 * c], 4); for (int k = 0; k < 4; ++k) { y[4 * c + k] = T.m[2][a[k]] ^ T.m[3][a[(k + 1) % 4]] ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; } } }
		for (int i = 0; i < 16; ++i) { x[i] = y[i] ^ rk[16 * r + i]; }
	}
	return x;
}
inline Bytes aes_dec(const Bytes& rk, Bytes x)
{
	const AesTab& T = aestab(); const size_t R = rk.size() / 16 - 1;
	for (size_t r = R; r >= 1; --r)
	{
		for (int i = 0; i < 16; ++i) { x[i] ^= rk[16 * r + i]; }
		if (r != R) { for (int c = 0; c < 4; ++c) { uint8_t a[4]; memcpy(a, &x[4 * c], 4); for (int k = 0; k < 4; ++k) { x[4 * c + k] = T.m[14][a[k]] ^ T.m[11][a[(k + 1) % 4]] ^ T.m[13][a[(k + 2) % 4]] ^ T.m[9][a[(k + 3) % 4]]; } } }
		Bytes y(16); for (int c = 0; c < 4; ++c) { for (int k = 0; k < 4; ++k) { y[4 * ((c + k) % 4) + k] = T.i[x[4 * c + k]]; } } x = y;
	}
	for (int i = 0; i < 16; ++i) { x[i] ^= rk[i]; }
	return x;
}
static const uint8_t SRP[8][16] = { {3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},{8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},{1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},{7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6} };
inline void srp_sbox(int s, uint32_t* x, bool inv = false)
{
	uint8_t t[16]; for (int i = 0; i < 16; ++i) { if (inv) { t[SRP[s][i]] = (uint8_t)i; } else { t[i] = SRP[s][i]; } }
	uint32_t y[4] = { 0, 0, 0, 0 };
	for (int i = 0; i < 32; ++i) { int n = (x[0] >> i & 1) | (x[1] >> i & 1) << 1 | (x[2] >> i & 1) << 2 | (x[3] >> i & 1) << 3; n = t[n]; for (int k = 0; k < 4; ++k) { y[k] |= (uint32_t)(n >> k & 1) << i; } }
	memcpy(x, y, 16);
}
inline void srp_lt(uint32_t* x) { x[0] = rotl32(x[0], 13); x[2] = rotl32(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ x[0] << 3; x[1] = rotl32(x[1], 1); x[3] = rotl32(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ x[1] << 7; x[0] = rotl32(x[0], 5); x[2] = rotl32(x[2], 22); }
inline void srp_ilt(uint32_t* x) { x[2] = rotr32(x[2], 22); x[0] = rotr32(x[0], 5); x[2] ^= x[3] ^ x[1] << 7; x[0] ^= x[1] ^ x[3]; x[3] = rotr32(x[3], 7); x[1] = rotr32(x[1], 1); x[3] ^= x[2] ^ x[0] << 3; x[1] ^= x[0] ^ x[2]; x[2] = rotr32(x[2], 3); x[0] = rotr32(x[0], 13); }
typedef std::vector<uint32_t> W32;
inline W32 srp_schedule(const Bytes& key) // Serpent; a 64 byte key uses the library's 16-word polynomial and 40 rounds. The key bytes are one big endian number
{
	const size_t N = key.size() == 64 ? 16 : 8, R = key.size() == 64 ? 40 : 32;
	W32 w(N, 0); for (size_t i = 0; i < key.size() / 4; ++i) { w[i] = (uint32_t)be(&key[key.size() - 4 * (i + 1)], 4); }
	if (key.size() < 32) { w[key.size() / 4] = 1; }
	for (size_t i = 0; i < 4 * (R + 1); ++i)
	{
		const uint32_t* p = &w[i]; // p[N - k] is w[i - k]
		uint32_t v = N == 8 ? p[0] ^ p[3] ^ p[5] ^ p[7] : p[0] ^ p[3] ^ p[5] ^ p[6] ^ p[8] ^ p[11] ^ p[13] ^ p[15];
		w.push_back(rotl32(v ^ 0x9E3779B9u ^ (uint32_t)i, 11));
	}
	W32 k(w.begin() + N, w.end());
	for (size_t i = 0; i <= R; ++i) { srp_sbox((int)((3 + 32 * 8 - i) % 8), &k[4 * i]); }
	return k;
}
inline Bytes srp_enc(const W32& k, const Bytes& b)
{
	uint32_t x[4]; for (int i = 0; i < 4; ++i) { x[i] = (uint32_t)le(&b[4 * i], 4); }
	const size_t R = k.size() / 4 - 1;
	for (size_t r = 0; r < R; ++r) { for (int i = 0; i < 4; ++i) { x[i] ^= k[4 * r + i]; } srp_sbox((int)(r % 8), x); if (r + 1 < R) { srp_lt(x); } }
	for (int i = 0; i < 4; ++i) { x[i] ^= k[4 * R + i]; }
	Bytes o(16); for (int i = 0; i < 4; ++i) { ple(&o[4 * i], x[i], 4); } return o;
}
inline Bytes srp_dec(const W32& k, const Bytes& b)
{
	uint32_t x[4]; for (int i = 0; i < 4; ++i) { x[i] = (uint32_t)le(&b[4 * i], 4); }
	const size_t R = k.size() / 4 - 1;
	for (int i = 0; i < 4; ++i) { x[i] ^= k[4 * R + i]; }
	for (size_t r = R; r-- > 0;) { if (r + 1 < R) { srp_ilt(x); } srp_sbox((int)(r % 8), x, true); for (int i = 0; i < 4; ++i) { x[i] ^= k[4 * r + i]; } }
	Bytes o(16); for (int i = 0; i < 4; ++i) { ple(&o[4 * i], x[i], 4); } return o;
}
inline Bytes hkdf(const char* md, const Bytes& key, const Bytes& salt, const Bytes& info, size_t n) { Bytes prk = salt.size() ? hmac(md, salt, key) : key, r, t; uint8_t c = 0; while (r.size() < n) { ++c; t = hmac(md, prk, cat({ t, info, Bytes(1, c) })); r.insert(r.end(), t.begin(), t.end()); } r.resize(n); return r; }
// ext: 0 none, 1 HKDF(SHA2-256), 2 HKDF(SHA2-512), 3 cSHAKE-256, 4 cSHAKE-512
struct BlockModel
{
	bool serpent; int ext; Bytes rk; W32 sk; std::shared_ptr<OsslAes> ossl; size_t rounds;
	BlockModel() {}
	BlockModel(bool srp, int e, const Bytes& key, const Bytes& info) : serpent(srp), ext(e)
	{
		if (!e) { if (srp) { sk = srp_schedule(key); rounds = key.size() == 64 ? 40 : 32; } else { ossl.reset(new OsslAes(key)); rounds = key.size() / 4 + 6; } return; }
		static const char* X[5] = { "", "H256", "H512", "S256", "S512" };
		Bytes cust = cat({ str(std::string(srp ? "SHX" : "RHX") + X[e]), Bytes(2), info }); ple(&cust[7], key.size() * 8, 2);
		rounds = srp ? (key.size() == 32 ? 40 : key.size() == 64 ? 48 : 64) : (key.size() == 128 ? 38 : key.size() / 4 + 14);
		size_t n = 16 * (rounds + 1);
		Bytes k = e == 1 ? hkdf("SHA256", key, {}, cust, n) : e == 2 ? hkdf("SHA512", key, {}, cust, n) : cshake(e == 3 ? 136 : 72, key, n, cust, {});
		if (srp) { sk.resize(n / 4); for (size_t i = 0; i < n / 4; ++i) { sk[i] = (uint32_t)le(&k[4 * i], 4); } }
		else { rk = k; for (size_t i = 0; i < n; i += 4) { std::swap(rk[i], rk[i + 3]); std::swap(rk[i + 1], rk[i + 2]); } }
	}
	Bytes enc(const Bytes& b) const { return serpent ? srp_enc(sk, b) : ext ? aes_enc(rk, b) : ossl->enc(b); }
	Bytes dec(const Bytes& b) const { return serpent ? srp_dec(sk, b) : ext ? aes_dec(rk, b) : ossl->dec(b); }
	Blk efn() const { BlockModel m = *this; return [m](const Bytes& b) { return m.enc(b); }; }
	Blk dfn() const { BlockModel m = *this; return [m](const Bytes& b) { return m.dec(b); }; }
};
}
