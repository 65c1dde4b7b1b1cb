// Kyber (round 3 of the NIST process) from its specification: plain integer arithmetic, transforms by definition
#pragma once
#include "ref.h"
namespace ref {
struct KyberModel
{
	enum { Q = 3329, N = 256 };
	typedef std::vector<int> P; typedef std::vector<P> PV;
	int k, eta1, du, dv;
	KyberModel(int kk) : k(kk), eta1(kk == 2 ? 3 : 2), du(kk <= 3 ? 10 : 11), dv(kk <= 3 ? 4 : 5) {}
	static Bytes shake(size_t rate, const Bytes& m, size_t n) { return keccak(rate, 0x1F, m, n); }
	static int br7(int i) { int r = 0; for (int b = 0; b < 7; ++b) { if (i >> b & 1) { r |= 1 << (6 - b); } } return r; }
	static int pw(int e) { static std::vector<int> t; if (t.empty()) { t.resize(256); int v = 1; for (int i = 0; i < 256; ++i) { t[i] = v; v = v * 17 % Q; } } return t[e & 255]; } // 17 has order 256
	static P ntt(const P& f) { P r(N); for (int i = 0; i < 128; ++i) { int z = 2 * br7(i) + 1; long e = 0, o = 0; for (int j = 0; j < 128; ++j) { int w = pw(z * j); e += (long)f[2 * j] * w; o += (long)f[2 * j + 1] * w; } r[2 * i] = (int)(e % Q); r[2 * i + 1] = (int)(o % Q); } return r; }
	static P intt(const P& f) { P r(N); for (int j = 0; j < 128; ++j) { long e = 0, o = 0; for (int i = 0; i < 128; ++i) { int w = pw(-(2 * br7(i) + 1) * j); e += (long)f[2 * i] * w; o += (long)f[2 * i + 1] * w; } r[2 * j] = (int)(e % Q * 3303 % Q); r[2 * j + 1] = (int)(o % Q * 3303 % Q); } return r; } // 3303 = 1/128
	static P mul(const P& a, const P& b) { P r(N); for (int i = 0; i < 128; ++i) { long z = pw(2 * br7(i) + 1), a0 = a[2 * i], a1 = a[2 * i + 1], b0 = b[2 * i], b1 = b[2 * i + 1]; r[2 * i] = (int)((a0 * b0 + a1 * b1 % Q * z) % Q); r[2 * i + 1] = (int)((a0 * b1 + a1 * b0) % Q); } return r; }
	static P add(const P& a, const P& b) { P r(N); for (int i = 0; i < N; ++i) { r[i] = (a[i] + b[i]) % Q; } return r; }
	static P uniform(const Bytes& rho, int x, int y) { Bytes in = cat({ rho, Bytes{ (uint8_t)x, (uint8_t)y } }), s = shake(168, in, 168 * 8); P r; for (size_t p = 0; r.size() < N; p += 3) { if (p + 3 > s.size()) { s = shake(168, in, s.size() * 2); } int a = s[p] | (s[p + 1] & 15) << 8, b = s[p + 1] >> 4 | s[p + 2] << 4; if (a < Q) { r.push_back(a); } if (b < Q && r.size() < N) { r.push_back(b); } } return r; }
	static P noise(const Bytes& s, int n, int eta) { Bytes b = shake(136, cat({ s, Bytes{ (uint8_t)n } }), 64 * eta); P r(N); auto bit = [&](int i) { return b[i / 8] >> (i % 8) & 1; }; for (int i = 0; i < N; ++i) { int x = 0, y = 0; for (int j = 0; j < eta; ++j) { x += bit(2 * i * eta + j); y += bit(2 * i * eta + eta + j); } r[i] = (x - y + Q) % Q; } return r; }
	static Bytes enc(const P& f, int d) { Bytes r(32 * d, 0); for (int i = 0; i < N; ++i) { for (int b = 0; b < d; ++b) { if (f[i] >> b & 1) { int o = i * d + b; r[o / 8] |= 1 << (o % 8); } } } return r; }
	static P dec(const Bytes& s, size_t off, int d) { P r(N, 0); for (int i = 0; i < N; ++i) { for (int b = 0; b < d; ++b) { int o = i * d + b; r[i] |= (s[off + o / 8] >> (o % 8) & 1) << b; } } return r; }
	static P comp(const P& f, int d) { P r(N); for (int i = 0; i < N; ++i) { r[i] = (int)((((long)f[i] << d) * 2 + Q) / (2 * Q)) & ((1 << d) - 1); } return r; }
	static P decomp(const P& f, int d) { P r(N); for (int i = 0; i < N; ++i) { r[i] = (f[i] * Q * 2 + (1 << d)) >> (d + 1); } return r; }
	void keygen(const Bytes& d, const Bytes& z, Bytes& pk, Bytes& sk) const
	{
		Bytes g = keccak(72, 6, d, 64), rho = sub(g, 0, 32), sig = sub(g, 32, 32); PV s(k); for (int i = 0; i < k; ++i) { s[i] = ntt(noise(sig, i, eta1)); }
		pk.clear(); sk.clear();
		for (int i = 0; i < k; ++i) { P t = ntt(noise(sig, k + i, eta1)); for (int j = 0; j < k; ++j) { t = add(t, mul(uniform(rho, j, i), s[j])); } Bytes e = enc(t, 12); pk.insert(pk.end(), e.begin(), e.end()); }
		pk.insert(pk.end(), rho.begin(), rho.end()); for (int i = 0; i < k; ++i) { Bytes e = enc(s[i], 12); sk.insert(sk.end(), e.begin(), e.end()); }
		sk = cat({ sk, pk, keccak(136, 6, pk, 32), z });
	}
	Bytes cpa(const Bytes& pk, const Bytes& m, const Bytes& coins) const
	{
		PV r(k), t(k); Bytes rho = sub(pk, 384 * k, 32), c; for (int i = 0; i < k; ++i) { r[i] = ntt(noise(coins, i, eta1)); t[i] = dec(pk, 384 * i, 12); for (auto& x : t[i]) { x %= Q; } }
		for (int i = 0; i < k; ++i) { P u(N, 0); for (int j = 0; j < k; ++j) { u = add(u, mul(uniform(rho, i, j), r[j])); } u = add(intt(u), noise(coins, k + i, 2)); Bytes e = enc(comp(u, du), du); c.insert(c.end(), e.begin(), e.end()); }
		P v(N, 0); for (int j = 0; j < k; ++j) { v = add(v, mul(t[j], r[j])); } v = add(intt(v), noise(coins, 2 * k, 2)); P mm = dec(m, 0, 1); for (auto& x : mm) { x *= (Q + 1) / 2; } return cat({ c, enc(comp(add(v, mm), dv), dv) });
	}
	size_t ctlen() const { return 32 * du * k + 32 * dv; }
	void encaps(const Bytes& pk, const Bytes& rnd, Bytes& ct, Bytes& ss) const { Bytes m = keccak(136, 6, rnd, 32), g = keccak(72, 6, cat({ m, keccak(136, 6, pk, 32) }), 64); ct = cpa(pk, m, sub(g, 32, 32)); ss = shake(136, cat({ sub(g, 0, 32), keccak(136, 6, ct, 32) }), 32); }
	bool decaps(const Bytes& sk, const Bytes& ct, Bytes& ss) const
	{
		P v(N, 0); for (int i = 0; i < k; ++i) { P s = dec(sk, 384 * i, 12); for (auto& x : s) { x %= Q; } v = add(v, mul(s, ntt(decomp(dec(ct, 32 * du * i, du), du)))); } v = intt(v); P w = decomp(dec(ct, 32 * du * k, dv), dv); for (int i = 0; i < N; ++i) { w[i] = (w[i] - v[i] + Q) % Q; }
		Bytes m = enc(comp(w, 1), 1), pk = sub(sk, 384 * k, 384 * k + 32), h = sub(sk, 768 * k + 32, 32), z = sub(sk, 768 * k + 64, 32), g = keccak(72, 6, cat({ m, h }), 64); bool ok = cpa(pk, m, sub(g, 32, 32)) == ct;
		ss = shake(136, cat({ ok ? sub(g, 0, 32) : z, keccak(136, 6, ct, 32) }), 32); return ok;
	}
};
}
