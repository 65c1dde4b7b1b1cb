#pragma once
// independent models of the signature schemes: Dilithium (round 3.0: key generation, signing, verification),
// XMSS / XMSS-MT verification (RFC 8391) and SPHINCS+ verification (round 3, robust)
#include "ref.h"
#include <openssl/sha.h>
namespace ref
{
struct Dilithium
{
	typedef std::array<int64_t, 256> Poly; typedef std::vector<Poly> Vec;
	static const int64_t Q = 8380417;
	int K, L, eta, tau, beta, omega; int64_t g1, g2; size_t SIG, PK, SK; int attempts = 0;
	Dilithium(int set) { if (set == 0) { K = 4; L = 4; eta = 2; tau = 39; omega = 80; g1 = 1 << 17; g2 = (Q - 1) / 88; } else if (set == 1) { K = 6; L = 5; eta = 4; tau = 49; omega = 55; g1 = 1 << 19; g2 = (Q - 1) / 32; } else { K = 8; L = 7; eta = 2; tau = 60; omega = 75; g1 = 1 << 19; g2 = (Q - 1) / 32; }
		beta = tau * eta; PK = 32 + K * 320; SK = 112 + (K + L) * 32 * etab() + K * 416; SIG = 32 + L * 32 * zb() + omega + K; }
	int etab() const { return eta == 2 ? 3 : 4; } int zb() const { return g1 == 1 << 17 ? 18 : 20; } int w1b() const { return g2 == (Q - 1) / 88 ? 6 : 4; }
	static int64_t mod(int64_t a) { a %= Q; return a < 0 ? a + Q : a; }
	static int64_t cen(int64_t a) { a = mod(a); return a > Q / 2 ? a - Q : a; }
	static int64_t power(int64_t b, int e) { int64_t r = 1; b = mod(b); for (; e; e >>= 1) { if (e & 1) { r = r * b % Q; } b = b * b % Q; } return r; }
	static const std::array<int64_t, 256>& zeta() { static std::array<int64_t, 256> z; static bool done = false; if (!done) { for (int i = 0; i < 256; ++i) { int r = 0; for (int j = 0; j < 8; ++j) { if (i >> j & 1) { r |= 1 << (7 - j); } } z[i] = power(1753, r); } done = true; } return z; }
	static void ntt(Poly& p) { int k = 0; for (int len = 128; len > 0; len >>= 1) { for (int s = 0; s < 256; s += 2 * len) { int64_t z = zeta()[++k]; for (int j = s; j < s + len; ++j) { int64_t t = z * mod(p[j + len]) % Q; p[j + len] = mod(p[j] - t); p[j] = mod(p[j] + t); } } } }
	static void intt(Poly& p) { int k = 256; for (int len = 1; len < 256; len <<= 1) { for (int s = 0; s < 256; s += 2 * len) { int64_t z = Q - zeta()[--k]; for (int j = s; j < s + len; ++j) { int64_t t = p[j]; p[j] = mod(t + p[j + len]); p[j + len] = z * mod(t - p[j + len]) % Q; } } } int64_t f = power(256, (int)Q - 2); for (auto& x : p) { x = x * f % Q; } }
	static Poly mul(const Poly& a, const Poly& b) { Poly r; for (int i = 0; i < 256; ++i) { r[i] = mod(a[i]) * mod(b[i]) % Q; } return r; }
	static void add(Poly& a, const Poly& b) { for (int i = 0; i < 256; ++i) { a[i] = mod(a[i] + b[i]); } }
	static void sub(Poly& a, const Poly& b) { for (int i = 0; i < 256; ++i) { a[i] = mod(a[i] - b[i]); } }
	static void pack(Bytes& o, const Poly& p, int bits) { uint64_t acc = 0; int n = 0; for (int i = 0; i < 256; ++i) { acc |= (uint64_t)p[i] << n; n += bits; while (n >= 8) { o.push_back((uint8_t)acc); acc >>= 8; n -= 8; } } }
	static Poly unpack(const uint8_t* b, int bits) { Poly p; size_t pos = 0; for (int i = 0; i < 256; ++i) { int64_t v = 0; for (int j = 0; j < bits; ++j, ++pos) { v |= (int64_t)(b[pos / 8] >> (pos % 8) & 1) << j; } p[i] = v; } return p; }
	static Bytes x128(const Bytes& s, int nonce, size_t n) { Bytes m = s; m.push_back((uint8_t)nonce); m.push_back((uint8_t)(nonce >> 8)); return keccak(168, 0x1F, m, n); }
	static Bytes crh(const Bytes& m, size_t n) { return keccak(136, 0x1F, m, n); }
	std::vector<Vec> matrix(const Bytes& rho) const { std::vector<Vec> A(K, Vec(L)); for (int i = 0; i < K; ++i) { for (int j = 0; j < L; ++j) { Bytes x = x128(rho, i << 8 | j, 168 * 8); size_t o = 0; for (int n = 0; n < 256; o += 3) { int64_t v = (x[o] | x[o + 1] << 8 | x[o + 2] << 16) & 0x7FFFFF; if (v < Q) { A[i][j][n++] = v; } } } } return A; }
	Poly small(const Bytes& s, int nonce) const { Poly p; Bytes x = x128(s, nonce, 168 * 5); int n = 0; for (size_t o = 0; n < 256; ++o) { for (int h = 0; h < 2 && n < 256; ++h) { int v = h ? x[o] >> 4 : x[o] & 15; if (eta == 2 && v < 15) { p[n++] = 2 - v % 5; } else if (eta == 4 && v < 9) { p[n++] = 4 - v; } } } return p; }
	Poly mask(const Bytes& s, int nonce) const { Bytes m = s; m.push_back((uint8_t)nonce); m.push_back((uint8_t)(nonce >> 8)); Bytes x = crh(m, 32 * zb()); Poly p = unpack(x.data(), zb()); for (auto& v : p) { v = g1 - v; } return p; }
	Poly challenge(const Bytes& c) const { Poly p; p.fill(0); Bytes x = crh(c, 136 * 8); size_t o = 8; for (int i = 256 - tau; i < 256; ++i) { int b; do { b = x[o++]; } while (b > i); int k = i - (256 - tau); p[i] = p[b]; p[b] = (x[k / 8] >> (k % 8) & 1) ? -1 : 1; } return p; }
	void decompose(int64_t a, int64_t& hi, int64_t& lo) const { a = mod(a); lo = a % (2 * g2); if (lo > g2) { lo -= 2 * g2; } if (a - lo == Q - 1) { hi = 0; lo -= 1; } else { hi = (a - lo) / (2 * g2); } }
	static int64_t norm(const Vec& v) { int64_t m = 0; for (auto& p : v) { for (auto x : p) { m = std::max(m, std::abs(cen(x))); } } return m; }
	void keygen(const Bytes& seed, Bytes& pk, Bytes& sk) const
	{
		Bytes e = crh(seed, 96), rho(e.begin(), e.begin() + 32), rp(e.begin() + 32, e.begin() + 64), key(e.begin() + 64, e.end()); auto A = matrix(rho); Vec s1(L), s2(K), h(L); for (int i = 0; i < L; ++i) { s1[i] = small(rp, i); h[i] = s1[i]; ntt(h[i]); } for (int i = 0; i < K; ++i) { s2[i] = small(rp, L + i); }
		pk = rho; Bytes t0s; for (int i = 0; i < K; ++i) { Poly t; t.fill(0); for (int j = 0; j < L; ++j) { add(t, mul(A[i][j], h[j])); } intt(t); add(t, s2[i]); Poly a, b; for (int n = 0; n < 256; ++n) { a[n] = (t[n] + 4095) >> 13; b[n] = 4096 - (t[n] - (a[n] << 13)); } pack(pk, a, 10); pack(t0s, b, 13); }
		sk = cat({ rho, key, crh(pk, 48) }); for (Vec* v : { &s1, &s2 }) { for (auto p : *v) { for (auto& x : p) { x = eta - x; } pack(sk, p, etab()); } } sk.insert(sk.end(), t0s.begin(), t0s.end());
	}
	// lax: a dishonest signer that only keeps signatures whose z is too long
	Bytes sign(const Bytes& sk, const Bytes& msg, bool lax = false)
	{
		Bytes rho(sk.begin(), sk.begin() + 32), key(sk.begin() + 32, sk.begin() + 64), tr(sk.begin() + 64, sk.begin() + 112); const uint8_t* p = &sk[112]; Vec s1(L), s2(K), t0(K);
		for (int i = 0; i < L; ++i, p += 32 * etab()) { s1[i] = unpack(p, etab()); for (auto& x : s1[i]) { x = eta - x; } ntt(s1[i]); } for (int i = 0; i < K; ++i, p += 32 * etab()) { s2[i] = unpack(p, etab()); for (auto& x : s2[i]) { x = eta - x; } ntt(s2[i]); } for (int i = 0; i < K; ++i, p += 416) { t0[i] = unpack(p, 13); for (auto& x : t0[i]) { x = 4096 - x; } ntt(t0[i]); }
		auto A = matrix(rho); Bytes mu = crh(cat({ tr, msg }), 48), rp = crh(cat({ key, mu }), 48);
		for (attempts = 1;; ++attempts)
		{
			Vec y(L), yh(L), w(K); for (int i = 0; i < L; ++i) { y[i] = mask(rp, L * (attempts - 1) + i); yh[i] = y[i]; ntt(yh[i]); } Bytes w1p = mu; for (int i = 0; i < K; ++i) { w[i].fill(0); for (int j = 0; j < L; ++j) { add(w[i], mul(A[i][j], yh[j])); } intt(w[i]); Poly q; for (int n = 0; n < 256; ++n) { int64_t lo; decompose(w[i][n], q[n], lo); } pack(w1p, q, w1b()); }
			Bytes c = crh(w1p, 32); Poly cp = challenge(c); ntt(cp); Vec z(L); for (int i = 0; i < L; ++i) { z[i] = mul(cp, s1[i]); intt(z[i]); add(z[i], y[i]); } int64_t nz = norm(z); if (lax) { if (nz < g1 - beta || nz >= g1) { continue; } } else if (nz >= g1 - beta) { continue; }
			Vec r0(K), ct(K); Bytes hints; std::vector<int> cnt; int64_t nr = 0; int total = 0; for (int i = 0; i < K; ++i) { Poly cs = mul(cp, s2[i]); intt(cs); Poly d = w[i]; sub(d, cs); ct[i] = mul(cp, t0[i]); intt(ct[i]); Poly e = d; add(e, ct[i]); for (int n = 0; n < 256; ++n) { int64_t h1, l1, h2, l2; decompose(d[n], h1, l1); nr = std::max(nr, std::abs(l1)); decompose(e[n], h2, l2); if (h1 != h2) { hints.push_back((uint8_t)n); ++total; } } cnt.push_back(total); }
			if (nr >= g2 - beta || norm(ct) >= g2 || total > omega) { continue; }
			Bytes s = c; for (auto& q : z) { for (auto& x : q) { x = g1 - cen(x); } pack(s, q, zb()); } hints.resize(omega); for (int v : cnt) { hints.push_back((uint8_t)v); } return cat({ s, hints });
		}
	}
	bool verify(const Bytes& pk, const Bytes& msg, const Bytes& sig) const
	{
		Bytes rho(pk.begin(), pk.begin() + 32), c(sig.begin(), sig.begin() + 32); Vec z(L); for (int i = 0; i < L; ++i) { z[i] = unpack(&sig[32 + i * 32 * zb()], zb()); for (auto& x : z[i]) { x = g1 - x; } } if (norm(z) >= g1 - beta) { return false; }
		const uint8_t* hp = &sig[32 + L * 32 * zb()]; Vec h(K); int pos = 0; for (int i = 0; i < K; ++i) { h[i].fill(0); int end = hp[omega + i]; if (end < pos || end > omega) { return false; } for (int j = pos; j < end; ++j) { if (j > pos && hp[j] <= hp[j - 1]) { return false; } h[i][hp[j]] = 1; } pos = end; } for (int j = pos; j < omega; ++j) { if (hp[j]) { return false; } }
		Bytes w1p = crh(cat({ crh(pk, 48), msg }), 48); Poly cp = challenge(c); ntt(cp); auto A = matrix(rho); for (auto& q : z) { ntt(q); } int64_t m = (Q - 1) / (2 * g2);
		for (int i = 0; i < K; ++i) { Poly t = unpack(&pk[32 + 320 * i], 10); for (auto& x : t) { x <<= 13; } ntt(t); Poly r; r.fill(0); for (int j = 0; j < L; ++j) { add(r, mul(A[i][j], z[j])); } sub(r, mul(cp, t)); intt(r); for (int n = 0; n < 256; ++n) { int64_t hi, lo; decompose(r[n], hi, lo); if (h[i][n]) { hi = lo > 0 ? (hi + 1) % m : (hi + m - 1) % m; } r[n] = hi; } pack(w1p, r, w1b()); }
		return crh(w1p, 32) == c;
	}
};
struct Xmss
{
	int n, h, d; bool shake, mt; size_t idxn, len, SIG;
	Xmss(int n_, bool shake_, int h_, int d_, bool mt_) : n(n_), h(h_), d(d_), shake(shake_), mt(mt_) { idxn = mt ? (h + 7) / 8 : 4; len = 2 * n + 3; SIG = idxn + n + d * len * n + h * n; }
	typedef std::array<uint32_t, 8> Adr;
	Bytes H(const Bytes& m) const { if (shake) { return keccak(n == 32 ? 168 : 136, 0x1F, m, n); } Bytes o(n); if (n == 32) { SHA256(m.data(), m.size(), o.data()); } else { SHA512(m.data(), m.size(), o.data()); } return o; }
	Bytes tb(uint64_t v, int k) const { Bytes o(k); for (int i = k - 1; i >= 0 && v; --i) { o[i] = (uint8_t)v; v >>= 8; } return o; }
	Bytes ab(const Adr& a) const { Bytes o; for (auto v : a) { for (int i = 3; i >= 0; --i) { o.push_back((uint8_t)(v >> (8 * i))); } } return o; }
	Bytes prf(const Bytes& key, const Bytes& m) const { return H(cat({ tb(3, n), key, m })); }
	Bytes th(Bytes in, const Bytes& seed, Adr a) const { a[7] = 0; Bytes key = prf(seed, ab(a)); Bytes mask; for (uint32_t i = 1; i <= in.size() / n; ++i) { a[7] = i; Bytes x = prf(seed, ab(a)); mask.insert(mask.end(), x.begin(), x.end()); } for (size_t i = 0; i < in.size(); ++i) { in[i] ^= mask[i]; } return H(cat({ tb((int)in.size() == n ? 0 : 1, n), key, in })); }
	Bytes root(const Bytes& pk, const Bytes& msg, const Bytes& sig, int stop = -1) const // pk: root || seed; stop: give what this layer signs
	{
		Bytes rt(pk.begin(), pk.begin() + n), seed(pk.begin() + n, pk.begin() + 2 * n); uint64_t idx = 0; for (size_t i = 0; i < idxn; ++i) { idx = idx << 8 | sig[i]; } Bytes R(sig.begin() + idxn, sig.begin() + idxn + n); const uint8_t* p = &sig[idxn + n];
		Bytes node = H(cat({ tb(2, n), R, rt, tb(idx, n), msg })); int th_ = h / d;
		for (int lay = 0; lay < d; ++lay)
		{
			if (lay == stop) { return node; }
			uint32_t leaf = (uint32_t)(idx & ((1ull << th_) - 1)); idx >>= th_; Adr base = { (uint32_t)lay, (uint32_t)(idx >> 32), (uint32_t)idx, 0, 0, 0, 0, 0 };
			std::vector<int> w; int cs = 0; for (uint8_t b : node) { w.push_back(b >> 4); w.push_back(b & 15); } for (int v : w) { cs += 15 - v; } for (int i = 2; i >= 0; --i) { w.push_back(cs >> (4 * i) & 15); }
			std::vector<Bytes> l; Adr a = base; a[4] = leaf; for (size_t i = 0; i < len; ++i, p += n) { a[5] = (uint32_t)i; Bytes x(p, p + n); for (int s = w[i]; s < 15; ++s) { a[6] = s; x = th(x, seed, a); } l.push_back(x); }
			a = base; a[3] = 1; a[4] = leaf; a[5] = 0; while (l.size() > 1) { std::vector<Bytes> u; for (size_t i = 0; i + 1 < l.size(); i += 2) { a[6] = (uint32_t)(i / 2); u.push_back(th(cat({ l[i], l[i + 1] }), seed, a)); } if (l.size() & 1) { u.push_back(l.back()); } l = u; ++a[5]; }
			node = l[0]; a = base; a[3] = 2; for (int k = 0; k < th_; ++k, p += n) { a[5] = k; a[6] = leaf >> (k + 1); Bytes q(p, p + n); node = th(leaf >> k & 1 ? cat({ q, node }) : cat({ node, q }), seed, a); }
		}
		return node;
	}
	bool verify(const Bytes& pk, const Bytes& msg, const Bytes& sig) const { return root(pk, msg, sig) == Bytes(pk.begin(), pk.begin() + n); }
};
struct Sphincs
{
	int n, h, d, a, k; int rate; size_t len, SIG;
	Sphincs(int set) { static const int t[4][6] = { { 16, 63, 7, 12, 14, 136 }, { 24, 63, 7, 14, 17, 136 }, { 32, 64, 8, 14, 22, 136 }, { 64, 64, 8, 14, 30, 72 } }; n = t[set][0]; h = t[set][1]; d = t[set][2]; a = t[set][3]; k = t[set][4]; rate = t[set][5]; len = 2 * n + 3; SIG = n + (a + 1) * k * n + d * len * n + h * n; }
	typedef std::array<uint32_t, 8> Adr;
	Bytes X(const Bytes& m, size_t o) const { return keccak(rate, 0x1F, m, o); }
	Bytes th(Bytes in, const Bytes& seed, const Adr& ad) const { Bytes pre = seed; for (auto v : ad) { for (int i = 3; i >= 0; --i) { pre.push_back((uint8_t)(v >> (8 * i))); } } Bytes m = X(pre, in.size()); for (size_t i = 0; i < in.size(); ++i) { in[i] ^= m[i]; } return X(cat({ pre, in }), n); }
	Bytes climb(Bytes node, uint32_t leaf, uint32_t off, const uint8_t*& p, int hh, const Bytes& seed, Adr ad) const { for (int i = 0; i < hh; ++i, p += n) { ad[6] = i + 1; ad[7] = (leaf >> (i + 1)) + (off >> (i + 1)); Bytes q(p, p + n); node = th(leaf >> i & 1 ? cat({ q, node }) : cat({ node, q }), seed, ad); } return node; }
	Bytes root(const Bytes& pk, const Bytes& msg, const Bytes& sig, int stop = -1) const // pk: seed || root
	{
		Bytes seed(pk.begin(), pk.begin() + n), rt(pk.begin() + n, pk.end()), R(sig.begin(), sig.begin() + n); int th_ = h / d, tbits = th_ * (d - 1); size_t fm = (a * k + 7) / 8, tb = (tbits + 7) / 8, lb = (th_ + 7) / 8; Bytes dg = X(cat({ R, pk, msg }), fm + tb + lb);
		uint64_t tree = 0; for (size_t i = 0; i < tb; ++i) { tree = tree << 8 | dg[fm + i]; } tree &= ~0ull >> (64 - tbits); uint32_t leaf = 0; for (size_t i = 0; i < lb; ++i) { leaf = leaf << 8 | dg[fm + tb + i]; } leaf &= (1u << th_) - 1;
		const uint8_t* p = &sig[n]; Adr ad = { 0, 0, (uint32_t)(tree >> 32), (uint32_t)tree, 3, leaf, 0, 0 }; Bytes roots; size_t bit = 0;
		for (int i = 0; i < k; ++i) { uint32_t ix = 0; for (int j = 0; j < a; ++j, ++bit) { ix |= (uint32_t)(dg[bit / 8] >> (bit % 8) & 1) << j; } Adr f = ad; f[6] = 0; f[7] = ix + ((uint32_t)i << a); Bytes nd = th(Bytes(p, p + n), seed, f); p += n; nd = climb(nd, ix, (uint32_t)i << a, p, a, seed, f); roots.insert(roots.end(), nd.begin(), nd.end()); }
		Adr f = ad; f[4] = 4; Bytes node = th(roots, seed, f);
		for (int lay = 0; lay < d; ++lay)
		{
			if (lay == stop) { return node; }
			Adr b = { (uint32_t)lay, 0, (uint32_t)(tree >> 32), (uint32_t)tree, 0, 0, 0, 0 }; std::vector<int> w; int cs = 0; for (uint8_t v : node) { w.push_back(v >> 4); w.push_back(v & 15); } for (int v : w) { cs += 15 - v; } for (int i = 2; i >= 0; --i) { w.push_back(cs >> (4 * i) & 15); }
			Adr wa = b; wa[5] = leaf; Bytes all; for (size_t i = 0; i < len; ++i, p += n) { wa[6] = (uint32_t)i; Bytes x(p, p + n); for (int s = w[i]; s < 15; ++s) { wa[7] = s; x = th(x, seed, wa); } all.insert(all.end(), x.begin(), x.end()); }
			Adr wp = b; wp[4] = 1; wp[5] = leaf; node = th(all, seed, wp); Adr ta = b; ta[4] = 2; node = climb(node, leaf, 0, p, th_, seed, ta); leaf = (uint32_t)(tree & ((1u << th_) - 1)); tree >>= th_;
		}
		return node;
	}
	bool verify(const Bytes& pk, const Bytes& msg, const Bytes& sig) const { return root(pk, msg, sig) == Bytes(pk.begin() + n, pk.end()); }
};
}
