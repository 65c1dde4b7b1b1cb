// public keys and signatures grown from the verifier's side: the tree above one leaf is filled with random nodes, so any leaf
// of any parameter set - heights no signer here could build - costs one verification
#pragma once
#include "sign.h"
struct Grown { Bytes pk, sig; };
// rnd(n): n random bytes
template <class R> inline Grown grow_xmss(const ref::Xmss& M, uint64_t idx, const Bytes& msg, R rnd)
{
	int th_ = M.h / M.d, n = M.n; Bytes seed = rnd(n), sk = rnd(M.len * n), auth = rnd(th_ * n); uint64_t top = idx >> (th_ * (M.d - 1)); uint32_t leaf = (uint32_t)(top & ((1ull << th_) - 1));
	ref::Xmss::Adr base = { (uint32_t)(M.d - 1), 0, 0, 0, 0, 0, 0, 0 }, a = base; a[4] = leaf; std::vector<std::vector<Bytes>> chain(M.len); std::vector<Bytes> l;
	for (size_t i = 0; i < M.len; ++i) { a[5] = (uint32_t)i; Bytes x = ref::sub(sk, i * n, n); chain[i].push_back(x); for (int s = 0; s < 15; ++s) { a[6] = s; x = M.th(x, seed, a); chain[i].push_back(x); } l.push_back(x); }
	a = base; a[3] = 1; a[4] = leaf; while (l.size() > 1) { std::vector<Bytes> u; for (size_t i = 0; i + 1 < l.size(); i += 2) { a[6] = (uint32_t)(i / 2); u.push_back(M.th(ref::cat({ l[i], l[i + 1] }), seed, a)); } if (l.size() & 1) { u.push_back(l.back()); } l = u; ++a[5]; }
	Bytes node = l[0]; a = base; a[3] = 2; for (int k = 0; k < th_; ++k) { a[5] = k; a[6] = leaf >> (k + 1); Bytes q = ref::sub(auth, k * n, n); node = M.th(leaf >> k & 1 ? ref::cat({ q, node }) : ref::cat({ node, q }), seed, a); }
	Grown g; g.pk = ref::cat({ node, seed }); g.sig = ref::cat({ M.tb(idx, (int)M.idxn), rnd(M.SIG - M.idxn) });
	Bytes last = M.root(g.pk, msg, g.sig, M.d - 1); std::vector<int> w; int cs = 0; for (uint8_t b : last) { w.push_back(b >> 4); w.push_back(b & 15); } for (int v : w) { cs += 15 - v; } for (int i = 2; i >= 0; --i) { w.push_back(cs >> (4 * i) & 15); }
	size_t at = M.SIG - (M.len + th_) * n; for (size_t i = 0; i < M.len; ++i) { std::copy(chain[i][w[i]].begin(), chain[i][w[i]].end(), g.sig.begin() + at + i * n); } std::copy(auth.begin(), auth.end(), g.sig.begin() + at + M.len * n);
	return g;
}
template <class R> inline Grown grow_sphincs(const ref::Sphincs& M, uint32_t leaf, const Bytes& msg, R rnd)
{
	int th_ = M.h / M.d, n = M.n, tbits = th_ * (M.d - 1); Bytes seed = rnd(n), sk = rnd(M.len * n), auth = rnd(th_ * n); leaf &= (1u << th_) - 1;
	ref::Sphincs::Adr b = { (uint32_t)(M.d - 1), 0, 0, 0, 0, 0, 0, 0 }, wa = b; wa[5] = leaf; std::vector<std::vector<Bytes>> chain(M.len); Bytes all;
	for (size_t i = 0; i < M.len; ++i) { wa[6] = (uint32_t)i; Bytes x = ref::sub(sk, i * n, n); chain[i].push_back(x); for (int s = 0; s < 15; ++s) { wa[7] = s; x = M.th(x, seed, wa); chain[i].push_back(x); } all.insert(all.end(), x.begin(), x.end()); }
	ref::Sphincs::Adr wp = b; wp[4] = 1; wp[5] = leaf; Bytes node = M.th(all, seed, wp); ref::Sphincs::Adr ta = b; ta[4] = 2; const uint8_t* p = auth.data(); node = M.climb(node, leaf, 0, p, th_, seed, ta);
	Grown g; g.pk = ref::cat({ seed, node }); g.sig = rnd(M.SIG);
	// a randomiser that leads to this leaf of the topmost tree
	size_t fm = (M.a * M.k + 7) / 8, tb = (tbits + 7) / 8, lb = (th_ + 7) / 8; uint64_t ctr = 0;
	for (;; ++ctr) { memcpy(g.sig.data(), &ctr, 8); Bytes dg = M.X(ref::cat({ ref::sub(g.sig, 0, n), g.pk, msg }), fm + tb + lb); uint64_t tree = 0; for (size_t i = 0; i < tb; ++i) { tree = tree << 8 | dg[fm + i]; } tree &= ~0ull >> (64 - tbits); if ((tree >> (th_ * (M.d - 2))) == leaf) { break; } }
	Bytes last = M.root(g.pk, msg, g.sig, M.d - 1); std::vector<int> w; int cs = 0; for (uint8_t v : last) { w.push_back(v >> 4); w.push_back(v & 15); } for (int v : w) { cs += 15 - v; } for (int i = 2; i >= 0; --i) { w.push_back(cs >> (4 * i) & 15); }
	size_t at = M.SIG - (M.len + th_) * n; for (size_t i = 0; i < M.len; ++i) { std::copy(chain[i][w[i]].begin(), chain[i][w[i]].end(), g.sig.begin() + at + i * n); } std::copy(auth.begin(), auth.end(), g.sig.begin() + at + M.len * n);
	return g;
}
// every parameter set of XMSS, whatever its height
inline const std::vector<SigSet>& xmssall()
{
	static std::vector<SigSet> v; if (v.empty()) { for (int k = (int)AsymmetricParameters::XMSSSHA2256H10; k < (int)AsymmetricParameters::XMSSSHA2256H10 + 44; ++k) { XmssShape s = xshape((AsymmetricParameters)k); ref::Xmss m = xmodel((AsymmetricParameters)k); v.push_back({ XMS, k, (AsymmetricParameters)k, std::string(s.mt ? "XMSSMT-" : "XMSS-") + (s.shake ? "SHAKE" : "SHA2") + "-" + std::to_string(8 * s.n) + "-h" + std::to_string(s.h) + "d" + std::to_string(s.d), 4 + 2u * s.n, 4 + m.idxn + 4 * s.n, m.SIG, 1 }); } }
	return v;
}
// the object identifiers of RFC 8391 for the sets that have one there, in the order of the enumeration
inline uint32_t xmssoid(int set) { return set < 12 ? 1 + set : 1 + (set - 12); }
