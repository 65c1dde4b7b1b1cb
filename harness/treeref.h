// The tree (j-lanes) modes: lane i receives blocks i, i+n, i+2n ... of the message; R = H(S0 || S1 || ... || Sn-1).
// BLAKE2xP: the BLAKE2 paper's two level tree, each leaf is finalised over its own blocks.
// SHA2 / SHA3 / Skein: every lane absorbs its parameter block first; only lanes holding part of the last incomplete stripe are padded and finalised.
#pragma once
#include "digestutil.h"
#include <openssl/sha.h>

inline std::vector<Bytes> lanes(const Bytes& m, size_t n, size_t rate, size_t total)
{
	std::vector<Bytes> l(n);
	for (size_t p = 0, i = 0; p < total; p += rate, i = (i + 1) % n) { l[i].insert(l[i].end(), m.begin() + p, m.begin() + std::min(p + rate, total)); }
	return l;
}
template<typename V> Bytes blake2p(const Bytes& m, size_t n, const ref::B2P& base = ref::B2P(), const Bytes& key = Bytes())
{
	const size_t B = 16 * V::WB; std::vector<Bytes> l = lanes(m, n, B, m.size());
	auto par = [&](const ref::B2P& p) { return V::WB == 8 ? ref::b2b_param(p) : ref::b2s_param(p); };
	Bytes codes; ref::B2P p = base; p.digest = V::WB * 8; p.key = (uint8_t)key.size(); p.fanout = (uint8_t)n; p.depth = 2; p.inner = V::WB * 8;
	for (size_t i = 0; i < n; ++i) { p.node = i; Bytes x = key.size() ? ref::cat({ ref::pad_to(key, B), l[i] }) : l[i]; Bytes h = ref::blake2<V>(par(p), x, i == n - 1); codes.insert(codes.end(), h.begin(), h.end()); }
	p.node = 0; p.ndepth = 1; p.salt.clear(); p.person.clear();
	return ref::blake2<V>(par(p), codes, true);
}
// the parameter block of the SHA2 / SHA3 tree: node offset | version | output | leaf | depth | fanout | reserved | personalisation
inline Bytes tree_header(size_t out, size_t leaf, size_t fan, size_t node, size_t size) { Bytes b(size, 0); ref::ple(&b[0], node, 4); ref::ple(&b[4], 1, 2); ref::ple(&b[6], out, 8); ref::ple(&b[14], leaf, 4); b[18] = 0; b[19] = (uint8_t)fan; return b; }

// n lanes of work, fan: the fan-out written into the parameter block
inline Bytes ref_tree(DG t, const Bytes& m, size_t n, size_t fan)
{
	const size_t rate = dg_block(t), stripe = n * rate, full = m.size() / stripe * stripe, rem = m.size() - full;
	if (t == DG::Blake256) { return blake2p<ref::B2s>(m, n); }
	if (t == DG::Blake512) { return blake2p<ref::B2b>(m, n); }
	std::vector<Bytes> body = lanes(m, n, rate, full), tail = lanes(ref::sub(m, full, rem), n, rate, rem);
	Bytes codes;
	for (size_t i = 0; i < n; ++i)
	{
		const bool fin = !tail[i].empty(); Bytes s;
		if (t == DG::SHA2256)
		{
			SHA256_CTX x; SHA256_Init(&x); Bytes h = tree_header(32, rate, fan, i, 64); Bytes all = ref::cat({ h, body[i], tail[i] });
			SHA256_Update(&x, all.data(), all.size()); s.resize(32);
			if (fin) { SHA256_Final(s.data(), &x); } else { for (int k = 0; k < 8; ++k) { ref::pbe(&s[4 * k], x.h[k], 4); } }
		}
		else if (t == DG::SHA2512)
		{
			SHA512_CTX x; SHA512_Init(&x); Bytes h = tree_header(64, rate, fan, i, 72); h.resize(128, 0x1F); if (h.size() > 72) { } Bytes all = ref::cat({ h, body[i], tail[i] });
			SHA512_Update(&x, all.data(), all.size()); s.resize(64);
			if (fin) { SHA512_Final(s.data(), &x); } else { for (int k = 0; k < 8; ++k) { ref::pbe(&s[8 * k], x.h[k], 8); } }
		}
		else if (t == DG::SHA3256 || t == DG::SHA3512)
		{
			ref::Sponge sp(rate); sp.absorb_full(tree_header(dg_size(t), rate, fan, i, rate)); sp.absorb_full(body[i]);
			if (fin) { sp.absorb_final(tail[i], 0x06); ref::keccakf(sp.A); }
			s.resize(200); for (int k = 0; k < 25; ++k) { ref::ple(&s[8 * k], sp.A[k], 8); } s.resize(dg_size(t));
		}
		else
		{
			static std::map<std::pair<size_t, size_t>, std::vector<Bytes>> chain; // V0 .. of this width and fan-out
			std::vector<Bytes>& ch = chain[{ rate, fan }];
			Bytes cfg = ref::skein_cfg(rate * 8, (uint8_t)rate, (uint8_t)fan); cfg.resize(rate, 0);
			while (ch.size() <= i)
			{
				const Bytes& blk = ch.empty() ? cfg : ch.back();
				std::vector<uint64_t> x = ref::words(blk); ref::threefish(ref::words(Bytes(rate, 0)), 32, (4ull << 56) | (3ull << 62), x);
				Bytes v = ref::unwords(x); for (size_t k = 0; k < rate; ++k) { v[k] ^= cfg[k]; } ch.push_back(v);
			}
			Bytes G = ch[i]; size_t pos = 0;
			for (; pos < body[i].size(); pos += rate) { G = ref::ubi_block(G, ref::sub(body[i], pos, rate), pos + rate, ref::UBI_MSG, pos == 0, false); }
			if (fin) { G = ref::ubi_block(G, ref::pad_to(tail[i], rate), pos + tail[i].size(), ref::UBI_MSG, pos == 0, true); G = ref::ubi(G, Bytes(8, 0), ref::UBI_OUT); }
			s = G;
		}
		codes.insert(codes.end(), s.begin(), s.end());
	}
	if (rate == dg_size(t)) // Skein: the root starts from the bare encryption of its configuration and goes on under that block's tweak
	{
		std::vector<uint64_t> x = ref::words(ref::pad_to(ref::skein_cfg(rate * 8), rate)); ref::threefish(ref::words(Bytes(rate, 0)), 32, (4ull << 56) | (3ull << 62), x);
		Bytes G = ref::unwords(x);
		for (size_t i = 0; i < n; ++i) { G = ref::ubi_block(G, ref::sub(codes, i * rate, rate), 32 + (i + 1) * rate, ref::UBI_CFG, i == 0, true); }
		return ref::ubi(G, Bytes(8, 0), ref::UBI_OUT);
	}
	return ref_digest(t, codes);
}
