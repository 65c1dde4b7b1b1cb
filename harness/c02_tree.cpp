// Tree / parallel digests.
// LIBS: -lcrypto
#include "treeref.h"
#include "Blake256.h"
#include "Blake512.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
#include "SymmetricKey.h"
using namespace CEX;
using pbt::require; using pbt::require_eq; using pbt::fail;

static size_t def_degree(DG t) { return t == DG::Blake512 ? 4 : 8; }
static size_t pick_len(pbt::Case& c, size_t rate, size_t n, size_t prl)
{
	if (c.chance(1, 12)) { return std::min<size_t>(200000, prl * c.u(1, 2) + c.len(3 * rate * n, { rate })); }
	return c.len(rate * n * 5, { rate, rate * n, 2 * rate * n });
}
static Bytes run(pbt::Case& c, IDigest& d, DG t, const Bytes& m, size_t mark)
{
	size_t pre = c.pick<size_t>({ 0, 0, 5 }), post = c.pick<size_t>({ 0, 9 });
	feed(c, d, m, mark);
	pbt::Guarded g(pre, dg_size(t), post, 0xE7);
	d.Finalize(g.b, pre);
	g.check(std::string(dg_name(t)) + " parallel Finalize", "outoffset");
	return g.out();
}

PROP(tree_equals_model, 25000, 600000)
{
	DG t = c.pick(ALL_DIGESTS);
	vf::W->cores = (unsigned)c.pick<int>({ 8, 16, 4, 64, 2, 6 });
	vf::W->hyperthread = c.flip();
	vf::W->cpu_sha = c.flip();
	size_t n = def_degree(t), fan = n, rate = dg_block(t);
	std::unique_ptr<IDigest> d;
	uint64_t how = c.u(0, 3);
	if (how < 2) { d.reset(Helper::DigestFromName::GetInstance(t, true)); }
	else if (how == 2)
	{
		n = fan = c.pick<size_t>({ 2, 4, 6, 8 }); c.tag("params ctor");
		switch (t)
		{
		case DG::Blake256: { Digest::BlakeParams p(32, 2, (uint8_t)n, 0, 32); d.reset(new Digest::Blake256(p)); break; }
		case DG::Blake512: { Digest::BlakeParams p(64, 2, (uint8_t)n, 0, 64); d.reset(new Digest::Blake512(p)); break; }
		case DG::SHA2256: { Digest::SHA2Params p(32, 64, (uint8_t)n); d.reset(new Digest::SHA2256(p)); break; }
		case DG::SHA2512: { Digest::SHA2Params p(64, 128, (uint8_t)n); d.reset(new Digest::SHA2512(p)); break; }
		case DG::SHA3256: { Digest::KeccakParams p(32, 136, (uint8_t)n); d.reset(new Digest::SHA3256(p)); break; }
		case DG::SHA3512: { Digest::KeccakParams p(64, 72, (uint8_t)n); d.reset(new Digest::SHA3512(p)); break; }
		case DG::Skein256: { Digest::SkeinParams p(32, 32, (uint8_t)n); d.reset(new Digest::Skein256(p)); break; }
		case DG::Skein512: { Digest::SkeinParams p(64, 64, (uint8_t)n); d.reset(new Digest::Skein512(p)); break; }
		default: { Digest::SkeinParams p(128, 128, (uint8_t)n); d.reset(new Digest::Skein1024(p)); break; }
		}
	}
	else
	{
		d.reset(Helper::DigestFromName::GetInstance(t, true));
		n = 2 * c.u(1, 8); c.tag("degree changed");
		d->ParallelMaxDegree(n);
		// the SHA2 and SHA3 parameter block keeps the fan-out it was made with
		if (t == DG::Blake256 || t == DG::Blake512 || t == DG::Skein256 || t == DG::Skein512 || t == DG::Skein1024) { fan = n; }
	}
	c.desc << dg_name(t) << " tree n=" << n << " cores " << vf::W->cores;
	size_t rounds = c.u(1, 2);
	for (size_t r = 0; r < rounds; ++r)
	{
		size_t len = pick_len(c, rate, n, d->ParallelBlockSize());
		Bytes m = c.bytes(len);
		c.desc << " | msg " << len << ":";
		if (c.chance(1, 6)) { Bytes junk = c.bytes(c.len(rate * n * 3, { rate, rate * n })); d->Update(junk, 0, junk.size()); d->Reset(); c.tag("reset"); c.desc << " junk+reset"; }
		Bytes got = run(c, *d, t, m, c.flip() ? rate : rate * n);
		require_eq(got, ref_tree(t, m, n, fan), std::string(dg_name(t)) + " tree hash, fan-out " + std::to_string(n) + ", " + std::to_string(len) + " bytes");
		c.nontrivial(len > rate);
		if (len > rate * n) { c.tag("more than one stripe"); }
		if (len >= d->ParallelBlockSize()) { c.tag("at least ParallelBlockSize"); }
		c.tag(dg_name(t));
	}
}

// whatever the machine: chunking does not matter, every byte and the length do
PROP(tree_metamorphic, 10000, 250000)
{
	DG t = c.pick(ALL_DIGESTS);
	vf::W->cores = (unsigned)c.pick<int>({ 8, 4, 2, 6, 1, 3, 16, 5 });
	vf::W->hyperthread = c.flip();
	std::unique_ptr<IDigest> d;
	try { d.reset(Helper::DigestFromName::GetInstance(t, true)); }
	catch (std::exception&) { if (vf::W->cores * (vf::W->hyperthread ? 2 : 1) < 2 + 1) { c.discard(); } throw; } // documented: a single core cpu is refused
	size_t rate = dg_block(t), n = d->ParallelProfile().ParallelMaxDegree();
	c.desc << dg_name(t) << " cores " << vf::W->cores << " degree " << n;
	size_t len = pick_len(c, rate, n, d->ParallelBlockSize());
	Bytes m = c.bytes(len);
	c.desc << " msg " << len << ":";
	Bytes a = run(c, *d, t, m, rate);
	c.desc << " /";
	if (c.flip()) { d.reset(Helper::DigestFromName::GetInstance(t, true)); }
	Bytes b = run(c, *d, t, m, rate * n);
	require_eq(b, a, std::string(dg_name(t)) + " tree hash of the same " + std::to_string(len) + " bytes in other chunks");
	Bytes m2 = m; uint64_t k = c.u(0, 2);
	if (k == 0 && len) { size_t p = c.u(0, len - 1); m2[p] ^= (uint8_t)(1u << c.u(0, 7)); c.desc << " flip@" << p; }
	else if (k == 1) { m2.push_back(0); c.desc << " +0"; }
	else if (len > rate) { size_t p = c.u(0, len - rate - 1); if (m2[p] == m2[p + rate]) { m2[p] ^= 1; } std::swap(m2[p], m2[p + rate]); c.desc << " swap@" << p; }
	else { m2.push_back((uint8_t)c.u(0, 255)); }
	if (m2 == m) { c.discard(); }
	c.desc << " /";
	Bytes e = run(c, *d, t, m2, rate);
	require(e != a, std::string(dg_name(t)) + " tree hash collides: two different messages (" + std::to_string(len) + " and " + std::to_string(m2.size()) + " bytes) have the same code");
	c.nontrivial(len > rate);
	c.tag("cores " + std::to_string(vf::W->cores)); c.tag(dg_name(t));
}

// the automatic block size is a tuning knob, not part of the function
PROP(block_size_neutral, 2500, 100000)
{
	DG t = c.pick(ALL_DIGESTS);
	std::unique_ptr<IDigest> d(Helper::DigestFromName::GetInstance(t, true));
	size_t rate = dg_block(t), n = def_degree(t);
	size_t bs = d->ParallelProfile().ParallelMinimumSize() * c.u(1, 12) + (c.flip() ? c.u(0, rate) : 0);
	d->ParallelProfile().SetBlockSize(bs);
	size_t len = c.len(60000, { rate * n, bs });
	Bytes m = c.bytes(len);
	c.desc << dg_name(t) << " ParallelBlockSize " << bs << " msg " << len << ":";
	Bytes got = run(c, *d, t, m, bs);
	require_eq(got, ref_tree(t, m, n, n), std::string(dg_name(t)) + " with ParallelBlockSize " + std::to_string(bs));
	c.nontrivial(len > rate);
}

PROP(blake_tree_keyed, 3000, 120000)
{
	bool b = c.flip(); size_t bs = b ? 128 : 64, n = b ? 4 : 8;
	ref::B2P p; size_t kl = b ? c.u(32, 64) : c.u(16, 32);
	Bytes key = c.bytes(kl);
	c.desc << (b ? "blake2bp" : "blake2sp") << " key " << kl;
	std::unique_ptr<IDigest> d; Digest::Blake256* d2 = nullptr; Digest::Blake512* d5 = nullptr;
	if (b) { d.reset(d5 = new Digest::Blake512(true)); } else { d.reset(d2 = new Digest::Blake256(true)); }
	Cipher::SymmetricKey k(key);
	if (b) { d5->Initialize(k); } else { d2->Initialize(k); }
	size_t len = pick_len(c, bs, n, d->ParallelBlockSize()); Bytes m = c.bytes(len);
	c.desc << " msg " << len << ":";
	Bytes got = run(c, *d, b ? DG::Blake512 : DG::Blake256, m, bs);
	require_eq(got, b ? blake2p<ref::B2b>(m, n, p, key) : blake2p<ref::B2s>(m, n, p, key), "keyed BLAKE2 tree");
	c.nontrivial(len > bs);
}
