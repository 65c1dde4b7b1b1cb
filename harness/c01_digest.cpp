// Sequential digests equal the published functions for every message, chunking, Update overload, output offset and history of the object.
// LIBS: -lcrypto
#include "digestutil.h"
#include "Blake256.h"
#include "Blake512.h"
#include "SymmetricKey.h"
using namespace CEX;
using pbt::require; using pbt::require_eq; using pbt::fail;

PROP(sequential_equals_reference, 600000, 3000000)
{
	DG t = c.pick(ALL_DIGESTS);
	c.desc << dg_name(t);
	vf::W->cpu_sha = c.flip();
	std::unique_ptr<IDigest> d(Helper::DigestFromName::GetInstance(t, false));
	size_t rounds = c.u(1, 3), bs = dg_block(t);
	for (size_t r = 0; r < rounds; ++r)
	{
		size_t n = c.len(c.chance(1, 20) ? 20000 : 1200, { bs, 2 * bs, bs - 9, bs - 17 });
		Bytes m = c.bytes(n);
		c.desc << " | msg " << n << ":";
		if (c.chance(1, 6)) { Bytes junk = c.bytes(c.len(600, { bs })); d->Update(junk, 0, junk.size()); d->Reset(); c.desc << " junk+reset"; c.tag("reset"); }
		Bytes out;
		if (c.chance(1, 4)) { out.assign(dg_size(t), 0xCC); d->Compute(m, out); c.desc << " Compute"; c.tag("compute"); }
		else
		{
			size_t calls = feed(c, *d, m, bs);
			size_t pre = c.pick<size_t>({ 0, 1, 7, 64 }), post = c.pick<size_t>({ 0, 3, 64 });
			pbt::Guarded g(pre, dg_size(t), post, 0xE7);
			d->Finalize(g.b, pre);
			g.check(std::string(dg_name(t)) + " Finalize");
			out = g.out();
			c.nontrivial(n > 0 && calls > 1);
		}
		c.nontrivial(n > bs);
		require_eq(out, ref_digest(t, m), std::string(dg_name(t)) + " of " + std::to_string(n) + " bytes");
		c.tag(dg_name(t));
	}
	c.tag(rounds > 1 ? "reused" : "fresh");
}

// keyed / salted / personalised BLAKE2 (RFC 7693 keyed mode and the BLAKE2 parameter block)
PROP(blake_keyed, 80000, 400000)
{
	bool b = c.flip();
	size_t bs = b ? 128 : 64, ss = b ? 16 : 8;
	ref::B2P p; p.digest = b ? 64 : 32;
	size_t kl = b ? c.u(32, 64) : c.u(16, 32); p.key = (uint8_t)kl;
	Bytes key = c.bytes(kl), salt, info;
	if (c.flip()) { salt = c.bytes(ss); p.salt = salt; }
	if (c.flip()) { info = c.bytes(ss); p.person = info; }
	c.desc << (b ? "blake2b" : "blake2s") << " key " << kl << " salt " << salt.size() << " info " << info.size();
	std::unique_ptr<IDigest> d;
	Digest::Blake256* d2 = nullptr; Digest::Blake512* d5 = nullptr;
	if (b) { d.reset(d5 = new Digest::Blake512(false)); } else { d.reset(d2 = new Digest::Blake256(false)); }
	size_t rounds = c.u(1, 2);
	for (size_t r = 0; r < rounds; ++r)
	{
		// Finalize leaves the object unkeyed: the key is given again for every code
		Cipher::SymmetricKey k(key, salt, info);
		if (b) { d5->Initialize(k); } else { d2->Initialize(k); }
		size_t n = c.len(1000, { bs }); Bytes m = c.bytes(n);
		c.desc << " | msg " << n << ":";
		size_t calls = feed(c, *d, m, bs);
		Bytes out(p.digest);
		d->Finalize(out, 0);
		Bytes full = ref::cat({ ref::pad_to(key, bs), m });
		require_eq(out, b ? ref::blake2<ref::B2b>(ref::b2b_param(p), full) : ref::blake2<ref::B2s>(ref::b2s_param(p), full), "keyed BLAKE2");
		c.nontrivial(n > 0 && (calls > 1 || n > bs));
		c.tag(salt.size() ? "salted" : "unsalted");
	}
}

#include <openssl/evp.h>
// messages of many megabytes, and past the points where 32-bit byte and bit counters wrap
static void large(pbt::Case& c, DG t, uint64_t total)
{
	const char* md = t == DG::SHA2256 ? "SHA256" : t == DG::SHA2512 ? "SHA512" : t == DG::SHA3256 ? "SHA3-256" : t == DG::SHA3512 ? "SHA3-512" : t == DG::Blake256 ? "BLAKE2s256" : t == DG::Blake512 ? "BLAKE2b512" : nullptr;
	std::unique_ptr<IDigest> d(Helper::DigestFromName::GetInstance(t, false)); vf::W->cpu_sha = c.flip();
	if (md == nullptr) { Bytes m = c.random_bytes(total % 2000003), o(dg_size(t)); d->Compute(m, o); c.nontrivial(); c.tag(dg_name(t)); require_eq(o, ref_digest(t, m), std::string(dg_name(t)) + " of a large message"); return; }
	size_t piece = 1 + c.u(1, 8) * 1000003; Bytes buf = c.random_bytes(piece); EVP_MD_CTX* x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_get_digestbyname(md), nullptr);
	c.desc << dg_name(t) << " of " << total << " bytes in pieces of " << piece; c.nontrivial(); c.tag(dg_name(t));
	for (uint64_t n = 0; n < total;) { size_t k = (size_t)std::min<uint64_t>(piece, total - n); d->Update(buf, 0, k); EVP_DigestUpdate(x, buf.data(), k); n += k; }
	Bytes got(dg_size(t)), want(dg_size(t)); d->Finalize(got, 0); EVP_DigestFinal_ex(x, want.data(), nullptr); EVP_MD_CTX_free(x);
	require_eq(got, want, std::string(dg_name(t)) + " of a large message");
}
PROP(large_message, 48, 400) { DG t = c.pick(ALL_DIGESTS); large(c, t, c.u(1000000, 40000000)); }
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
PROP(counter_wrap, 8, 40)
{
	// bit counters of 32 bits wrap at 512 MiB, byte counters of 32 bits at 4 GiB
	bool b = c.thorough && c.flip(); DG t = b ? DG::Blake256 : c.pick({ DG::SHA2256, DG::SHA2512 }); large(c, t, b ? (1ull << 32) + c.u(0, 1000) : (1ull << 29) + c.u(0, 1000));
}
// the byte counter of BLAKE2s is two words
PROP(second_word, 1, 4) { large(c, DG::Blake256, (1ull << 32) + c.u(0, 1000)); }
#endif
