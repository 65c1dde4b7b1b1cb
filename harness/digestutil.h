#pragma once
#include "pbt.h"
#include "ref.h"
#include "IDigest.h"
#include "DigestFromName.h"
#include <memory>
using pbt::Bytes;
typedef CEX::Enumeration::Digests DG;
typedef CEX::Digest::IDigest IDigest;

inline Bytes ref_digest(DG d, const Bytes& m)
{
	switch (d)
	{
	case DG::Blake256: { ref::B2P p; p.digest = 32; return ref::blake2<ref::B2s>(ref::b2s_param(p), m); }
	case DG::Blake512: { ref::B2P p; p.digest = 64; return ref::blake2<ref::B2b>(ref::b2b_param(p), m); }
	case DG::SHA2256: return ref::ossl_md("SHA256", m);
	case DG::SHA2512: return ref::ossl_md("SHA512", m);
	case DG::SHA3256: return ref::ossl_md("SHA3-256", m);
	case DG::SHA3512: return ref::ossl_md("SHA3-512", m);
	case DG::Skein256: return ref::skein(32, m);
	case DG::Skein512: return ref::skein(64, m);
	case DG::Skein1024: return ref::skein(128, m);
	default: abort();
	}
}
static const std::vector<DG> ALL_DIGESTS = { DG::SHA2256, DG::SHA2512, DG::SHA3256, DG::SHA3512, DG::Blake256, DG::Blake512, DG::Skein256, DG::Skein512, DG::Skein1024 };
inline size_t dg_block(DG d) { switch (d) { case DG::SHA2256: case DG::Blake256: case DG::Skein512: return 64; case DG::SHA2512: case DG::Blake512: case DG::Skein1024: return 128; case DG::SHA3256: return 136; case DG::SHA3512: return 72; case DG::Skein256: return 32; default: abort(); } }
inline size_t dg_size(DG d) { switch (d) { case DG::SHA2256: case DG::Blake256: case DG::SHA3256: case DG::Skein256: return 32; case DG::Skein1024: return 128; default: return 64; } }
inline const char* dg_name(DG d) { switch (d) { case DG::SHA2256: return "SHA2-256"; case DG::SHA2512: return "SHA2-512"; case DG::SHA3256: return "SHA3-256"; case DG::SHA3512: return "SHA3-512"; case DG::Blake256: return "BLAKE2s"; case DG::Blake512: return "BLAKE2b"; case DG::Skein256: return "Skein256"; case DG::Skein512: return "Skein512"; case DG::Skein1024: return "Skein1024"; default: return "?"; } }

// feed msg to the digest through a generated sequence of Update overloads; returns how many calls were made
template<typename D> size_t feed(pbt::Case& c, D& d, const Bytes& msg, size_t mark)
{
	size_t pos = 0, calls = 0;
	uint64_t style = c.u(0, 5);
	if (style <= 1) // one call, at an offset in a larger buffer
	{
		size_t pre = style ? c.u(0, 70) : 0, post = style ? c.u(0, 70) : 0;
		Bytes b(pre, 0xA5); b.insert(b.end(), msg.begin(), msg.end()); b.insert(b.end(), post, 0x5A);
		d.Update(b, pre, msg.size());
		c.desc << " [" << msg.size() << "]";
		return 1;
	}
	for (size_t n : c.chunks(msg.size(), mark, true, style == 2 ? 40 : 12))
	{
		Bytes b; size_t pre = 0;
		if (style >= 4 && n >= 1 && c.chance(1, 3))
		{
			uint64_t k = c.u(0, 2);
			if (k == 0) { d.Update((uint8_t)msg[pos]); ++pos; --n; ++calls; c.desc << " u8"; }
			else if (k == 1 && n >= 4) { d.Update((uint32_t)ref::le(&msg[pos], 4)); pos += 4; n -= 4; ++calls; c.desc << " u32"; }
			else if (k == 2 && n >= 8) { d.Update((uint64_t)ref::le(&msg[pos], 8)); pos += 8; n -= 8; ++calls; c.desc << " u64"; }
		}
		if (style == 3) { d.Update(msg, pos, n); } // straight out of the message
		else { pre = style == 5 ? c.u(0, 9) : 0; b.assign(pre, 0x11); b.insert(b.end(), msg.begin() + pos, msg.begin() + pos + n); d.Update(b, pre, n); }
		pos += n; ++calls; c.desc << " " << n;
	}
	return calls;
}
