// Streams of derived bytes: HKDF and (c)SHAKE as the library chains requests
#pragma once
#include "modelref.h"
struct Stream // model: bytes of the requests made since the last keying
{
	virtual ~Stream() {}
	virtual Bytes next(size_t n) = 0;
};
struct HkdfStream : Stream
{
	std::string md; Bytes prk, info, t; int ctr = 0;
	HkdfStream(const std::string& m, const Bytes& k, const Bytes& salt, const Bytes& i) : md(m), prk(salt.size() ? ref::hmac(m.c_str(), salt, k) : k), info(i) {}
	Bytes next(size_t n) override { Bytes r; while (r.size() < n) { ++ctr; t = ref::hmac(md.c_str(), prk, ref::cat({ t, info, Bytes(1, (uint8_t)ctr) })); r.insert(r.end(), t.begin(), t.end()); } r.resize(n); return r; }
};
struct XofStream : Stream
{
	ref::Sponge s;
	XofStream(size_t rate, const Bytes& k, const Bytes& cust, const Bytes& name) : s(rate)
	{
		if (cust.empty() && name.empty()) { s.absorb_final(k, 0x1F); }
		else { s.absorb_full(ref::bytepad(ref::cat({ ref::encode_string(name), ref::encode_string(cust) }), rate)); s.absorb_final(k, 0x04); }
	}
	Bytes next(size_t n) override { return s.squeeze(n); }
};
