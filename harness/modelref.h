// Textbook constructions over an abstract block function: SP 800-38A/B/D, RFC 8439
#pragma once
#include "ref.h"
#include <functional>
#include <memory>

namespace ref {
typedef std::function<Bytes(const Bytes&)> Blk; // one block in, one block out
inline Bytes xorb(const Bytes& a, const Bytes& b) { Bytes r(std::min(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) { r[i] = a[i] ^ b[i]; } return r; }
struct OsslAes
{
	std::shared_ptr<EVP_CIPHER_CTX> e, d;
	OsslAes(const Bytes& key)
	{
		const EVP_CIPHER* c = key.size() == 16 ? EVP_aes_128_ecb() : key.size() == 24 ? EVP_aes_192_ecb() : EVP_aes_256_ecb();
		e.reset(EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free); d.reset(EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
		EVP_EncryptInit_ex(e.get(), c, nullptr, key.data(), nullptr); EVP_CIPHER_CTX_set_padding(e.get(), 0);
		EVP_DecryptInit_ex(d.get(), c, nullptr, key.data(), nullptr); EVP_CIPHER_CTX_set_padding(d.get(), 0);
	}
	Bytes enc(const Bytes& b) const { Bytes r(b.size() + 32); int n = 0; EVP_EncryptUpdate(e.get(), r.data(), &n, b.data(), (int)b.size()); r.resize(b.size()); return r; }
	Bytes dec(const Bytes& b) const { Bytes r(b.size() + 32); int n = 0; EVP_DecryptUpdate(d.get(), r.data(), &n, b.data(), (int)b.size()); r.resize(b.size()); return r; }
	Blk fn() const { OsslAes s = *this; return [s](const Bytes& b) { return s.enc(b); }; }
};
inline Bytes dbl128(const Bytes& b) { Bytes r(16); for (int i = 0; i < 16; ++i) { r[i] = (uint8_t)(b[i] << 1 | (i < 15 ? b[i + 1] >> 7 : 0)); } if (b[0] & 0x80) { r[15] ^= 0x87; } return r; }
inline Bytes cmac(const Blk& E, const Bytes& m)
{
	Bytes k1 = dbl128(E(Bytes(16, 0))), k2 = dbl128(k1), x(16, 0);
	size_t nb = m.empty() ? 1 : (m.size() + 15) / 16;
	for (size_t i = 0; i < nb; ++i)
	{
		Bytes b(16, 0); size_t n = std::min<size_t>(16, m.size() - 16 * i); if (n) { memcpy(b.data(), m.data() + 16 * i, n); }
		if (i + 1 == nb) { if (n == 16) { b = xorb(b, k1); } else { b[n] = 0x80; b = xorb(b, k2); } }
		x = E(xorb(x, b));
	}
	return x;
}
inline Bytes gfmul(const Bytes& X, const Bytes& Y) // SP 800-38D bit order
{
	uint64_t zh = 0, zl = 0, vh = be(&Y[0], 8), vl = be(&Y[8], 8);
	for (int i = 0; i < 128; ++i)
	{
		if (X[i / 8] >> (7 - i % 8) & 1) { zh ^= vh; zl ^= vl; }
		bool lsb = vl & 1; vl = vl >> 1 | vh << 63; vh >>= 1; if (lsb) { vh ^= 0xE1ull << 56; }
	}
	Bytes r(16); pbe(&r[0], zh, 8); pbe(&r[8], zl, 8); return r;
}
inline Bytes ghash_pad(const Bytes& b) { Bytes r(b); r.resize((b.size() + 15) / 16 * 16, 0); return r; }
inline Bytes ghash(const Bytes& H, const Bytes& m) { Bytes y(16, 0); for (size_t p = 0; p < m.size(); p += 16) { y = gfmul(xorb(y, sub(m, p, 16)), H); } return y; }
inline Bytes gcm_j0(const Blk& E, const Bytes& H, const Bytes& iv) { if (iv.size() == 12) { Bytes j = iv; j.resize(16, 0); j[15] = 1; return j; } Bytes l(16, 0); pbe(&l[8], (uint64_t)iv.size() * 8, 8); return ghash(H, cat({ ghash_pad(iv), l })); }
inline Bytes gcm_tag(const Blk& E, const Bytes& iv, const Bytes& aad, const Bytes& ct) { Bytes H = E(Bytes(16, 0)), l(16); pbe(&l[0], (uint64_t)aad.size() * 8, 8); pbe(&l[8], (uint64_t)ct.size() * 8, 8); return xorb(ghash(H, cat({ ghash_pad(aad), ghash_pad(ct), l })), E(gcm_j0(E, H, iv))); }
// the counter is the whole block, big endian; bits: width of the part that counts
inline Bytes ctr_be(const Blk& E, Bytes ctr, const Bytes& m, int bytes = 16) { Bytes r(m); const size_t B = ctr.size(); for (size_t p = 0; p < m.size(); p += B) { Bytes k = E(ctr); for (size_t i = 0; i < B && p + i < m.size(); ++i) { r[p + i] ^= k[i]; } for (int i = 1; i <= bytes && ++ctr[B - i] == 0; ++i) {} } return r; }
inline Bytes gcm_crypt(const Blk& E, const Bytes& iv, const Bytes& m) { Bytes c = gcm_j0(E, E(Bytes(16, 0)), iv); for (int i = 1; i <= 4 && ++c[16 - i] == 0; ++i) {} return ctr_be(E, c, m, 4); }
inline Bytes ossl_mac(const char* name, const char* pname, const char* pval, const Bytes& key, const Bytes& iv, const Bytes& m)
{
	EVP_MAC* mac = EVP_MAC_fetch(nullptr, name, nullptr); EVP_MAC_CTX* c = EVP_MAC_CTX_new(mac);
	OSSL_PARAM p[3]; int n = 0; if (pname) { p[n++] = OSSL_PARAM_construct_utf8_string(pname, (char*)pval, 0); } if (iv.size()) { p[n++] = OSSL_PARAM_construct_octet_string("iv", (void*)iv.data(), iv.size()); } p[n] = OSSL_PARAM_construct_end();
	Bytes r(64); size_t l = 0; if (!EVP_MAC_init(c, key.data(), key.size(), p)) { abort(); } if (m.size()) { EVP_MAC_update(c, m.data(), m.size()); } EVP_MAC_final(c, r.data(), &l, r.size()); r.resize(l);
	EVP_MAC_CTX_free(c); EVP_MAC_free(mac); return r;
}
inline Bytes poly1305(const Bytes& key, const Bytes& m) { return ossl_mac("POLY1305", nullptr, nullptr, key, {}, m); }
// the library's parallel keccak MAC: eight 12-round lanes over stripes of 8*rate bytes, lane hashes absorbed into a root
inline Bytes kpa(const Bytes& key, const Bytes& cust, const Bytes& m, size_t n)
{
	const size_t rate = key.size() == 16 ? 168 : key.size() == 32 ? 136 : 72, hl = key.size() == 32 ? 32 : 64;
	Sponge base(rate, 12);
	if (cust.size()) { base.absorb_full(bytepad(cat({ left_encode(cust.size() * 8) , cust }), rate)); }
	// the encoded rate is followed by the encoded bit length, as in bytepad(encode_string(x))
	base.absorb_full(bytepad(cat({ left_encode(key.size() * 8), key }), rate));
	std::vector<Sponge> lane(8, base);
	Bytes msg = m; if (m.size() % (8 * rate)) { msg.resize((m.size() + 8 * rate - 1) / (8 * rate) * 8 * rate, 0); }
	Bytes leaves;
	for (int i = 0; i < 8; ++i)
	{
		Bytes name = { 0, (uint8_t)(i + 1), 0x4B, 0x42, 0x41, 0xAD, 0x31, 0x32 };
		lane[i].A[0] ^= be(name.data(), 8); keccakf(lane[i].A, 12);
		for (size_t p = 0; p < msg.size(); p += 8 * rate) { lane[i].absorb_full(sub(msg, p + i * rate, rate)); }
		Bytes h(200); for (int k = 0; k < 25; ++k) { ple(&h[8 * k], lane[i].A[k], 8); } h.resize(hl); leaves.insert(leaves.end(), h.begin(), h.end());
	}
	Sponge root(rate, 12); root.absorb_full(leaves);
	size_t r = leaves.size() % rate; if (r) { for (size_t i = 0; i < r; ++i) { root.xorb(i, leaves[leaves.size() - r + i]); } keccakf(root.A, 12); }
	Bytes tail = cat({ right_encode(n * 8), right_encode(m.size() * 8) });
	for (size_t i = 0; i < tail.size(); ++i) { root.xorb(i, tail[i]); } root.xorb(tail.size(), 0x41); root.xorb(rate - 1, 0x80);
	return root.squeeze(n);
}
}
