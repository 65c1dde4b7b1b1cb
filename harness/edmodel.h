#pragma once
// Curve25519 and Ed25519 over the integers of OpenSSL: a slow and plain model (RFC 7748, RFC 8032)
#include "ref.h"
#include <openssl/bn.h>
#include <openssl/evp.h>
namespace ref
{
struct Int
{
	BIGNUM* v; Int() : v(BN_new()) {} Int(unsigned long x) : v(BN_new()) { BN_set_word(v, x); } Int(const Int& o) : v(BN_dup(o.v)) {} Int& operator=(const Int& o) { BN_copy(v, o.v); return *this; } ~Int() { BN_free(v); }
	static BN_CTX* ctx() { static thread_local BN_CTX* c = BN_CTX_new(); return c; }
	static Int hex(const char* s) { Int r; BN_hex2bn(&r.v, s); return r; }
	static Int le(const Bytes& b) { Int r; BN_lebin2bn(b.data(), (int)b.size(), r.v); return r; }
	Bytes bytes(size_t n) const { Bytes b(n); if (BN_bn2lebinpad(v, b.data(), (int)n) < 0) { pbt::fail("model: number too large"); } return b; }
	bool zero() const { return BN_is_zero(v); } bool odd() const { return BN_is_odd(v); } bool bit(int i) const { return BN_is_bit_set(v, i); }
	bool operator==(const Int& o) const { return BN_cmp(v, o.v) == 0; } bool operator<(const Int& o) const { return BN_cmp(v, o.v) < 0; }
};
struct Ed
{
	typedef Int I; I p, L, d, sm1; struct P { I x, y, z, t; };
	static const Ed& get() { static Ed e; return e; }
	I mul(const I& a, const I& b) const { I r; BN_mod_mul(r.v, a.v, b.v, p.v, I::ctx()); return r; }
	I add(const I& a, const I& b) const { I r; BN_mod_add(r.v, a.v, b.v, p.v, I::ctx()); return r; }
	I sub(const I& a, const I& b) const { I r; BN_mod_sub(r.v, a.v, b.v, p.v, I::ctx()); return r; }
	I inv(const I& a) const { I r; if (a.zero()) { return I(0); } BN_mod_inverse(r.v, a.v, p.v, I::ctx()); return r; }
	I pow(const I& a, const I& e) const { I r; BN_mod_exp(r.v, a.v, e.v, p.v, I::ctx()); return r; }
	I mod(const I& a) const { I r; BN_nnmod(r.v, a.v, p.v, I::ctx()); return r; }
	I modL(const I& a) const { I r; BN_nnmod(r.v, a.v, L.v, I::ctx()); return r; }
	I muladd(const I& a, const I& b, const I& c) const { I r; BN_mul(r.v, a.v, b.v, I::ctx()); BN_add(r.v, r.v, c.v); return modL(r); }
	Ed() : p(I::hex("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFED")), L(I::hex("1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED")) { d = sub(I(0), mul(I(121665), inv(I(121666)))); I e = I::hex("1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFB"); sm1 = pow(I(2), e); }
	P zero() const { return { I(0), I(1), I(1), I(0) }; }
	P plus(const P& a, const P& b) const { I A = mul(sub(a.y, a.x), sub(b.y, b.x)), B = mul(add(a.y, a.x), add(b.y, b.x)), C = mul(mul(a.t, b.t), add(d, d)), D = mul(add(a.z, a.z), b.z), E = sub(B, A), F = sub(D, C), G = add(D, C), H = add(B, A); return { mul(E, F), mul(G, H), mul(F, G), mul(E, H) }; }
	P neg(const P& a) const { return { sub(I(0), a.x), a.y, a.z, sub(I(0), a.t) }; }
	P times(const I& k, const P& a) const { P r = zero(); for (int i = BN_num_bits(k.v) - 1; i >= 0; --i) { r = plus(r, r); if (k.bit(i)) { r = plus(r, a); } } return r; }
	Bytes enc(const P& a) const { I zi = inv(a.z); Bytes b = mul(a.y, zi).bytes(32); if (mul(a.x, zi).odd()) { b[31] |= 128; } return b; }
	// decoding; y is taken modulo p, as is the custom of implementations
	bool dec(const Bytes& b, P& r) const
	{
		Bytes c = b; bool s = c[31] >> 7; c[31] &= 127; I y = mod(I::le(c)), yy = mul(y, y), u = sub(yy, I(1)), v = add(mul(d, yy), I(1)); I e = I::hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE"), x = mul(u, inv(v)); I w = pow(x, e);
		if (!(mul(w, w) == x)) { w = mul(w, sm1); if (!(mul(w, w) == x)) { return false; } } if (w.odd() != s) { w = sub(I(0), w); } r = { w, y, I(1), mul(w, y) }; return true;
	}
	bool canonical(const Bytes& b) const { Bytes c = b; c[31] &= 127; return I::le(c) < p; }
	P base() const { P b; Bytes g(32, 0x66); g[0] = 0x58; dec(g, b); return b; }
	bool small(const P& a) const { P r = a; for (int i = 0; i < 3; ++i) { r = plus(r, r); } return r.x.zero() && r.y == r.z; }
	static Bytes clamp(Bytes k) { k.resize(32); k[0] &= 248; k[31] = (k[31] & 127) | 64; return k; }
	static Bytes hash(bool sha3, const Bytes& m) { Bytes o(64); unsigned l = 64; EVP_Digest(m.data(), m.size(), o.data(), &l, sha3 ? EVP_sha3_512() : EVP_sha512(), nullptr); return o; }
	Bytes pub(bool sha3, const Bytes& seed) const { return enc(times(I::le(clamp(hash(sha3, seed))), base())); }
	Bytes sign(bool sha3, const Bytes& seed, const Bytes& pk, const Bytes& m) const { Bytes h = hash(sha3, seed), nb = hash(sha3, cat({ ref::sub(h, 32, 32), m })); I n = modL(I::le(nb)); Bytes R = enc(times(n, base())); I k = modL(I::le(hash(sha3, cat({ R, pk, m })))); return cat({ R, muladd(k, I::le(clamp(h)), n).bytes(32) }); }
	// the equation of RFC 8032 without cofactor, and the strict rules on encodings and points of small order
	bool verify(bool sha3, const Bytes& pk, const Bytes& m, const Bytes& sig) const
	{
		Bytes R = ref::sub(sig, 0, 32); I s = I::le(ref::sub(sig, 32, 32)); if (!(s < L)) { return false; } P A, Rp; if (!canonical(pk) || !dec(pk, A) || small(A)) { return false; } if (dec(R, Rp) && small(Rp)) { return false; }
		I k = modL(I::le(hash(sha3, cat({ R, pk, m })))); return enc(plus(times(s, base()), times(k, neg(A)))) == R;
	}
	// X25519: the function of RFC 7748
	Bytes x25519(const Bytes& k, const Bytes& u) const
	{
		I s = I::le(clamp(k)); Bytes ub = u; ub[31] &= 127; I x1 = mod(I::le(ub)), x2(1), z2(0), x3 = x1, z3(1); bool sw = false;
		for (int t = 254; t >= 0; --t) { bool kt = s.bit(t); if (sw != kt) { std::swap(x2.v, x3.v); std::swap(z2.v, z3.v); } sw = kt; I A = add(x2, z2), AA = mul(A, A), B = sub(x2, z2), BB = mul(B, B), E = sub(AA, BB), C = add(x3, z3), D = sub(x3, z3), DA = mul(D, A), CB = mul(C, B), q = add(DA, CB), w = sub(DA, CB); x3 = mul(q, q); z3 = mul(x1, mul(w, w)); x2 = mul(AA, BB); z2 = mul(E, add(AA, mul(I(121665), E))); }
		if (sw) { std::swap(x2.v, x3.v); std::swap(z2.v, z3.v); } return mul(x2, inv(z2)).bytes(32);
	}
	static Bytes order8(int i)
	{
		static const char* t[] = { "0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000080", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa", "0100000000000000000000000000000000000000000000000000000000000080", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" };
		Bytes b(32); for (int j = 0; j < 32; ++j) { b[j] = (uint8_t)std::stoi(std::string(t[i] + 2 * j, 2), nullptr, 16); } return b;
	}
};
}
