// LIBS: -lcrypto
// C18: Curve25519 functions are X25519 and Ed25519
#include "sign.h"
#include "edmodel.h"
#include "ECDH.h"
#include "ECDHParameters.h"
#include "EC25519.h"
using CEX::Asymmetric::Encrypt::ECDH::EC25519;
using ref::Ed; using ref::Int;
static const Ed& M() { return Ed::get(); }
// numbers next to the borders: p, L, powers of two, multiples, all ones
static Bytes number(pbt::Case& c, size_t n)
{
	Int v; switch (c.u(0, 7))
	{
	case 0: case 1: case 2: return c.random_bytes(n);
	case 3: v = c.flip() ? M().p : M().L; break;
	case 4: BN_set_bit(v.v, (int)c.u(0, 8 * n - 1)); break;
	case 5: { Int k = Int::le(c.random_bytes(c.u(1, n > 32 ? 32 : 1))); BN_mul(v.v, k.v, M().L.v, Int::ctx()); break; }
	case 6: { Bytes b(n, c.flip() ? 0xFF : 0); int f = (int)c.u(0, 4); for (int i = 0; i < f; ++i) { b[c.u(0, n - 1)] = (uint8_t)c.u(0, 255); } return b; }
	default: { Bytes b(n); size_t i = 0; while (i < n) { uint8_t x = c.pick<uint8_t>({ 0, 0xFF, 0x80, 0x7F, 1, 0x55 }); size_t r = c.u(1, 9); while (r-- && i < n) { b[i++] = x; } } return b; }
	}
	long dl = (long)c.u(0, 80) - 40; if (dl >= 0) { BN_add_word(v.v, dl); } else { BN_sub_word(v.v, -dl); if (BN_is_negative(v.v)) { BN_set_negative(v.v, 0); } } if (BN_num_bits(v.v) > (int)(8 * n)) { BN_mask_bits(v.v, (int)(8 * n)); } c.tag("border number"); return v.bytes(n);
}
static Int num255(Bytes b) { b[31] &= 127; return M().mod(Int::le(b)); }
PROP(field, 60000, 4000000)
{
	c.nontrivial(); Bytes ab = number(c, 32), bb = number(c, 32); EC25519::fe25519 a, b, t, r; EC25519::Fe25519FromBytes(a, ab); EC25519::Fe25519FromBytes(b, bb); Int x = num255(ab), y = num255(bb), z, w; const Ed& m = M(); c.desc << "a=" << pbt::hex(ab) << " b=" << pbt::hex(bb);
	// one level of unreduced additions or subtractions may precede a product
	int pre = (int)c.u(0, 4); Int u = x; EC25519::Fe25519Copy(t, a); if (pre == 1) { EC25519::Fe25519Add(t, a, b); u = m.add(x, y); } else if (pre == 2) { EC25519::Fe25519Sub(t, a, b); u = m.sub(x, y); } else if (pre == 3) { EC25519::Fe25519Neg(t, a); u = m.sub(Int(0), x); }
	int op = (int)c.u(0, 7); c.tag("operation " + std::to_string(op)); c.desc << " pre " << pre << " op " << op;
	switch (op)
	{
	case 0: EC25519::Fe25519Mul(r, t, b); w = m.mul(u, y); break;
	case 1: EC25519::Fe25519Sq(r, t); w = m.mul(u, u); break;
	case 2: EC25519::Fe25519Sq2(r, t); w = m.mul(u, u); w = m.add(w, w); break;
	case 3: EC25519::Fe25519Invert(r, t); w = m.inv(u); break;
	case 4: EC25519::Fe25519Copy(r, t); w = u; break;
	case 5: { EC25519::fe25519 s; Int v = m.sub(y, x); EC25519::Fe25519Sub(s, b, a); EC25519::Fe25519Mul(r, t, s); w = m.mul(u, v); break; }
	case 6: { EC25519::Fe25519Pow22523(r, t); Int e = Int::hex("0FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD"); w = m.pow(u, e); break; }
	default: { EC25519::fe25519 s; EC25519::Fe25519Copy(s, b); EC25519::Fe25519Copy(r, a); uint32_t k = (uint32_t)c.u(0, 1); EC25519::Fe25519cSwap(r, s, k); w = k ? y : x; break; }
	}
	Bytes o(32, 0xEE); EC25519::Fe25519ToBytes(o, r); require_eq(o, w.bytes(32), "field: result of the operation");
	require((EC25519::Fe25519IsZero(r) != 0) == w.zero() && (EC25519::Fe25519IsNegative(r) != 0) == w.odd(), "field: zero or sign of the result");
}
PROP(scalar, 60000, 4000000)
{
	c.nontrivial(); const Ed& m = M(); Bytes s = number(c, 64); c.desc << "s=" << pbt::hex(s); Bytes r = s; EC25519::Sc25519Reduce(r); r.resize(32); require_eq(r, m.modL(Int::le(s)).bytes(32), "scalar reduction");
	Bytes a = number(c, 32), b = number(c, 32), d = number(c, 32); c.desc << " a=" << pbt::hex(a) << " b=" << pbt::hex(b) << " c=" << pbt::hex(d); size_t off = c.u(0, 40); Bytes o(off + 32 + c.u(0, 9), 0xEE), w = o; EC25519::Sc25519MulAdd(o, off, a, b, d); Bytes v = m.muladd(Int::le(a), Int::le(b), Int::le(d)).bytes(32); std::copy(v.begin(), v.end(), w.begin() + off); require_eq(o, w, "scalar a*b+c");
	Bytes q(off); q.insert(q.end(), a.begin(), a.end()); require((EC25519::Sc25519IsCanonical(q, off) != 0) == (Int::le(a) < m.L), "scalar below the group order");
}
static Bytes point(pbt::Case& c) { const Ed& m = M(); switch (c.u(0, 5)) { case 0: return Ed::order8((int)c.u(0, 10)); case 1: { Bytes b = number(c, 32); return b; } case 2: { int k = (int)c.u(0, 7); Ed::P t; m.dec(Ed::order8(4), t); return m.enc(m.plus(m.times(Int::le(c.random_bytes(32)), m.base()), m.times(Int(k), t))); } default: return m.enc(m.times(Int::le(c.random_bytes(32)), m.base())); } }
PROP(group, 3000, 200000)
{
	const Ed& m = M(); Bytes s = number(c, 32); s[31] &= 127; c.desc << "s=" << pbt::hex(s); c.nontrivial(); EC25519::ge25519p3 H; EC25519::Ge25519ScalarBase(H, s); Bytes o(32, 0xEE); EC25519::Ge25519P3ToBytes(o, H); require_eq(o, m.enc(m.times(Int::le(s), m.base())), "multiple of the base point");
	Bytes pb = point(c); c.desc << " P=" << pbt::hex(pb); Ed::P P; bool ok = m.dec(pb, P); require((EC25519::Ge25519IsCanonical(pb) != 0) == m.canonical(pb), "canonical point"); EC25519::ge25519p3 A; bool lo = EC25519::Ge25519FromBytesNegateVarTime(A, pb) == 0;
	// x = 0 with the sign set is taken by some decoders and refused by others; it is a point of small order
	if (ok && m.small(P)) { c.tag("small order"); require(EC25519::Ge25519HasSmallOrder(pb) != 0 || !m.canonical(pb), "a point of small order was not found out"); if (!(P.x.zero())) { require(lo, "decoding of a point of small order"); } return; }
	require(EC25519::Ge25519HasSmallOrder(pb) == 0, "a point of large order was taken for one of small order"); require(lo == ok, "decoding of a point"); if (!ok) { c.tag("not a point"); return; }
	EC25519::Ge25519P3ToBytes(o, A); require_eq(o, m.enc(m.neg(P)), "negated point");
	Bytes a = number(c, 32), b = number(c, 32); if (c.chance(2, 3)) { a = m.modL(Int::le(a)).bytes(32); b = m.modL(Int::le(b)).bytes(32); } else { a[31] &= 127; b[31] &= 127; } c.desc << " a=" << pbt::hex(a) << " b=" << pbt::hex(b); size_t off = c.u(0, 40); Bytes bo(off); bo.insert(bo.end(), b.begin(), b.end()); EC25519::ge25519p2 R; EC25519::Ge25519DoubleScalarMultVarTime(R, a, A, bo, off); EC25519::Ge25519ToBytes(o, R); require_eq(o, m.enc(m.plus(m.times(Int::le(a), m.neg(P)), m.times(Int::le(b), m.base()))), "a*A + b*B");
}
PROP(x25519, 6000, 400000)
{
	using CEX::Asymmetric::Encrypt::ECDH::ECDH; const Ed& m = M(); bool s2 = c.flip(); ECDHParameters p = s2 ? ECDHParameters::ECDHS2P25519S : ECDHParameters::ECDHS1P25519K; DetPrng R(c.u(0, ~0ull)); ECDH E(p, &R); c.nontrivial(); c.tag(s2 ? "SHA2" : "SHA3");
	Bytes seed = c.bytes(32); std::unique_ptr<AsymmetricKeyPair> kp(E.Generate(seed)); Bytes h = Ed::hash(!s2, seed), nine(32, 0); nine[0] = 9; Bytes sk = kp->PrivateKey()->Polynomial(), pk = kp->PublicKey()->Polynomial(); c.desc << "ECDH " << (s2 ? "SHA2" : "SHA3") << " seed " << pbt::hex(seed); require(sk.size() >= 32 && ref::sub(sk, 0, 32) == ref::sub(h, 0, 32), "ECDH: private key of a seed"); require_eq(pk, m.x25519(ref::sub(sk, 0, 32), nine), "ECDH: public key");
	// exchange with any peer value, from any private key
	Bytes u; switch (c.u(0, 4)) { case 0: u = number(c, 32); break; case 1: { Bytes e = point(c); Bytes y = e; y[31] &= 127; Int Y = m.mod(Int::le(y)); u = m.mul(m.add(Int(1), Y), m.inv(m.sub(Int(1), Y))).bytes(32); if (c.chance(1, 4)) { u[31] |= 128; } break; } case 2: { u = Ed::order8((int)c.u(0, 10)); break; } default: u = m.x25519(c.random_bytes(32), nine); if (c.chance(1, 6)) { u[31] |= 128; c.tag("unused bit set"); } }
	Bytes k = c.chance(1, 3) ? number(c, 32) : ref::sub(sk, 0, 32); c.desc << " k=" << pbt::hex(k) << " u=" << pbt::hex(u); Bytes want = m.x25519(k, u); bool zero = want == Bytes(32, 0);
	{ EVP_PKEY* a = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, k.data(), 32); EVP_PKEY* b = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32); EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(a, nullptr); Bytes o(32); size_t l = 32; EVP_PKEY_derive_init(x); bool ok = EVP_PKEY_derive_set_peer(x, b) == 1 && EVP_PKEY_derive(x, o.data(), &l) == 1; EVP_PKEY_CTX_free(x); EVP_PKEY_free(a); EVP_PKEY_free(b); require(ok ? o == want : zero, "model: X25519 differs from OpenSSL"); }
	auto pub = mkakey(c, u, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, (AsymmetricParameters)p); auto prv = mkakey(c, ref::cat({ k, Bytes(sk.size() - 32, 0x11) }), AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)p); Bytes o(c.pick<size_t>({ 32, 32, 0, 64 }), 0x5A), o0 = o;
	bool ok = E.KeyExchange(pub.get(), prv.get(), o); require(ok == !zero, zero ? "ECDH: an exchange with a point of small order succeeded" : "ECDH: the exchange failed"); if (zero) { c.tag("small order"); require(o == o0, "ECDH: a failed exchange wrote a secret"); } else { require_eq(o, want, "ECDH: shared secret"); }
}
PROP(ed25519, 3000, 200000)
{
	const Ed& m = M(); const SigSet& s = sigsets()[3 + c.u(0, 1)]; bool s3 = s.v == 0; std::string nm = s.name; c.tag(nm); c.nontrivial(); DetPrng R(1); Signer g = mksigner(s, &R); Bytes seed = c.bytes(32), pk = m.pub(s3, seed), msg = sigmsg(c), sig = m.sign(s3, seed, pk, msg); c.desc << nm << " seed " << pbt::hex(seed) << " message " << msg.size();
	auto sk = sigkey(c, s, ref::cat({ seed, pk }), true); auto pub = sigkey(c, s, pk, false); Bytes o, out; g->Initialize(sk.get()); require(g->Sign(msg, o) == 64 + msg.size(), nm + ": size of a signature"); require_eq(o, ref::cat({ sig, msg }), nm + ": signature of RFC 8032");
	if (!s3) { require(model_verify(s, pk, msg, sig), "model: OpenSSL refuses the signature"); }
	g->Initialize(pub.get()); require(g->Verify(o, out), nm + ": the signature was refused"); require_eq(out, msg, nm + ": message of the verification");
	// signatures made with knowledge of the private key that break the rules: the verifier decides as the equation does
	Bytes h = Ed::hash(s3, seed), A = pk, rb, f; Int a = Int::le(Ed::clamp(h)), n = m.modL(Int::le(c.random_bytes(64))); int tor = (int)c.u(0, 7), tor2 = c.chance(1, 3) ? (int)c.u(0, 7) : 0; Ed::P t; m.dec(Ed::order8(4), t); Ed::P Rp = m.plus(m.times(n, m.base()), m.times(Int(tor), t)), Ap = m.plus(m.times(a, m.base()), m.times(Int(tor2), t)); rb = m.enc(Rp); A = m.enc(Ap);
	switch (c.u(0, 5)) { case 0: rb = Ed::order8((int)c.u(0, 10)); n = Int(0); break; case 1: A = Ed::order8((int)c.u(0, 10)); a = Int(0); break; default: break; }
	Int k = m.modL(Int::le(Ed::hash(s3, ref::cat({ rb, A, msg })))); Int S = m.muladd(k, a, n); if (c.chance(1, 3)) { int add = (int)c.u(1, 15); Int q; Int kk(add); BN_mul(q.v, kk.v, m.L.v, Int::ctx()); BN_add(q.v, q.v, S.v); if (BN_num_bits(q.v) <= 256) { S = q; c.tag("S + kL"); } } f = ref::cat({ rb, S.bytes(32) });
	bool want = m.verify(s3, A, msg, f); c.tag(want ? "crafted, valid" : "crafted, invalid"); c.desc << " crafted pk=" << pbt::hex(A) << " sig=" << pbt::hex(f); auto pa = sigkey(c, s, A, false); g->Initialize(pa.get()); out = Bytes(); bool got = g->Verify(ref::cat({ f, msg }), out); require(got == want, nm + (want ? ": a signature that satisfies the equation was refused" : ": a signature was accepted that breaks the rules")); if (got) { require_eq(out, msg, nm + ": message of the verification"); }
}
