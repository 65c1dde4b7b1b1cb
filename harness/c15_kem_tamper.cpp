// LIBS: -lcrypto
// C15: altered ciphertexts, wrong keys and lengths never yield the encapsulated secret
#include "kem.h"
#include "KyberParameters.h"
#include "McElieceParameters.h"
#include "ECDHParameters.h"
// the ends of the fields of a ciphertext
static std::vector<size_t> fields(const KemSet& s) { if (s.kyber) { size_t du = s.k <= 3 ? 320 : 352; return { 0, du, du * s.k - 1, du * (size_t)s.k, s.ct - 1 }; } return { 0, s.ct - 33, s.ct - 32, s.ct - 1 }; }
// the position of the field element zero in the support, from the seed kept in the private key
static size_t zeropos(const KemSet& s, const Bytes& sk)
{
	int t = s.k == 4608 ? 96 : s.k == 6960 ? 119 : 128; size_t len = s.k / 8 + 32768 + 2 * t + 32, off = len - 32 - 2 * t - 32768; Bytes x = ref::keccak(136, 0x1F, ref::cat({ Bytes{ 64 }, ref::sub(sk, 0, 32) }), len); uint32_t p0, p; memcpy(&p0, &x[off], 4); size_t r = 0; for (int i = 1; i < 8192; ++i) { memcpy(&p, &x[off + 4 * i], 4); r += p < p0; } return r;
}
static std::string alter(pbt::Case& c, const KemSet& s, Bytes& ct, const KemPair& kp, const Bytes& orig)
{
	auto f = fields(s); size_t n = ct.size(); std::ostringstream d; int k = (int)c.u(0, 6);
	switch (k)
	{
	case 0: { size_t i = c.u(0, n * 8 - 1); ct[i / 8] ^= 1 << (i % 8); d << "bit " << i; break; }
	case 1: { size_t i = f[c.u(0, f.size() - 1)]; uint8_t m = 1 << c.u(0, 7); ct[i] ^= m; d << "byte " << i << "^" << (int)m; break; }
	case 2: { for (size_t j = 0; j < 2; ++j) { size_t i = f[c.u(0, f.size() - 1)]; uint8_t m = c.flip() ? 1 : 0x80; ct[i] ^= m; d << "byte " << i << "^" << (int)m << " "; } break; }
	case 3: { size_t i = c.u(0, n - 1), j = c.u(i, n - 1); for (size_t q = i; q <= j; ++q) { ct[q] = (uint8_t)c.u(0, 255); if (q > i + 40) { j = q; break; } } d << "bytes " << i << ".." << j; break; }
	case 5: { size_t i = f[c.u(0, f.size() - 1)]; if (c.flip()) { for (size_t q = 0; q <= i; ++q) { ct[q] = 0; } d << "zero up to " << i; } else { for (size_t q = i; q < n; ++q) { ct[q] = 0; } d << "zero from " << i; } break; }
	case 4: if (!s.kyber)
		{
			// a ciphertext made for an error of another weight, with the right confirmation
			Bytes e(s.k / 8); size_t sb = (s.ct - 32) * 8; int w = (int)c.u(0, 6); for (int q = 0; q < w; ++q) { size_t i = c.flip() ? sb - 1 - c.u(0, 7) : c.u(0, sb - 1); e[i / 8] |= 1 << (i % 8); } for (size_t q = 0; q < sb / 8; ++q) { ct[q] = e[q]; } 
			// the decoder finds the errors, and the support element zero when it is there, as the locator has too low a degree
			Bytes found = e; size_t z = zeropos(s, kp.sk); if (w > 0 && z < (size_t)s.k) { found[z / 8] |= 1 << (z % 8); }
			Bytes h = ref::keccak(136, 0x1F, ref::cat({ Bytes{ 2 }, found }), 32); std::copy(h.begin(), h.end(), ct.end() - 32); d << "made for an error of weight " << w; break;
		}
		{ uint8_t v = c.pick<uint8_t>({ 0, 0xFF }); ct.assign(n, v); d << "all " << (int)v; break; }
	case 6: if (!s.kyber) { size_t i = c.flip() ? s.ct - 33 : c.u(0, s.ct - 33), j = c.u(s.ct - 32, s.ct - 1); uint8_t a = c.flip() ? 0x80 : 1 << c.u(0, 7), b = c.flip() ? 1 : 1 << c.u(0, 7); ct[i] ^= a; ct[j] ^= b; d << "byte " << i << "^" << (int)a << " and confirmation byte " << j << "^" << (int)b; break; } // fall through
	default: { Bytes& o = ct; std::reverse(o.begin(), o.end()); d << "reversed"; break; }
	}
	(void)kp; (void)orig; return d.str();
}
static void tamper(pbt::Case& c, const KemSet& s, int rounds)
{
	c.tag(s.name); DetPrng R(c.u(0, ~0ull)); Kem k = mkkem(s, &R); c.desc << s.name; std::string nm = s.name; uint64_t ks = pairseed(c, s); KemPair kp = kempair(s, ks); ref::KyberModel M(s.k); c.nontrivial();
	AsymmetricKey pk(kp.pk, prim(s), AsymmetricKeyTypes::CipherPublicKey, s.p); Bytes dom = c.chance(1, 4) ? c.bytes(c.u(1, 40)) : Bytes(); k->DomainKey() = dom; Bytes ct, ss(32, 0x11); k->Initialize(&pk); k->Encapsulate(ct, ss);
	for (int i = 0; i < rounds; ++i)
	{
		Bytes t = ct, sk = kp.sk, out(32, 0x5A); std::string what; int kind = (int)c.u(0, 9);
		if (kind < 7) { what = alter(c, s, t, kp, ct); }
		else if (kind == 7) { t.resize(c.len(s.ct + 40, { 0, 1, s.ct - 32, s.ct - 1, s.ct + 1 })); for (size_t q = ct.size(); q < t.size(); ++q) { t[q] = (uint8_t)c.u(0, 255); } what = "length " + std::to_string(t.size()); c.tag("length altered"); }
		else if (kind == 8 && s.kyber) { sk = kempair(s, c.u(0, 1000000)).sk; what = "another private key"; c.tag("another private key"); }
		else { size_t lim = s.kyber ? 384 * s.k - 1 : 40 + (s.ct - 32) - 1, lo = s.kyber ? 0 : 40; /* a bit of the secret vector or of the Goppa polynomial; whole bytes, as small changes of the noise-tolerant part may decode to the same message */ size_t at = c.u(lo, lim), nb = c.u(8, 60); for (size_t q = at; q < std::min(at + nb, lim); ++q) { sk[q] ^= 0x55; } if (sk == kp.sk) { sk[at] ^= 0x55; } what = "private key altered at " + std::to_string(at) + " for " + std::to_string(nb); c.tag("private key altered"); }
		c.desc << " [" << what << "]"; if (t == ct && sk == kp.sk) { what = "nothing"; }
		Kem o; CEX::Asymmetric::Encrypt::IAsymmetricCipher* d = k.get(); DetPrng R2(1); if (c.flip()) { o = mkkem(s, &R2); o->DomainKey() = dom; d = o.get(); }
		AsymmetricKey sko(sk, prim(s), AsymmetricKeyTypes::CipherPrivateKey, s.p); d->Initialize(&sko); Bytes tc = t, skc = sk; bool ok = d->Decapsulate(t, out); require(t == tc && sko.Polynomial() == skc, nm + ": decapsulation changed its input");
		if (what == "nothing") { require(ok && out == ss, nm + ": the unaltered ciphertext was refused"); continue; }
		if (s.kyber && t.size() == s.ct) { Bytes ms(32); bool mok = M.decaps(sk, t, ms); require(ok == mok, nm + " after altering " + what + ": accepted " + std::to_string(ok) + ", the scheme says " + std::to_string(mok)); if (!mok) { require(out != ss && ms != ss, nm + " after altering " + what + ": yields the secret"); continue; } }
		// an altered private key may still be equivalent: only the altered ciphertext is always refused
		if (kind >= 8 && t == ct && ok && out == ss) { c.tag("equivalent private key"); require(kind == 9, nm + ": another private key yields the secret"); continue; }
		require(!ok, nm + " after altering " + what + ": the ciphertext was accepted"); require(out != ss, nm + " after altering " + what + ": yields the secret");
		require(out == Bytes(32, 0x5A) || out.size() == 32, nm + ": size of the secret after a refusal");
	}
	// the object works as before
	AsymmetricKey sko(kp.sk, prim(s), AsymmetricKeyTypes::CipherPrivateKey, s.p); k->Initialize(&sko); Bytes out(32); require(k->Decapsulate(ct, out) && out == ss, nm + ": the unaltered ciphertext was refused after altered ones");
}
PROP(kyber, 6000, 300000) { tamper(c, kemsets()[c.u(0, 3)], 1 + (int)c.u(0, 4)); }
PROP(mceliece, 40, 2000) { tamper(c, kemsets()[4 + c.u(0, 3)], 20); }
// keys that cannot belong to the parameter set are refused when the object takes them
PROP(keys, 3000, 150000)
{
	const KemSet& s = kemsets()[c.chance(1, 8) ? 4 + c.u(0, 3) : c.u(0, 3)]; c.tag(s.name); c.desc << s.name; std::string nm = s.name; c.nontrivial(); DetPrng R(1); Kem k = mkkem(s, &R); bool pub = c.flip(); size_t n = pub ? s.pk : s.sk; int kind = (int)c.u(0, 3); AsymmetricParameters p = s.p; AsymmetricPrimitives pr = prim(s); AsymmetricKeyTypes t = pub ? AsymmetricKeyTypes::CipherPublicKey : AsymmetricKeyTypes::CipherPrivateKey;
	switch (kind)
	{
	case 0: n = c.len(n + 64, { 0, 1, 32, n - 1, n + 1 }); if (n == (pub ? s.pk : s.sk)) { c.discard(); } break;
	case 1: p = c.pick<AsymmetricParameters>({ kemsets()[c.u(0, 7)].p, AsymmetricParameters::None, AsymmetricParameters::DLTMS1P2544 }); if (p == s.p) { c.discard(); } break;
	case 2: pr = c.pick<AsymmetricPrimitives>({ AsymmetricPrimitives::Dilithium, AsymmetricPrimitives::ECDH, s.kyber ? AsymmetricPrimitives::McEliece : AsymmetricPrimitives::Kyber, AsymmetricPrimitives::None }); break;
	default: t = c.pick<AsymmetricKeyTypes>({ AsymmetricKeyTypes::SignaturePrivateKey, AsymmetricKeyTypes::SignaturePublicKey, AsymmetricKeyTypes::None }); break;
	}
	c.desc << " kind " << kind << " size " << n << " parameters " << (int)p << " primitive " << (int)pr << " type " << (int)t; Bytes b(n, 0xA5); std::unique_ptr<AsymmetricKey> key; if (!throws([&] { key.reset(new AsymmetricKey(b, pr, t, p)); })) { require(throws([&] { k->Initialize(key.get()); }), nm + ": a key that cannot belong to the set was taken"); }
}
PROP(ecdh, 8000, 400000)
{
	using CEX::Asymmetric::Encrypt::ECDH::ECDH; DetPrng R(c.u(0, ~0ull)); ECDHParameters p = c.pick<ECDHParameters>({ ECDHParameters::ECDHS1P25519K, ECDHParameters::ECDHS2P25519S }); ECDH a(p, &R); c.nontrivial(); c.desc << "ECDH " << (int)p; auto ka = std::unique_ptr<AsymmetricKeyPair>(a.Generate()), kb = std::unique_ptr<AsymmetricKeyPair>(a.Generate()); Bytes s1(32), s2(32, 0x5A); require(a.KeyExchange(kb->PublicKey(), ka->PrivateKey(), s1), "ECDH: the exchange failed");
	Bytes pk = kb->PublicKey()->Polynomial(), sk = ka->PrivateKey()->Polynomial(); int kind = (int)c.u(0, 4); bool expect = true, diff = true;
	switch (kind)
	{
	case 0: { size_t i = c.u(0, 254); pk[i / 8] ^= 1 << (i % 8); c.desc << " public bit " << i; break; }
	case 1: { size_t i = c.u(3, 253); sk[i / 8] ^= 1 << (i % 8); c.desc << " private bit " << i; break; }
	case 2: { pk.resize(c.len(80, { 0, 1, 31, 33, 64 })); expect = pk.size() == 32; diff = !expect; c.desc << " public key of " << pk.size(); break; }
	case 3: { sk.resize(c.len(80, { 0, 1, 31 })); expect = sk.size() >= 32; diff = false; c.desc << " private key of " << sk.size(); break; }
	default: { // points of small order give a secret that does not depend on the private key
		static const char* low[] = { "0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" };
		std::string h = low[c.u(0, 6)]; for (int i = 0; i < 32; ++i) { pk[i] = (uint8_t)std::stoi(h.substr(2 * i, 2), nullptr, 16); } if (c.flip()) { pk[31] |= 0x80; } expect = false; c.desc << " low order point " << h.substr(0, 8); c.tag("low order point"); break; }
	}
	AsymmetricKey pko(pk.empty() ? Bytes(1) : pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, (AsymmetricParameters)p), sko(sk.empty() ? Bytes(1) : sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)p); bool ok = false; bool th = throws([&] { ok = a.KeyExchange(&pko, &sko, s2); });
	if (!expect) { require(th || !ok, "ECDH: the exchange succeeded"); require(s2 == Bytes(32, 0x5A), "ECDH: a failed exchange wrote a secret"); return; }
	require(!th, "ECDH: the exchange was refused"); if (ok && diff) { require(s1 != s2, "ECDH: an altered key gives the same secret"); }
}
