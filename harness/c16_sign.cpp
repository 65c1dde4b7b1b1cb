// LIBS: -lcrypto
// C16: signatures verify under the public key, and are those of the specification
#include "grow.h"
static void session(pbt::Case& c, const SigSet& s, int msgs)
{
	c.tag(s.name); c.nontrivial(); DetPrng R(c.u(0, ~0ull)), R2(c.u(0, ~0ull)); Signer k = mksigner(s, &R), k2 = mksigner(s, &R2); std::string nm = s.name; uint64_t seed = sigseed(c, s); const SigPair kp = sigpair(s, seed); c.desc << nm << " pair " << seed;
	if (s.s == DLT) { Bytes pk, sk; ref::Dilithium(s.v).keygen(ref::sub(kp.rnd, 0, 32), pk, sk); require_eq(kp.pk, pk, nm + ": public key"); require_eq(kp.sk, sk, nm + ": private key"); }
	auto pk = sigkey(c, s, kp.pk, false); std::unique_ptr<AsymmetricKey> sk; uint64_t xi = 0;
	if (s.s == XMS)
	{
		// start anywhere in the life of the key
		XmssShape x = xshape(s.p); uint64_t last = (1ull << x.h) - 2 - msgs; int t = x.h / x.d; xi = c.pick<uint64_t>({ 0, c.u(0, last), (c.u(1, (1ull << (x.h - t)) - (x.d > 1 ? 0 : 1) ) << t) - 1, last }); if (xi > last) { xi = c.u(0, last); } Bytes b = kp.sk; for (int i = 0; i < (x.mt ? (x.h + 7) / 8 : 4); ++i) { b[4 + i] = (uint8_t)(xi >> (8 * ((x.mt ? (x.h + 7) / 8 : 4) - 1 - i))); } sk = sigkey(c, s, b, true); c.desc << " from index " << xi;
	}
	else { sk = sigkey(c, s, kp.sk, true); }
	Bytes sig(c.u(0, 100), (uint8_t)c.u(0, 255)), out(c.u(0, 50), 0xEE);
	for (int i = 0; i < msgs; ++i)
	{
		Bytes m = sigmsg(c); c.desc << " message " << m.size(); CEX::Asymmetric::Sign::IAsymmetricSigner* a = k.get(); CEX::Asymmetric::Sign::IAsymmetricSigner* b = c.flip() ? k.get() : k2.get(); std::unique_ptr<CEX::Asymmetric::Sign::IAsymmetricSigner> tmp;
		if (c.chance(1, 4)) { auto all = sigsets(s.s, 2); tmp = mksigner(*all[c.u(0, all.size() - 1)], &R); a = tmp.get(); c.tag("signer made for another parameter set"); }
		if (c.chance(1, 4)) { sig = Bytes(); } R.given.clear(); a->Initialize(sk.get()); require(a->IsInitialized() && a->IsSigner(), nm + ": flags after taking a private key"); size_t n = a->Sign(m, sig); require(n == s.sig + m.size() && sig.size() == n, nm + ": a signature of " + std::to_string(n) + " bytes for a message of " + std::to_string(m.size())); require_eq(ref::sub(sig, s.sig, m.size()), m, nm + ": the message in the signature");
		Bytes sg = ref::sub(sig, 0, s.sig);
		if (s.s == DLT) { ref::Dilithium M(s.v); require_eq(sg, M.sign(kp.sk, m), nm + ": signature"); if (M.attempts > 3) { c.tag("several rejections"); } }
		else if (s.s == ECD && s.v == 1) { EVP_PKEY* e = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, kp.sk.data(), 32); EVP_MD_CTX* x = EVP_MD_CTX_new(); Bytes w(64); size_t wl = 64; EVP_DigestSignInit(x, nullptr, nullptr, nullptr, e); EVP_DigestSign(x, w.data(), &wl, m.data(), m.size()); EVP_MD_CTX_free(x); EVP_PKEY_free(e); require_eq(sg, w, nm + ": signature"); }
		else if (s.s == SPX) { require_eq(ref::sub(sg, 0, s.pk / 2), ref::Sphincs(s.v).X(ref::cat({ ref::sub(kp.sk, s.pk / 2, s.pk / 2), R.given, m }), s.pk / 2), nm + ": randomiser of the signature"); }
		else if (s.s == XMS) { ref::Xmss M = xmodel(s.p); uint64_t ix = 0; for (size_t j = 0; j < M.idxn; ++j) { ix = ix << 8 | sg[j]; } require(ix == xi + i, nm + ": index " + std::to_string(ix) + " in the signature, expected " + std::to_string(xi + i)); require_eq(ref::sub(sg, M.idxn, M.n), M.prf(ref::sub(kp.sk, 4 + M.idxn + M.n, M.n), M.tb(ix, 32)), nm + ": randomiser of the signature"); }
		require(model_verify(s, kp.pk, m, sg), nm + ": the signature does not verify by the model");
		b->Initialize(pk.get()); require(!b->IsSigner(), nm + ": flags after taking a public key"); require(b->Verify(sig, out), nm + ": the signature was refused"); require_eq(out, m, nm + ": message returned by the verification");
		if (s.s == XMS && c.chance(1, 3)) { SBytes st = AsymmetricKey::Serialize(*sk); sk.reset(AsymmetricKey::DeSerialize(st)); c.tag("key saved between signatures"); }
	}
}
PROP(dilithium, 640, 40000) { session(c, sigsets()[c.u(0, 2)], 1 + (int)c.u(0, 3)); }
PROP(ecdsa, 3200, 200000) { session(c, sigsets()[3 + c.u(0, 1)], 1 + (int)c.u(0, 3)); }
PROP(xmss, 96, 20000) { auto v = sigsets(XMS, SLOWBUILD ? 1 : c.chance(1, 20) ? 2 : 1); session(c, *v[c.u(0, v.size() - 1)], 1 + (int)c.u(0, 2)); }
PROP(sphincs, 12, 800) { if (SLOWBUILD) { c.discard(); } auto v = sigsets(SPX, 2); session(c, *v[c.u(0, v.size() - 1)], 1); }
// a key pair is a function of the bytes of the random source, every one of which counts
PROP(source, 640, 40000)
{
	auto v = sigsets(-1, c.chance(1, 40) && !SLOWBUILD ? 2 : 0); const SigSet& s = *v[c.u(0, v.size() - 1)]; c.tag(s.name); c.nontrivial(); uint64_t seed = sigseed(c, s); const SigPair kp = sigpair(s, seed); std::string nm = s.name; c.desc << nm << " pair " << seed;
	size_t want = s.s == DLT || s.s == ECD ? 32 : s.s == SPX ? 3 * s.pk / 2 : 3 * (s.pk - 4) / 2; require(kp.rnd.size() >= want, nm + ": a key pair from " + std::to_string(kp.rnd.size()) + " random bytes"); long fl = (long)c.u(0, kp.rnd.size() - 1); c.desc << " byte " << fl << " altered";
	DetPrng r(seed * 104729 + (int)s.p), r0(seed * 104729 + (int)s.p); r.flip = fl; Signer k = mksigner(s, &r); std::unique_ptr<AsymmetricKeyPair> a(k->Generate()); require(a->PrivateKey()->Polynomial() != kp.sk, nm + ": random byte " + std::to_string(fl) + " does not reach the private key");
	if (s.cost == 0) { Signer q = mksigner(s, &r0); std::unique_ptr<AsymmetricKeyPair> b(q->Generate()); require(b->PrivateKey()->Polynomial() == kp.sk && b->PublicKey()->Polynomial() == kp.pk, nm + ": the same random bytes gave another key pair"); require(a->PublicKey()->Polynomial() != kp.pk, nm + ": random byte " + std::to_string(fl) + " does not reach the public key"); }
}
// the verifier of every parameter set, at every leaf: keys and signatures grown around one leaf
PROP(grown, 240, 12000)
{
	bool x = !c.chance(1, 4); auto rnd = [&](size_t n) { Bytes b = c.random_bytes(n); return b; }; Bytes msg = sigmsg(c), out; Grown g; const SigSet* sp; Bytes pk;
	if (x)
	{
		sp = &xmssall()[c.u(0, 43)]; XmssShape s = xshape(sp->p); ref::Xmss M = xmodel(sp->p); uint64_t last = (1ull << s.h) - 1; int t = s.h / s.d; uint64_t idx = c.pick<uint64_t>({ c.u(0, last), c.u(0, last), 0, last, 1, (1ull << t) - 1, last >> 1 }); c.desc << sp->name << " leaf " << idx;
		g = grow_xmss(M, idx, msg, rnd); require(M.verify(g.pk, msg, g.sig), sp->name + ": the model refuses what it made (the check itself)"); pk = ref::cat({ M.tb(xmssoid((int)sp->p - (int)AsymmetricParameters::XMSSSHA2256H10), 4), g.pk });
	}
	else { sp = sigsets(SPX, 2)[c.u(0, 3)]; ref::Sphincs M(sp->v); uint32_t leaf = (uint32_t)c.u(0, (1u << (M.h / M.d)) - 1); c.desc << sp->name << " top leaf " << leaf; g = grow_sphincs(M, leaf, msg, rnd); require(M.verify(g.pk, msg, g.sig), sp->name + ": the model refuses what it made (the check itself)"); pk = g.pk; }
	const SigSet& s = *sp; c.tag(s.name); c.nontrivial(); c.desc << " message " << msg.size(); require(g.sig.size() == s.sig && pk.size() == s.pk, "sizes of the model");
	DetPrng R(1); Signer k = mksigner(s, &R); auto key = sigkey(c, s, pk, false); k->Initialize(key.get()); Bytes all = ref::cat({ g.sig, msg });
	require(k->Verify(all, out), s.name + ": the signature was refused"); require_eq(out, msg, s.name + ": message returned by the verification");
	size_t bit = c.u(0, all.size() * 8 - 1); if (c.flip()) { bit = c.u(0, 64 * 8); } c.desc << " then bit " << bit; all[bit / 8] ^= (uint8_t)(1 << bit % 8); bool ok = false; try { ok = k->Verify(all, out); } catch (CEX::Exception::CryptoException&) {} 
	if (ok) { Bytes m2 = ref::sub(all, s.sig, all.size() - s.sig), s2 = ref::sub(all, 0, s.sig); require(model_verify(s, pk, m2, s2), s.name + ": an altered signature was accepted"); }
}
