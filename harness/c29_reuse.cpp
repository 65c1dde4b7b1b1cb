// C29: an object that has been used, in any way, and is then initialised equals a new one; objects do not influence one another
// LIBS: -lcrypto
#include "anyobj.h"
#include "sign.h"
using namespace any;
// misuse and abandonment: whatever happens here is allowed, an initialisation must undo it
static void abuse(pbt::Case& c, Any& a, bool& inited, bool always)
{
	try
	{
		switch (c.u(0, 4))
		{
		case 0: { Par p = a.par(c); switch (c.u(0, 3)) { case 0: p.key.resize(p.key.size() + c.u(1, 3)); break; case 1: p.key.resize(p.key.size() / 2 + 1); break; case 2: p.iv.resize(p.iv.size() ? p.iv.size() - 1 : 3); break; default: p.key.resize(1); } c.desc << " bad-init"; c.tag("refused or odd initialisation"); if (p.key.empty() && p.iv.empty()) { break; } inited = always; a.init(p); inited = true; break; }
		case 1: { if (!inited) { break; } Call q = a.call(c); if (!a.cuttable(q)) { break; } Lay l = lay(c); l.oa = 0; l.cut = c.u(1, 8); c.desc << " cut"; c.tag("output too small"); a.behave(q, l); break; }
		case 2: { if (!inited) { break; } Call q = a.call(c); Lay l = lay(c); l.flip = true; c.desc << " tampered"; c.tag("tampered or legal call"); a.behave(q, l); break; }
		case 3: { if (!inited) { break; } Call q = a.call(c); c.desc << " partial"; c.tag("abandoned message"); a.partial(q); break; }
		default: c.desc << " reset"; c.tag("reset"); a.reset();
		}
	}
	catch (Exception::CryptoException&) {}
}
// equal to a new object for a few calls
static void equals_new(pbt::Case& c, Any& a, Any& b, const char* what)
{
	Par p = a.par(c); a.init(p); b.init(p); size_t calls = a.once() ? 1 : c.u(1, 3); c.desc << " || key " << p.key.size();
	for (size_t k = 0; k < calls; ++k) { Call q = a.call(c); c.desc << " " << q.text; Lay z; Bytes x = a.behave(q, z), y = b.behave(q, z); require_eq(x, y, a.name + ": " + q.text + ", call " + std::to_string(k) + " of " + what + ", against a new object"); }
}
static void reuse(pbt::Case& c, int f)
{
	world(c); Factory F = pick(c, f), G = pick(c); std::unique_ptr<Any> a(F()), other(G()), other2(G()); c.desc << a->name; c.tag(family_name(f)); c.tag(a->name);
	// a bystander of any kind starts working first and goes on afterwards
	bool by = c.chance(1, 3); Par op; std::vector<Call> oc; Bytes got, want; if (by) { op = other->par(c); oc.push_back(other->call(c)); if (!other->once()) { oc.push_back(other->call(c)); } other->init(op); got = other->behave(oc[0], Lay()); c.desc << " beside " << other->name; c.tag("bystander"); }
	bool digest = f == F_DIGEST; bool inited = digest;
	size_t rounds = c.u(1, 4);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (c.chance(2, 5)) { abuse(c, *a, inited, digest); inited = inited || digest; c.nontrivial(); continue; }
		Par p = a->par(c); try { a->init(p); } catch (Exception::CryptoException& e) { fail(a->name + ": initialising a used object with legal parameters: " + e.Message()); } inited = true; size_t calls = a->once() ? c.u(0, 1) : c.u(0, 3); c.desc << " | key " << p.key.size(); c.nontrivial();
		for (size_t k = 0; k < calls; ++k) { Call q = a->call(c); c.desc << " " << q.text; if (digest && r == 0 && k == 0) { a->reset(); } a->behave(q, lay(c)); }
		if (c.chance(1, 3)) { abuse(c, *a, inited, digest); }
	}
	if (digest) { a->reset(); }
	std::unique_ptr<Any> b(F()); equals_new(c, *a, *b, "the used object");
	if (by) { if (oc.size() > 1) { got = ref::cat({ got, other->behave(oc[1], Lay()) }); } other2->init(op); for (auto& q : oc) { want = ref::cat({ want, other2->behave(q, Lay()) }); } require_eq(got, want, other->name + " working while " + a->name + " was used, against working alone"); }
}
PROP(block, 8000, 300000) { reuse(c, F_BLOCK); }
PROP(mode, 6000, 200000) { reuse(c, F_MODE); }
PROP(aead, 4000, 150000) { reuse(c, F_AEAD); }
PROP(stream, 4000, 150000) { reuse(c, F_STREAM); }
PROP(mac, 8000, 300000) { reuse(c, F_MAC); }
PROP(digest, 6000, 200000) { reuse(c, F_DIGEST); }
PROP(kdf, 6000, 200000) { reuse(c, F_KDF); }
PROP(drbg, 4000, 150000) { reuse(c, F_DRBG); }
// key exchange and signature objects: a history of keys, messages and refusals, then the same work as a new object with the same random source
PROP(kem, 3000, 100000)
{
	const KemSet& s = kemsets()[c.chance(1, 40) && !SLOWBUILD ? 4 : c.u(0, 3)]; std::string nm = s.name; c.tag(nm); c.desc << nm; c.nontrivial(); DetPrng r(1), r2(2); Kem k = mkkem(s, &r); auto kt = [&](bool priv) { return priv ? AsymmetricKeyTypes::CipherPrivateKey : AsymmetricKeyTypes::CipherPublicKey; };
	auto work = [&](Kem& o, bool priv, uint64_t ks, const Bytes& dom, const Bytes& ct0)
	{
		const KemPair& kp = kempair(s, ks); Cipher::SymmetricKey kk(Bytes(16)); AsymmetricKey key(priv ? kp.sk : kp.pk, prim(s), kt(priv), s.p); if (dom.size()) { o->DomainKey() = dom; } else { o->DomainKey().clear(); } o->Initialize(&key); Bytes ct = ct0, ss(32); if (priv) { bool ok = o->Decapsulate(ct, ss); ss.push_back(ok); } else { o->Encapsulate(ct, ss); } return ref::cat({ ct, ss });
	};
	size_t rounds = c.u(1, 4);
	for (size_t i = 0; i < rounds; ++i)
	{
		try { switch (c.u(0, 3)) { case 0: { bool p = c.flip(); c.desc << " work"; work(k, p, pairseed(c, s), c.flip() ? c.bytes(c.u(1, 40)) : Bytes(), c.bytes(s.ct)); break; } case 1: { c.desc << " generate"; if (s.kyber) { std::unique_ptr<AsymmetricKeyPair> g(k->Generate()); } break; } case 2: { c.desc << " bad key"; AsymmetricKey b(c.bytes(c.u(1, 90)), prim(s), kt(c.flip()), s.p); k->Initialize(&b); break; } default: { c.desc << " bad ciphertext"; Bytes o(32); k->Decapsulate(c.bytes(c.u(0, 90)), o); } } } catch (Exception::CryptoException&) {}
	}
	bool p = c.flip(); uint64_t ks = pairseed(c, s), seed = c.u(0, 1000000); Bytes dom = c.flip() ? c.bytes(c.u(1, 40)) : Bytes(), ct = c.bytes(s.ct); r.r = pbt::Rng{ seed }; r2.r = pbt::Rng{ seed }; c.desc << (p ? " decapsulate" : " encapsulate");
	if (p) { DetPrng r3(5); Kem e = mkkem(s, &r3); Bytes x = work(e, false, ks, dom, {}); if (c.flip()) { ct = ref::sub(x, 0, s.ct); } }
	Kem n = mkkem(s, &r2); require_eq(work(k, p, ks, dom, ct), work(n, p, ks, dom, ct), nm + ": a used object, against a new one");
}
PROP(signer, 2400, 80000)
{
	auto v = sigsets(-1, c.chance(1, 60) && !SLOWBUILD ? 1 : 0); const SigSet& s = *v[c.u(0, v.size() - 1)]; std::string nm = s.name; c.tag(nm); c.desc << nm; c.nontrivial(); DetPrng r(1), r2(2); Signer k = mksigner(s, &r);
	auto kt = [&](bool priv) { return priv ? AsymmetricKeyTypes::SignaturePrivateKey : AsymmetricKeyTypes::SignaturePublicKey; };
	auto work = [&](Signer& o, bool priv, uint64_t ks, const Bytes& in) { const SigPair& kp = sigpair(s, ks); AsymmetricKey key(priv ? kp.sk : kp.pk, prim(s), kt(priv), s.p); o->Initialize(&key); Bytes out; if (priv) { o->Sign(in, out); return ref::cat({ out, key.Polynomial() }); } bool ok = o->Verify(in, out); out.push_back(ok); return out; };
	size_t rounds = c.u(1, 4);
	for (size_t i = 0; i < rounds; ++i)
	{
		try { switch (c.u(0, 3)) { case 0: case 1: { bool p = c.flip(); c.desc << " work"; work(k, p, sigseed(c, s), c.bytes(p ? c.u(1, 100) : s.sig + c.u(1, 40))); break; } case 2: { c.desc << " generate"; if (s.cost == 0) { std::unique_ptr<AsymmetricKeyPair> g(k->Generate()); } break; } default: { c.desc << " bad key"; AsymmetricKey b(c.bytes(c.u(1, 90)), prim(s), kt(c.flip()), s.p); k->Initialize(&b); } } } catch (Exception::CryptoException&) {}
	}
	bool p = c.flip(); uint64_t ks = sigseed(c, s), seed = c.u(0, 1000000); r.r = pbt::Rng{ seed }; r2.r = pbt::Rng{ seed }; Bytes in = c.bytes(c.u(1, 200)); c.desc << (p ? " sign" : " verify");
	if (!p) { DetPrng r3(5); Signer e = mksigner(s, &r3); Bytes x = work(e, true, ks, in); x.resize(s.sig + in.size()); in = x; if (c.chance(1, 4)) { in[c.u(0, in.size() - 1)] ^= 1; } }
	Signer n = mksigner(s, &r2); require_eq(work(k, p, ks, in), work(n, p, ks, in), nm + ": a used object, against a new one");
}
