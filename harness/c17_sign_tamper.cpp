// LIBS: -lcrypto
// C17: signatures do not verify for anything that was altered
#include "sign.h"
#include "edmodel.h"
struct Honest { Bytes pk, sk, msg, sig; };
static Honest honest(pbt::Case& c, const SigSet& s)
{
	uint64_t seed = s.cost ? 0 : sigseed(c, s); const SigPair kp = sigpair(s, seed); Bytes msg = sigmsg(c); if (s.cost)
	{
		static std::map<std::pair<int, uint64_t>, Honest> cache; uint64_t v = c.u(0, s.cost == 2 ? 0 : 1); auto key = std::make_pair((int)s.p, seed * 8 + v); auto it = cache.find(key); if (it != cache.end()) { return it->second; }
		DetPrng R(seed + v); Bytes m = ref::keccak(136, 0x1F, Bytes(1, (uint8_t)v), 16 + 37 * v), o; Signer g = mksigner(s, &R); auto sk = sigkey(c, s, kp.sk, true); g->Initialize(sk.get()); g->Sign(m, o); return cache[key] = Honest{ kp.pk, kp.sk, m, ref::sub(o, 0, s.sig) };
	}
	DetPrng R(1); Bytes o; Signer g = mksigner(s, &R); auto sk = sigkey(c, s, kp.sk, true); g->Initialize(sk.get()); g->Sign(msg, o); return Honest{ kp.pk, kp.sk, msg, ref::sub(o, 0, s.sig) };
}
// most cases go to the fast schemes, and of the slow ones to a few sets whose honest signatures are kept
static const SigSet& anyset(pbt::Case& c, int maxcost)
{
	if (!c.chance(1, 3)) { return sigsets()[c.u(0, 4)]; } if (maxcost == 2 && c.chance(1, 4)) { return sigsets()[c.chance(1, 8) ? c.u(6, 8) : 5]; }
	auto v = sigsets(XMS, 1); if (c.chance(1, 12) && !SLOWBUILD) { return *v[c.u(0, v.size() - 1)]; } size_t i = SLOWBUILD ? 0 : c.u(0, 2); return *v[i * (v.size() - 1) / 2];
}
static void flip(pbt::Case& c, Bytes& b, size_t from, size_t to) { if (from >= to) { c.discard(); } int n = c.chance(1, 4) ? (int)c.u(2, 5) : 1; Bytes o = b; for (int i = 0; i < n; ++i) { size_t at = c.chance(1, 4) ? c.pick<size_t>({ from, to - 1 }) : c.u(from, to - 1); b[at] ^= c.chance(2, 3) ? (uint8_t)(1 << c.u(0, 7)) : (uint8_t)c.u(1, 255); c.desc << " @" << at; } if (b == o) { b[from] ^= 1; } }
// the verdict on a public key and a signed message that the signer never made
static void refused(pbt::Case& c, const SigSet& s, const Bytes& pk, const Bytes& all, bool same_sig_size = true)
{
	std::string nm = s.name; DetPrng R(1); Signer g = mksigner(s, &R); if (c.chance(1, 4)) { auto v = sigsets(s.s, 2); g = mksigner(*v[c.u(0, v.size() - 1)], &R); c.tag("signer made for another parameter set"); }
	auto k = sigkey(c, s, pk, false); Bytes out = c.chance(1, 3) ? Bytes(c.u(0, all.size() + 8), 0x5A) : Bytes(), in = all; bool ok = false, thr = false;
	try { g->Initialize(k.get()); ok = g->Verify(in, out); } catch (CEX::Exception::CryptoException&) { thr = true; c.tag("refused with an exception"); }
	require(!ok, nm + ": an altered signature was accepted"); require(in == all, nm + ": the verification altered its input"); (void)thr;
	if (all.size() >= s.sig + 8) { Bytes m = ref::sub(all, s.sig, all.size() - s.sig); require(out != m || m == Bytes(m.size(), m[0]), nm + ": a refused message was returned"); }
}
PROP(alter, 4000, 200000)
{
	const SigSet& s = anyset(c, SLOWBUILD ? 1 : 2); Honest h = honest(c, s); c.tag(s.name); c.nontrivial(); Bytes pk = h.pk, all = ref::cat({ h.sig, h.msg }); int op = (int)c.u(0, 9); static const char* names[] = { "signature", "message", "public key", "truncated", "extended", "message dropped", "parts swapped", "another key", "made up", "ends of parts" }; c.desc << s.name << " " << names[op]; c.tag(names[op]);
	switch (op)
	{
	case 0: flip(c, all, 0, s.sig); break;
	case 1: flip(c, all, s.sig, all.size()); break;
	case 2: flip(c, pk, s.s == XMS ? 4 : 0, pk.size()); break;
	case 3: all.resize(c.chance(1, 2) ? c.u(0, s.sig) : c.u(0, all.size() - 1)); break;
	case 4: { Bytes t = c.bytes(c.u(1, 40)); if (c.flip()) { all.insert(all.end(), t.begin(), t.end()); } else { all.insert(all.begin() + c.u(0, s.sig), t.begin(), t.end()); if (ref::sub(all, 0, s.sig) == h.sig && ref::sub(all, s.sig, all.size() - s.sig) == h.msg) { c.discard(); } } break; }
	case 5: all.resize(s.sig + c.u(0, h.msg.size() - 1)); break;
	case 6: { size_t n = c.u(1, 64) * c.pick<size_t>({ 1, 16, 32 }); size_t a = c.u(0, s.sig - 1), b = c.u(0, s.sig - 1); for (size_t i = 0; i < n && a + i < s.sig && b + i < s.sig; ++i) { std::swap(all[a + i], all[b + i]); } if (all == ref::cat({ h.sig, h.msg })) { c.discard(); } break; }
	case 7: if (s.cost) { flip(c, pk, s.s == XMS ? 4 : 0, pk.size()); } else { pk = sigpair(s, 1000001 + c.u(0, 50)).pk; } break;
	case 8: { int k = (int)c.u(0, 3); for (size_t i = 0; i < s.sig; ++i) { all[i] = k == 0 ? 0 : k == 1 ? 0xFF : k == 2 ? (uint8_t)c.u(0, 255) : (uint8_t)(i * 7); if (k == 2 && s.sig > 5000 && i > 400) { break; } } if (c.chance(1, 3)) { std::fill(pk.begin() + (s.s == XMS ? 4 : 0), pk.end(), k == 1 ? 0xFF : 0); } break; }
	default: { size_t at = c.pick<size_t>({ s.sig - 1, s.sig, 0, 31, 32, 63, s.sig - s.sig / 8 }); if (at >= all.size()) { c.discard(); } all[at] ^= (uint8_t)(1 << c.u(0, 7)); break; }
	}
	// an altered Dilithium signature can stay valid only by the padding-free encoding; the model knows
	if (s.s == DLT && op != 3 && op != 5 && all.size() > s.sig) { require(!model_verify(s, pk, ref::sub(all, s.sig, all.size() - s.sig), ref::sub(all, 0, s.sig)), "model: accepted an altered signature"); }
	refused(c, s, pk, all);
}
// every shorter length
PROP(shorter, 1200, 60000) { const SigSet& s = anyset(c, 1); Honest h = honest(c, s); c.tag(s.name); c.nontrivial(); size_t n = c.chance(1, 2) ? c.u(0, std::min<size_t>(s.sig, 80)) : c.u(0, s.sig); c.desc << s.name << " first " << n << " of " << s.sig; refused(c, s, h.pk, ref::sub(h.sig, 0, n)); }
// keys that are not public keys of the scheme
PROP(keys, 2000, 100000)
{
	const SigSet& s = anyset(c, 1); Honest h = honest(c, s); c.tag(s.name); c.nontrivial(); std::string nm = s.name; DetPrng R(1); Signer g = mksigner(s, &R); Bytes all = ref::cat({ h.sig, h.msg }), out, pk = h.pk; AsymmetricPrimitives pr = prim(s); AsymmetricKeyTypes kt = AsymmetricKeyTypes::SignaturePublicKey; AsymmetricParameters pa = s.p; int op = (int)c.u(0, 5); c.desc << nm << " key defect " << op; c.tag("key defect " + std::to_string(op));
	switch (op)
	{
	case 0: pk.resize(c.u(1, pk.size() - 1)); break;
	case 1: { Bytes t = c.bytes(c.u(1, 64)); pk.insert(pk.end(), t.begin(), t.end()); break; }
	case 2: { auto v = sigsets(-1, 2); const SigSet* o = v[c.u(0, v.size() - 1)]; if (o->p == s.p || (o->pk == s.pk && o->s != s.s)) { c.discard(); } pa = o->p; if (o->s == s.s && o->pk == s.pk && s.s != XMS) { c.tag("set of equal key size"); } break; }
	case 3: pr = c.pick<AsymmetricPrimitives>({ AsymmetricPrimitives::Dilithium, AsymmetricPrimitives::SphincsPlus, AsymmetricPrimitives::ECDSA, AsymmetricPrimitives::Kyber, AsymmetricPrimitives::XMSS }); if (pr == prim(s)) { c.discard(); } break;
	case 4: kt = c.pick<AsymmetricKeyTypes>({ AsymmetricKeyTypes::CipherPublicKey, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricKeyTypes::SignaturePrivateKey }); break;
	default: pk = c.flip() ? Bytes(pk.size(), 0xFF) : c.random_bytes(pk.size()); break;
	}
	AsymmetricKey k(pk, pr, kt, pa); bool ok = false; try { g->Initialize(&k); ok = g->Verify(all, out); } catch (CEX::Exception::CryptoException&) { c.tag("refused with an exception"); } require(!ok, nm + ": the signature was accepted under a key that is not its public key");
}
// Dilithium: signatures by a signer that does not keep the bounds; second encodings
PROP(dilithium, 400, 20000)
{
	const SigSet& s = sigsets()[c.u(0, 2)]; c.tag(s.name); c.nontrivial(); ref::Dilithium D(s.v); Bytes pk, sk, msg = sigmsg(c); D.keygen(c.bytes(32), pk, sk); int op = (int)c.u(0, 3); c.desc << s.name << " message " << msg.size() << " kind " << op; Bytes sig;
	if (op == 0) { sig = D.sign(sk, msg, true); c.tag("bounds not kept"); if (D.verify(pk, msg, sig)) { c.discard(); } }
	else
	{
		sig = D.sign(sk, msg); size_t base = s.sig - D.omega - D.K; size_t n = sig[s.sig - 1]; c.tag("hint encoding");
		if (op == 1) { size_t i = c.u(0, D.K - 1), lo = i ? sig[base + D.omega + i - 1] : 0, hi = sig[base + D.omega + i]; if (hi - lo < 2) { c.discard(); } size_t a = c.u(lo, hi - 2); if (c.flip()) { std::swap(sig[base + a], sig[base + a + 1]); } else { sig[base + a + 1] = sig[base + a]; } }
		else if (op == 2) { if (n >= (size_t)D.omega) { c.discard(); } sig[base + c.u(n, D.omega - 1)] = (uint8_t)c.u(1, 255); }
		else
		{
			// the same hint once more, with the counters raised to match: the hint vector stays the same
			size_t i = c.u(0, D.K - 1), lo = i ? sig[base + D.omega + i - 1] : 0, hi = sig[base + D.omega + i], more = c.u(1, 3); if (hi == lo || n + more > (size_t)D.omega) { c.discard(); } size_t a = c.u(lo, hi - 1); c.tag("a hint twice");
			Bytes h = ref::sub(sig, base, n); h.insert(h.begin() + a, more, h[a]); std::copy(h.begin(), h.end(), sig.begin() + base); for (size_t x = i; x < (size_t)D.K; ++x) { sig[base + D.omega + x] += (uint8_t)more; }
		}
		require(!D.verify(pk, msg, sig), "model: accepted another encoding");
	}
	refused(c, s, pk, ref::cat({ sig, msg }));
}
// no second signature by adding the group order
PROP(malleable, 1200, 60000)
{
	const SigSet& s = sigsets()[3 + c.u(0, 1)]; Honest h = honest(c, s); c.tag(s.name); c.nontrivial(); const ref::Ed& m = ref::Ed::get(); int k = (int)c.u(1, 15); ref::Int q, kk(k), S = ref::Int::le(ref::sub(h.sig, 32, 32)); BN_mul(q.v, kk.v, m.L.v, ref::Int::ctx()); BN_add(q.v, q.v, S.v); if (BN_num_bits(q.v) > 256) { c.discard(); } c.desc << s.name << " S + " << k << "L"; refused(c, s, h.pk, ref::cat({ ref::sub(h.sig, 0, 32), q.bytes(32), h.msg }));
}
