// LIBS: -lcrypto
// C35: no one-time key of a stateful signature key is used twice
#include "sign.h"
static const std::vector<const SigSet*>& sets() { static auto v = sigsets(XMS, 1); return v; }
static uint64_t index_of(const SigSet& s, const Bytes& sig) { ref::Xmss M = xmodel(s.p); uint64_t ix = 0; for (size_t j = 0; j < M.idxn; ++j) { ix = ix << 8 | sig[j]; } return ix; }
PROP(history, 112, 20000)
{
	const SigSet& s = *sets()[c.u(0, sets().size() - 1)]; c.tag(s.name); XmssShape x = xshape(s.p); int nb = x.mt ? (x.h + 7) / 8 : 4; const SigPair kp = sigpair(s, sigseed(c, s)); std::string nm = s.name; c.desc << nm;
	uint64_t cap = 1ull << x.h, start = c.pick<uint64_t>({ 0, 0, c.u(0, cap - 1), cap - 1 - c.u(0, 6), (c.u(1, (cap >> (x.h / x.d)) - 1) << (x.h / x.d)) - c.u(0, 2), c.pick<uint64_t>({ 255, 65535, 0xFFFFFFull, 0xFFFFFFFFull }) % cap }); Bytes b = kp.sk; for (int i = 0; i < nb; ++i) { b[4 + i] = (uint8_t)(start >> (8 * (nb - 1 - i))); } c.desc << " from index " << start;
	std::unique_ptr<AsymmetricKey> sk = sigkey(c, s, b, true); DetPrng R(1), R2(2); Signer k[2] = { mksigner(s, &R), mksigner(s, &R2) }; k[0]->Initialize(sk.get()); k[1]->Initialize(sk.get());
	std::map<uint64_t, Bytes> used; Bytes sig; bool over = false; int ops = (int)c.u(2, 8);
	for (int i = 0; i < ops; ++i)
	{
		int op = (int)c.u(0, 9); CEX::Asymmetric::Sign::IAsymmetricSigner& g = *k[c.u(0, 1)];
		if (op <= 5)
		{
			Bytes m = sigmsg(c); if (c.chance(1, 3)) { sig = Bytes(c.u(0, 64), 0xFF); } bool thrown = false; size_t n = 0; try { n = g.Sign(m, sig); } catch (CEX::Exception::CryptoAsymmetricException&) { thrown = true; }
			if (thrown) { c.tag("refused, key used up"); c.desc << " refused"; require(used.empty() ? start + 2 >= cap : used.rbegin()->first + 2 >= cap, nm + ": refused to sign at index " + std::to_string(used.empty() ? start : used.rbegin()->first + 1) + " of " + std::to_string(cap)); over = true; continue; }
			require(!over, nm + ": signed again after the key had been used up"); require(n == s.sig + m.size(), nm + ": signature size"); uint64_t ix = index_of(s, sig); c.desc << " sign->" << ix; require(ix >= start && ix < cap, nm + ": index " + std::to_string(ix) + " outside of the key, that starts at " + std::to_string(start) + " of " + std::to_string(cap)); auto it = used.find(ix); require(it == used.end(), nm + ": one-time key " + std::to_string(ix) + " was used for two signatures"); used[ix] = m; if (used.size() > 1) { c.nontrivial(); }
			require(model_verify(s, kp.pk, m, ref::sub(sig, 0, s.sig)), nm + ": the signature does not verify");
		}
		else if (op == 6) { c.desc << " save"; SBytes st = AsymmetricKey::Serialize(*sk); std::unique_ptr<AsymmetricKey> q(AsymmetricKey::DeSerialize(st)); k[0]->Initialize(q.get()); k[1]->Initialize(q.get()); sk = std::move(q); c.tag("saved and reloaded"); }
		else if (op == 7) { c.desc << " rebuild"; std::unique_ptr<AsymmetricKey> q = sigkey(c, s, sk->Polynomial(), true); k[0]->Initialize(q.get()); k[1]->Initialize(q.get()); sk = std::move(q); c.tag("rebuilt from its bytes"); }
		else if (op == 8) { Bytes none, o; try { g.Sign(none, o); fail(nm + ": signed an empty message"); } catch (CEX::Exception::CryptoAsymmetricException&) {} }
		else { Signer n = mksigner(s, &R); n->Initialize(sk.get()); k[c.u(0, 1)] = std::move(n); c.tag("another signer object"); }
	}
	require(used.size() > 0 || over || ops > 0, "nothing done"); if (used.empty() && !over) { c.discard(); }
	// the key itself: nothing but the index changes
	Bytes now = sk->Polynomial(); require(ref::sub(now, 4 + nb, now.size() - 4 - nb) == ref::sub(b, 4 + nb, b.size() - 4 - nb) && ref::sub(now, 0, 4) == ref::sub(b, 0, 4), nm + ": signing changed the secrets of the key");
}
