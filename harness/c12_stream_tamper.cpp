// LIBS: -lcrypto
// C12: authenticated stream ciphers reject every altered message, and release nothing of it
#include "stream.h"
#include "CryptoAuthenticationFailure.h"
static Bytes alter(pbt::Case& c, const Bytes& b, std::string& how, bool keep)
{
	Bytes r(b);
	switch (b.empty() ? 5 : c.u(0, keep ? 3 : 5))
	{
	case 0: { size_t i = c.u(0, b.size() * 8 - 1); r[i / 8] ^= 1 << (i % 8); how = "bit " + std::to_string(i); break; }
	case 1: { size_t i = c.u(0, b.size() - 1); r[i] ^= (uint8_t)c.u(1, 255); how = "byte " + std::to_string(i); break; }
	case 2: { size_t i = c.u(0, b.size() - 1), j = c.u(0, b.size() - 1); std::swap(r[i], r[j]); how = "swap " + std::to_string(i) + " " + std::to_string(j); break; }
	case 3: { size_t i = c.u(0, b.size() - 1), n = c.u(1, b.size() - i); uint8_t v = (uint8_t)c.u(1, 255); for (size_t j = i; j < i + n; ++j) { r[j] ^= v; } how = "xor a range"; break; }
	case 4: r.pop_back(); how = "cut"; break;
	default: r.push_back((uint8_t)c.u(0, 255)); how = "append";
	}
	if (r == b) { c.discard(); }
	return r;
}
PROP(stream_tamper, 40000, 1500000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2 }); StreamObj S; S.make(c, -1, 1); c.desc << S.name();
	Bytes key = c.bytes(S.keylen(c)), iv = S.nonce(c), info = S.info(c); StreamModel M(S.k, true, key, iv, info); const size_t T = M.taglen;
	int n = 1 + (int)c.u(0, 2), bad = (int)c.u(0, n - 1); std::vector<StreamMsg> ms; for (int i = 0; i < n; ++i) { ms.push_back(stream_msg(c, S, M, 400, { S.unit(), 136 })); }
	if (c.flip()) { c.tag("sealed by the library"); auto kp = mkkey(c, key, iv, info); S->Initialize(true, *kp); for (auto& m : ms) { for (auto& a : m.aad) { S.aad(c, a); } Bytes o(m.ct.size()); S->Transform(m.pt, 0, o, 0, m.pt.size()); m.ct = o; } if (c.flip()) { S.rebuild(c); } }
	StreamMsg t = ms[bad]; Bytes key2 = key, iv2 = iv; std::string what, how, sig; size_t plen = t.pt.size(); bool allbad = false;
	auto body = [&] { return ref::sub(t.ct, 0, plen); }; auto tag = [&] { return ref::sub(t.ct, plen, T); };
	switch (c.u(0, 9))
	{
	case 0: case 1: { if (!plen) { c.discard(); } Bytes b = alter(c, body(), how, false), g = tag(); t.ct = ref::cat({ b, g }); plen = b.size(); what = "ciphertext"; break; }
	case 2: case 3: { Bytes b = body(), g = alter(c, tag(), how, true); t.ct = ref::cat({ b, g }); what = "tag"; break; }
	case 4: if (t.aad.empty()) { t.aad.push_back(c.bytes(c.u(1, 33))); what = "associated data added"; } else { size_t i = c.u(0, t.aad.size() - 1); t.aad[i] = alter(c, t.aad[i], how, false); if (t.aad[i].empty()) { t.aad.erase(t.aad.begin() + i); } what = "associated data"; } break;
	case 5: if (t.aad.empty()) { c.discard(); } t.aad.pop_back(); what = "associated data dropped"; break;
	case 6: iv2 = alter(c, iv, how, true); what = "nonce"; allbad = true; if (S.k == S_CHACHA) { sig = "chacha-nonce"; } break;
	case 7: key2 = alter(c, key, how, true); what = "key"; allbad = true; break;
	case 8: { if (t.aad.empty()) { c.discard(); } Bytes& a = t.aad.back(); size_t k = c.u(1, a.size()); Bytes mv = ref::sub(a, a.size() - k, k); a.resize(a.size() - k); if (a.empty()) { t.aad.pop_back(); } t.ct = ref::cat({ mv, t.ct }); plen += k; what = "bytes moved from associated data to ciphertext"; break; }
	default: if (n == 1) { if (!plen) { c.discard(); } size_t k = c.u(1, plen); t.ct = ref::sub(t.ct, k, t.ct.size() - k); plen -= k; what = "front cut"; } else { int o = (int)c.u(0, n - 1); if (o == bad || ms[o].ct == ms[bad].ct) { c.discard(); } t = ms[o]; plen = t.pt.size(); what = "another message of the session in its place"; }
	}
	c.tag(what); c.nontrivial(); c.desc << " key " << key.size() << " message " << bad << "/" << n << " of " << ms[bad].pt.size() << ": " << what << " " << how;
	auto kp = mkkey(c, key2, iv2, info); S->Initialize(false, *kp); std::string w = S.name() + ": " + what + " " + how;
	for (int i = 0; i <= bad; ++i)
	{
		const StreamMsg& m = i == bad ? t : ms[i]; size_t pl = i == bad ? plen : m.pt.size(); for (auto& a : m.aad) { S.aad(c, a); }
		Bytes I(m.ct), o(pl, 0xA7); bool auth = false, ok = false, expect = allbad || i == bad;
		try { S->Transform(I, 0, o, 0, pl); ok = true; } catch (Exception::CryptoAuthenticationFailure&) { auth = true; }
		if (expect) { require(auth && !ok, w + " was accepted", sig); require(o == Bytes(pl, 0xA7), w + ": output was written although the authentication failed"); if (allbad) { break; } }
		else { require(ok, S.name() + ": the unaltered message " + std::to_string(i) + " was refused"); require_eq(o, m.pt, S.name() + ": message before the altered one"); }
	}
	// the same object, keyed again, accepts the unaltered messages
	auto k1 = mkkey(c, key, iv, info); S->Initialize(false, *k1);
	for (auto& m : ms) { for (auto& a : m.aad) { S.aad(c, a); } Bytes o(m.pt.size()); std::string e = thrown([&] { S->Transform(m.ct, 0, o, 0, o.size()); }); require(e.empty(), S.name() + ": an unaltered message was refused after a failure: " + e); require_eq(o, m.pt, S.name() + " after a failure"); }
}
