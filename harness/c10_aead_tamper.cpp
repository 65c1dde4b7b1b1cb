// LIBS: -lcrypto
// C10: authenticated modes reject every altered message, and release nothing of it
#include "aead.h"
#include "CryptoAuthenticationFailure.h"
static Bytes alter(pbt::Case& c, const Bytes& b, std::string& how)
{
	Bytes r(b);
	switch (b.empty() ? 5 : c.u(0, 5))
	{
	case 0: { size_t i = c.u(0, b.size() * 8 - 1); r[i / 8] ^= 1 << (i % 8); how = "bit " + std::to_string(i); break; }
	case 1: { size_t i = c.u(0, b.size() - 1); r[i] ^= (uint8_t)c.u(1, 255); how = "byte " + std::to_string(i); break; }
	case 2: { size_t i = c.u(0, b.size() - 1), j = c.u(0, b.size() - 1); std::swap(r[i], r[j]); how = "swap " + std::to_string(i) + " " + std::to_string(j); break; }
	case 3: { size_t i = c.u(0, b.size() - 1), n = c.u(1, b.size() - i); uint8_t v = (uint8_t)c.u(1, 255); for (size_t j = i; j < i + n; ++j) { r[j] ^= v; } how = "xor a range"; break; }
	case 4: r.pop_back(); how = "cut"; break;
	default: r.push_back((uint8_t)c.u(0, 255)); how = "append";
	}
	if (r == b) { c.discard(); }
	return r;
}
PROP(aead_tamper, 60000, 2000000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2 }); Aead A; A.make(c); c.desc << A.name;
	Bytes key = c.bytes(A.keylen(c)), iv = c.bytes(A.noncelen(c)), info = c.chance(1, 3) ? c.bytes(c.u(4, 16)) : Bytes(); auto model = A.model(key, iv, info);
	int n = A.gcm ? 1 : 1 + (int)c.u(0, 2), bad = (int)c.u(0, n - 1); std::vector<AeadMsg> ms;
	for (int i = 0; i < n; ++i) { AeadMsg m; m.ad = c.flip(); if (m.ad) { m.aad = c.bytes(1 + c.len(100, { 16 })); } m.pt = c.bytes(c.len(400, { 16, 128 })); m.ct = model->seal(m.ad ? &m.aad : nullptr, m.pt); ms.push_back(m); }
	bool real = c.flip(); c.tag(real ? "sealed by the library" : "sealed by the model");
	if (real) // the messages from the object under test
	{
		auto kp = mkkey(c, key, iv, info); A.m->Initialize(true, *kp); for (auto& m : ms) { if (m.ad) { A.aad(c, m.aad); } Bytes o(m.ct.size()); A.m->Transform(m.pt, 0, o, 0, m.pt.size()); m.ct = o; }
		if (c.flip()) { A.rebuild(c); }
	}
	AeadMsg t = ms[bad]; Bytes key2 = key, iv2 = iv, info2 = info; std::string what, how; size_t plen = t.pt.size();
	uint64_t kind = c.u(0, 9); bool allbad = false;
	switch (kind)
	{
	case 0: case 1: if (!plen) { c.discard(); } { Bytes b = ref::sub(t.ct, 0, plen), g = ref::sub(t.ct, plen, A.tag()); b = alter(c, b, how); t.ct = ref::cat({ b, g }); plen = b.size(); } what = "ciphertext"; break;
	case 2: case 3: { Bytes b = ref::sub(t.ct, 0, plen), g = ref::sub(t.ct, plen, A.tag()); do { g = alter(c, g, how); g.resize(A.tag(), 0); } while (0); if (g == ref::sub(t.ct, plen, A.tag())) { c.discard(); } t.ct = ref::cat({ b, g }); what = "tag"; break; }
	case 4: if (t.ad) { t.aad = alter(c, t.aad, how); if (t.aad.empty()) { t.ad = c.flip(); } what = "associated data"; } else { t.ad = true; t.aad = c.bytes(c.u(1, 33)); what = "associated data added"; } break;
	case 5: if (!t.ad) { c.discard(); } t.ad = false; what = "associated data dropped"; break;
	case 6: { Bytes b = iv; do { b = alter(c, iv, how); } while (b.size() < 12); if (!A.gcm) { b.resize(16, 0); if (b == iv) { c.discard(); } } iv2 = b; what = "nonce"; allbad = true; break; }
	case 7: { key2 = alter(c, key, how); key2.resize(key.size(), 0); if (key2 == key) { c.discard(); } what = "key"; allbad = true; break; }
	case 8: if (!t.ad || t.aad.empty()) { c.discard(); } { size_t k = c.u(1, t.aad.size()); Bytes mv = ref::sub(t.aad, t.aad.size() - k, k); t.aad.resize(t.aad.size() - k); if (t.aad.empty()) { t.ad = false; } t.ct = ref::cat({ mv, t.ct }); plen += k; } what = "bytes moved from associated data to ciphertext"; break;
	default: if (A.gcm) { if (c.flip()) { if (!plen) { c.discard(); } t.ct = ref::sub(t.ct, 0, 0); size_t k = c.u(1, ms[bad].pt.size()); t.ct = ref::cat({ ref::sub(ms[bad].ct, k, ms[bad].ct.size() - k) }); plen -= k; what = "front cut"; } else { info2 = c.bytes(c.u(1, 16)); if (info2 == info || A.bc == BC::AES || A.bc == BC::Serpent) { c.discard(); } if (key.size() < 32) { c.discard(); } what = "info"; allbad = true; c.discard(); } }
		else { int o = (int)c.u(0, n - 1); if (o == bad || ms[o].ct == ms[bad].ct) { c.discard(); } t = ms[o]; plen = t.pt.size(); what = "another message of the session in its place"; }
	}
	c.tag(what); c.nontrivial(); c.desc << " key " << key.size() << " nonce " << iv.size() << " message " << bad << "/" << n << " of " << ms[bad].pt.size() << " aad " << (ms[bad].ad ? (int)ms[bad].aad.size() : -1) << ": " << what << " " << how;
	auto kp = mkkey(c, key2, iv2, info2); A.m->Initialize(false, *kp); std::string w = A.name + ": " + what + " " + how;
	for (int i = 0; i <= bad; ++i)
	{
		const AeadMsg& m = i == bad ? t : ms[i]; size_t pl = i == bad ? plen : m.pt.size(); if (m.ad) { A.aad(c, m.aad); }
		Bytes I(m.ct), o(pl, 0xA7); bool auth = false, ok = false, expect = allbad || i == bad;
		try { A.m->Transform(I, 0, o, 0, pl); ok = true; } catch (Exception::CryptoAuthenticationFailure&) { auth = true; }
		if (expect) { require(auth && !ok, w + " was accepted"); require(o == Bytes(pl, 0xA7), w + ": output was written although the authentication failed"); if (allbad) { break; } }
		else { require(ok, A.name + ": the unaltered message " + std::to_string(i) + " was refused"); require_eq(o, m.pt, A.name + ": message before the altered one"); }
	}
	if (A.gcm) { Bytes o(64); require(throws([&] { A.m->Transform(Bytes(64), 0, o, 0, 16); }), A.name + ": continues after a failed authentication"); }
	// the same object, keyed again, accepts the unaltered messages
	auto k1 = mkkey(c, key, iv, info); A.m->Initialize(false, *k1);
	for (auto& m : ms) { if (m.ad) { A.aad(c, m.aad); } Bytes o(m.pt.size()); std::string e = thrown([&] { A.m->Transform(m.ct, 0, o, 0, o.size()); }); require(e.empty(), A.name + ": an unaltered message was refused after a failure: " + e); require_eq(o, m.pt, A.name + " after a failure"); }
}
