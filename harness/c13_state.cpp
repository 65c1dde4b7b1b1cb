// LIBS: -lcrypto
// C13: a stream cipher restored from its serialised state goes on as the original does
#include "stream.h"
using namespace Cipher::Stream;
static SBytes save(StreamObj& S) { switch (S.k) { case S_CHACHA: return static_cast<ChaChaP20*>(S.o.get())->Serialize(); case S_CSX: return static_cast<CSX512*>(S.o.get())->Serialize(); case S_RCS: return static_cast<RCS*>(S.o.get())->Serialize(); default: return static_cast<RWS*>(S.o.get())->Serialize(); } }
static ISC* load(SK k, SBytes& s) { switch (k) { case S_CHACHA: return new ChaChaP20(s); case S_CSX: return new CSX512(s); case S_RCS: return new RCS(s); default: return new RWS(s); } }
PROP(resume, 20000, 800000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2, 6 }); StreamObj S; S.make(c, (int)c.u(0, 3)); std::string par = set_parallel(c, *S.o); c.desc << S.name() << " " << par;
	Bytes key = c.bytes(S.keylen(c)), iv = S.nonce(c), info = S.info(c); StreamModel M(S.k, S.auth, key, iv, info);
	if (c.chance(1, 4)) { auto k2 = mkkey(c, c.bytes(S.keylen(c)), S.nonce(c), S.info(c)); S->Initialize(true, *k2); }
	int n = 1 + (int)c.u(0, 3), cut = (int)c.u(0, n - 1); std::vector<StreamMsg> ms; StreamModel F(S.k, S.auth, key, iv, info); std::vector<Bytes> alt(n); // F: the authenticator starts afresh where the state is restored
	for (int i = 0; i < n; ++i) { if (i == cut) { F.ctr = M.ctr; F.n = M.n; } ms.push_back(stream_msg(c, S, M, 3000, { S.unit(), 8 * S.unit() })); if (i >= cut) { alt[i] = F.seal(ms[i].aad, ms[i].pt); } }
	bool enc = c.flip(); auto kp = mkkey(c, key, iv, info); S->Initialize(enc, *kp); c.desc << " key " << key.size() << " info " << info.size() << (enc ? " enc " : " dec ") << cut << "/" << n; c.nontrivial(cut > 0 || ms[cut].pt.size() > S.unit());
	for (int i = 0; i < cut; ++i) { S.run(c, enc, ms[i], "before the state is saved"); }
	SBytes st = save(S); c.tag(cut ? "after some messages" : "before the first message");
	if (c.flip()) { S.o.reset(); } // the saved state must not depend on the object
	StreamObj R; R.k = S.k; R.auth = S.auth; R.o.reset(load(S.k, st)); std::string rp = set_parallel(c, *R.o); c.desc << " restored " << rp;
	if (c.flip()) { SBytes s2 = save(R); require(s2 == st, S.name() + ": the state of the restored object differs from the saved one"); }
	require(R->IsInitialized() && R->IsEncryption() == enc && R->IsAuthenticator() == S.auth, S.name() + ": flags of the restored object"); require_eq(R->Nonce(), S.o ? S->Nonce() : R->Nonce(), S.name() + ": Nonce() of the restored object");
	require(R->Name() == M.name, S.name() + ": Name() of the restored object is " + R->Name());
	size_t T = S.auth ? M.taglen : 0; require(R->TagSize() == T, S.name() + ": TagSize() of the restored object");
	std::string w = S.name() + (enc ? " encrypting" : " decrypting") + " after restoring behind message " + std::to_string(cut);
	bool fresh = false;
	for (int i = cut; i < n; ++i)
	{
		const StreamMsg& m = ms[i];
		if (!S.auth || cut == 0) { R.run(c, enc, m, w); continue; }
		// the sponge of the authenticator is not part of the state (known finding): the tag is then that of a fresh sponge
		for (auto& a : m.aad) { R.aad(c, a); }
		if (enc) { Bytes o(m.ct.size()); R->Transform(m.pt, 0, o, 0, m.pt.size()); if (i == cut) { fresh = o != m.ct; } require_eq(o, fresh ? alt[i] : m.ct, w); }
		else
		{
			Bytes o(m.pt.size()); std::string e = thrown([&] { R->Transform(fresh ? alt[i] : m.ct, 0, o, 0, m.pt.size()); });
			if (!e.empty() && i == cut) { fresh = true; R.o.reset(load(S.k, st)); for (auto& a : m.aad) { R.aad(c, a); } e = thrown([&] { R->Transform(alt[i], 0, o, 0, m.pt.size()); }); }
			require(e.empty(), w + ": " + e); require_eq(o, m.pt, w);
		}
	}
	if (c.flip()) { auto k3 = mkkey(c, key, iv, info); StreamModel M3(S.k, S.auth, key, iv, info); StreamMsg m = stream_msg(c, R, M3, 500, { S.unit() }); R->Initialize(true, *k3); R.run(c, true, m, "keyed again after restoring"); }
	require(!fresh, w + ": the tag does not cover the messages before the state was saved", "restored-tag");
}
// far into a stream, where no test gets by processing: the position in the saved state is moved
static bool move_field(Bytes& st, const Bytes& from, const Bytes& to) { if (from[0] == 0) { return false; } auto it = std::find_end(st.begin(), st.end(), from.begin(), from.end()); if (it == st.end()) { return false; } std::copy(to.begin(), to.end(), it); return true; }
PROP(far, 12000, 400000)
{
	StreamObj S; S.make(c, (int)c.u(0, 3)); Bytes key = c.bytes(S.keylen(c)), iv = S.nonce(c), info = S.info(c); StreamModel M(S.k, S.auth, key, iv, info); bool enc = c.flip(); auto kp = mkkey(c, key, iv, info); S->Initialize(enc, *kp); c.desc << S.name() << " key " << key.size() << (enc ? " enc" : " dec");
	StreamMsg a; a.pt = c.bytes(c.u(2, 400)); a.ct = M.seal({}, a.pt); S.run(c, enc, a, "before the state is saved"); Bytes st = unsec(save(S));
	StreamModel F(S.k, S.auth, key, iv, info); F.ctr = M.ctr; F.n = M.n; bool moved = false;
	if (c.chance(3, 4)) { Bytes to = c.random_bytes(M.ctr.size()); if (c.flip()) { for (size_t i = 0, e = c.u(1, std::min<size_t>(16, to.size())); i < e; ++i) { to[i] = 0xFF; } to[0] -= (uint8_t)c.u(0, 20); } if (move_field(st, M.ctr, to)) { M.ctr = F.ctr = to; moved = true; c.tag("another block"); } }
	if (S.auth && c.chance(3, 4)) { uint64_t n = c.pick<uint64_t>({ 1ull << 32, ~0ull, 1ull << 31, 1ull << 63, 1ull << 16, 1ull << 48 }) - c.u(0, 300) + (c.flip() ? c.u(0, ~0ull) : 0); if (move_field(st, le64b(M.n), le64b(n))) { M.n = F.n = n; moved = true; c.tag("another length"); } }
	if (!moved) { c.discard(); }
	SBytes s = sec(st); StreamObj R; R.k = S.k; R.auth = S.auth; R.o.reset(load(S.k, s)); std::string w = S.name() + (enc ? " encrypting" : " decrypting") + " from a state moved ahead"; require(save(R) == s, w + ": the state of the restored object differs from the saved one"); std::string par = set_parallel(c, *R.o); c.desc << " restored " << par; c.nontrivial();
	// a restored authenticator starts afresh (known finding), one that does not is right too
	for (int i = 0, n = (int)c.u(1, 3); i < n; ++i)
	{
		StreamMsg m; m.pt = c.bytes(c.len(3000, { S.unit(), 8 * S.unit() })); m.ct = F.seal({}, m.pt); Bytes other = M.seal({}, m.pt);
		if (enc) { Bytes o(m.ct.size()); R->Transform(m.pt, 0, o, 0, m.pt.size()); require(ref::sub(o, 0, m.pt.size()) == ref::sub(m.ct, 0, m.pt.size()), w + fmt(": message %d of %zu bytes: another key stream", i, m.pt.size())); require(o == m.ct || o == other, w + fmt(": message %d of %zu bytes: another tag", i, m.pt.size())); }
		else { Bytes o(m.pt.size()); std::string e = thrown([&] { R->Transform(m.ct, 0, o, 0, m.pt.size()); }); if (!e.empty() && S.auth) { return; } require(e.empty(), w + ": " + e); require_eq(o, m.pt, w); }
	}
}
// damaged states: refused, or an object that works on its own memory only
PROP(damaged, 20000, 800000)
{
	StreamObj S; S.make(c, (int)c.u(0, 3)); auto kp = mkkey(c, c.bytes(S.keylen(c)), S.nonce(c), S.info(c)); S->Initialize(c.flip(), *kp); c.desc << S.name();
	Bytes st = unsec(save(S)); size_t n0 = st.size();
	switch (c.u(0, 4))
	{
	case 0: st.resize(c.u(0, n0)); c.tag("cut"); break;
	case 1: { Bytes a = c.bytes(c.u(1, 200)); st.insert(st.end(), a.begin(), a.end()); c.tag("extended"); break; }
	case 2: { size_t i = c.u(0, n0 - 1); st[i] ^= (uint8_t)c.u(1, 255); c.tag("byte"); break; }
	case 3: for (size_t i = 0, k = c.u(1, 8); i < k; ++i) { st[c.u(0, n0 - 1)] = (uint8_t)c.u(0, 255); } c.tag("bytes"); break;
	default: st = c.bytes(c.u(0, 3000)); c.tag("arbitrary bytes");
	}
	c.nontrivial(); c.desc << " state of " << n0 << " now " << st.size(); SBytes s = sec(st); std::unique_ptr<ISC> r;
	std::string e = thrown([&] { r.reset(load(S.k, s)); }); c.tag(e.empty() ? "accepted" : "refused"); if (!e.empty()) { return; }
	require(!(st.size() < n0 - 40), S.name() + ": a state cut from " + std::to_string(n0) + " to " + std::to_string(st.size()) + " bytes was accepted"); // shorter Custom or Name fields could explain a small difference
	Bytes in(300 + 128, 0x11), o(300 + 128); thrown([&] { r->Name(); r->Nonce(); if (r->IsInitialized()) { r->TagSize(); r->Transform(in, 0, o, 0, 300); } });
}
