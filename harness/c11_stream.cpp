// LIBS: -lcrypto
// C11: stream ciphers compute their key streams, whatever the split, the parallel profile and the history
#include "stream.h"
PROP(stream, 30000, 1200000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2, 4, 6, 16, 3 });
	StreamObj S; S.make(c); c.desc << S.name() << " cores " << vf::W->cores;
	for (int s = 0, ns = 1 + (int)c.u(0, 2); s < ns; ++s)
	{
		std::string par = set_parallel(c, *S.o, true); size_t pbs = S->ParallelProfile().IsParallel() ? S->ParallelProfile().ParallelBlockSize() : 0, pmin = S->ParallelProfile().IsParallel() ? S->ParallelProfile().ParallelMinimumSize() : 0;
		Bytes key = c.bytes(S.keylen(c)), iv = S.nonce(c), info = S.info(c); StreamModel M(S.k, S.auth, key, iv, info); auto kp = mkkey(c, key, iv, info);
		c.desc << "\n init key " << key.size() << " info " << info.size() << " " << par; std::string ctx = "key " + std::to_string(key.size()) + " info " + std::to_string(info.size()) + ", " + par + ", session " + std::to_string(s);
		if (c.chance(1, 6)) { auto k2 = mkkey(c, c.bytes(S.keylen(c)), S.nonce(c), S.info(c)); S->Initialize(c.flip(), *k2); if (S.auth && c.flip()) { S.aad(c, c.bytes(c.u(1, 40))); } c.tag("initialised twice"); }
		bool first = c.flip(); // decrypt what the model sealed before encrypting
		std::vector<StreamMsg> ms; int n = 1 + (int)c.u(0, 3);
		for (int i = 0; i < n; ++i)
		{
			size_t max = pbs ? std::min<size_t>(pbs * 3, 12000) : 1500; if (pbs > 100000 && i == 0) { max = pbs + 3000; }
			ms.push_back(stream_msg(c, S, M, max, { S.unit(), 8 * S.unit(), pbs ? pbs : 64, pmin ? pmin : 64 }));
			c.nontrivial(ms.back().pt.size() > S.unit() || i > 0); if (pmin && ms.back().pt.size() >= ((S.k == S_RCS || S.k == S_RWS) ? pbs : pmin)) { c.tag("parallel path"); } if (i) { c.tag("later message of a session"); }
			c.desc << "\n  aad " << ms.back().aad.size() << " len " << ms.back().pt.size();
		}
		for (int d = 0; d < 2; ++d)
		{
			bool enc = (d == 0) != first; S->Initialize(enc, *kp); require(S->IsInitialized() && S->IsEncryption() == enc && S->IsAuthenticator() == S.auth, S.name() + ": initialised state"); require(S->Name() == M.name, S.name() + ": Name() is " + S->Name());
			for (int i = 0; i < n; ++i) { S.run(c, enc, ms[i], "message " + std::to_string(i) + ", " + ctx); }
			require_eq(S->Nonce(), M.ctr, S.name() + ": Nonce() after " + std::to_string(n) + " messages, " + ctx);
			if (c.chance(1, 3)) { S.rebuild(c); ctx += ", new object"; par = set_parallel(c, *S.o); ctx += " " + par; c.desc << "\n new object " << par; }
		}
	}
}
// ChaCha20 from OpenSSL
PROP(chacha_openssl, 30000, 1000000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2, 6 }); StreamObj S; S.make(c, S_CHACHA, 0); std::string par = set_parallel(c, *S.o);
	Bytes key = c.bytes(32), iv = c.bytes(8), pt = c.bytes(c.len(9000, { 64, 512, 1024 })); c.desc << par << " len " << pt.size(); c.nontrivial(pt.size() > 64);
	Bytes oiv = ref::cat({ Bytes(8, 0), iv }), want(pt.size()); int n = 0; EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(x, EVP_chacha20(), nullptr, key.data(), oiv.data()); if (pt.size()) { EVP_EncryptUpdate(x, want.data(), &n, pt.data(), (int)pt.size()); } EVP_CIPHER_CTX_free(x);
	auto kp = mkkey(c, key, iv, {}); S->Initialize(c.flip(), *kp); Bytes got(pt.size()); S->Transform(pt, 0, got, 0, pt.size()); require_eq(got, want, "ChaCha20 against OpenSSL, " + par);
}
// positions far into the key stream, reached through a saved state in which the block counter is moved on
PROP(far, 6000, 250000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2, 6 }); StreamObj S; S.make(c, S_CHACHA, 0); Bytes key = c.bytes(S.keylen(c)), iv = S.nonce(c), info = S.info(c); StreamModel M(S.k, false, key, iv, info); auto kp = mkkey(c, key, iv, info); bool enc = c.flip(); S->Initialize(enc, *kp);
	auto save = [&] { return static_cast<Cipher::Stream::ChaChaP20*>(S.o.get())->Serialize(); };
	// where the counter is in the state: the byte that one block makes one
	SBytes a = save(), b; Bytes one(S.unit()), o1(S.unit()); S->Transform(one, 0, o1, 0, one.size()); b = save(); size_t at = 0, n = 0; require(a.size() == b.size(), S.name() + ": the size of the state changed"); for (size_t i = 0; i < a.size(); ++i) { if (a[i] != b[i]) { at = i; ++n; } } if (n != 1 || a[at] != 0 || b[at] != 1 || at + M.ctr.size() > a.size()) { c.discard(); }
	size_t word = M.ctr.size() / 2; Bytes ctr(M.ctr.size()); bool edge = c.chance(3, 4); for (size_t i = 0; i < word; ++i) { ctr[i] = edge ? 0xFF : (uint8_t)c.u(0, 255); ctr[word + i] = c.chance(1, 2) ? 0 : c.chance(1, 3) ? 0xFF : (uint8_t)c.u(0, 255); } if (edge) { ctr[0] = (uint8_t)(0xFF - c.u(0, 40)); c.tag("counter word wraps"); }
	for (size_t i = 0; i < ctr.size(); ++i) { b[at + i] = ctr[i]; } S.o.reset(new Cipher::Stream::ChaChaP20(b)); std::string par = set_parallel(c, *S.o); require_eq(S->Nonce(), ctr, S.name() + ": the counter of the restored object"); M.ctr = ctr; c.nontrivial();
	size_t pbs = S->ParallelProfile().IsParallel() ? S->ParallelProfile().ParallelBlockSize() : 0; c.desc << S.name() << " " << par << " counter"; for (uint8_t x : ctr) { c.desc << " " << (int)x; }
	for (int i = 0, m = 1 + (int)c.u(0, 2); i < m; ++i) { StreamMsg x = stream_msg(c, S, M, pbs ? std::min<size_t>(pbs * 3, 12000) : 4500, { S.unit(), 8 * S.unit(), 16 * S.unit(), pbs ? pbs : 64 }); c.desc << "\n len " << x.pt.size(); S.run(c, enc, x, "far into the key stream, " + par); require_eq(S->Nonce(), M.ctr, S.name() + ": Nonce() far into the key stream"); }
}
