// LIBS: -lcrypto
// C09: authenticated block cipher modes compute GCM and HBA for every history
#include "aead.h"
PROP(aead, 40000, 1500000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 1, 2, 4, 6, 16, 3 });
	Aead A; A.make(c); c.desc << A.name << " cores " << vf::W->cores << (A.lent ? " (cipher passed in)" : "");
	require(A.m->Name() == A.name, "Name of " + A.name + " is " + A.m->Name());
	for (int s = 0, ns = 1 + (int)c.u(0, 2); s < ns; ++s) // keyings of one object
	{
		std::string par = set_parallel(c, *A.m); size_t pbs = A.m->ParallelProfile().IsParallel() ? A.m->ParallelProfile().ParallelBlockSize() : 0;
		size_t kl = A.keylen(c); Bytes key = c.bytes(kl), iv = c.bytes(A.noncelen(c)), info = c.flip() ? c.bytes(c.u(4, 16)) : Bytes();
		if (c.chance(1, 4)) { for (size_t i = 0, w = c.u(1, 8); i < w; ++i) { iv[A.gcm ? iv.size() - 1 - i : i] = 0xFF; } c.tag("counter carries"); }
		if (A.gcm && A.bc == BC::AES && iv.size() != 12) { c.tag("hashed nonce"); }
		if (A.gcm && iv.size() == 16 && c.flip()) { iv = gcm_nonce(bc_fn(A.bc, key, info, true), c.bytes(12), (uint32_t)0 - (uint32_t)c.u(1, 60)); c.tag("32-bit counter wraps"); }
		auto kp = mkkey(c, key, iv, info); auto model = A.model(key, iv, info);
		c.desc << "\n init key " << kl << " nonce " << iv.size() << " info " << info.size() << " " << par;
		if (c.chance(1, 6)) { auto k2 = mkkey(c, c.bytes(A.keylen(c)), c.bytes(A.noncelen(c)), {}); A.m->Initialize(c.flip(), *k2); if (c.flip()) { A.aad(c, c.bytes(c.u(1, 40))); } c.desc << " after an unused initialisation"; c.tag("initialised twice"); }
		A.m->Initialize(true, *kp); require(A.m->IsInitialized() && A.m->IsEncryption() && A.m->TagSize() == A.tag(), A.name + ": initialised state");
		std::vector<AeadMsg> ms;
		auto run = [&](bool enc, AeadMsg& m, size_t i)
		{
			std::string what = A.name + (enc ? " encrypting" : " decrypting") + " message " + std::to_string(i) + " of " + std::to_string(m.pt.size()) + " bytes, key " + std::to_string(kl) + ", " + par;
			if (m.ad) { A.aad(c, m.aad); }
			const Bytes& in = enc ? m.pt : m.ct; const Bytes& want = enc ? m.ct : m.pt;
			size_t io = c.flip() ? c.u(0, 40) : 0, oo = c.flip() ? c.u(0, 40) : 0, ob = c.flip() ? c.u(0, 40) : 0; c.desc << " in " << io << " out " << oo;
			Bytes I(io, 0x31); I.insert(I.end(), in.begin(), in.end()); I.resize(I.size() + c.u(0, 3), 0x32); Bytes I0 = I; pbt::Guarded o(oo, want.size(), ob, 0x5A);
			A.m->Transform(I, io, o.b, oo, m.pt.size());
			require_eq(o.out(), want, what); o.check(what); require(I == I0, what + ": the input was changed");
			require_eq(A.m->Tag(), ref::sub(m.ct, m.pt.size(), A.tag()), what + ": Tag()"); SBytes st(A.tag()); A.m->Tag(st); require_eq(unsec(st), A.m->Tag(), what + ": Tag(SecureVector)");
		};
		int n = A.gcm ? 1 : 1 + (int)c.u(0, 3);
		for (int i = 0; i < n; ++i)
		{
			AeadMsg m; m.ad = c.flip(); if (m.ad) { m.aad = c.bytes(c.len(300, { 16, 128 })); }
			m.pt = c.bytes(c.len(pbs ? std::min<size_t>(pbs * 4, 16000) : 1500, { 16, 128, pbs ? pbs : 64 })); m.ct = model->seal(m.ad ? &m.aad : nullptr, m.pt);
			c.desc << "\n  aad " << (m.ad ? (int)m.aad.size() : -1) << " len " << m.pt.size(); c.nontrivial(m.pt.size() > 16 || i > 0); if (pbs && m.pt.size() >= pbs) { c.tag("parallel path"); } if (i) { c.tag("later message of a session"); }
			run(true, m, i); ms.push_back(m);
		}
		if (A.gcm && c.chance(1, 3)) // a new nonce for the stored key
		{
			Bytes n2 = c.bytes(A.noncelen(c)); if (n2 == iv || n2 == Bytes(n2.size())) { n2[0] ^= 0x55; n2[1] |= 1; }
			c.desc << "\n nonce only " << n2.size(); c.tag("nonce only"); Cipher::SymmetricKey k2(Bytes(), n2);
			if (c.flip()) { Cipher::SymmetricKey again(Bytes(), iv); require(throws([&] { A.m->Initialize(true, again); }), A.name + ": a repeated nonce was accepted"); }
			A.m->Initialize(true, k2); auto m2 = A.model(key, n2, info); AeadMsg m; m.ad = c.flip(); if (m.ad) { m.aad = c.bytes(c.len(100, { 16 })); } m.pt = c.bytes(c.len(600, { 16, 128 })); m.ct = m2->seal(m.ad ? &m.aad : nullptr, m.pt);
			run(true, m, 100);
			if (c.flip()) { Cipher::SymmetricKey k3(key, n2, info); A.m->Initialize(false, k3); run(false, m, 101); }
		}
		if (c.flip()) { A.rebuild(c); par = set_parallel(c, *A.m); c.desc << "\n new object " << par; }
		A.m->Initialize(false, *kp); require(A.m->IsInitialized() && !A.m->IsEncryption(), A.name + ": initialised state");
		for (size_t i = 0; i < ms.size(); ++i) { c.desc << "\n  decrypt"; run(false, ms[i], i); }
	}
}
// the tag of GCM from OpenSSL itself
PROP(gcm_openssl, 20000, 800000)
{
	Bytes key = c.bytes(c.pick<size_t>({ 16, 24, 32 })), iv = c.bytes(12 + (c.flip() ? c.u(0, 60) : 0)), aad = c.bytes(c.len(400, { 16 })), pt = c.bytes(c.len(3000, { 16, 128 }));
	if (c.chance(1, 4)) { iv = gcm_nonce(bc_fn(BC::AES, key, {}, true), c.bytes(12), (uint32_t)0 - (uint32_t)c.u(1, 200)); c.tag("32-bit counter wraps"); }
	c.desc << "key " << key.size() << " nonce " << iv.size() << " aad " << aad.size() << " len " << pt.size(); c.nontrivial(pt.size() > 16);
	EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes want(pt.size() + 16); int n = 0;
	EVP_EncryptInit_ex(x, key.size() == 16 ? EVP_aes_128_gcm() : key.size() == 24 ? EVP_aes_192_gcm() : EVP_aes_256_gcm(), nullptr, nullptr, nullptr);
	EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr); EVP_EncryptInit_ex(x, nullptr, nullptr, key.data(), iv.data());
	if (aad.size()) { EVP_EncryptUpdate(x, nullptr, &n, aad.data(), (int)aad.size()); } if (pt.size()) { EVP_EncryptUpdate(x, want.data(), &n, pt.data(), (int)pt.size()); }
	EVP_EncryptFinal_ex(x, want.data() + pt.size(), &n); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, want.data() + pt.size()); EVP_CIPHER_CTX_free(x);
	Cipher::Block::Mode::GCM g(BC::AES); auto kp = mkkey(c, key, iv, {}); g.Initialize(true, *kp); if (aad.size() || c.flip()) { g.SetAssociatedData(aad, 0, aad.size()); }
	Bytes got(pt.size() + 16); g.Transform(pt, 0, got, 0, pt.size()); require_eq(got, want, "AES-GCM against OpenSSL");
	g.Initialize(false, *kp); if (aad.size()) { g.SetAssociatedData(aad, 0, aad.size()); } Bytes back(pt.size()); g.Transform(want, 0, back, 0, pt.size()); require_eq(back, pt, "AES-GCM decryption of OpenSSL's message");
}
