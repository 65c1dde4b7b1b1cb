// C05: block ciphers
// LIBS: -lcrypto
#include "pbt.h"
#include "cexutil.h"
#include "cipherref.h"
#include "RHX.h"
#include "SHX.h"
#include "BlockCipherFromName.h"
#include "KdfFromName.h"
using namespace CEX;
using namespace CEX::Enumeration;
typedef Cipher::Block::IBlockCipher IBC;

static IBC* make(pbt::Case& c, bool srp, int ext, std::unique_ptr<Kdf::IKdf>& own)
{
	static const BlockCipherExtensions X[5] = { BlockCipherExtensions::None, BlockCipherExtensions::HKDF256, BlockCipherExtensions::HKDF512, BlockCipherExtensions::SHAKE256, BlockCipherExtensions::SHAKE512 };
	static const BlockCiphers A[5] = { BlockCiphers::AES, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512 }, S[5] = { BlockCiphers::Serpent, BlockCiphers::SHXH256, BlockCiphers::SHXH512, BlockCiphers::SHXS256, BlockCiphers::SHXS512 };
	uint64_t how = c.u(0, 2);
	if (how == 0) { return srp ? (IBC*)new Cipher::Block::SHX(X[ext]) : (IBC*)new Cipher::Block::RHX(X[ext]); }
	if (how == 1) { return Helper::BlockCipherFromName::GetInstance((srp ? S : A)[ext]); }
	if (ext) { own.reset(Helper::KdfFromName::GetInstance(X[ext])); c.tag("kdf instance passed in"); }
	return srp ? (IBC*)new Cipher::Block::SHX(own.get()) : (IBC*)new Cipher::Block::RHX(own.get());
}

PROP(block_cipher_equals_reference, 40000, 800000)
{
	bool srp = c.flip(); int ext = c.chance(3, 5) ? (int)c.u(1, 4) : 0;
	std::unique_ptr<Kdf::IKdf> own; std::unique_ptr<IBC> b(make(c, srp, ext, own));
	std::string nm = std::string(srp ? "Serpent" : "AES") + (ext ? " extended " + std::to_string(ext) : "");
	c.desc << nm; c.tag(nm);
	int keyings = 1 + (int)c.u(0, 2);
	for (int ki = 0; ki < keyings; ++ki)
	{
		size_t ks = ext ? c.pick<size_t>({ 32, 64, 128, 16, 24 }) : srp ? c.pick<size_t>({ 16, 24, 32, 64 }) : c.pick<size_t>({ 16, 24, 32 });
		Bytes k = c.bytes(ks), info = ext && c.flip() ? c.bytes(1 + c.len(80, { 32 })) : Bytes();
		bool enc = c.flip();
		c.desc << "\n key " << ks << " info " << info.size() << (enc ? " encrypt:" : " decrypt:");
		ref::BlockModel m(srp, ext, k, info);
		auto kp = mkkey(c, k, {}, info);
		b->Initialize(enc, *kp);
		require(b->IsInitialized() && b->IsEncryption() == enc, nm + ": state flags after Initialize");
		require(b->Rounds() == m.rounds, nm + ": Rounds() is " + std::to_string(b->Rounds()) + ", documented " + std::to_string(m.rounds));
		int ops = 1 + (int)c.u(0, 3);
		for (int o = 0; o < ops; ++o)
		{
			static const size_t W[] = { 16, 32, 64, 128, 256 };
			int w = (int)c.u(0, 4); size_t n = W[w], io = c.flip() ? c.u(0, 33) : 0, oo = c.flip() ? c.u(0, 33) : 0; bool inplace = c.chance(1, 4);
			Bytes in = c.bytes(n); Bytes want;
			for (size_t p = 0; p < n; p += 16) { Bytes x = ref::sub(in, p, 16); x = enc ? m.enc(x) : m.dec(x); want.insert(want.end(), x.begin(), x.end()); }
			std::string what = nm + (enc ? " encrypt " : " decrypt ") + std::to_string(8 * n) + " bits";
			c.desc << " " << 8 * n << (inplace ? "i" : "") << "@" << io << ">" << oo;
			c.nontrivial(n > 16 || ext || ki);
			if (w == 0 && !inplace && c.chance(1, 3))
			{
				Bytes out(16); if (c.flip()) { b->Transform(in, out); } else if (enc) { b->EncryptBlock(in, out); } else { b->DecryptBlock(in, out); }
				require_eq(out, want, what); continue;
			}
			auto call = [&](const Bytes& I, size_t i, Bytes& O, size_t j) {
				switch (w) { case 0: if (c.flip()) { b->Transform(I, i, O, j); } else if (enc) { b->EncryptBlock(I, i, O, j); } else { b->DecryptBlock(I, i, O, j); } break; case 1: b->Transform256(I, i, O, j); break; case 2: b->Transform512(I, i, O, j); break; case 3: b->Transform1024(I, i, O, j); break; default: b->Transform2048(I, i, O, j); } };
			Bytes I(io, 0x99); I.insert(I.end(), in.begin(), in.end()); I.resize(I.size() + c.u(0, 9), 0x99);
			if (inplace) { call(I, io, I, io); require_eq(ref::sub(I, io, n), want, what + " in place"); }
			else { pbt::Guarded g(oo, n, c.u(0, 17), 0xC7); Bytes I0 = I; call(I, io, g.b, oo); require_eq(g.out(), want, what); g.check(what); require(I == I0, what + ": the input was changed"); }
		}
	}
}

PROP(rejects_undocumented_keys, 4000, 40000)
{
	bool srp = c.flip(); int ext = (int)c.u(0, 4);
	std::unique_ptr<Kdf::IKdf> own; std::unique_ptr<IBC> b(make(c, srp, ext, own));
	size_t ks = c.chance(1, 2) ? c.pick<size_t>({ 4, 8, 15, 17, 20, 23, 25, 31, 33, 48, 63, 65, 96, 127, 129, 256 }) : c.u(4, 200);
	bool legal = ks == 16 || ks == 24 || ks == 32 || (ks == 64 && (ext || srp)) || (ks == 128 && ext);
	Bytes k = c.bytes(ks); c.desc << (srp ? "Serpent " : "AES ") << ext << " key " << ks; c.nontrivial(ks > 16);
	bool t = throws([&]() { Cipher::SymmetricKey kp(k); b->Initialize(c.flip(), kp); });
	require(t == !legal, std::string(legal ? "a documented key size is refused" : "an undocumented key size is accepted"));
	if (!legal) { require(!b->IsInitialized(), "initialised after a refused key"); }
}

PROP(model_selftest, 2000, 20000)
{
	// the AES rounds of the model against OpenSSL, through the standard schedule; and inverses of the models
	Bytes k = c.bytes(c.pick<size_t>({ 16, 24, 32 })), b = c.bytes(16); size_t nk = k.size() / 4, R = nk + 6;
	Bytes w = k; uint8_t rc = 1; const auto& T = ref::aestab();
	for (size_t i = nk; i < 4 * (R + 1); ++i) { Bytes t = ref::sub(w, 4 * (i - 1), 4); if (i % nk == 0) { Bytes u = { T.s[t[1]], T.s[t[2]], T.s[t[3]], T.s[t[0]] }; u[0] ^= rc; rc = ref::gmul8(rc, 2); t = u; } else if (nk > 6 && i % nk == 4) { for (auto& x : t) { x = T.s[x]; } } for (int j = 0; j < 4; ++j) { w.push_back(w[4 * (i - nk) + j] ^ t[j]); } }
	require_eq(ref::aes_enc(w, b), ref::OsslAes(k).enc(b), "model aes against openssl");
	require_eq(ref::aes_dec(w, ref::aes_enc(w, b)), b, "model aes inverse");
	ref::W32 s = ref::srp_schedule(k); require_eq(ref::srp_dec(s, ref::srp_enc(s, b)), b, "model serpent inverse"); c.nontrivial();
}
