// models of the cipher modes over a block function, keeping the state a mode object keeps between calls
#pragma once
#include "cexutil.h"
#include "cipherref.h"
#include "BlockCipherFromName.h"
#include "BlockCiphers.h"
typedef CEX::Enumeration::BlockCiphers BC;
typedef CEX::Cipher::Block::IBlockCipher IBC;
static const std::vector<BC> ALL_BC = { BC::AES, BC::AES, BC::AES, BC::AES, BC::Serpent, BC::RHXH256, BC::RHXH512, BC::RHXS256, BC::RHXS512, BC::SHXH256, BC::SHXH512, BC::SHXS256, BC::SHXS512 };
inline std::string bc_name(BC b) { return CEX::Enumeration::BlockCipherConvert::ToName(b); }
inline size_t bc_key(pbt::Case& c, BC b) { return b == BC::AES ? c.pick<size_t>({ 32, 16, 24 }) : b == BC::Serpent ? c.pick<size_t>({ 32, 16, 24, 64 }) : c.pick<size_t>({ 32, 64, 128 }); }
// AES from OpenSSL; the others from the library's single block transform, which C05 checks
inline ref::Blk bc_fn(BC b, const Bytes& k, const Bytes& info, bool enc)
{
	if (b == BC::AES) { ref::OsslAes a(k); return [a, enc](const Bytes& x) { return enc ? a.enc(x) : a.dec(x); }; }
	std::shared_ptr<IBC> p(CEX::Helper::BlockCipherFromName::GetInstance(b)); CEX::Cipher::SymmetricKey kp(k, Bytes(), info); p->Initialize(enc, kp);
	return [p, enc](const Bytes& x) { Bytes o(x.size()); if (enc) { p->EncryptBlock(x, o); } else { p->DecryptBlock(x, o); } return o; };
}
enum ModeKind { M_ECB, M_CBC, M_CFB, M_OFB, M_CTR, M_ICM };
struct ModeModel
{
	ModeKind k; bool enc; size_t r; ref::Blk E, D; Bytes s;
	ModeModel() {}
	ModeModel(ModeKind kind, BC b, const Bytes& key, const Bytes& info, const Bytes& iv, bool e, size_t reg = 16) : k(kind), enc(e), r(reg), s(iv)
	{
		if (k == M_CFB && s.size() < 16) { s.insert(s.begin(), 16 - s.size(), 0); }
		bool inv = (k == M_ECB || k == M_CBC) && !enc;
		(inv ? D : E) = bc_fn(b, key, info, !inv);
	}
	size_t unit() const { return k == M_CFB ? r : k == M_CTR || k == M_ICM ? 1 : 16; }
	Bytes next(const Bytes& m)
	{
		Bytes o(m);
		switch (k)
		{
		case M_ECB: case M_CBC: case M_OFB:
			for (size_t p = 0; p < m.size(); p += 16)
			{
				Bytes x = ref::sub(m, p, 16), y;
				if (k == M_ECB) { y = enc ? E(x) : D(x); }
				else if (k == M_OFB) { s = E(s); y = ref::xorb(x, s); }
				else if (enc) { y = s = E(ref::xorb(x, s)); }
				else { y = ref::xorb(D(x), s); s = x; }
				memcpy(&o[p], y.data(), 16);
			}
			break;
		case M_CFB:
			for (size_t p = 0; p < m.size(); p += r)
			{
				Bytes t = E(s); for (size_t i = 0; i < r; ++i) { o[p + i] = m[p + i] ^ t[i]; }
				s.erase(s.begin(), s.begin() + r); const Bytes& ct = enc ? o : m; s.insert(s.end(), ct.begin() + p, ct.begin() + p + r);
			}
			break;
		default: // a call always starts with a new counter block
			for (size_t p = 0; p < m.size(); p += 16)
			{
				Bytes t = E(s); for (size_t i = 0; i < 16 && p + i < m.size(); ++i) { o[p + i] ^= t[i]; }
				if (k == M_CTR) { for (int i = 15; i >= 0 && ++s[i] == 0; --i) {} } else { for (int i = 0; i < 16 && ++s[i] == 0; ++i) {} }
			}
		}
		return o;
	}
};
// a parallel configuration; returns a description
template<typename T> std::string set_parallel(pbt::Case& c, T& m, bool big = false)
{
	auto& p = m.ParallelProfile(); std::string d;
	switch (c.u(0, 5))
	{
	case 0: p.IsParallel() = false; return "sequential";
	case 1: return "default profile";
	default: break;
	}
	size_t cnt = p.ProcessorCount(); if (cnt > 1 && cnt % 2) { --cnt; }
	if (cnt >= 2 && c.flip()) { size_t n = 2 * c.u(1, cnt / 2); m.ParallelMaxDegree(n); d += "degree " + std::to_string(n) + " "; }
	size_t bs = p.ParallelMinimumSize() * c.u(1, 4); if (c.chance(1, 4)) { bs += c.u(0, p.ParallelMinimumSize() - 1); }
	if (big && c.chance(1, 60)) { bs = p.ParallelMinimumSize() * c.u(1, 4000000 / p.ParallelMinimumSize()); c.tag("block of megabytes"); }
	p.SetBlockSize(bs); d += "block " + std::to_string(p.ParallelBlockSize());
	return d;
}
