// C06: unauthenticated cipher modes
// LIBS: -lcrypto
#include "modes.h"
#include "CipherModeFromName.h"
#include "ECB.h"
#include "CBC.h"
#include "CFB.h"
#include "OFB.h"
#include "CTR.h"
#include "ICM.h"
using namespace CEX;
using namespace CEX::Enumeration;
namespace MD = CEX::Cipher::Block::Mode;
typedef MD::ICipherMode IM;
static const char* NM[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM" };
static const CipherModes EN[] = { CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };

static IM* make(pbt::Case& c, ModeKind k, BC b, size_t reg, std::unique_ptr<IBC>& own)
{
	if (k == M_CFB && reg != 16) { if (c.flip()) { return new MD::CFB(b, reg); } own.reset(Helper::BlockCipherFromName::GetInstance(b)); return new MD::CFB(own.get(), reg); }
	uint64_t how = c.u(0, 3);
	if (how == 0) { return Helper::CipherModeFromName::GetInstance(b, EN[k]); }
	if (how == 1) { switch (k) { case M_ECB: return new MD::ECB(b); case M_CBC: return new MD::CBC(b); case M_CFB: return new MD::CFB(b); case M_OFB: return new MD::OFB(b); case M_CTR: return new MD::CTR(b); default: return new MD::ICM(b); } }
	own.reset(Helper::BlockCipherFromName::GetInstance(b)); c.tag("cipher passed in");
	if (how == 2) { return Helper::CipherModeFromName::GetInstance(own.get(), EN[k]); }
	switch (k) { case M_ECB: return new MD::ECB(own.get()); case M_CBC: return new MD::CBC(own.get()); case M_CFB: return new MD::CFB(own.get()); case M_OFB: return new MD::OFB(own.get()); case M_CTR: return new MD::CTR(own.get()); default: return new MD::ICM(own.get()); }
}

PROP(mode_equals_textbook, 70000, 1500000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 4, 2, 6, 1, 3, 16, 5, 12, 32 }); vf::W->hyperthread = c.flip();
	ModeKind k = (ModeKind)c.u(0, 5); BC b = c.pick(ALL_BC); size_t reg = k == M_CFB && c.flip() ? c.u(1, 16) : 16;
	std::unique_ptr<IBC> own; std::unique_ptr<IM> m(make(c, k, b, reg, own));
	std::string nm = std::string(NM[k]) + "(" + bc_name(b) + ")" + (reg != 16 ? " register " + std::to_string(reg) : "");
	c.desc << nm << " cores " << vf::W->cores << (vf::W->hyperthread ? "ht" : ""); c.tag(NM[k]);
	require(m->Enumeral() == EN[k] && m->CipherType() == b, nm + ": wrong enumeral");
	bool par = false;
	if (k != M_OFB) { std::string d = set_parallel(c, *m, b == BC::AES); c.desc << " " << d; par = m->ParallelProfile().IsParallel(); }
	size_t pbs = par ? m->ParallelProfile().ParallelBlockSize() : 0;
	int keyings = 1 + (int)c.u(0, 1);
	for (int ki = 0; ki < keyings; ++ki)
	{
		Bytes key = c.bytes(bc_key(c, b)), info = b != BC::AES && b != BC::Serpent && c.flip() ? c.bytes(c.u(1, 40)) : Bytes();
		Bytes iv = c.bytes(k == M_ECB ? 0 : k == M_CFB && c.chance(1, 3) ? c.u(1, 16) : 16);
		// counters about to carry
		if ((k == M_CTR || k == M_ICM) && c.flip()) { int n = (int)c.u(1, 16); for (int i = 0; i < n; ++i) { iv[k == M_CTR ? 15 - i : i] = 0xFF; } iv[k == M_CTR ? 15 : 0] = (uint8_t)(0xFF - c.u(0, 40)); c.tag("carry"); }
		bool enc = c.flip();
		c.desc << "\n key " << key.size() << " iv " << iv.size() << (enc ? " enc" : " dec");
		auto kp = mkkey(c, key, iv, info);
		m->Initialize(enc, *kp);
		require(m->IsInitialized() && m->IsEncryption() == enc, nm + ": state flags");
		ModeModel mm(k, b, key, info, iv, enc, reg);
		int calls = 1 + (int)c.u(0, 4);
		for (int i = 0; i < calls; ++i)
		{
			size_t u = mm.unit(), mx = pbs && pbs < 6000 ? 4 * pbs + 200 : b == BC::AES ? 3000 : 1500;
			if (pbs > 6000 && (pbs < 100000 ? c.chance(1, 25) : c.chance(1, 2))) { mx = (pbs < 100000 ? 2 : 1) * pbs + 300; }
			size_t len = c.len(mx, { 16, 128, pbs ? pbs : 256 }) / u * u;
			bool blk = c.chance(1, 6); if (blk) { len = k == M_CFB ? reg : 16; }
			Bytes in = c.bytes(len), want = mm.next(in);
			size_t io = c.flip() ? c.u(0, 33) : 0, oo = c.flip() ? c.u(0, 33) : 0;
			c.desc << " " << len << (blk ? "b" : "") << "@" << io << ">" << oo;
			std::string what = nm + (enc ? " encrypt " : " decrypt ") + std::to_string(len) + " bytes";
			Bytes I(io, 0x99); I.insert(I.end(), in.begin(), in.end()); I.resize(I.size() + c.u(0, 9), 0x99); Bytes I0 = I;
			pbt::Guarded g(oo, len, c.u(0, 17), 0xC7);
			if (blk && io == 0 && oo == 0 && c.flip()) { Bytes o(len); if (enc) { m->EncryptBlock(in, o); } else { m->DecryptBlock(in, o); } require_eq(o, want, what + " (block)"); continue; }
			if (blk) { if (enc) { m->EncryptBlock(I, io, g.b, oo); } else { m->DecryptBlock(I, io, g.b, oo); } } else { m->Transform(I, io, g.b, oo, len); }
			require_eq(g.out(), want, what); g.check(what); require(I == I0, what + ": the input was changed");
			c.nontrivial(len > 16);
			if (pbs && len >= pbs) { c.tag("parallel path"); }
		}
	}
}
// for any machine an object works with its default profile
PROP(default_profile_works, 3000, 30000)
{
	vf::W->cores = (unsigned)c.u(1, 128); vf::W->hyperthread = c.flip();
	ModeKind k = c.pick({ M_ECB, M_CBC, M_CFB, M_CTR, M_ICM }); BC b = c.pick({ BC::AES, BC::Serpent });
	c.desc << NM[k] << " " << bc_name(b) << " cores " << vf::W->cores << (vf::W->hyperthread ? "ht" : "");
	std::unique_ptr<IBC> own; std::unique_ptr<IM> m(make(c, k, b, 16, own));
	Bytes key = c.bytes(32), iv = c.bytes(k == M_ECB ? 0 : 16); bool enc = c.flip();
	auto kp = mkkey(c, key, iv, {}); m->Initialize(enc, *kp);
	size_t pbs = m->ParallelProfile().ParallelBlockSize();
	c.desc << " block " << pbs;
	size_t len = std::min<size_t>(b == BC::AES ? 100000 : 4000, c.flip() ? pbs : c.len(3000, { 16, 128 })) / 16 * 16;
	ModeModel mm(k, b, key, {}, iv, enc); Bytes in = c.random_bytes(len), o(len);
	m->Transform(in, 0, o, 0, len); c.nontrivial(len > 16);
	require_eq(o, mm.next(in), std::string(NM[k]) + " with the default profile on " + std::to_string(vf::W->cores) + " cores");
}
