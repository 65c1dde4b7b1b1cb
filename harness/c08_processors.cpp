// LIBS: -lcrypto
// C08: the stream processors equal the one-shot functions
#include "modes.h"
#include "digestutil.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "MemoryStream.h"
#include "FileStream.h"
#include "MacFromName.h"
#include "PaddingFromName.h"
#include "CipherModeFromName.h"
#include <unistd.h>
using namespace CEX; using namespace CEX::Enumeration; using namespace CEX::IO; using namespace CEX::Processing;
static const CipherModes EN[] = { CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };
static const char* NM[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM" };
static std::string scratch(int i) { const char* d = getenv("VF_SCRATCH"); return std::string(d ? d : "/tmp") + "/c08-" + std::to_string(getpid()) + "-" + std::to_string(i); }
static void spew(const std::string& f, const Bytes& b) { FILE* o = fopen(f.c_str(), "wb"); if (!b.empty()) { fwrite(b.data(), 1, b.size(), o); } fclose(o); }
static Bytes slurp(const std::string& f) { Bytes b; FILE* i = fopen(f.c_str(), "rb"); int ch; while ((ch = fgetc(i)) != EOF) { b.push_back((uint8_t)ch); } fclose(i); return b; }
static Bytes padded(PaddingModes m, const Bytes& in)
{
	size_t n = 16 - in.size() % 16; Bytes o(in); o.resize(in.size() + n, 0); uint8_t* p = &o[in.size()];
	for (size_t i = 0; i < n; ++i) { p[i] = m == PaddingModes::ESP ? (uint8_t)(i + 1) : m == PaddingModes::PKCS7 ? (uint8_t)n : 0; }
	if (m == PaddingModes::X923) { p[n - 1] = (uint8_t)n; }
	if (m == PaddingModes::ZeroOne) { p[0] = 0x80; }
	return o;
}
// process through the array or the stream interface; front bytes of the input are skipped, the output gets oo bytes before
static Bytes run(pbt::Case& c, CipherStream& cs, const Bytes& in, size_t room, const std::string& what)
{
	uint64_t how = c.u(0, 5); c.tag(how == 5 ? "file streams" : how >= 3 ? "memory streams" : "arrays");
	if (how <= 2)
	{
		size_t io = c.flip() ? c.u(0, 40) : 0, oo = c.flip() ? c.u(0, 40) : 0; c.desc << " array " << io << ">" << oo;
		Bytes I(io, 0x13); I.insert(I.end(), in.begin(), in.end()); Bytes I0 = I, O(oo + room, 0x57);
		cs.Write(I, io, O, oo);
		require(I == I0, what + ": the input was changed"); require(O.size() >= oo, what + ": the output was cut");
		for (size_t i = 0; i < oo; ++i) { require(O[i] == 0x57, what + ": wrote before the output offset"); }
		return Bytes(O.begin() + oo, O.end());
	}
	if (how <= 4)
	{
		size_t io = c.flip() ? c.u(0, 40) : 0, old = c.flip() ? c.u(0, in.size() + 100) : 0; c.desc << " stream " << io << " old " << old;
		Bytes I(io, 0x13); I.insert(I.end(), in.begin(), in.end()); MemoryStream is(I), os(Bytes(old, 0x44)); is.Seek(io, SeekOrigin::Begin);
		cs.Write(&is, &os);
		require(is.ToArray() == I, what + ": the input was changed"); require(os.Position() == os.Length(), what + ": output position");
		return os.ToArray();
	}
	bool old = c.flip(); c.desc << " file"; std::string f = scratch(0), g = scratch(1); spew(f, in); if (old) { spew(g, Bytes(c.u(0, in.size() + 100), 0x44)); } else { spew(g, {}); }
	{ FileStream is(f, FileStream::FileAccess::Read), os(g, FileStream::FileAccess::ReadWrite); cs.Write(&is, &os); }
	Bytes o = slurp(g); require(slurp(f) == in, what + ": the input file was changed"); unlink(f.c_str()); unlink(g.c_str()); return o;
}
PROP(cipher_stream, 9000, 200000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 4, 2, 1, 16 });
	ModeKind k = (ModeKind)c.u(0, 5); BC b = c.pick({ BC::AES, BC::AES, BC::AES, BC::Serpent, BC::RHXH256 }); bool ctr = k == M_CTR || k == M_ICM;
	PaddingModes pm = ctr ? PaddingModes::None : c.pick({ PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne });
	std::unique_ptr<Cipher::Block::Mode::ICipherMode> eng; std::unique_ptr<Cipher::Block::Padding::IPadding> pad; std::unique_ptr<CipherStream> cs;
	if (c.chance(1, 3))
	{
		eng.reset(Helper::CipherModeFromName::GetInstance(b, EN[k]));
		if (!ctr && c.flip()) { pm = PaddingModes::X923; c.tag("default padding"); } else if (!ctr) { pad.reset(Helper::PaddingFromName::GetInstance(pm)); }
		cs.reset(new CipherStream(eng.get(), pad.get())); c.tag("instances passed in");
	}
	else { cs.reset(new CipherStream(b, EN[k], pm)); }
	std::string nm = std::string(NM[k]) + "(" + bc_name(b) + ") " + PaddingModeConvert::ToName(pm); c.desc << nm << " cores " << vf::W->cores; c.tag(NM[k]);
	Bytes key = c.bytes(b == BC::RHXH256 ? 32 : c.pick({ 32, 16, 24 })), iv = c.bytes(k == M_ECB ? 0 : 16); auto kp = mkkey(c, key, iv, {});
	size_t pbs = 0;
	if (k != M_OFB)
	{
		if (c.flip()) { cs->IsParallel() = false; }
		else if (cs->ParallelProfile().IsParallel()) { size_t mn = cs->ParallelProfile().ParallelMinimumSize(); if (c.flip() && vf::W->cores >= 2) { size_t d = 2 * c.u(1, vf::W->cores / 2); cs->ParallelMaxDegree(d); c.desc << " degree " << d; mn = cs->ParallelProfile().ParallelMinimumSize(); } cs->ParallelProfile().SetBlockSize(mn * c.u(1, 3)); pbs = cs->ParallelBlockSize(); }
	}
	c.desc << " parallel block " << pbs;
	cs->Initialize(true, *kp); ModeModel mm(k, b, key, {}, iv, true);
	std::vector<Bytes> msgs, cts; int n = ctr ? 1 + (int)c.u(0, 2) : 1;
	for (int i = 0; i < n; ++i)
	{
		size_t len = 1 + c.len(pbs ? std::min<size_t>(pbs * 4, 20000) : 600, { 16, 128, pbs ? pbs : 32 }); if (c.chance(1, 3)) { len = std::max<size_t>(16, len & ~(size_t)15); }
		Bytes m = c.bytes(len); if (!ctr && c.flip()) { Bytes p = padded(pm, Bytes((size_t)c.u(0, 15), 0)); p = ref::sub(p, p.size() - 16, 16); for (size_t j = 0; j < 16 && j < len; ++j) { m[len - 1 - j] = p[15 - j]; } c.tag("message ends like a padding"); }
		std::string what = nm + " encrypting " + std::to_string(len) + " bytes"; c.desc << "\n enc " << len;
		Bytes want = mm.next(ctr ? m : padded(pm, m));
		Bytes got = run(c, *cs, m, ctr ? len : c.flip() ? len : (len + 15) / 16 * 16, what);
		require_eq(got, want, what); msgs.push_back(m); cts.push_back(got); c.nontrivial(len > 16); if (pbs && len > pbs) { c.tag("parallel path"); }
	}
	cs->Initialize(false, *kp);
	for (int i = 0; i < n; ++i) { std::string what = nm + " decrypting " + std::to_string(cts[i].size()) + " bytes"; c.desc << "\n dec"; require_eq(run(c, *cs, cts[i], c.flip() ? cts[i].size() : msgs[i].size(), what), msgs[i], what); }
	if (!ctr && c.flip()) { Bytes cut = cts[0]; cut.resize(cut.size() - 1 - c.u(0, 14)); Bytes o(cut.size() + 16); cs->Initialize(false, *kp); require(throws([&] { cs->Write(cut, 0, o, 0); }), nm + ": a cipher text that is not whole blocks was accepted"); }
	// the objects lent to the processor stay usable and are not destroyed with it
	if (eng) { cs.reset(); require(eng->Enumeral() == EN[k], "the cipher mode lent to the processor"); eng->Initialize(true, *kp); if (pad) { require(!pad->Name().empty(), "padding"); } }
}
PROP(digest_stream, 4000, 100000)
{
	vf::W->cores = (unsigned)c.pick<int>({ 8, 4, 2, 1 });
	DG d = c.pick(ALL_DIGESTS); bool par = vf::W->cores > 1 && c.chance(1, 4); c.desc << dg_name(d) << (par ? " parallel" : ""); c.tag(par ? "parallel" : "sequential");
	std::unique_ptr<Digest::IDigest> lent; std::unique_ptr<DigestStream> ds; if (c.flip()) { ds.reset(new DigestStream(d, par)); } else { lent.reset(Helper::DigestFromName::GetInstance(d, par)); ds.reset(new DigestStream(lent.get())); }
	for (int i = 0, n = 1 + (int)c.u(0, 2); i < n; ++i)
	{
		size_t len = c.len(par ? 12000 : 3000, { dg_block(d), par ? ds->ParallelBlockSize() : 100 }); Bytes m = c.bytes(len), want(dg_size(d)); c.desc << " " << len; c.nontrivial(len > dg_block(d));
		if (par) { std::unique_ptr<IDigest> e(Helper::DigestFromName::GetInstance(d, true)); e->Update(m, 0, m.size()); e->Finalize(want, 0); } else { want = ref_digest(d, m); }
		std::string what = std::string(dg_name(d)) + " of a stream of " + std::to_string(len);
		size_t io = c.flip() ? c.u(0, 30) : 0; Bytes I(io, 1); I.insert(I.end(), m.begin(), m.end());
		switch (c.u(0, 2))
		{
		case 0: { Bytes J(I); J.resize(J.size() + c.u(0, 9), 2); require_eq(ds->Compute(J, io, len), want, what + " (array)"); break; }
		case 1: { MemoryStream s(I); s.Seek(io, SeekOrigin::Begin); require_eq(ds->Compute(&s), want, what + " (memory)"); require(s.Position() == I.size(), what + ": stream position"); break; }
		default: { std::string f = scratch(2); spew(f, I); { FileStream s(f, FileStream::FileAccess::Read); s.Seek(io, SeekOrigin::Begin); require_eq(ds->Compute(&s), want, what + " (file)"); } unlink(f.c_str()); }
		}
	}
}
PROP(mac_stream, 4000, 100000)
{
	Macs t = c.pick({ Macs::CMAC, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KMAC128, Macs::KMAC256, Macs::KMAC512, Macs::KPA128, Macs::KPA256, Macs::KPA512, Macs::Poly1305 });
	std::string nm = MacConvert::ToName(t); c.desc << nm; c.tag(nm);
	std::unique_ptr<Mac::IMac> lent, one(Helper::MacFromName::GetInstance(t)); std::unique_ptr<MacStream> ms;
	if (c.flip()) { ms.reset(new MacStream(t)); } else { lent.reset(Helper::MacFromName::GetInstance(t)); ms.reset(new MacStream(lent.get())); }
	for (int i = 0, n = 1 + (int)c.u(0, 2); i < n; ++i)
	{
		auto ks = ms->LegalKeySizes(); size_t kl = ks[c.u(0, ks.size() - 1)].KeySize(); Bytes key = c.bytes(kl); auto kp = mkkey(c, key, {}, {});
		size_t len = 1 + c.len(3000, { one->BlockSize() }); Bytes m = c.bytes(len); c.desc << " key " << kl << " len " << len; c.nontrivial(len > one->BlockSize());
		one->Initialize(*kp); Bytes want(one->TagSize()); one->Update(m, 0, m.size()); one->Finalize(want, 0);
		ms->Initialize(*kp); std::string what = nm + " of a stream of " + std::to_string(len);
		size_t io = c.flip() ? c.u(0, 30) : 0; Bytes I(io, 1); I.insert(I.end(), m.begin(), m.end());
		switch (c.u(0, 2))
		{
		case 0: { Bytes J(I); J.resize(J.size() + c.u(0, 9), 2); require_eq(ms->Compute(J, io, len), want, what + " (array)"); break; }
		case 1: { MemoryStream s(I); s.Seek(io, SeekOrigin::Begin); require_eq(ms->Compute(&s), want, what + " (memory)"); break; }
		default: { std::string f = scratch(3); spew(f, I); { FileStream s(f, FileStream::FileAccess::Read); s.Seek(io, SeekOrigin::Begin); require_eq(ms->Compute(&s), want, what + " (file)"); } unlink(f.c_str()); }
		}
	}
	if (lent) { ms.reset(); require(lent->Enumeral() == t, "the MAC lent to the processor"); }
}
