#pragma once
// any transforming object of the library behind one interface: legal parameters, legal calls, and a way to make each call with chosen surroundings
#include "stream.h"
#include "aead.h"
#include "digestutil.h"
#include "CryptoException.h"
#include "ECB.h"
#include "CBC.h"
#include "CFB.h"
#include "OFB.h"
#include "CTR.h"
#include "ICM.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "CMAC.h"
#include "GMAC.h"
#include "Poly1305.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SHAKE.h"
#include "SCBKDF.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
namespace any
{
using namespace CEX;
struct Par { Bytes key, iv, info; bool enc; std::unique_ptr<Cipher::ISymmetricKey> key_obj() const { return std::unique_ptr<Cipher::ISymmetricKey>(new Cipher::SymmetricKey(key, iv, info)); } };
// one call: what it processes; how selects an overload, split cuts the input into updates
struct Call { int how = 0; Bytes in, aux; size_t n = 0; std::vector<size_t> split; std::string text; };
// the surroundings of the input and output ranges
struct Lay { Bytes ib, ia; size_t ob = 0, oa = 0; uint8_t fill = 0x5A; size_t cut = 0; bool flip = false; };
struct ParCfg
{
	int mode; size_t deg, mult, extra;
	static ParCfg draw(pbt::Case& c) { ParCfg p; p.mode = (int)c.u(0, 5); p.deg = c.u(0, 4); p.mult = c.u(1, 3); p.extra = c.chance(1, 4) ? c.u(0, 200) : 0; return p; }
	template<typename T> void apply(T& o) const
	{
		auto& p = o.ParallelProfile(); if (mode == 0) { p.IsParallel() = false; return; } if (mode == 1 || !p.IsParallel()) { return; }
		size_t cnt = p.ProcessorCount() & ~(size_t)1; if (deg && cnt >= deg * 2) { o.ParallelMaxDegree(deg * 2); } p.SetBlockSize(p.ParallelMinimumSize() * mult + extra % std::max<size_t>(p.ParallelMinimumSize(), 1));
	}
};
// a standard or secure output vector with guards
template<typename V> struct Out
{
	V b; size_t off, n; uint8_t fill; std::string what;
	Out(const Lay& l, size_t n_, const std::string& w) : b(l.ob + n_ - std::min(n_, l.cut) + l.oa, l.fill), off(l.ob), n(n_ - std::min(n_, l.cut)), fill(l.fill), what(w) {}
	Bytes done() { for (size_t i = 0; i < b.size(); ++i) { if ((i < off || i >= off + n) && b[i] != fill) { fail(what + fmt(": byte %zu outside the output range [%zu,%zu) was written", i, off, off + n)); } } return Bytes(b.begin() + off, b.begin() + off + n); }
};
struct In
{
	Bytes b, keep; size_t off; std::string what;
	In(const Lay& l, const Bytes& in, const std::string& w) : b(ref::cat({ l.ib, in, l.ia })), keep(b), off(l.ib.size()), what(w) {}
	void done() { require(b == keep, what + ": the input was changed"); }
};
struct Any
{
	std::string name; size_t unit = 16, big = 0;
	virtual ~Any() {}
	virtual Par par(pbt::Case&) = 0;
	virtual void init(const Par&) = 0;
	virtual Call call(pbt::Case&) = 0;
	virtual Bytes run(const Call&, const Lay&) = 0;
	virtual void reset() {}
	virtual void partial(const Call&) {} // begin a message and abandon it
	virtual bool cuttable(const Call&) { return false; } // a too small output is documented to be refused
	virtual bool once() { return false; } // one message per initialisation
	virtual void forget() {} // drop what this interface itself remembers of the key
	// exceptions are part of the behaviour
	Bytes behave(const Call& k, const Lay& l) { try { return run(k, l); } catch (Exception::CryptoException& e) { return ref::str("exception " + e.Message()); } }
	size_t pick_len(pbt::Case& c, size_t pbs) { big = 0; if (pbs && pbs <= 40000 && c.chance(1, 3)) { c.tag("parallel size"); return pbs + (c.flip() ? c.u(0, pbs) : c.u(0, 2) * unit); } return c.len(600, { unit, 128, 256, 16 }); }
};
typedef std::function<Any*()> Factory;
struct Block : Any
{
	std::unique_ptr<IBC> o; BC bc; bool enc = true; size_t ov = 0;
	Block(BC b, int how) : bc(b) { (void)how; o.reset(Helper::BlockCipherFromName::GetInstance(b)); name = bc_name(b); }
	Par par(pbt::Case& c) override { Par p; p.key = c.bytes(bc_key(c, bc)); if (bc != BC::AES && bc != BC::Serpent && c.flip()) { p.info = c.bytes(c.u(1, 20)); } p.enc = c.flip(); return p; }
	void init(const Par& p) override { enc = p.enc; o->Initialize(enc, *p.key_obj()); }
	Call call(pbt::Case& c) override { Call k; k.how = (int)c.u(0, 6); static const size_t sz[] = { 16, 16, 16, 16, 32, 64, 128 }; size_t n = sz[k.how]; if (k.how == 6 && c.flip()) { k.how = 7; n = 256; } k.in = c.bytes(n); k.n = n; k.text = fmt("transform %zu", n); return k; }
	Bytes run(const Call& k, const Lay& l) override
	{
		std::string w = name + fmt(" %s of %zu bytes, form %d", enc ? "encryption" : "decryption", k.n, k.how); bool plain = k.how == 0 || k.how == 2; Lay z; const Lay& L = plain ? z : l; In i(L, k.in, w); Out<Bytes> q(L, k.n, w);
		switch (k.how)
		{
		case 0: enc ? o->EncryptBlock(i.b, q.b) : o->DecryptBlock(i.b, q.b); break; case 1: enc ? o->EncryptBlock(i.b, i.off, q.b, q.off) : o->DecryptBlock(i.b, i.off, q.b, q.off); break;
		case 2: o->Transform(i.b, q.b); break; case 3: o->Transform(i.b, i.off, q.b, q.off); break; case 4: o->Transform256(i.b, i.off, q.b, q.off); break; case 5: o->Transform512(i.b, i.off, q.b, q.off); break; case 6: o->Transform1024(i.b, i.off, q.b, q.off); break; default: o->Transform2048(i.b, i.off, q.b, q.off);
		}
		i.done(); return q.done();
	}
};
struct Mode : Any
{
	std::unique_ptr<IBC> lent; std::unique_ptr<Cipher::Block::Mode::ICipherMode> o; ModeKind k; BC bc; size_t reg; bool enc = true; ParCfg pc;
	Mode(ModeKind k_, BC b, size_t r, bool l, ParCfg p) : k(k_), bc(b), reg(r), pc(p)
	{
		using namespace Cipher::Block::Mode; if (l) { lent.reset(Helper::BlockCipherFromName::GetInstance(b)); } IBC* e = lent.get(); static const char* N[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM" }; name = std::string(N[k]) + "-" + bc_name(b);
		switch (k) { case M_ECB: o.reset(l ? new ECB(e) : new ECB(b)); break; case M_CBC: o.reset(l ? new CBC(e) : new CBC(b)); break; case M_CFB: o.reset(l ? new CFB(e, r) : new CFB(b, r)); break; case M_OFB: o.reset(l ? new OFB(e) : new OFB(b)); break; case M_CTR: o.reset(l ? new CTR(e) : new CTR(b)); break; default: o.reset(l ? new ICM(e) : new ICM(b)); }
		if (k != M_OFB) { pc.apply(*o); } unit = k == M_CFB ? reg : 16;
	}
	Par par(pbt::Case& c) override { Par p; p.key = c.bytes(bc_key(c, bc)); if (bc != BC::AES && bc != BC::Serpent && c.flip()) { p.info = c.bytes(c.u(1, 20)); } if (k != M_ECB) { p.iv = c.bytes(16); } p.enc = c.flip(); return p; }
	void init(const Par& p) override { enc = p.enc; o->Initialize(enc, *p.key_obj()); }
	bool counter() const { return k == M_CTR || k == M_ICM; }
	Call call(pbt::Case& c) override { Call q; auto& p = o->ParallelProfile(); size_t n = pick_len(c, k != M_OFB && p.IsParallel() ? p.ParallelBlockSize() : 0); if (!counter()) { n = std::max(n / unit, (size_t)1) * unit; } if (n == 0) { n = 1; } q.how = n == unit && !counter() ? (int)c.u(0, 2) : 0; q.in = c.bytes(n); q.n = n; q.text = fmt("transform %zu", n); return q; }
	Bytes run(const Call& q, const Lay& l) override
	{
		std::string w = name + fmt(" %s of %zu bytes", enc ? "encryption" : "decryption", q.n); Lay z; const Lay& L = q.how == 1 ? z : l; In i(L, q.in, w); Out<Bytes> t(L, q.n, w);
		if (q.how == 1) { enc ? o->EncryptBlock(i.b, t.b) : o->DecryptBlock(i.b, t.b); } else if (q.how == 2) { enc ? o->EncryptBlock(i.b, i.off, t.b, t.off) : o->DecryptBlock(i.b, i.off, t.b, t.off); } else { o->Transform(i.b, i.off, t.b, t.off, q.n); }
		i.done(); return t.done();
	}
};
// authenticated: decryption takes what a second object of the same history has sealed
struct AeadAny : Any
{
	std::unique_ptr<IBC> lent; std::unique_ptr<IAead> o, seal; bool gcm; BC bc; Macs mac; bool enc = true;
	std::unique_ptr<IBC> lent2;
	AeadAny(bool g, BC b, Macs m, bool l, ParCfg p) : gcm(g), bc(b), mac(m)
	{
		using namespace Cipher::Block::Mode; StreamAuthenticators sa = static_cast<StreamAuthenticators>(m); if (l) { lent.reset(Helper::BlockCipherFromName::GetInstance(b)); }
		o.reset(g ? (lent ? (IAead*)new GCM(lent.get()) : new GCM(b)) : (lent ? (IAead*)new HBA(lent.get(), sa) : new HBA(b, sa))); seal.reset(g ? (IAead*)new GCM(b) : new HBA(b, sa)); p.apply(*o); name = g ? "GCM-" + bc_name(b) : "HBA-" + bc_name(b) + "-" + MacConvert::ToName(m);
	}
	Par par(pbt::Case& c) override { Par p; auto ks = o->LegalKeySizes(); p.key = c.bytes(ks[c.u(0, ks.size() - 1)].KeySize()); p.iv = c.random_bytes(gcm ? c.pick<size_t>({ 12, 16, 12, 32 }) : 16); p.iv[0] |= 1; if (!gcm && c.flip()) { p.info = c.bytes(c.u(4, 20)); } p.enc = c.flip(); return p; }
	void init(const Par& p) override { enc = p.enc; o->Initialize(enc, *p.key_obj()); seal->Initialize(true, *p.key_obj()); }
	bool once() override { return gcm; }
	void partial(const Call& q) override { if (q.aux.size()) { o->SetAssociatedData(q.aux, 0, q.aux.size()); } }
	bool cuttable(const Call&) override { return !gcm; }
	Call call(pbt::Case& c) override { Call q; auto& p = o->ParallelProfile(); q.n = std::max<size_t>(1, pick_len(c, p.IsParallel() ? p.ParallelBlockSize() : 0)); q.in = c.bytes(q.n); if (c.flip()) { q.aux = c.bytes(c.u(1, 60)); } q.how = (int)c.u(0, 1); q.text = fmt("message %zu aad %zu", q.n, q.aux.size()); return q; }
	Bytes run(const Call& q, const Lay& l) override
	{
		std::string w = name + fmt(" %s of %zu bytes", enc ? "encryption" : "decryption", q.n); size_t t = o->TagSize(); Bytes in = q.in;
		if (!enc) { Bytes x(q.n + t); if (q.aux.size()) { seal->SetAssociatedData(q.aux, 0, q.aux.size()); } seal->Transform(in, 0, x, 0, q.n); in = x; if (l.flip) { in[in.size() - 1] ^= 1; } }
		if (q.aux.size()) { In a(l, q.aux, w + " associated data"); if (q.how) { SBytes s = sec(a.b); o->SetAssociatedData(s, a.off, q.aux.size()); require(unsec(s) == a.keep, w + ": associated data changed"); } else { o->SetAssociatedData(a.b, a.off, q.aux.size()); a.done(); } }
		In i(l, in, w); Out<Bytes> z(l, enc ? q.n + t : q.n, w);
		try { o->Transform(i.b, i.off, z.b, z.off, q.n); } catch (Exception::CryptoException&) { i.done(); z.done(); throw; }
		i.done(); return ref::cat({ z.done(), o->Tag() });
	}
};
struct StreamAny : Any
{
	StreamObj S, T; bool enc = true;
	static ISC* build(SK k, bool auth) { using namespace Cipher::Stream; switch (k) { case S_CHACHA: return new ChaChaP20(auth); case S_CSX: return new CSX512(auth); case S_RCS: return new RCS(auth); case S_RWS: return new RWS(auth); case S_T256: return new TSX256(auth); case S_T512: return new TSX512(auth); default: return new TSX1024(auth); } }
	StreamAny(SK k, bool a, ParCfg p) { S.k = T.k = k; S.auth = T.auth = a; S.o.reset(build(k, a)); T.o.reset(build(k, a)); p.apply(*S.o); name = S.name(); unit = S.unit(); }
	void partial(const Call& q) override { if (q.aux.size()) { S->SetAssociatedData(q.aux, 0, q.aux.size()); } }
	Par par(pbt::Case& c) override { Par p; p.key = c.bytes(S.keylen(c)); p.iv = S.nonce(c); p.info = S.info(c); p.enc = c.flip(); return p; }
	void init(const Par& p) override { enc = p.enc; S->Initialize(enc, *p.key_obj()); T->Initialize(true, *p.key_obj()); }
	bool cuttable(const Call&) override { return S.auth && enc; }
	Call call(pbt::Case& c) override { Call q; auto& p = S->ParallelProfile(); q.n = std::max<size_t>(1, pick_len(c, p.IsParallel() ? p.ParallelBlockSize() : 0)); q.in = c.bytes(q.n); if (S.auth && c.flip()) { q.aux = c.bytes(c.u(1, 60)); } q.text = fmt("message %zu aad %zu", q.n, q.aux.size()); return q; }
	Bytes run(const Call& q, const Lay& l) override
	{
		std::string w = name + fmt(" %s of %zu bytes", enc ? "encryption" : "decryption", q.n); size_t t = S.auth ? S->TagSize() : 0; Bytes in = q.in;
		if (!enc) { Bytes x(q.n + t); if (q.aux.size()) { T->SetAssociatedData(q.aux, 0, q.aux.size()); } T->Transform(in, 0, x, 0, q.n); in = x; if (l.flip) { in[in.size() - 1] ^= 1; } }
		if (q.aux.size()) { In a(l, q.aux, w + " associated data"); S->SetAssociatedData(a.b, a.off, q.aux.size()); a.done(); }
		In i(l, in, w); Out<Bytes> z(l, enc ? q.n + t : q.n, w);
		try { S->Transform(i.b, i.off, z.b, z.off, q.n); } catch (Exception::CryptoException&) { i.done(); z.done(); throw; }
		i.done(); Bytes r = z.done(); if (S.auth) { r = ref::cat({ r, S->Tag() }); } return r;
	}
};
// how the input of a mac or digest is divided
inline void splits(pbt::Case& c, Call& q) { size_t left = q.in.size(); while (left) { size_t n = c.flip() ? left : 1 + c.len(left - 1, { 16, 64, 128, 136 }); n = std::min(n, left); q.split.push_back(n); left -= n; } }
struct MacAny : Any
{
	std::unique_ptr<Mac::IMac> o; int kind; BC bc; size_t tag; Par last; bool dirty = false;
	void forget() override { std::fill(last.key.begin(), last.key.end(), 0); last = Par(); }
	MacAny(int kd, BC b, int v) : kind(kd), bc(b)
	{
		using namespace Mac; switch (kind)
		{
		case 0: o.reset(new CMAC(b)); name = "CMAC-" + bc_name(b); break; case 1: o.reset(new GMAC(b)); name = "GMAC-" + bc_name(b); break; case 2: o.reset(new CEX::Mac::HMAC(v ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256)); name = v ? "HMAC512" : "HMAC256"; break;
		case 3: o.reset(new KMAC(v == 0 ? KmacModes::KMAC128 : v == 1 ? KmacModes::KMAC256 : KmacModes::KMAC512)); name = "KMAC" + std::to_string(v); break; case 4: o.reset(new KPA(v == 0 ? KpaModes::KPA128 : v == 1 ? KpaModes::KPA256 : KpaModes::KPA512)); name = "KPA" + std::to_string(v); break; default: o.reset(new Poly1305()); name = "Poly1305";
		}
		tag = o->TagSize();
	}
	Par par(pbt::Case& c) override { Par p; switch (kind) { case 0: case 1: p.key = c.bytes(bc_key(c, bc)); if (kind) { p.iv = c.bytes(c.pick<size_t>({ 12, 16, 13 })); p.iv[0] |= 1; } break; case 5: p.key = c.bytes(32); break; default: p.key = c.bytes(c.u(16, 150)); if (kind > 2 && c.flip()) { p.iv = c.bytes(c.u(kind == 4 ? 8 : 4, 30)); } if (kind == 4) { p.iv.resize(std::max(p.iv.size(), (size_t)o->MinimumSaltSize())); } } p.enc = true; return p; }
	void init(const Par& p) override { last.key = p.key; last.iv = p.iv; last.info = p.info; o->Initialize(*p.key_obj()); dirty = false; }
	bool once() override { return true; }
	bool cuttable(const Call&) override { return true; }
	void reset() override { o->Reset(); }
	void partial(const Call& q) override { size_t p = 0; for (size_t n : q.split) { o->Update(q.in, p, n); p += n; } }
	Call call(pbt::Case& c) override { Call q; q.in = c.bytes(c.len(600, { 16, 64, 128, 136, 72, 168 })); q.n = q.in.size(); splits(c, q); q.how = (int)c.u(0, 1); q.text = fmt("code of %zu", q.n); return q; }
	// KMAC and KPA fill what is left of the output
	Bytes run(const Call& q, const Lay& l0) override
	{
		Lay l = l0; if (kind == 3 || kind == 4) { l.oa = 0; } std::string w = name + fmt(" of %zu bytes", q.n); In i(l, q.in, w); size_t p = i.off; for (size_t n : q.split) { o->Update(i.b, p, n); p += n; } i.done();
		if (q.how) { Out<SBytes> t(l, tag, w); same((size_t)o->Finalize(t.b, t.off), tag, w + ": size returned"); return t.done(); } Out<Bytes> t(l, tag, w); same((size_t)o->Finalize(t.b, t.off), tag, w + ": size returned"); return t.done();
	}
};
struct DigestAny : Any
{
	std::unique_ptr<Digest::IDigest> o; DG d; bool par_;
	DigestAny(DG d_, bool p, int deg) : d(d_), par_(p) { o.reset(Helper::DigestFromName::GetInstance(d, p)); if (p && deg) { o->ParallelMaxDegree(deg); } name = std::string(dg_name(d)) + (p ? " tree" : ""); unit = dg_block(d); }
	Par par(pbt::Case&) override { Par p; p.enc = true; return p; }
	void init(const Par&) override {}
	void reset() override { o->Reset(); }
	bool cuttable(const Call&) override { return true; }
	void partial(const Call& q) override { size_t p = 0; for (size_t n : q.split) { o->Update(q.in, p, n); p += n; } }
	Call call(pbt::Case& c) override { Call q; q.in = c.bytes(par_ && c.chance(1, 3) ? c.len(20000, { unit * 8, unit * 64 }) : c.len(700, { unit, 2 * unit })); q.n = q.in.size(); splits(c, q); q.how = (int)c.u(0, 1); q.text = fmt("code of %zu", q.n); return q; }
	Bytes run(const Call& q, const Lay& l) override
	{
		std::string w = name + fmt(" of %zu bytes", q.n); if (q.how && l.cut == 0) { Lay z; In i(z, q.in, w); Out<Bytes> t(z, dg_size(d), w); o->Compute(i.b, t.b); i.done(); return t.done(); }
		In i(l, q.in, w); size_t p = i.off; for (size_t n : q.split) { o->Update(i.b, p, n); p += n; } i.done(); Out<Bytes> t(l, dg_size(d), w); o->Finalize(t.b, t.off); return t.done();
	}
};
// generators: key derivation and drbgs
template<typename G> Bytes generate(G& g, const Call& q, const Lay& l, const std::string& w)
{
	Lay z; switch (q.how) { case 0: { Out<Bytes> t(z, q.n, w); g.Generate(t.b); return t.done(); } case 1: { Out<SBytes> t(z, q.n, w); g.Generate(t.b); return t.done(); } case 2: { Out<Bytes> t(l, q.n, w); g.Generate(t.b, t.off, q.n); return t.done(); } default: { Out<SBytes> t(l, q.n, w); g.Generate(t.b, t.off, q.n); return t.done(); } }
}
struct KdfAny : Any
{
	std::unique_ptr<Kdf::IKdf> o; int kind;
	KdfAny(int k, int v) : kind(k)
	{
		using namespace Kdf; SHA2Digests sd = v & 1 ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256; ShakeModes sm = v == 0 ? ShakeModes::SHAKE128 : v == 1 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512;
		switch (k) { case 0: name = "HKDF"; o.reset(new HKDF(sd)); break; case 1: name = "KDF2"; o.reset(new KDF2(sd)); break; case 2: name = "PBKDF2"; o.reset(new PBKDF2(sd, 2)); break; case 3: name = "SHAKE"; o.reset(new SHAKE(sm)); break; default: name = "SCBKDF"; o.reset(new SCBKDF(sm, 1, 1)); } name += std::to_string(v);
	}
	Par par(pbt::Case& c) override { Par p; p.key = c.bytes(c.u(16, 100)); p.enc = true; if (c.flip()) { p.iv = c.bytes(c.u(std::max<size_t>(4, o->MinimumSaltSize()), 40)); } if (p.iv.size() && c.flip()) { p.info = c.bytes(c.u(4, 40)); } return p; }
	void init(const Par& p) override { o->Initialize(*p.key_obj()); }
	void reset() override { o->Reset(); }
	bool cuttable(const Call& q) override { return q.how > 1; }
	Call call(pbt::Case& c) override { Call q; q.n = 1 + c.len(kind == 4 ? 100 : 600, { 32, 64, 136 }); q.how = (int)c.u(0, 3); q.text = fmt("generate %zu", q.n); return q; }
	Bytes run(const Call& q, const Lay& l) override { return generate(*o, q, l, name + fmt(" of %zu bytes", q.n)); }
};
struct DrbgAny : Any
{
	std::unique_ptr<Drbg::IDrbg> o; int kind;
	DrbgAny(int k, bool par) : kind(k) { using namespace Drbg; switch (k) { case 0: name = "BCG"; o.reset(new BCG(Providers::None, par)); break; case 1: name = "CSG128"; o.reset(new CSG(ShakeModes::SHAKE128, Providers::None, false)); break; case 2: name = "CSG256"; o.reset(new CSG(ShakeModes::SHAKE256, Providers::None, false)); break; case 3: name = "CSG512"; o.reset(new CSG(ShakeModes::SHAKE512, Providers::None, false)); break; case 4: name = "HCG256"; o.reset(new HCG(SHA2Digests::SHA2256, Providers::None)); break; default: name = "HCG512"; o.reset(new HCG(SHA2Digests::SHA2512, Providers::None)); } }
	Par par(pbt::Case& c) override { Par p; auto ks = o->LegalKeySizes(); p.enc = true; p.key = c.bytes(ks[c.u(0, ks.size() - 1)].KeySize()); if (kind == 0) { p.iv = c.bytes(32); } else if (c.flip()) { p.iv = c.bytes(c.u(4, 40)); } return p; }
	void init(const Par& p) override { o->Initialize(*p.key_obj()); }
	bool cuttable(const Call& q) override { return q.how > 1 && q.how < 4; }
	Call call(pbt::Case& c) override { Call q; if (c.chance(1, 6)) { auto ks = o->LegalKeySizes(); q.how = 4; q.in = c.bytes(ks[c.u(0, ks.size() - 1)].KeySize()); q.n = 1; q.text = "update"; return q; } q.n = 1 + c.len(900, { 32, 64, 136, 168, 72 }); q.how = (int)c.u(0, 3); q.text = fmt("generate %zu", q.n); return q; }
	Bytes run(const Call& q, const Lay& l) override { if (q.how == 4) { Bytes k = q.in; o->Update(k); require(k == q.in, name + ": Update changed the key"); return {}; } return generate(*o, q, l, name + fmt(" of %zu bytes", q.n)); }
};
enum Family { F_BLOCK, F_MODE, F_AEAD, F_STREAM, F_MAC, F_DIGEST, F_KDF, F_DRBG, F_COUNT };
inline Factory pick(pbt::Case& c, int family = -1)
{
	int f = family >= 0 ? family : (int)c.u(0, F_COUNT - 1); BC bc = c.pick(ALL_BC); bool l = c.flip(); ParCfg p = ParCfg::draw(c);
	switch (f)
	{
	case F_BLOCK: return [=] { return new Block(bc, 0); };
	case F_MODE: { ModeKind k = (ModeKind)c.u(0, 5); size_t reg = c.pick<size_t>({ 16, 8, 1 }); return [=] { return new Mode(k, bc, reg, l, p); }; }
	case F_AEAD: { bool g = c.flip(); Macs m = c.pick({ Macs::KMAC256, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KMAC512, Macs::Poly1305 }); return [=] { return new AeadAny(g, bc, m, l, p); }; }
	case F_STREAM: { SK k = (SK)c.u(0, S_COUNT - 1); bool a = c.flip(); return [=] { return new StreamAny(k, a, p); }; }
	case F_MAC: { int k = (int)c.u(0, 5), v = (int)c.u(0, 2); if (k == 2) { v &= 1; } BC b = c.pick({ BC::AES, BC::AES, BC::Serpent, BC::RHXH256, BC::RHXS512, BC::SHXH512 }); return [=] { return new MacAny(k, b, v); }; }
	case F_DIGEST: { DG d = c.pick(ALL_DIGESTS); bool par = c.flip() && vf::W->cores > 1; int deg = par ? (int)c.pick<int>({ 0, 2, 4, 6 }) : 0; return [=] { return new DigestAny(d, par, deg); }; }
	case F_KDF: { int k = (int)c.u(0, 4), v = (int)c.u(0, 2); if (k < 3) { v &= 1; } return [=] { return new KdfAny(k, v); }; }
	default: { int k = (int)c.u(0, 5); return [=] { return new DrbgAny(k, l); }; }
	}
}
inline const char* family_name(int f) { static const char* n[] = { "block", "mode", "aead", "stream", "mac", "digest", "kdf", "drbg" }; return n[f]; }
inline Lay lay(pbt::Case& c)
{
	Lay l; size_t a = c.pick<size_t>({ 0, 1, 3, 16, 17, 64, 100, 300 }), b = c.pick<size_t>({ 0, 1, 3, 16, 33, 200 }); l.ib = c.random_bytes(a); l.ia = c.random_bytes(b); l.ob = c.pick<size_t>({ 0, 1, 5, 16, 31, 64, 260 }); l.oa = c.pick<size_t>({ 0, 1, 7, 16, 64, 260 }); l.fill = (uint8_t)c.u(0, 255); return l;
}
}
