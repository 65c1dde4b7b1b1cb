// C27: parameters the documentation declares illegal are refused, and nothing is written; the legal ones work, and a refusal leaves the object usable
// LIBS: -lcrypto
#include "stream.h"
#include "aead.h"
#include "drbgmodel.h"
#include "digestutil.h"
#include "sign.h"
#include "CryptoException.h"
#include "CipherModeFromName.h"
#include "PaddingFromName.h"
#include "ECB.h"
#include "CBC.h"
#include "CFB.h"
#include "OFB.h"
#include "CTR.h"
#include "ICM.h"
#include "RHX.h"
#include "SHX.h"
#include "MacFromName.h"
#include "KdfFromName.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "CMAC.h"
#include "GMAC.h"
#include "Poly1305.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SHAKE.h"
#include "SCBKDF.h"
#include "BCG.h"
#include "DrbgFromName.h"
#include "CSG.h"
#include "HCG.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Blake256.h"
#include "Blake512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
using namespace CEX::Cipher::Block::Mode;
typedef CEX::Exception::CryptoException CE;
// the call must be refused with the library's exception exactly when it is illegal
template<typename F> bool judge(pbt::Case& c, bool legal, const std::string& what, F f)
{
	bool done = false;
	try { f(); done = true; }
	catch (CE& e) { if (legal) { fail(what + ": legal, but refused: " + e.Message()); } c.tag("refused"); }
	catch (std::exception& e) { fail(what + (legal ? ": legal, but raised " : ": raised a foreign exception ") + e.what()); }
	if (done && !legal) { fail(what + ": accepted"); }
	c.tag(done ? "accepted" : "refused");
	return done;
}
// a size near one of those given: equal to it more often than not
static size_t near(pbt::Case& c, std::vector<size_t> good, size_t others = 7)
{
	size_t g = good[c.u(0, good.size() - 1)];
	switch (c.u(0, others))
	{
	case 0: return g + 1; case 1: return g ? g - 1 : 0; case 2: return 0; case 3: return c.u(0, 300); case 4: return g * 2; case 5: return g / 2; default: return g;
	}
}
static bool in(size_t v, const std::vector<size_t>& s) { return std::find(s.begin(), s.end(), v) != s.end(); }
static std::vector<size_t> cipher_keys(BC b) { if (b == BC::AES) { return { 16, 24, 32 }; } if (b == BC::Serpent) { return { 16, 24, 32, 64 }; } return { 32, 64, 128 }; }
// LegalKeySizes of the extended ciphers also lists 16 and 24 bytes, their description does not: not judged
static bool unsure(BC b, size_t n) { return b != BC::AES && b != BC::Serpent && (n == 16 || n == 24); }
// an output of size bytes and an offset into it, of which n from the offset on are needed: sometimes too few
struct Room { size_t size, off, n; bool fits; };
static Room room(pbt::Case& c, size_t n, bool wide = true)
{
	Room r; r.n = n; r.off = c.flip() ? 0 : c.u(0, 40); r.size = r.off + n;
	switch (c.u(0, 7)) { case 0: r.size += c.u(1, 20); break; case 1: r.size -= std::min<size_t>(r.size, 1); break; case 2: r.size = c.u(0, r.size); break; case 3: if (wide) { r.off = SIZE_MAX - c.u(0, n + 70); } break; case 4: r.off = r.size + c.u(0, 2); break; default: break; }
	r.fits = r.off <= r.size && r.size - r.off >= n; c.desc << " room " << r.size << "@" << (r.off > 1000000 ? std::string("huge") : std::to_string(r.off)) << " for " << n; return r;
}
template<typename V> void untouched(const V& b, const std::string& what) { for (auto x : b) { if (x != 0x5A) { fail(what + ": refused, but the output was written to"); } } }
static size_t max_degree(pbt::Case& c, size_t procs) { size_t d = c.pick<size_t>({ 2, 0, 1, 3, procs, procs + 1, procs + 2, procs - 1, 4, 6, 64, 66, 63, 1000000, (size_t)-2 }); return d; }

// block cipher modes: key and nonce sizes, degrees, block sizes
struct ModeObj { std::unique_ptr<IBC> lent; std::unique_ptr<ICipherMode> m; ModeKind k; BC bc; size_t reg = 16; };
static void mode_make(pbt::Case& c, ModeObj& o)
{
	o.m.reset(); o.lent.reset(); bool l = c.flip(); if (l) { o.lent.reset(Helper::BlockCipherFromName::GetInstance(o.bc)); } IBC* p = o.lent.get();
	switch (o.k)
	{
	case M_ECB: o.m.reset(l ? new ECB(p) : new ECB(o.bc)); break; case M_CBC: o.m.reset(l ? new CBC(p) : new CBC(o.bc)); break; case M_CFB: o.m.reset(l ? new CFB(p, o.reg) : new CFB(o.bc, o.reg)); break;
	case M_OFB: o.m.reset(l ? new OFB(p) : new OFB(o.bc)); break; case M_CTR: o.m.reset(l ? new CTR(p) : new CTR(o.bc)); break; default: o.m.reset(l ? new ICM(p) : new ICM(o.bc));
	}
}
PROP(modes, 4000, 200000)
{
	world(c); ModeObj o; o.k = (ModeKind)c.u(0, 5); o.bc = c.pick(ALL_BC); if (o.k == M_CFB) { o.reg = c.pick<size_t>({ 16, 8, 1 }); }
	static const char* N[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM" }; std::string nm = std::string(N[o.k]) + "-" + bc_name(o.bc); c.desc << nm;
	if (c.chance(1, 8)) { BC b = c.flip() ? BC::None : o.bc; BC keep = o.bc; IBC* np = nullptr; judge(c, b != BC::None, nm + " with cipher " + bc_name(b), [&] { o.bc = b; mode_make(c, o); }); o.bc = keep; if (b == BC::None) { judge(c, false, std::string(N[o.k]) + " over a null cipher", [&] { switch (o.k) { case M_ECB: o.m.reset(new ECB(np)); break; case M_CBC: o.m.reset(new CBC(np)); break; case M_CFB: o.m.reset(new CFB(np)); break; case M_OFB: o.m.reset(new OFB(np)); break; case M_CTR: o.m.reset(new CTR(np)); break; default: o.m.reset(new ICM(np)); } }); } }
	mode_make(c, o); c.tag(N[o.k]);
	std::vector<size_t> ks = cipher_keys(o.bc); size_t steps = c.u(1, 6); bool ready = false; std::unique_ptr<ModeModel> M; bool enc = true;
	for (size_t s = 0; s < steps; ++s)
	{
		if (c.chance(1, 4))
		{
			size_t procs = o.m->ParallelProfile().ProcessorCount(), d = max_degree(c, procs); bool legal = o.k != M_OFB && d != 0 && d % 2 == 0 && d <= procs;
			if (legal && o.k != M_CTR && o.k != M_ICM && o.k != M_ECB && o.k != M_CBC && o.k != M_CFB) { legal = false; }
			c.desc << " degree " << d << " of " << procs; judge(c, legal, nm + fmt(": ParallelMaxDegree(%zu) with %zu processors", d, procs), [&] { o.m->ParallelMaxDegree(d); });
		}
		if (c.chance(1, 4) && o.k != M_OFB)
		{
			auto& p = o.m->ParallelProfile(); size_t mn = p.ParallelMinimumSize(), b = c.pick<size_t>({ mn, mn - 1, 0, 1, mn * 2, mn + 1, mn * 3 - 1 }); if (c.chance(1, 6)) { b = p.ParallelMaximumSize() + c.u(0, 1) * mn; }
			c.desc << " block " << b << " min " << mn; judge(c, b >= mn, nm + fmt(": SetBlockSize(%zu) with minimum %zu", b, mn), [&] { p.SetBlockSize(b); });
		}
		size_t kl = near(c, ks), il = near(c, { o.k == M_ECB ? (size_t)0 : 16 }); enc = c.flip(); Bytes k = c.bytes(kl), iv = c.bytes(il), info; if (o.bc != BC::AES && o.bc != BC::Serpent && c.flip()) { info = c.bytes(c.u(1, 16)); }
		auto& p = o.m->ParallelProfile(); bool par = o.k != M_OFB && p.IsParallel(), pok = !par || (p.ParallelBlockSize() >= p.ParallelMinimumSize() && p.ParallelBlockSize() <= p.ParallelMaximumSize() && p.ParallelBlockSize() % p.ParallelMinimumSize() == 0);
		bool legal = in(kl, ks) && pok && (o.k == M_ECB ? true : o.k == M_CFB ? il >= 1 && il <= 16 : il == 16);
		if (unsure(o.bc, kl)) { continue; } c.desc << "\n key " << kl << " iv " << il << (pok ? "" : " parallel block illegal"); if (k.empty() && iv.empty() && info.empty()) { continue; } auto kp = mkkey(c, k, iv, info);
		if (judge(c, legal, nm + fmt(": Initialize with a key of %zu and a nonce of %zu bytes%s", kl, il, pok ? "" : " and an illegal parallel block size"), [&] { o.m->Initialize(enc, *kp); }))
		{
			ready = true; M.reset(new ModeModel(o.k, o.bc, k, info, iv, enc, o.reg)); c.nontrivial();
			size_t un = M->unit(), n = un * c.u(1, 6); Bytes m = c.bytes(n), out(n); o.m->Transform(m, 0, out, 0, n); require_eq(out, M->next(m), nm + ": after the accepted Initialize");
			if (o.k == M_OFB && c.flip()) { size_t x = n + c.u(1, 15); Bytes a(x), b(x, 0x5A); judge(c, false, nm + ": Transform of a part of a block", [&] { o.m->Transform(a, 0, b, 0, x); }); untouched(b, nm); Bytes out2(n); o.m->Transform(m, 0, out2, 0, n); require_eq(out2, M->next(m), nm + ": after a refused Transform"); }
		}
		else { c.nontrivial(); }
	}
	if (!ready) { size_t kl = ks[0]; Bytes k = c.bytes(kl), iv = c.bytes(o.k == M_ECB ? 0 : 16); o.m->ParallelProfile().IsParallel() = false; auto kp = mkkey(c, k, iv, {}); o.m->Initialize(enc, *kp); ModeModel N2(o.k, o.bc, k, {}, iv, enc, o.reg); size_t n = N2.unit() * 3; Bytes m = c.bytes(n), out(n); o.m->Transform(m, 0, out, 0, n); require_eq(out, N2.next(m), nm + ": a legal Initialize after refused ones"); }
}
// block ciphers
PROP(ciphers, 3000, 150000)
{
	BC b = c.pick(ALL_BC); std::string nm = bc_name(b); c.tag(nm);
	if (c.chance(1, 10)) { judge(c, false, "BlockCipherFromName(None)", [&] { std::unique_ptr<IBC> x(Helper::BlockCipherFromName::GetInstance(BC::None)); }); }
	std::unique_ptr<IBC> p(Helper::BlockCipherFromName::GetInstance(b)); std::vector<size_t> ks = cipher_keys(b); for (size_t n = 0; n < 300; ++n) { bool has = false; for (auto k : p->LegalKeySizes()) { has = has || k.KeySize() == n; } require(unsure(b, n) || has == in(n, ks), nm + fmt(": LegalKeySizes and %zu", n)); }
	Bytes k, info;
	for (size_t s = 0, e = c.u(1, 5); s <= e; ++s)
	{
		size_t kl = s == e ? ks[c.u(0, ks.size() - 1)] : near(c, ks); k = c.bytes(kl); info = c.flip() && b != BC::AES && b != BC::Serpent ? c.bytes(c.u(0, 20)) : Bytes(); bool enc = c.flip(); if (unsure(b, kl)) { continue; } c.desc << " key " << kl;
		require(p->IsInitialized() == (s != 0 && p->IsInitialized()), nm + ": initialised at first");
		if (k.empty() && info.empty()) { continue; } auto kp = mkkey(c, k, {}, info);
		if (judge(c, in(kl, ks), nm + fmt(": a key of %zu bytes", kl), [&] { p->Initialize(enc, *kp); })) { Bytes m = c.bytes(16), o(16), o2(16); ref::Blk f = bc_fn(b, k, info, enc); if (enc) { p->EncryptBlock(m, o); } else { p->DecryptBlock(m, o); } require_eq(o, f(m), nm + ": after the accepted Initialize"); }
		c.nontrivial();
	}
}
// authenticated modes
PROP(aead, 4000, 200000)
{
	world(c); Aead A; A.make(c); std::string nm = A.name; c.desc << nm; auto& m = *A.m; std::vector<size_t> ks; for (auto x : m.LegalKeySizes()) { ks.push_back(x.KeySize()); } for (size_t x : ks) { require(in(x, cipher_keys(A.bc)) || unsure(A.bc, x), nm + fmt(": legal key size %zu", x)); } bool ready = false, enc = true, adset = false; std::unique_ptr<AeadModel> M; Bytes ad; Bytes lastiv;
	if (c.chance(1, 10)) { judge(c, false, "AEAD over no cipher", [&] { std::unique_ptr<IAead> x(A.gcm ? (IAead*)new GCM(BC::None) : new HBA(BC::None, StreamAuthenticators::KMAC256)); }); judge(c, false, "AEAD over a null cipher", [&] { IBC* n = nullptr; std::unique_ptr<IAead> x(A.gcm ? (IAead*)new GCM(n) : new HBA(n, StreamAuthenticators::KMAC256)); }); if (!A.gcm) { judge(c, false, "HBA without authenticator", [&] { HBA x(A.bc, StreamAuthenticators::None); }); } }
	for (size_t s = 0, e = c.u(2, 9); s < e; ++s)
	{
		switch (c.u(0, 4))
		{
		case 0:
		{
			size_t procs = m.ParallelProfile().ProcessorCount(), d = max_degree(c, procs); c.desc << " degree " << d; judge(c, d != 0 && d % 2 == 0 && d <= procs, nm + fmt(": ParallelMaxDegree(%zu) with %zu processors", d, procs), [&] { m.ParallelMaxDegree(d); }); break;
		}
		case 1: case 2:
		{
			size_t kl = near(c, ks, 11), il = near(c, { A.gcm ? c.pick<size_t>({ 12, 8, 12, 16 }) : 16 }, 11); Bytes k = c.bytes(kl), iv = c.random_bytes(il), info; if (il) { iv[0] |= 1; }
			auto& p = m.ParallelProfile(); bool pok = !p.IsParallel() || (p.ParallelBlockSize() >= p.ParallelMinimumSize() && p.ParallelBlockSize() <= p.ParallelMaximumSize() && p.ParallelBlockSize() % p.ParallelMinimumSize() == 0);
			if (A.gcm && kl == 0) { continue; } // the key may be left out once one is there: below
			bool legal = in(kl, ks) && pok && (A.gcm ? il >= 8 : il == 16); enc = c.flip(); c.desc << "\n key " << kl << " iv " << il << (pok ? "" : " bad block"); if (k.empty() && iv.empty() && info.empty()) { continue; } auto kp = mkkey(c, k, iv, info);
			if (judge(c, legal, nm + fmt(": Initialize with a key of %zu and a nonce of %zu bytes", kl, il), [&] { m.Initialize(enc, *kp); })) { ready = true; adset = false; M = A.model(k, iv, info); lastiv = iv; } else { c.nontrivial(); return; }
			break;
		}
		case 3:
		{
			Bytes a = c.bytes(c.u(1, 40)); size_t off = 0, n = a.size(); bool range = true;
			if (!A.gcm && c.chance(1, 3)) { off = c.pick<size_t>({ 1, a.size(), a.size() + 1, SIZE_MAX, SIZE_MAX - a.size() + 1 }); n = c.pick<size_t>({ a.size(), 1, 0, SIZE_MAX }); range = off <= a.size() && n <= a.size() - off; if (range && n == 0) { continue; } }
			if (!A.gcm && adset) { continue; }
			bool legal = ready && range && !(A.gcm && adset); c.desc << " aad " << n << "@" << off; bool sv = c.flip();
			if (judge(c, legal, nm + ": SetAssociatedData " + (!ready ? "before Initialize" : adset ? "twice" : fmt("of %zu bytes at %zu of %zu", n, off, a.size())), [&] { if (sv) { m.SetAssociatedData(sec(a), off, n); } else { m.SetAssociatedData(a, off, n); } })) { adset = true; ad = ref::sub(a, off, n); } else { c.nontrivial(); }
			break;
		}
		default:
		{
			if (!ready) { if (!A.gcm) { Bytes a(64), b(200, 0x5A); judge(c, false, nm + ": Transform before Initialize", [&] { m.Transform(a, 0, b, 0, 16); }); untouched(b, nm); c.nontrivial(); } continue; }
			size_t n = c.u(1, 100); Bytes pt = c.bytes(n), ct = M->seal(adset ? &ad : nullptr, pt); const Bytes& in = enc ? pt : ct; size_t need = enc ? n + A.tag() : n; 
			// the documented order: one message per Initialize for GCM; HBA goes on
			Room r = A.gcm ? Room{ need, 0, need, true } : room(c, need); Bytes out(r.size, 0x5A); c.desc << " message " << n;
			if (judge(c, r.fits, nm + fmt(": Transform of %zu bytes into %zu at %zu", n, r.size, r.off), [&] { m.Transform(in, 0, out, r.off, n); })) { require_eq(ref::sub(out, r.off, need), enc ? ct : pt, nm + ": output"); if (A.gcm) { return; } adset = false; }
			else { untouched(out, nm); c.nontrivial(); Bytes o2(need); m.Transform(in, 0, o2, 0, n); require_eq(o2, enc ? ct : pt, nm + ": after a refused Transform"); adset = false; }
		}
		}
	}
}
// GCM: new nonces under the same key
PROP(gcm_nonces, 1500, 60000)
{
	world(c); BC bc = c.pick(ALL_BC); GCM m(bc); std::vector<size_t> ks; for (auto x : m.LegalKeySizes()) { ks.push_back(x.KeySize()); } Bytes k = c.bytes(ks[c.u(0, ks.size() - 1)]); bool keyed = false; std::string nm = "GCM-" + bc_name(bc); Bytes prev; bool enc = c.flip();
	for (size_t s = 0, e = c.u(1, 6); s < e; ++s)
	{
		bool with = c.chance(1, 3); Bytes iv = c.random_bytes(c.pick<size_t>({ 12, 12, 16, 8, 7, 0, 9, 1 })); if (iv.size()) { iv[0] |= 1; }
		bool rep = keyed && !with && c.chance(1, 3); if (rep) { iv = prev; } 
		bool legal = iv.size() >= 8 && (with || keyed) && !rep; c.desc << (with ? " key" : " no key") << " iv " << iv.size() << (rep ? " repeated" : ""); if (!with && iv.empty()) { continue; } Cipher::SymmetricKey kp(with ? k : Bytes(), iv);
		bool ok = judge(c, legal, nm + (with ? ": key and" : keyed ? ": same key," : ": no key yet,") + fmt(" nonce of %zu bytes%s", iv.size(), rep ? ", repeated" : ""), [&] { m.Initialize(enc, kp); }); c.nontrivial();
		if (!ok) { return; }
		keyed = true; prev = iv; GcmModel M(bc, k, iv, {}); Bytes pt = c.bytes(c.u(1, 60)), ct = M.seal(nullptr, pt), out(pt.size() + 16); const Bytes& in = enc ? pt : ct; if (!enc) { out.resize(pt.size()); } m.Transform(in, 0, out, 0, pt.size()); require_eq(out, enc ? ct : pt, nm + ": output");
	}
}
// stream ciphers
PROP(streams, 4000, 200000)
{
	world(c); StreamObj S; S.make(c); auto& o = *S.o; std::string nm = S.name(); c.desc << nm; bool ready = false, enc = true; std::unique_ptr<StreamModel> M; std::vector<Bytes> ads;
	std::vector<size_t> ks; switch (S.k) { case S_CHACHA: case S_T256: ks = { 32 }; break; case S_CSX: case S_T512: ks = { 64 }; break; case S_RCS: ks = { 32, 64 }; break; case S_RWS: ks = { 16, 32, 64 }; break; default: ks = { 128 }; }
	size_t nl = S.noncelen(), maxinfo = S.k == S_CHACHA || S.k == S_CSX ? 0 : 0; (void)maxinfo;
	for (size_t s = 0, e = c.u(2, 8); s < e; ++s)
	{
		switch (c.u(0, 4))
		{
		case 0:
		{
			size_t procs = o.ParallelProfile().ProcessorCount(), d = max_degree(c, procs); c.desc << " degree " << d; judge(c, d != 0 && d % 2 == 0 && d <= procs, nm + fmt(": ParallelMaxDegree(%zu) with %zu processors", d, procs), [&] { o.ParallelMaxDegree(d); }); break;
		}
		case 1: case 2:
		{
			size_t kl = near(c, ks, 11), il = near(c, { nl }, 11), fl = 0; bool iok = true;
			switch (S.k) { case S_CHACHA: case S_T256: fl = near(c, { 0, 16, 16 }); iok = fl == 0 || fl == 16; break; case S_T512: case S_T1024: fl = near(c, { 0, 16, 16 }); iok = fl <= 16; break; case S_RCS: case S_RWS: fl = near(c, { 0, 4, 20 }); iok = fl == 0 || fl >= 4; break; default: fl = near(c, { 0, 48, 48 }); iok = fl <= 48; }
			auto& p = o.ParallelProfile(); bool pok = !p.IsParallel() || (p.ParallelBlockSize() >= p.ParallelMinimumSize() && p.ParallelBlockSize() <= p.ParallelMaximumSize() && p.ParallelBlockSize() % p.ParallelMinimumSize() == 0);
			bool legal = in(kl, ks) && il == nl && iok && pok; Bytes k = c.bytes(kl), iv = c.bytes(il), f = c.bytes(fl); enc = c.flip(); c.desc << "\n key " << kl << " iv " << il << " info " << fl << (pok ? "" : " bad block"); if (k.empty() && iv.empty() && f.empty()) { continue; } auto kp = mkkey(c, k, iv, f);
			if (judge(c, legal, nm + fmt(": Initialize with a key of %zu, a nonce of %zu and an info of %zu bytes", kl, il, fl), [&] { o.Initialize(enc, *kp); })) { ready = true; M.reset(new StreamModel(S.k, S.auth, k, iv, f)); ads.clear(); } else { c.nontrivial(); if (ready) { return; } }
			break;
		}
		case 3:
		{
			Bytes a = c.bytes(c.u(1, 40)); bool zero = S.k != S_CHACHA && c.chance(1, 5); bool legal = ready && S.auth && !zero; c.desc << " aad " << a.size();
			if (judge(c, legal, nm + ": SetAssociatedData" + (!ready ? " before Initialize" : !S.auth ? " without authentication" : zero ? " of no bytes" : ""), [&] { o.SetAssociatedData(a, 0, zero ? 0 : a.size()); })) { ads.push_back(a); } else { c.nontrivial(); }
			break;
		}
		default:
		{
			if (!ready || !S.auth) { SBytes t(64); judge(c, false, nm + ": Tag() with no tag", [&] { o.Tag(); }); judge(c, false, nm + ": Tag(SecureVector) with no tag", [&] { o.Tag(t); }); c.nontrivial(); if (!ready) { continue; } }
			size_t n = c.u(1, 200); Bytes pt = c.bytes(n), ct = M->seal(ads, pt); ads.clear(); const Bytes& in = enc ? pt : ct; size_t need = enc ? ct.size() : n;
			Room r = S.auth && enc ? room(c, need, false) : Room{ need, 0, need, true }; if (r.off + n > r.size) { r = Room{ need, 0, need, true }; } Bytes out(r.size, 0x5A); c.desc << " message " << n;
			if (judge(c, r.fits, nm + fmt(": Transform of %zu bytes into %zu at %zu", n, r.size, r.off), [&] { o.Transform(in, 0, out, r.off, n); })) { require_eq(ref::sub(out, r.off, need), enc ? ct : pt, nm + ": output"); }
			else { c.nontrivial(); untouched(out, nm); Bytes o2(need); o.Transform(in, 0, o2, 0, n); require_eq(o2, enc ? ct : pt, nm + ": after a refused Transform"); }
		}
		}
	}
}
// message authentication
PROP(macs, 5000, 250000)
{
	using namespace CEX::Mac; world(c); std::unique_ptr<IMac> m; std::string nm; size_t tag = 16, kmin = 0, smin = 0; std::vector<size_t> keys; bool saltopt = true; std::unique_ptr<IBC> own; std::unique_ptr<IDigest> dg; int kind = (int)c.u(0, 5); BC bc = BC::AES; ref::Blk E; std::function<Bytes(const Bytes&, const Bytes&, const Bytes&)> want;
	switch (kind)
	{
	case 0: case 1: bc = c.pick({ BC::AES, BC::AES, BC::Serpent, BC::RHXH256, BC::RHXS512, BC::SHXH512 }); nm = (kind ? "GMAC-" : "CMAC-") + bc_name(bc); keys = cipher_keys(bc); if (kind) { m.reset(new GMAC(bc)); smin = 12; saltopt = false; } else { m.reset(new CMAC(bc)); } 
		want = [bc, kind](const Bytes& k, const Bytes& iv, const Bytes& d) { ref::Blk e = bc_fn(bc, k, {}, true); return kind ? ref::gcm_tag(e, iv, d, Bytes()) : ref::cmac(e, d); }; break;
	case 2: { bool b = c.flip(); nm = b ? "HMAC512" : "HMAC256"; tag = b ? 64 : 32; m.reset(new CEX::Mac::HMAC(b ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256)); kmin = 8; want = [b](const Bytes& k, const Bytes&, const Bytes& d) { return ref::hmac(b ? "SHA512" : "SHA256", k, d); }; break; }
	case 3: { KmacModes km = c.pick({ KmacModes::KMAC128, KmacModes::KMAC256, KmacModes::KMAC512 }); tag = km == KmacModes::KMAC128 ? 16 : km == KmacModes::KMAC256 ? 32 : 64; size_t rate = tag == 16 ? 168 : tag == 32 ? 136 : 72; nm = fmt("KMAC%zu", tag == 64 ? (size_t)512 : tag * 8); m.reset(new KMAC(km)); kmin = 16; smin = 4; want = [rate, tag](const Bytes& k, const Bytes& iv, const Bytes& d) { return ref::kmac(rate, k, d, tag, iv); }; break; }
	case 4: { KpaModes km = c.pick({ KpaModes::KPA128, KpaModes::KPA256, KpaModes::KPA512 }); tag = km == KpaModes::KPA128 ? 16 : km == KpaModes::KPA256 ? 32 : 64; nm = fmt("KPA%zu", tag * 8); m.reset(new KPA(km)); kmin = 16; smin = m->MinimumSaltSize(); want = [tag](const Bytes& k, const Bytes& iv, const Bytes& d) { return ref::kpa(k, iv, d, tag); }; break; }
	default: nm = "Poly1305"; m.reset(new Poly1305()); keys = { 32 }; want = [](const Bytes& k, const Bytes&, const Bytes& d) { return ref::poly1305(k, d); };
	}
	c.desc << nm; c.tag(nm.substr(0, 4));
	if (c.chance(1, 10))
	{
		judge(c, false, "MacFromName(None)", [&] { std::unique_ptr<IMac> x(Helper::MacFromName::GetInstance(Macs::None)); });
		judge(c, false, "HMAC(None)", [] { CEX::Mac::HMAC x(SHA2Digests::None); }); judge(c, false, "HMAC(null)", [] { CEX::Mac::HMAC x((IDigest*)nullptr); }); judge(c, false, "KMAC(None)", [] { KMAC x(KmacModes::None); }); judge(c, false, "KPA(None)", [] { KPA x(KpaModes::None); });
		judge(c, false, "CMAC(None)", [] { CMAC x(BC::None); }); judge(c, false, "CMAC(null)", [] { CMAC x((IBC*)nullptr); }); judge(c, false, "GMAC(None)", [] { GMAC x(BC::None); }); judge(c, false, "GMAC(null)", [] { GMAC x((IBC*)nullptr); });
	}
	bool ready = false; Bytes k, iv, fed; bool done = false;
	for (size_t s = 0, e = c.u(2, 9); s < e; ++s)
	{
		switch (c.u(0, 3))
		{
		case 0: case 1:
		{
			size_t kl = keys.size() ? near(c, keys) : near(c, { kmin, kmin, 32, 64, 128 }), il = smin ? near(c, { smin, smin, 0, 40 }) : 0;
			bool legal = (keys.size() ? in(kl, keys) : kl >= kmin) && (il >= smin || (il == 0 && saltopt)); if (kind < 2 && unsure(bc, kl)) { continue; } if (kind == 5 && kl > 32) { continue; } // a longer Poly1305 key is cut
			if (kind < 2 && saltopt && kind == 0) { il = 0; }
			Bytes k2 = c.bytes(kl), iv2 = c.bytes(il); c.desc << "\n key " << kl << " salt " << il; if (k2.empty() && iv2.empty()) { continue; } auto kp = mkkey(c, k2, iv2, {});
			if (judge(c, legal, nm + fmt(": Initialize with a key of %zu and a salt of %zu bytes", kl, il), [&] { m->Initialize(*kp); })) { ready = true; k = k2; iv = iv2; fed.clear(); done = false; } else { c.nontrivial(); require(ready || !m->IsInitialized(), nm + ": initialised by a refused call"); if (ready) { return; } }
			break;
		}
		case 2:
		{
			if (ready && done) { continue; }
			Bytes d = c.bytes(c.u(0, 200)); size_t off = 0, n = d.size(); if (c.chance(1, 3)) { off = c.pick<size_t>({ 0, 1, d.size(), d.size() + 1, SIZE_MAX }); n = c.pick<size_t>({ 0, 1, d.size(), d.size() + 1, SIZE_MAX }); }
			bool legal = ready && off <= d.size() && n <= d.size() - off; if (!legal && n == 0) { continue; } c.desc << " update";
			if (judge(c, legal, nm + (!ready ? ": Update before Initialize" : fmt(": Update of %zu bytes at %zu of %zu", n, off, d.size())), [&] { m->Update(d, off, n); })) { Bytes x = ref::sub(d, off, n); fed.insert(fed.end(), x.begin(), x.end()); } else { c.nontrivial(); }
			break;
		}
		default:
		{
			if (ready && done) { continue; }
			bool sv = c.flip(), comp = c.chance(1, 3) && fed.empty(); Room r = room(c, tag); if (comp) { r.off = 0; r.fits = r.size >= tag; } if (r.fits) { r.size = r.off + tag; }
			Bytes d = comp ? c.bytes(c.u(0, 60)) : Bytes(), o(r.size, 0x5A); SBytes so(r.size, 0x5A); c.desc << (comp ? " compute" : " finalize");
			bool ok = judge(c, ready && r.fits, nm + (comp ? ": Compute" : ": Finalize") + (ready ? fmt(" into %zu at %zu", r.size, r.off) : std::string(" before Initialize")), [&] { if (comp) { m->Compute(d, o); } else if (sv) { m->Finalize(so, r.off); } else { m->Finalize(o, r.off); } });
			if (ok) { Bytes got = comp ? o : sv ? unsec(so) : o; require_eq(ref::sub(got, r.off, tag), want(k, iv, ref::cat({ fed, d })), nm + ": tag"); done = true; } else { untouched(o, nm); untouched(so, nm); c.nontrivial(); }
		}
		}
	}
}
// key derivation
PROP(kdfs, 3000, 100000)
{
	using namespace CEX::Kdf; std::unique_ptr<IKdf> k; std::string nm; size_t kmin = 0; int kind = (int)c.u(0, 4); bool b = c.flip(); SHA2Digests sd = b ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256; int sm = (int)c.u(0, 2); ShakeModes sh = sm == 0 ? ShakeModes::SHAKE128 : sm == 1 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512; size_t hs = b ? 64 : 32, maxblocks = 0;
	std::unique_ptr<IKdf> twin;
	for (auto* p : { &k, &twin }) { switch (kind) { case 0: nm = "HKDF"; kmin = 16; maxblocks = 255; p->reset(new HKDF(sd)); break; case 1: nm = "KDF2"; kmin = 16; maxblocks = 0; p->reset(new KDF2(sd)); break; case 2: nm = "PBKDF2"; kmin = 4; p->reset(new PBKDF2(sd, 2)); break; case 3: nm = "SHAKE"; kmin = 4; p->reset(new SHAKE(sh)); break; default: nm = "SCBKDF"; kmin = 16; p->reset(new SCBKDF(sh, 1, 1)); } }
	c.desc << nm; c.tag(nm);
	if (c.chance(1, 10))
	{
		SHA2Digests no = SHA2Digests::None; IDigest* nd = nullptr; std::unique_ptr<IDigest> bl(new Digest::Blake256(false));
		judge(c, false, "KdfFromName(None)", [&] { std::unique_ptr<IKdf> x(Helper::KdfFromName::GetInstance(Kdfs::None)); });
		judge(c, false, "HKDF(None)", [&] { HKDF x(no); }); judge(c, false, "HKDF(null)", [&] { HKDF x(nd); }); judge(c, false, "HKDF(Blake)", [&] { HKDF x(bl.get()); }); judge(c, false, "KDF2(None)", [&] { KDF2 x(no); }); judge(c, false, "KDF2(null)", [&] { KDF2 x(nd); });
		judge(c, false, "PBKDF2(None)", [&] { PBKDF2 x(no, 3); }); judge(c, false, "PBKDF2(null)", [&] { PBKDF2 x(nd, 3); }); judge(c, false, "PBKDF2(Blake)", [&] { PBKDF2 x(bl.get(), 3); }); judge(c, false, "SHAKE(None)", [&] { SHAKE x(ShakeModes::None); }); judge(c, false, "SCBKDF(None)", [&] { SCBKDF x(ShakeModes::None, 1, 1); });
	}
	bool ready = false; uint64_t blocks = 0; size_t smin = k->MinimumSaltSize();
	for (size_t s = 0, e = c.u(2, 8); s < e; ++s)
	{
		if (c.u(0, 2) == 0 || (s == 0 && c.flip()))
		{
			size_t kl = near(c, { kmin, kmin, 32, 64 }), il = near(c, { 0, 4, 32 }), fl = near(c, { 0, 4, 32 }); Bytes key = c.bytes(kl), iv = c.bytes(il), info = c.bytes(fl);
			if (kind <= 2 && il == 0 && fl && fl < 4) { continue; } if (kind == 4) { if (il && il < 4) { continue; } } bool legal = kl >= kmin && (kind <= 2 ? il == 0 || il + fl >= smin : kind == 4 || il == 0 || il >= 4); c.desc << "\n key " << kl << " salt " << il << " info " << fl;
			if (kind <= 2) { require(smin == (kind == 2 ? 4u : 0u) || smin == 4, nm + ": MinimumSaltSize"); }
			if (key.empty() && iv.empty() && info.empty()) { continue; } auto kp = mkkey(c, key, iv, info); c.nontrivial();
			if (judge(c, legal, nm + fmt(": Initialize with a key of %zu, a salt of %zu and an info of %zu bytes", kl, il, fl), [&] { k->Initialize(*kp); })) { ready = true; blocks = 0; twin->Initialize(*kp); } else { require(ready || !k->IsInitialized(), nm + ": initialised by a refused call"); if (ready) { return; } }
		}
		else
		{
			size_t n = c.u(1, 200); if (maxblocks && c.chance(1, 3)) { n = near(c, { (size_t)(maxblocks - blocks) * hs }); if (n == 0) { continue; } }
			int how = (int)c.u(0, 3); Room r = how < 2 ? Room{ n, 0, n, true } : room(c, n); uint64_t nb = (n + hs - 1) / hs; bool over = maxblocks && blocks + nb > maxblocks; Bytes o(r.size, 0x5A); SBytes so(r.size, 0x5A); c.desc << " generate " << n;
			bool ok = judge(c, ready && r.fits && !over, nm + (ready ? fmt(": Generate %zu bytes at %zu of %zu after %llu blocks", n, r.off, r.size, (unsigned long long)blocks) : std::string(": Generate before Initialize")), [&] { switch (how) { case 0: k->Generate(o); break; case 1: k->Generate(so); break; case 2: k->Generate(o, r.off, n); break; default: k->Generate(so, r.off, n); } });
			if (ok) { Bytes w(n); twin->Generate(w); Bytes got = how % 2 ? unsec(so) : o; require_eq(ref::sub(got, r.off, n), w, nm + ": output after refused calls"); blocks += nb; } else { untouched(o, nm); untouched(so, nm); c.nontrivial(); }
		}
	}
}
// DRBGs
PROP(drbgs, 2000, 60000)
{
	using namespace CEX::Drbg; world(c); int kind = (int)c.u(0, 5); std::string nm; std::vector<size_t> keys; size_t upmin = 0; (void)upmin;
	auto mk = [&]() -> IDrbg* { switch (kind) { case 0: nm = "BCG"; keys = { 32, 64 }; return new BCG(Providers::None, false); case 1: nm = "CSG128"; keys = { 16, 32 }; return new CSG(ShakeModes::SHAKE128, Providers::None, false); case 2: nm = "CSG256"; keys = { 32, 64 }; return new CSG(ShakeModes::SHAKE256, Providers::None, false); case 3: nm = "CSG512"; keys = { 64, 128 }; return new CSG(ShakeModes::SHAKE512, Providers::None, false); case 4: nm = "HCG256"; return new HCG(SHA2Digests::SHA2256, Providers::None); default: nm = "HCG512"; return new HCG(SHA2Digests::SHA2512, Providers::None); } };
	std::unique_ptr<IDrbg> g(mk()), twin(mk()); c.desc << nm; c.tag(nm); std::vector<size_t> ks; for (auto k : g->LegalKeySizes()) { ks.push_back(k.KeySize()); } require(ks.size() != 0, nm + ": no legal key sizes");
	if (c.chance(1, 10)) { Provider::IProvider* np = nullptr; judge(c, false, "DrbgFromName(None)", [&] { std::unique_ptr<IDrbg> x(Helper::DrbgFromName::GetInstance(Drbgs::None)); }); judge(c, false, "BCG(null provider)", [&] { BCG x(np); }); judge(c, false, "CSG(None)", [&] { CSG x(ShakeModes::None, Providers::None); }); judge(c, false, "CSG(null provider)", [&] { CSG x(ShakeModes::SHAKE256, np); }); judge(c, false, "HCG(None)", [&] { HCG x(SHA2Digests::None, Providers::None); }); judge(c, false, "HCG(null digest)", [&] { HCG x((IDigest*)nullptr, np); }); }
	bool ready = false; size_t maxreq = g->MaxRequestSize();
	for (size_t s = 0, e = c.u(2, 7); s < e; ++s)
	{
		switch (c.u(0, 3))
		{
		case 0:
		{
			size_t kl = near(c, ks), il = kind == 0 ? near(c, { 32 }, 11) : 0; if (kind > 0 && c.flip()) { il = c.u(4, 40); } Bytes k = c.bytes(kl), iv = c.bytes(il); bool legal = (kind == 0 ? in(kl, ks) : kl >= 16) && (kind != 0 || il == 32); if (kind > 0 && il && il < 4) { continue; } c.desc << "\n key " << kl << " iv " << il; c.nontrivial(); if (k.empty() && iv.empty()) { continue; } auto kp = mkkey(c, k, iv, {});
			if (judge(c, legal, nm + fmt(": Initialize with a key of %zu and a nonce of %zu bytes", kl, il), [&] { g->Initialize(*kp); })) { twin->Initialize(*kp); ready = true; } else { require(ready || !g->IsInitialized(), nm + ": initialised by a refused call"); if (ready) { return; } }
			break;
		}
		case 1:
		{
			if (!ready) { continue; }
			size_t kl = near(c, ks), low = kind < 4 ? 16 : g->SecurityStrength() / 8; if (kind >= 4 && !in(kl, ks) && kl >= low) { continue; } Bytes k = c.bytes(kl); bool sv = c.flip(); c.desc << " update " << kl; if (judge(c, kind == 0 ? in(kl, ks) : kl >= low, nm + fmt(": Update with %zu bytes", kl), [&] { if (sv) { g->Update(sec(k)); } else { g->Update(k); } })) { twin->Update(k); } else { c.nontrivial(); }
			break;
		}
		default:
		{
			size_t n = c.u(1, 300); if (c.chance(1, 8)) { n = maxreq + c.u(0, 2) - 1; } int how = (int)c.u(0, 3); Room r = how < 2 ? Room{ n, 0, n, true } : room(c, n); Bytes o(r.size, 0x5A); SBytes so(r.size, 0x5A); c.desc << " generate " << n;
			bool legal = ready && r.fits && n <= maxreq;
			bool ok = judge(c, legal, nm + (ready ? fmt(": Generate %zu bytes at %zu of %zu", n, r.off, r.size) : std::string(": Generate before Initialize")), [&] { switch (how) { case 0: g->Generate(o); break; case 1: g->Generate(so); break; case 2: g->Generate(o, r.off, n); break; default: g->Generate(so, r.off, n); } });
			if (ok) { Bytes w(n); twin->Generate(w); require_eq(ref::sub(how % 2 ? unsec(so) : o, r.off, n), w, nm + ": output after refused calls"); } else { untouched(o, nm); untouched(so, nm); c.nontrivial(); }
		}
		}
	}
}
// digests
PROP(digests, 3000, 120000)
{
	world(c); DG d = c.pick(ALL_DIGESTS); bool par = c.flip(); size_t ds = dg_size(d), cores = vf::W->cores; std::string nm = dg_name(d); c.desc << nm << (par ? " parallel" : ""); c.tag(nm);
	if (c.chance(1, 10)) { judge(c, false, "DigestFromName(None)", [&] { std::unique_ptr<IDigest> x(Helper::DigestFromName::GetInstance(DG::None)); }); }
	if (par && cores < 2) { par = false; }
	std::unique_ptr<IDigest> p(Helper::DigestFromName::GetInstance(d, par)); Bytes fed; bool tree = par;
	for (size_t s = 0, e = c.u(2, 8); s < e; ++s)
	{
		switch (c.u(0, 3))
		{
		case 0: { if (fed.size()) { continue; } size_t n = c.pick<size_t>({ 2, 0, 1, 3, 4, 8, 63, 64, 65, 66, 128, 1000 }); c.desc << " degree " << n; c.nontrivial(); if (!tree) { continue; } judge(c, n != 0 && n % 2 == 0 && n <= 64, nm + fmt(": ParallelMaxDegree(%zu)", n), [&] { p->ParallelMaxDegree(n); }); break; }
		case 1: { Bytes m = c.bytes(c.u(0, 300)); p->Update(m, 0, m.size()); fed.insert(fed.end(), m.begin(), m.end()); c.desc << " update"; break; }
		default:
		{
			bool comp = c.chance(1, 3) && fed.empty(); Room r = room(c, ds); if (comp) { r.off = 0; r.fits = r.size >= ds; } Bytes o(r.size, 0x5A), m = comp ? c.bytes(c.u(0, 200)) : Bytes(); c.desc << (comp ? " compute" : " finalize");
			if (judge(c, r.fits, nm + (comp ? ": Compute" : ": Finalize") + fmt(" into %zu at %zu", r.size, r.off), [&] { if (comp) { p->Compute(m, o); } else { p->Finalize(o, r.off); } })) { if (!tree) { require_eq(ref::sub(o, r.off, ds), ref_digest(d, ref::cat({ fed, m })), nm + ": code after refused calls"); } fed.clear(); } else { untouched(o, nm); c.nontrivial(); }
		}
		}
	}
}
// asymmetric ciphers and signers: keys of the wrong scheme, class, parameters or size; use before Initialize or with the wrong key; empty messages; sources that are not there
PROP(asymmetric, 2500, 80000)
{
	struct Row { bool kem; AsymmetricPrimitives prim; AsymmetricParameters par; size_t pk, sk; const SigSet* ss; const KemSet* ks; std::string name; };
	static std::vector<Row> rows; if (rows.empty()) { for (auto& k : kemsets()) { rows.push_back({ true, prim(k), k.p, k.pk, k.sk, nullptr, &k, k.name }); } for (auto& s : sigsets()) { if (s.s != XMS || rows.size() % 4 == 0 || s.cost == 0) { rows.push_back({ false, prim(s), s.p, s.pk, s.sk, &s, nullptr, s.name }); } } }
	const Row& R = rows[c.u(0, rows.size() - 1)]; DetPrng rng(c.u(0, 1000)); c.desc << R.name; c.tag(R.name.substr(0, 5));
	auto twist = [&](bool priv, bool& legal)
	{
		const Row& O = rows[c.u(0, rows.size() - 1)]; AsymmetricPrimitives pr = R.prim; AsymmetricParameters pa = R.par; size_t n = priv ? R.sk : R.pk; AsymmetricKeyTypes cl = R.kem ? priv ? AsymmetricKeyTypes::CipherPrivateKey : AsymmetricKeyTypes::CipherPublicKey : priv ? AsymmetricKeyTypes::SignaturePrivateKey : AsymmetricKeyTypes::SignaturePublicKey; legal = true;
		if (n > 100000 && !c.chance(1, 20)) { n = 5000; legal = false; }
		switch (c.u(0, 7))
		{
		case 0: pr = O.prim; break;
		case 1: cl = c.pick({ AsymmetricKeyTypes::CipherPrivateKey, AsymmetricKeyTypes::CipherPublicKey, AsymmetricKeyTypes::SignaturePrivateKey, AsymmetricKeyTypes::SignaturePublicKey }); break;
		case 2: pa = O.par; break;
		case 3: n = c.flip() ? n + 1 : n - 1; break;
		case 4: n = c.pick<size_t>({ 1, (size_t)(R.kem ? 32 : 16), (size_t)c.u(1, 4000) }); break;
		default: break;
		}
		bool signk = cl == AsymmetricKeyTypes::SignaturePrivateKey || cl == AsymmetricKeyTypes::SignaturePublicKey, ciph = cl == AsymmetricKeyTypes::CipherPrivateKey || cl == AsymmetricKeyTypes::CipherPublicKey, pv = cl == AsymmetricKeyTypes::SignaturePrivateKey || cl == AsymmetricKeyTypes::CipherPrivateKey;
		bool fit = false; for (auto& x : rows) { fit = fit || (x.prim == R.prim && x.par == pa && (pv ? x.sk : x.pk) == n); }
		legal = pr == R.prim && (R.kem ? ciph : signk) && fit; c.desc << " key of " << n << " bytes, primitive " << (int)pr << " class " << (int)cl << " parameters " << (int)pa << (legal ? " (legal)" : "");
		return std::unique_ptr<AsymmetricKey>(new AsymmetricKey(c.random_bytes(n), pr, cl, pa));
	};
	c.nontrivial();
	if (c.chance(1, 6))
	{
		CEX::Prng::IPrng* no = nullptr; bool src = c.flip(); // without a source, or without parameters
		judge(c, false, R.name + (src ? " without a random source" : " without parameters"), [&] { CEX::Prng::IPrng* p = src ? no : &rng; if (R.kem) { KemSet k = *R.ks; if (!src) { k.p = AsymmetricParameters::None; } mkkem(k, p); } else { SigSet s = *R.ss; if (!src) { s.p = AsymmetricParameters::None; } mksigner(s, p); } });
		return;
	}
	bool priv = c.flip(), legal = false;
	if (R.kem)
	{
		Kem k = mkkem(*R.ks, &rng); auto key = twist(priv, legal); if (!judge(c, legal, R.name + ": Initialize", [&] { k->Initialize(key.get()); })) { require(!k->IsInitialized(), R.name + ": initialised by a refused key"); return; }
		if (key->KeyClass() == AsymmetricKeyTypes::CipherPrivateKey && key->Parameters() == R.par) { size_t n = near(c, { R.ks->ct }, 3); if (n != R.ks->ct) { Bytes s(32, 0x5A); c.desc << " ciphertext " << n; bool ok = false; judge(c, false, R.name + fmt(": a ciphertext of %zu bytes", n), [&] { ok = k->Decapsulate(c.random_bytes(n), s); if (!ok) { throw CEX::Exception::CryptoException("", "", "", CEX::Enumeration::ErrorCodes::InvalidParam); } }); } }
		return;
	}
	Signer s = mksigner(*R.ss, &rng); Bytes msg = c.bytes(c.u(1, 40)), sig;
	auto use = [&](const char* when, bool cansign, bool canverify)
	{
		if (c.flip() && !cansign) { Bytes g; judge(c, false, R.name + ": Sign " + when, [&] { s->Sign(msg, g); }); }
		if (!canverify) { Bytes g = c.random_bytes(R.ss->sig + msg.size()), m; bool ok = false; judge(c, false, R.name + ": Verify " + when, [&] { ok = s->Verify(g, m); if (!ok) { throw CEX::Exception::CryptoException("", "", "", CEX::Enumeration::ErrorCodes::InvalidParam); } }); }
		if (cansign) { Bytes g, none; judge(c, false, R.name + ": Sign an empty message", [&] { s->Sign(none, g); }); }
		if (canverify) { Bytes g = c.random_bytes(near(c, { 0, R.ss->sig - 1 })), m; if (g.size() < R.ss->sig) { bool ok = false; judge(c, false, R.name + fmt(": Verify a signature of %zu bytes", g.size()), [&] { ok = s->Verify(g, m); if (!ok) { throw CEX::Exception::CryptoException("", "", "", CEX::Enumeration::ErrorCodes::InvalidParam); } }); } }
	};
	if (c.chance(1, 3)) { use("before Initialize", false, false); }
	auto key = twist(priv, legal); if (!judge(c, legal, R.name + ": Initialize", [&] { s->Initialize(key.get()); })) { require(!s->IsInitialized(), R.name + ": initialised by a refused key"); if (c.flip()) { use("after a refused key", false, false); } return; }
	bool pv = key->KeyClass() == AsymmetricKeyTypes::SignaturePrivateKey; if (key->Parameters() != R.par) { return; } use(pv ? "with the signing key" : "with the public key", pv, !pv);
}
