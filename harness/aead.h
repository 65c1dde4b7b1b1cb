// models of GCM and of the HBA construction, and the objects under test
#pragma once
#include "modes.h"
#include "kdfmodel.h"
#include "GCM.h"
#include "HBA.h"
#include "AeadModeFromName.h"
#include "Macs.h"
using namespace CEX; using namespace CEX::Enumeration;
typedef Cipher::Block::Mode::IAeadMode IAead;
inline size_t mac_tag(Macs m) { return m == Macs::Poly1305 ? 16 : m == Macs::HMACSHA2512 || m == Macs::KMAC512 ? 64 : 32; }
inline Bytes mac_of(Macs m, const Bytes& key, const Bytes& msg)
{
	switch (m)
	{
	case Macs::HMACSHA2256: return ref::hmac("SHA256", key, msg);
	case Macs::HMACSHA2512: return ref::hmac("SHA512", key, msg);
	case Macs::KMAC256: return ref::kmac(136, key, msg, 32, {});
	case Macs::KMAC512: return ref::kmac(72, key, msg, 64, {});
	default: return ref::poly1305(key, msg);
	}
}
inline Bytes le64(uint64_t v) { Bytes b(8); ref::ple(&b[0], v, 8); return b; }
struct AeadMsg { Bytes aad; bool ad; Bytes pt, ct; };
// one keyed session
struct AeadModel
{
	virtual ~AeadModel() {}
	virtual Bytes seal(const Bytes* aad, const Bytes& m) = 0; // ciphertext and tag
};
struct GcmModel : AeadModel
{
	ref::Blk E; Bytes iv;
	GcmModel(BC b, const Bytes& key, const Bytes& n, const Bytes& info) : E(bc_fn(b, key, info, true)), iv(n) {}
	Bytes seal(const Bytes* aad, const Bytes& m) override { Bytes c = ref::gcm_crypt(E, iv, m); return ref::cat({ c, ref::gcm_tag(E, iv, aad ? *aad : Bytes(), c) }); }
};
// a 16-byte nonce whose hashed counter block J0 ends in the given four bytes (the field inverse is H^(2^128-2))
inline Bytes gcm_nonce(const ref::Blk& E, const Bytes& head12, uint32_t low)
{
	Bytes H = E(Bytes(16, 0)), inv, sq = H; for (int i = 1; i < 128; ++i) { sq = ref::gfmul(sq, sq); inv = inv.empty() ? sq : ref::gfmul(inv, sq); }
	Bytes j = head12, l(16, 0); j.resize(16); for (int i = 0; i < 4; ++i) { j[12 + i] = (uint8_t)(low >> (24 - 8 * i)); } l[15] = 128;
	return ref::gfmul(ref::xorb(ref::gfmul(j, inv), l), inv);
}
// HBA: cipher key and MAC key from cSHAKE (or HKDF for HMAC) over key, custom = info, name = counter | key bits | name;
// each message: MAC(aad | le32 len | nonce | ciphertext | le64 total), then a new MAC key from the old one and the byte counter
struct HbaModel : AeadModel
{
	Macs mac; ModeModel ctr; Bytes mk, cust, name; uint64_t n = 1; size_t kl; bool hm, first = true;
	std::unique_ptr<Stream> gen(const Bytes& k) { memcpy(&name[0], le64(n).data(), 8); if (hm) { return std::unique_ptr<Stream>(new HkdfStream(kl == 64 ? "SHA512" : "SHA256", k, name, cust)); } return std::unique_ptr<Stream>(new XofStream(mac == Macs::KMAC512 ? 72 : 136, k, cust, name)); }
	size_t mklen() const { return hm ? (kl == 64 ? 64 : 32) : mac == Macs::KMAC512 ? 64 : 32; }
	HbaModel(BC b, Macs m, const Bytes& key, const Bytes& nonce, const Bytes& info) : mac(m), cust(info), kl(key.size()), hm(m == Macs::HMACSHA2256 || m == Macs::HMACSHA2512)
	{
		std::string nm = "HBA-" + bc_name(b) + "-" + MacConvert::ToName(m);
		name = ref::cat({ Bytes(8), Bytes{ (uint8_t)(kl * 8), (uint8_t)(kl * 8 >> 8) }, ref::str(nm) });
		auto g = gen(key); Bytes ck = g->next(hm ? (kl == 64 ? 64 : 32) : kl); mk = g->next(mklen());
		ctr = ModeModel(M_ICM, b, ck, info, nonce, true);
	}
	Bytes seal(const Bytes* aad, const Bytes& m) override
	{
		Bytes in; if (aad && aad->size()) { Bytes l(4); ref::ple(&l[0], aad->size(), 4); in = ref::cat({ *aad, l }); }
		in = ref::cat({ in, ctr.s }); Bytes c = ctr.next(m); n += m.size(); in = ref::cat({ in, c, le64(n + 16 + 8) });
		Bytes t = mac_of(mac, mk, in); mk = gen(mk)->next(mklen()); return ref::cat({ c, t });
	}
};
struct Aead
{
	std::unique_ptr<IBC> lent; std::unique_ptr<IAead> m; bool gcm; BC bc; Macs mac = Macs::None; std::string name;
	void make(pbt::Case& c)
	{
		gcm = c.flip(); bc = c.pick(ALL_BC); if (!gcm) { mac = c.pick({ Macs::KMAC256, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KMAC512, Macs::Poly1305 }); }
		rebuild(c);
		name = (gcm ? "GCM-" + bc_name(bc) : "HBA-" + bc_name(bc) + "-" + MacConvert::ToName(mac)); c.tag(gcm ? "GCM" : "HBA " + MacConvert::ToName(mac));
	}
	void rebuild(pbt::Case& c)
	{
		m.reset(); lent.reset(); if (c.chance(1, 3)) { lent.reset(Helper::BlockCipherFromName::GetInstance(bc)); }
		AeadModes am = gcm ? AeadModes::GCM : mac == Macs::KMAC256 ? AeadModes::HBAS256 : mac == Macs::KMAC512 ? AeadModes::HBAS512 : mac == Macs::HMACSHA2256 ? AeadModes::HBAH256 : mac == Macs::HMACSHA2512 ? AeadModes::HBAH512 : AeadModes::None;
		using namespace Cipher::Block::Mode; StreamAuthenticators sa = static_cast<StreamAuthenticators>(mac);
		if (am != AeadModes::None && c.flip()) { m.reset(lent ? Helper::AeadModeFromName::GetInstance(lent.get(), am) : Helper::AeadModeFromName::GetInstance(bc, am)); }
		else if (gcm) { m.reset(lent ? new GCM(lent.get()) : new GCM(bc)); }
		else { m.reset(lent ? new HBA(lent.get(), sa) : new HBA(bc, sa)); }
	}
	size_t tag() const { return gcm ? 16 : mac_tag(mac); }
	size_t keylen(pbt::Case& c) { auto ks = m->LegalKeySizes(); return ks[c.u(0, ks.size() - 1)].KeySize(); }
	size_t noncelen(pbt::Case& c) { return !gcm ? 16 : c.pick<size_t>({ 12, 16, 12, 12 + (size_t)c.u(0, 40), 32 }); }
	std::unique_ptr<AeadModel> model(const Bytes& k, const Bytes& iv, const Bytes& info) { return std::unique_ptr<AeadModel>(gcm ? (AeadModel*)new GcmModel(bc, k, iv, info) : new HbaModel(bc, mac, k, iv, info)); }
	void aad(pbt::Case& c, const Bytes& a)
	{
		size_t o = c.flip() ? c.u(0, 20) : 0; Bytes b(o, 0x77); b.insert(b.end(), a.begin(), a.end()); b.resize(b.size() + c.u(0, 3), 0x78);
		if (c.chance(1, 4)) { m->SetAssociatedData(sec(b), o, a.size()); } else { m->SetAssociatedData(b, o, a.size()); }
	}
};
