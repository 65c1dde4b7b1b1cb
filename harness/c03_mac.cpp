// Message authentication codes
// LIBS: -lcrypto
#include "cexutil.h"
#include "modelref.h"
#include "MacFromName.h"
#include "BlockCipherFromName.h"
#include "CMAC.h"
#include "GMAC.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "Poly1305.h"
#include "GHASH.h"
#include "SHA2256.h"
#include "SHA2512.h"
using namespace CEX;
using namespace CEX::Enumeration;
using Mac::IMac;

struct M
{
	std::string name; size_t tag, block; bool xof; // xof: the whole remaining output is written
	std::unique_ptr<IMac> mac;
	std::unique_ptr<CEX::Digest::IDigest> dgt; std::unique_ptr<Cipher::Block::IBlockCipher> own, model; // ciphers handed in by reference / used by the model
	std::unique_ptr<Digest::IDigest> dig;
	BlockCiphers bc = BlockCiphers::None; KmacModes km = KmacModes::None; int kind = 0; // 0 cmac 1 gmac 2 hmac 3 kmac 4 kpa 5 poly
	std::function<Bytes(const Bytes&, size_t)> want; // message, output length
};
static size_t cipher_key(pbt::Case& c, BlockCiphers b) { return b == BlockCiphers::AES || b == BlockCiphers::Serpent ? c.pick<size_t>({ 16, 24, 32 }) : c.pick<size_t>({ 32, 64, 16, 24 }); }
static M make(pbt::Case& c)
{
	M m; m.kind = (int)c.u(0, 5); m.xof = false;
	switch (m.kind)
	{
	case 0: case 1:
	{
		m.bc = c.pick({ BlockCiphers::AES, BlockCiphers::AES, BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512 });
		m.name = m.kind ? "GMAC" : "CMAC"; m.tag = m.block = 16;
		bool fac = c.flip();
		if (fac && m.bc != BlockCiphers::Serpent)
		{
			static const std::map<BlockCiphers, int> off = { { BlockCiphers::AES, 0 }, { BlockCiphers::RHXH256, 1 }, { BlockCiphers::RHXH512, 2 }, { BlockCiphers::RHXS256, 3 }, { BlockCiphers::RHXS512, 4 } };
			m.mac.reset(Helper::MacFromName::GetInstance(static_cast<Macs>((m.kind ? (int)Macs::GMAC : (int)Macs::CMAC) + off.at(m.bc))));
		}
		else if (c.flip()) { if (m.kind) { m.mac.reset(new Mac::GMAC(m.bc)); } else { m.mac.reset(new Mac::CMAC(m.bc)); } }
		else { m.own.reset(Helper::BlockCipherFromName::GetInstance(m.bc)); if (m.kind) { m.mac.reset(new Mac::GMAC(m.own.get())); } else { m.mac.reset(new Mac::CMAC(m.own.get())); } c.tag("cipher passed in"); }
		break;
	}
	case 2:
	{
		bool b = c.flip(); m.name = b ? "HMAC-SHA512" : "HMAC-SHA256"; m.tag = b ? 64 : 32; m.block = b ? 128 : 64;
		if (c.flip()) { m.mac.reset(Helper::MacFromName::GetInstance(b ? Macs::HMACSHA2512 : Macs::HMACSHA2256)); }
		else if (c.flip()) { m.mac.reset(new Mac::HMAC(b ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256)); }
		else { m.dgt.reset(b ? (CEX::Digest::IDigest*)new CEX::Digest::SHA2512() : new CEX::Digest::SHA2256()); m.mac.reset(new Mac::HMAC(m.dgt.get())); c.tag("digest passed in"); }
		break;
	}
	case 3:
	{
		m.km = c.pick({ KmacModes::KMAC128, KmacModes::KMAC256, KmacModes::KMAC512 }); m.xof = true;
		m.name = m.km == KmacModes::KMAC128 ? "KMAC128" : m.km == KmacModes::KMAC256 ? "KMAC256" : "KMAC512"; m.tag = m.km == KmacModes::KMAC128 ? 16 : m.km == KmacModes::KMAC256 ? 32 : 64; m.block = m.km == KmacModes::KMAC128 ? 168 : m.km == KmacModes::KMAC256 ? 136 : 72;
		if (c.flip()) { m.mac.reset(Helper::MacFromName::GetInstance(static_cast<Macs>(m.km))); } else { m.mac.reset(new Mac::KMAC(m.km)); }
		break;
	}
	case 4:
	{
		Macs k = c.pick({ Macs::KPA128, Macs::KPA256, Macs::KPA512 }); m.xof = true;
		m.name = k == Macs::KPA128 ? "KPA128" : k == Macs::KPA256 ? "KPA256" : "KPA512"; m.tag = k == Macs::KPA128 ? 16 : k == Macs::KPA256 ? 32 : 64; m.block = 8 * (k == Macs::KPA128 ? 168 : k == Macs::KPA256 ? 136 : 72);
		m.mac.reset(Helper::MacFromName::GetInstance(k));
		break;
	}
	default: m.name = "Poly1305"; m.tag = m.block = 16; m.mac.reset(c.flip() ? new Mac::Poly1305 : Helper::MacFromName::GetInstance(Macs::Poly1305)); break;
	}
	return m;
}
static void key(pbt::Case& c, M& m)
{
	Bytes k, iv, info;
	switch (m.kind)
	{
	case 0: case 1:
	{
		k = c.bytes(cipher_key(c, m.bc)); if (m.kind == 1) { iv = c.bytes(c.chance(1, 2) ? 12 : c.len(80, { 16 }) + 12); } else if (c.flip()) { iv = c.bytes(16); }
		if (m.bc != BlockCiphers::AES && m.bc != BlockCiphers::Serpent && c.flip()) { info = c.bytes(c.u(1, 20)); }
		ref::Blk E;
		if (m.bc == BlockCiphers::AES) { E = ref::OsslAes(k).fn(); }
		else
		{
			m.model.reset(Helper::BlockCipherFromName::GetInstance(m.bc)); Cipher::SymmetricKey kp(k, Bytes(), info); m.model->Initialize(true, kp);
			auto* p = m.model.get(); E = [p](const Bytes& b) { Bytes r(16); p->EncryptBlock(b, r); return r; };
		}
		if (m.kind) { m.want = [E, iv](const Bytes& d, size_t) { return ref::gcm_tag(E, iv, d, Bytes()); }; }
		else { m.want = [E](const Bytes& d, size_t) { return ref::cmac(E, d); }; }
		break;
	}
	case 2: { k = c.bytes(8 + c.len(300, { m.block, m.tag })); bool b = m.tag == 64; m.want = [k, b](const Bytes& d, size_t) { return ref::hmac(b ? "SHA512" : "SHA256", k, d); }; break; }
	case 3:
	{
		k = c.bytes(16 + c.len(400, { m.block, m.tag })); if (c.flip()) { iv = c.bytes(4 + c.len(300, { m.block })); }
		Bytes nm = ref::str("KMAC"); if (c.chance(1, 4)) { info = c.bytes(1 + c.len(300, { m.block, m.block - 6 })); nm = info; }
		size_t rate = m.block;
		m.want = [k, iv, nm, rate](const Bytes& d, size_t n) { return ref::cshake(rate, ref::cat({ ref::bytepad(ref::encode_string(k), rate), d, ref::right_encode(n * 8) }), n, nm, iv); };
		break;
	}
	case 4: { k = c.bytes(m.tag); if (c.flip()) { iv = c.bytes(16 + c.len(300, { m.block / 8 })); } m.want = [k, iv](const Bytes& d, size_t n) { return ref::kpa(k, iv, d, n); }; break; }
	default: k = c.bytes(32); if (c.chance(1, 3)) { for (auto& x : k) { x |= 0xF0; } } m.want = [k](const Bytes& d, size_t) { return ref::poly1305(k, d); };
	}
	c.desc << " key " << k.size() << " iv " << iv.size() << " info " << info.size();
	auto kp = mkkey(c, k, iv, info);
	m.mac->Initialize(*kp);
	require(m.mac->IsInitialized(), m.name + " IsInitialized false after Initialize");
}
static void feed(pbt::Case& c, IMac& mac, const Bytes& msg, size_t mark)
{
	size_t pos = 0; uint64_t style = c.u(0, 3);
	if (style == 0) { size_t pre = c.u(0, 20); Bytes b(pre, 0x33); b.insert(b.end(), msg.begin(), msg.end()); b.resize(b.size() + c.u(0, 20), 0x44); mac.Update(b, pre, msg.size()); c.desc << " [" << msg.size() << "]"; return; }
	for (size_t n : c.chunks(msg.size(), mark, true, style == 1 ? 40 : 12)) { mac.Update(msg, pos, n); pos += n; c.desc << " " << n; }
}

PROP(mac_equals_reference, 250000, 4000000)
{
	vf::W->cpu_cmul = c.flip(); vf::W->cpu_aesni = c.flip(); vf::W->cpu_sha = c.flip();
	M m = make(c);
	c.desc << m.name << ":"; c.tag(m.name);
	require(m.mac->TagSize() == m.tag, m.name + " TagSize is " + std::to_string(m.mac->TagSize()) + ", expected " + std::to_string(m.tag), "tagsize-" + m.name);
	size_t rounds = c.u(1, 3); bool keep = false;
	for (size_t r = 0; r < rounds; ++r)
	{
		if (!keep) { key(c, m); }
		// abandoned work must leave no trace
		if (c.chance(1, 5)) { Bytes junk = c.bytes(c.len(3 * m.block, { m.block })); feed(c, *m.mac, junk, m.block); if (c.flip()) { m.mac->Reset(); c.desc << " reset"; } c.tag("abandoned message"); c.desc << " rekey"; key(c, m); }
		Bytes msg = c.bytes(c.len(m.kind == 4 ? 5000 : 1500, { m.block, 16 }));
		c.desc << " msg " << msg.size() << ":";
		uint64_t how = c.u(0, 3);
		size_t n = m.tag + (m.xof && c.chance(1, 3) ? c.len(400, { m.block }) : 0), off = 0;
		Bytes got;
		if (how == 0) { got.assign(n, 0x77); m.mac->Compute(msg, got); c.desc << " compute"; if (!m.xof) { got.resize(m.tag); } }
		else if (how == 1) { feed(c, *m.mac, msg, m.block); SBytes s(n, 0x99); size_t ret = m.mac->Finalize(s, 0); got = unsec(s); require(ret == n, m.name + " Finalize returned " + std::to_string(ret)); c.desc << " secure"; }
		else
		{
			feed(c, *m.mac, msg, m.block); off = c.pick<size_t>({ 0, 0, 1, 17 });
			pbt::Guarded g(off, n, m.xof ? 0 : c.u(0, 9), 0xC3);
			size_t ret = m.mac->Finalize(g.b, off); g.check(m.name + " Finalize"); got = g.out(); require(ret == n, m.name + " Finalize returned " + std::to_string(ret));
		}
		Bytes want = m.want(msg, n);
		require_eq(got, want, m.name + " of " + std::to_string(msg.size()) + " bytes");
		c.nontrivial(msg.size() > m.block || r > 0);
		// HMAC alone rekeys itself; everything else has to be initialised again
		keep = m.kind == 2 && c.flip();
	}
}

// carries of the Poly1305 accumulator: blocks and keys made of extreme limbs
PROP(poly1305_extreme_limbs, 150000, 2000000)
{
	auto extreme = [&](size_t n) { Bytes b(n); for (size_t i = 0; i < n; i += 8) { uint64_t v = c.pick<uint64_t>({ ~0ull, 0, 0xFFFFFFFFFFFFFFFBull, 0xFFFFFFFFFFFull, 0x0FFFFFFC0FFFFFFCull, 0x0FFFFFFC0FFFFFFFull, 1, 5, 0xFFFFF00000000000ull, 0xFFFFFFFFFFFFFFFAull }); if (c.chance(1, 6)) { v ^= 1ull << c.u(0, 63); } for (size_t k = 0; k < 8 && i + k < n; ++k) { b[i + k] = (uint8_t)(v >> (8 * k)); } } return b; };
	Bytes k = extreme(32), m = extreme(c.u(1, 80));
	if (c.chance(1, 3)) { m.resize((m.size() + 15) / 16 * 16, 0xFF); }
	c.desc << "r|s " << pbt::hex(k) << " msg " << pbt::hex(m, 96);
	Mac::Poly1305 mac; Cipher::SymmetricKey kp(k); mac.Initialize(kp); Bytes got(16); mac.Update(m, 0, m.size()); mac.Finalize(got, 0);
	require_eq(got, ref::poly1305(k, m), "Poly1305");
	c.nontrivial(m.size() >= 16);
}

// the bare hash of GCM, with the length block the caller supplies
PROP(ghash_equals_model, 60000, 800000)
{
	vf::W->cpu_cmul = c.flip();
	Bytes H = c.bytes(16), a = c.bytes(c.len(100, { 16 })), t = c.bytes(c.len(300, { 16 }));
	Digest::GHASH g; std::vector<uint64_t> k = { ref::be(&H[0], 8), ref::be(&H[8], 8) }; g.Initialize(k);
	Bytes out(16, 0);
	c.desc << "H " << pbt::hex(H) << " aad " << a.size() << " text " << t.size() << (vf::W->cpu_cmul ? " clmul" : "");
	g.Multiply(a, out, a.size());
	size_t pos = 0; for (size_t n : c.chunks(t.size(), 16, true)) { g.Update(t, pos, out, n); pos += n; c.desc << " " << n; }
	g.Finalize(out, a.size(), t.size());
	Bytes l(16); ref::pbe(&l[0], a.size() * 8, 8); ref::pbe(&l[8], t.size() * 8, 8);
	require_eq(out, ref::ghash(H, ref::cat({ ref::ghash_pad(a), ref::ghash_pad(t), l })), "GHASH");
	c.nontrivial(t.size() > 16);
}

// the model side is not trusted blindly: on plain AES it has to agree with OpenSSL
PROP(models_agree_with_openssl, 3000, 20000)
{
	Bytes k = c.bytes(c.pick<size_t>({ 16, 24, 32 })), m = c.bytes(c.len(200, { 16 })), iv = c.bytes(12 + c.u(0, 20));
	const char* a = k.size() == 16 ? "AES-128-CBC" : k.size() == 24 ? "AES-192-CBC" : "AES-256-CBC"; const char* g = k.size() == 16 ? "AES-128-GCM" : k.size() == 24 ? "AES-192-GCM" : "AES-256-GCM";
	ref::Blk E = ref::OsslAes(k).fn();
	require_eq(ref::cmac(E, m), ref::ossl_mac("CMAC", "cipher", a, k, {}, m), "model CMAC");
	require_eq(ref::gcm_tag(E, iv, m, {}), ref::ossl_mac("GMAC", "cipher", g, k, iv, m), "model GMAC");
	c.desc << "key " << k.size() << " msg " << m.size(); c.nontrivial(m.size() > 16);
}
