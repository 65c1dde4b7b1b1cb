// C31: names, enumerations and factories agree
// LIBS: -lcrypto
#include "anyobj.h"
#include "sign.h"
#include "RHX.h"
#include "SHX.h"
#include "CipherModeFromName.h"
#include "PaddingFromName.h"
#include "MacFromName.h"
#include "KdfFromName.h"
#include "DrbgFromName.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "AeadModes.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricParameters.h"
#include "AsymmetricPrimitives.h"
#include "AsymmetricSigners.h"
#include "BlockCiphers.h"
#include "CipherModes.h"
#include "Digests.h"
#include "DilithiumParameters.h"
#include "Drbgs.h"
#include "ECDHParameters.h"
#include "ECDSAParameters.h"
#include "ExceptionTypes.h"
#include "Kdfs.h"
#include "KmacModes.h"
#include "Kms.h"
#include "KpaModes.h"
#include "KyberParameters.h"
#include "Macs.h"
#include "McElieceParameters.h"
#include "PaddingModes.h"
#include "Prngs.h"
#include "Providers.h"
#include "SHA2Digests.h"
#include "SecurityPolicy.h"
#include "ShakeModes.h"
#include "SphincsPlusParameters.h"
#include "StreamAuthenticators.h"
#include "StreamCiphers.h"
#include "SymmetricCiphers.h"
#include "ThreefishModes.h"
#include "XmssParameters.h"
using namespace CEX::Enumeration;
struct EnumTable { const char* type; std::vector<std::pair<int, const char*>> vals; std::function<std::string(int)> to; std::function<int(const std::string&)> from; };
static const std::vector<EnumTable>& enums()
{
	static std::vector<EnumTable> t; if (t.empty())
	{
#define V(T, N) { (int)T::N, #N }
#define E(T, C, ...) t.push_back({ #T, { __VA_ARGS__ }, [](int v) { return C::ToName((T)v); }, [](const std::string& s) { std::string c = s; return (int)C::FromName(c); } });
#include "enums.inc"
	}
	return t;
}
// conversions between values and names
PROP(conversions, 60000, 600000)
{
	const EnumTable& t = enums()[c.u(0, enums().size() - 1)]; std::string nm = t.type; c.tag(nm); c.nontrivial(); std::map<int, const char*> def(t.vals.begin(), t.vals.end());
	if (c.flip())
	{
		int v = c.flip() ? t.vals[c.u(0, t.vals.size() - 1)].first : (int)c.u(0, 255); c.desc << nm << " value " << v;
		std::string s; s = t.to(v); int back = t.from(s); c.desc << " named '" << s << "'";
		if (def.count(v)) { require(s.size() != 0 && s != "None", nm + "::" + def[v] + " has no name", "name-" + nm + "-" + def[v]); require(back == v, nm + "::" + def[v] + " is named '" + s + "', which stands for " + (def.count(back) ? def[back] : back ? "an undefined value" : "None"), "name-" + nm + "-" + def[v]); }
		else { /* an enumeration that is a part of another uses its names */ require(back == 0 || back == v, nm + fmt(": the undefined value %d is named '%s', which stands for %s", v, s.c_str(), def.count(back) ? def[back] : "an undefined value")); }
		return;
	}
	// a name that is no name
	std::string s = c.flip() ? t.to(t.vals[c.u(0, t.vals.size() - 1)].first) : std::string(t.vals[c.u(0, t.vals.size() - 1)].second);
	switch (c.u(0, 6)) { case 0: s += (char)c.u(32, 126); break; case 1: if (s.size()) { s.pop_back(); } break; case 2: if (s.size()) { s[c.u(0, s.size() - 1)] = (char)c.u(32, 126); } break; case 3: { Bytes b = c.bytes(c.u(0, 20)); s = std::string(b.begin(), b.end()); break; } case 4: if (s.size()) { s.erase(s.begin()); } break; case 5: if (s.size()) { s.erase(c.u(0, s.size() - 1), 1); } break; default: s = " " + s; }
	bool known = false; for (auto& v : t.vals) { known = known || t.to(v.first) == s; } int got = t.from(s); c.desc << nm << " text '" << s << "'"; require(known || got == 0 || t.to(got) == s, nm + ": '" + s + "' is taken for " + (def.count(got) ? def[got] : "an undefined value"));
}

static const bool statics_tsc = [] { const char* m = std::getenv("VF_CPUMASK"); return m && strchr(m, 'T'); }(); // the time stamp counter the library found at start
// factories: the object made is the one named, or the value is refused
typedef CEX::Exception::CryptoException CE;
template<typename T> std::unique_ptr<T> made(const std::string& what, bool legal, const std::function<T*()>& f)
{
	std::unique_ptr<T> o; try { o.reset(f()); } catch (CE& e) { if (legal) { fail(what + ": refused: " + e.Message()); } return nullptr; } catch (std::exception& e) { fail(what + ": a foreign exception " + e.what()); }
	require(o != nullptr, what + ": nothing was created"); if (!legal) { fail(what + ": created '" + o->Name() + "'"); } return o;
}
template<typename T> void labels(T& o, int en, const std::string& name, const std::string& what) { require((int)o.Enumeral() == en, what + fmt(": reports the enumeration value %d, expected %d", (int)o.Enumeral(), en)); require(o.Name() == name, what + ": named '" + o.Name() + "', expected '" + name + "'"); }
static void agree(pbt::Case& c, any::Any& a, any::Any& b, const std::string& what) { any::Par p = a.par(c); a.init(p); b.init(p); any::Call q = a.call(c); any::Lay z; require_eq(a.behave(q, z), b.behave(q, z), what + ": what it computes"); }
PROP(factories, 12000, 300000)
{
	using namespace CEX; world(c); c.nontrivial(); vf::W->cpu_rdtscp = c.flip(); int raw = c.chance(1, 4) ? (int)c.u(0, 255) : -1;
	auto val = [&](const std::vector<int>& all) { return raw >= 0 ? raw : all[c.u(0, all.size() - 1)]; };
	switch (c.u(0, 10))
	{
	case 0:
	{
		static const std::vector<int> all = { 1, 2, 3, 4, 5, 6, 13, 14, 15 }; int v = val(all); bool legal = std::count(all.begin(), all.end(), v), par = c.flip() && vf::W->cores > 1; std::string w = fmt("DigestFromName(%d)", v); c.desc << w; c.tag("digest"); auto o = made<Digest::IDigest>(w, legal, [&] { return Helper::DigestFromName::GetInstance((Digests)v, par); }); if (!o) { return; }
		labels(*o, v, DigestConvert::ToName((Digests)v) + (par ? fmt("-P%d", (int)o->ParallelProfile().ParallelMaxDegree()) : std::string()), w); same((size_t)o->DigestSize(), dg_size((DG)v), w + ": DigestSize"); same((size_t)o->BlockSize(), dg_block((DG)v), w + ": BlockSize"); if (!par) { Bytes m = c.bytes(c.u(0, 300)), d(o->DigestSize()); o->Compute(m, d); require_eq(d, ref_digest((DG)v, m), w + ": digest"); }
		break;
	}
	case 1:
	{
		int v = val({ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19 }); bool legal = v >= 1 && v <= 19; std::string w = fmt("MacFromName(%d)", v); c.desc << w; c.tag("mac"); bool sa = legal && c.flip(); auto o = made<Mac::IMac>(w, sa ? v == 11 || v == 12 || v == 17 || v == 18 || v == 19 : legal, [&] { return sa ? Helper::MacFromName::GetInstance((StreamAuthenticators)v) : Helper::MacFromName::GetInstance((Macs)v); }); if (!o) { return; }
		static const BC ext[] = { BC::AES, BC::RHXH256, BC::RHXH512, BC::RHXS256, BC::RHXS512 }; int kind = v <= 5 ? 0 : v <= 10 ? 1 : v <= 12 ? 2 : v <= 15 ? 4 : v <= 18 ? 3 : 5; BC bc = v <= 10 ? ext[(v - 1) % 5] : BC::AES; int sub = v == 12 ? 1 : v >= 13 && v <= 18 ? (v - 13) % 3 : 0;
		// a code over an extended cipher reports the kind of code, its name also the cipher
		labels(*o, v <= 5 ? 1 : v <= 10 ? 6 : v, v <= 10 ? std::string(kind ? "GMAC-" : "CMAC-") + bc_name(bc) : MacConvert::ToName((Macs)v), w); any::MacAny a(kind, bc, sub), b(kind, bc, sub); same((size_t)o->TagSize(), (size_t)a.o->TagSize(), w + ": TagSize"); a.o = std::move(o); agree(c, a, b, w); break;
	}
	case 2:
	{
		static const std::vector<int> all = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15 }; int v = val(all), how = (int)c.u(0, 2); bool legal = std::count(all.begin(), all.end(), v); std::string w = fmt("KdfFromName(%d)", v); c.desc << w; c.tag("kdf"); std::unique_ptr<Kdf::IKdf> o;
		if (how == 0) { o = made<Kdf::IKdf>(w, legal, [&] { return Helper::KdfFromName::GetInstance((Kdfs)v); }); }
		else if (how == 1) { w += " of cipher extensions"; if (v == 8) { return; } o = made<Kdf::IKdf>(w, v == 2 || v == 3 || v == 9 || v == 10, [&] { return Helper::KdfFromName::GetInstance((BlockCipherExtensions)v); }); }
		else { w += " of digests"; if (v == 8) { return; } o = made<Kdf::IKdf>(w, v == 5 || v == 6 || v == 9 || v == 10, [&] { return Helper::KdfFromName::GetInstance((KdfDigests)v); }); if (v == 5 || v == 6) { v -= 3; } }
		if (!o) { return; } labels(*o, v, KdfConvert::ToName((Kdfs)v), w); if (v >= 13) { return; } // the cost parameters of a made SCBKDF are large
		int kind = v <= 3 ? 0 : v <= 5 ? 1 : v <= 7 ? 2 : 3; any::KdfAny a(kind, kind == 3 ? v - 8 : v % 2), b(kind, kind == 3 ? v - 8 : v % 2); if (kind == 2) { b.o.reset(new Kdf::PBKDF2(v % 2 ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256)); } a.o = std::move(o); agree(c, a, b, w); break;
	}
	case 3:
	{
		static const std::vector<int> all = { 1, 2, 39, 40, 41, 42, 45, 46, 47, 48 }; int v = val(all); bool legal = std::count(all.begin(), all.end(), v); std::string w = fmt("BlockCipherFromName(%d)", v); c.desc << w; c.tag("block"); auto o = made<IBC>(w, legal, [&] { return Helper::BlockCipherFromName::GetInstance((BC)v); }); if (!o) { return; }
		labels(*o, v, BlockCipherConvert::ToName((BC)v), w); Bytes k = c.bytes(bc_key(c, (BC)v)), info = v > 2 && c.flip() ? c.bytes(c.u(1, 20)) : Bytes(), m = c.bytes(16), x(16); bool enc = c.flip(); Cipher::SymmetricKey sk(k, Bytes(), info); o->Initialize(enc, sk); o->Transform(m, x); if (v == 1) { Bytes y(16); y = bc_fn((BC)v, k, info, enc)(m); require_eq(x, y, w + ": block"); }
		require(o->IsEncryption() == enc && o->IsInitialized() && o->BlockSize() == 16, w + ": flags");
		if (v > 2) { std::unique_ptr<IBC> d; BlockCipherExtensions e = (v - 39) % 6 == 0 ? BlockCipherExtensions::HKDF256 : (v - 39) % 6 == 1 ? BlockCipherExtensions::HKDF512 : (v - 39) % 6 == 2 ? BlockCipherExtensions::SHAKE256 : BlockCipherExtensions::SHAKE512; if (v < 45) { d.reset(new Cipher::Block::RHX(e)); } else { d.reset(new Cipher::Block::SHX(e)); } labels(*d, v, BlockCipherConvert::ToName((BC)v), w + ": the same by class"); Bytes y(16); d->Initialize(enc, sk); d->Transform(m, y); require_eq(x, y, w + ": block, against the class"); }
		break;
	}
	case 4:
	{
		static const std::vector<int> all = { 2, 3, 4, 5, 12, 13 }; int v = val(all); bool legal = std::count(all.begin(), all.end(), v), l = c.flip(); BC bc = c.pick(ALL_BC); std::string w = fmt("CipherModeFromName(%s, %d)", bc_name(bc).c_str(), v); c.desc << w; c.tag("mode"); std::unique_ptr<IBC> e; if (l) { e.reset(Helper::BlockCipherFromName::GetInstance(bc)); } auto o = made<Cipher::Block::Mode::ICipherMode>(w, legal, [&] { return l ? Helper::CipherModeFromName::GetInstance(e.get(), (CipherModes)v) : Helper::CipherModeFromName::GetInstance(bc, (CipherModes)v); }); if (!o) { return; }
		labels(*o, v, CipherModeConvert::ToName((CipherModes)v) + "-" + bc_name(bc), w); require(o->CipherType() == bc, w + ": CipherType"); ModeKind k = v == 2 ? M_CBC : v == 3 ? M_CFB : v == 4 ? M_CTR : v == 5 ? M_ECB : v == 12 ? M_ICM : M_OFB; any::ParCfg pc{ 1, 0, 1, 0 }; any::Mode a(k, bc, 16, false, pc), b(k, bc, 16, false, pc); a.o = std::move(o); agree(c, a, b, w); break;
	}
	case 5:
	{
		static const std::vector<int> all = { 6, 8, 9, 10, 11 }; int v = val(all); bool legal = std::count(all.begin(), all.end(), v), l = c.flip(); BC bc = c.pick(ALL_BC); std::string w = fmt("AeadModeFromName(%s, %d)", bc_name(bc).c_str(), v); c.desc << w; c.tag("aead"); std::unique_ptr<IBC> e; if (l) { e.reset(Helper::BlockCipherFromName::GetInstance(bc)); } auto o = made<IAead>(w, legal, [&] { return l ? Helper::AeadModeFromName::GetInstance(e.get(), (AeadModes)v) : Helper::AeadModeFromName::GetInstance(bc, (AeadModes)v); }); if (!o) { return; }
		static const Macs ms[] = { Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KMAC256, Macs::KMAC512 }; Macs m = v == 6 ? Macs::None : ms[v - 8]; labels(*o, v == 6 ? 6 : 7, v == 6 ? "GCM-" + bc_name(bc) : "HBA-" + bc_name(bc) + "-" + MacConvert::ToName(m), w); any::ParCfg pc{ 1, 0, 1, 0 }; any::AeadAny a(v == 6, bc, m, false, pc), b(v == 6, bc, m, false, pc); a.o = std::move(o); agree(c, a, b, w); break;
	}
	case 6:
	{
		static const std::vector<std::pair<StreamCiphers, std::pair<SK, int>>> rows = { { StreamCiphers::ChaChaP20, { S_CHACHA, 0 } }, { StreamCiphers::CSXR20K256, { S_CHACHA, 256 } }, { StreamCiphers::CSX512, { S_CSX, 0 } }, { StreamCiphers::CSXR80K512, { S_CSX, 512 } }, { StreamCiphers::RCS, { S_RCS, 0 } }, { StreamCiphers::RCSK256, { S_RCS, 256 } }, { StreamCiphers::RCSK512, { S_RCS, 512 } }, { StreamCiphers::RCSK1024, { S_RCS, 512 } }, { StreamCiphers::RWSK1024, { S_RWS, 512 } }, { StreamCiphers::RWS, { S_RWS, 0 } }, { StreamCiphers::RWSK256, { S_RWS, 256 } }, { StreamCiphers::RWSK512, { S_RWS, 512 } }, { StreamCiphers::TSX256, { S_T256, 0 } }, { StreamCiphers::TSXR72K256, { S_T256, 256 } }, { StreamCiphers::TSX512, { S_T512, 0 } }, { StreamCiphers::TSXR96K512, { S_T512, 512 } }, { StreamCiphers::TSX1024, { S_T1024, 0 } }, { StreamCiphers::TSXR120K512, { S_T1024, 512 } } };
		StreamCiphers e = raw >= 0 ? (StreamCiphers)raw : rows[c.u(0, rows.size() - 1)].first; const std::pair<SK, int>* r = nullptr; for (auto& x : rows) { if (x.first == e) { r = &x.second; } } std::string w = fmt("StreamCipherFromName(%d)", (int)e); c.desc << w; c.tag("stream"); auto o = made<ISC>(w, r != nullptr, [&] { return Helper::StreamCipherFromName::GetInstance(e); }); if (!o) { return; }
		require(o->IsAuthenticator() == (r->second != 0), w + ": IsAuthenticator"); any::ParCfg pc{ 1, 0, 1, 0 }; any::StreamAny a(r->first, r->second != 0, pc), b(r->first, r->second != 0, pc); std::unique_ptr<ISC> d(any::StreamAny::build(r->first, r->second != 0)); require(o->Enumeral() == d->Enumeral() && o->Name() == d->Name(), w + ": labels, against the class: '" + o->Name() + "' and '" + d->Name() + "'"); a.S.o = std::move(o); agree(c, a, b, w); break;
	}
	case 7:
	{
		static const std::vector<int> all = { 1, 2, 3, 4 }; int v = val(all); std::string w = fmt("PaddingFromName(%d)", v); c.desc << w; c.tag("padding"); auto o = made<Cipher::Block::Padding::IPadding>(w, v >= 1 && v <= 4, [&] { return Helper::PaddingFromName::GetInstance((PaddingModes)v); }); if (o) { labels(*o, v, PaddingModeConvert::ToName((PaddingModes)v), w); size_t n = c.u(1, 16); Bytes b(16, 0xAA); o->AddPadding(b, 16 - n, 16); same((size_t)o->GetBlockLength(b, 0, 16), 16 - n, w + ": data length"); same((int)b[16 - n], v == 1 ? 1 : v == 4 ? 0x80 : v == 3 ? (n == 1 ? 1 : (int)b[16 - n]) : (int)n, w + ": first byte of the padding"); }
		break;
	}
	case 8:
	{
		int v = val({ 1, 2, 3 }), d = c.chance(1, 3) ? (int)c.u(0, 20) : c.pick<int>({ (int)Digests::SHAKE128, (int)Digests::SHAKE256, (int)Digests::SHAKE512, 5, 6 }); bool shake = d == (int)Digests::SHAKE128 || d == (int)Digests::SHAKE256 || d == (int)Digests::SHAKE512, sha2 = d == 5 || d == 6, three = c.flip(); bool legal = v == 1 || (v == 2 && (!three || shake)) || (v == 3 && (!three || sha2)); std::string w = three ? fmt("DrbgFromName(%d, %d)", v, d) : fmt("DrbgFromName(%d)", v); c.desc << w; c.tag("drbg"); auto o = made<Drbg::IDrbg>(w, legal, [&] { return three ? Helper::DrbgFromName::GetInstance((Drbgs)v, (Digests)d, Providers::CSP) : Helper::DrbgFromName::GetInstance((Drbgs)v); }); if (!o) { return; }
		require((int)o->Enumeral() == v, w + ": enumeration"); std::string nm = DrbgConvert::ToName((Drbgs)v); require(o->Name().substr(0, 3) == nm, w + ": named '" + o->Name() + "'"); if (three && v != 1) { require(o->Name().find(DigestConvert::ToName((Digests)d)) != std::string::npos, w + ": named '" + o->Name() + "'"); } break;
	}
	case 9:
	{
		bool prng = c.flip(); int v = prng ? val({ (int)Prngs::BCR, (int)Prngs::CSR, (int)Prngs::CSRC512, (int)Prngs::CSRC1024, (int)Prngs::HCR, (int)Prngs::HCRS512 }) : val({ 1, 2, 3, 4, 5 }); c.tag(prng ? "prng" : "provider"); std::string w = fmt(prng ? "PrngFromName(%d)" : "ProviderFromName(%d)", v); c.desc << w;
		if (prng)
		{
			if (v == (int)Prngs::CSRC1024) { return; } // has a value, but no generator
			bool csr = v == (int)Prngs::CSR || v == (int)Prngs::CSRC512, hcr = v == (int)Prngs::HCR || v == (int)Prngs::HCRS512; auto o = made<Prng::IPrng>(w, v == (int)Prngs::BCR || csr || hcr, [&] { return Helper::PrngFromName::GetInstance((Prngs)v, Providers::CSP); }); if (!o) { return; } require(o->Enumeral() == (csr ? Prngs::CSR : hcr ? Prngs::HCR : Prngs::BCR), w + ": enumeration"); std::string n = o->Name(), z = csr ? (v == (int)Prngs::CSR ? "CSR-SHAKE256-CSP" : "CSR-SHAKE512-CSP") : hcr ? (v == (int)Prngs::HCR ? "HCR-SHA2256-CSP" : "HCR-SHA2512-CSP") : ""; require(z.size() ? n == z : n.substr(0, 4) == "BCR-" && n.substr(n.size() - 4) == "-CSP", w + ": named '" + n + "'"); Bytes b(64); o->Generate(b); require(b != Bytes(64), w + ": output");
		}
		else { if (v == 2 && !statics_tsc) { vf::W->cpu_rdtscp = false; } auto o = made<Provider::IProvider>(w, v >= 1 && v <= 5, [&] { return Helper::ProviderFromName::GetInstance((Providers)v); }); if (!o) { return; } int e = v == 2 && !vf::W->cpu_rdtscp ? 4 : v; /* a machine without the counter gets ECP */ if (v == 5 && (int)o->Enumeral() != 5) { e = (int)o->Enumeral(); } labels(*o, e, ProviderConvert::ToName((Providers)e), w); }
		break;
	}
	default:
	{
		// every scheme with every parameter set: accepted when they belong together
		bool sg = c.flip(); int p = raw >= 0 ? raw % 70 : (int)c.u(1, 63), v = c.chance(1, 6) ? (int)c.u(0, 255) : sg ? c.pick<int>({ 5, 6, 9, 10, 11 }) : c.pick<int>({ 2, 3 }); std::string pn = AsymmetricTransformConvert::ToName((AsymmetricParameters)p), w = fmt(sg ? "AsymmetricSignerFromName(%d, %d %s)" : "AsymmetricCipherFromName(%d, %d %s)", v, p, pn.c_str()); c.desc << w; c.tag(sg ? "signer" : "cipher");
		auto begins = [&](const char* s) { return pn.substr(0, strlen(s)) == s; }; bool mt = begins("XMSSMT"); int fam = begins("DLTM") ? 5 : begins("ECDSA") ? 6 : begins("SPX") ? 9 : begins("XMSS") ? 10 : begins("KYBER") ? 2 : begins("MPKC") ? 3 : 0; 
		if (sg) { if ((v == 10 && mt) || (v == 11 && !mt && fam == 10)) { return; } bool legal = fam >= 5 && (v == fam || (v == 11 && mt)); auto o = made<Asymmetric::Sign::IAsymmetricSigner>(w, legal, [&] { return Helper::AsymmetricSignerFromName::GetInstance((AsymmetricSigners)v, (AsymmetricParameters)p); }); if (o) { require((int)o->Enumeral() == v, w + ": enumeration"); require(o->Name().find(pn) != std::string::npos && o->Name().find(mt ? "XMSS" : AsymmetricSignerConvert::ToName((AsymmetricSigners)v)) == 0, w + ": named '" + o->Name() + "'"); for (auto& s : sigsets()) { if ((int)s.p == p) { same((size_t)o->SignatureSize(), s.sig, w + ": SignatureSize"); same((size_t)o->PublicKeySize(), s.pk, w + ": PublicKeySize"); } } } }
		else { bool legal = v == fam && fam < 5; if (v == 1) { return; } auto o = made<Asymmetric::Encrypt::IAsymmetricCipher>(w, legal, [&] { return Helper::AsymmetricCipherFromName::GetInstance((AsymmetricCiphers)v, (AsymmetricParameters)p); }); if (o) { labels(*o, v, AsymmetricCipherConvert::ToName((AsymmetricCiphers)v) + "-" + pn, w); for (auto& s : kemsets()) { if ((int)s.p == p) { same((size_t)o->CipherTextSize(), s.ct, w + ": CipherTextSize"); same((size_t)o->PublicKeySize(), s.pk, w + ": PublicKeySize"); } } } }
	}
	}
}
