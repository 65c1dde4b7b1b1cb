// C23: sealed keys
// LIBS: -lcrypto
#include "cexutil.h"
#include "memwatch.h"
#include "AsymmetricKey.h"
#include "AsymmetricSecureKey.h"
#include "SecurityPolicy.h"
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Enumeration; using CEX::Asymmetric::AsymmetricKey; using CEX::Asymmetric::AsymmetricSecureKey;
struct Parts { Bytes k, n, i; SecurityPolicy pol = SecurityPolicy::SPL256; Bytes salt; bool salted = false; bool ae() const { return salted && ((int)pol % 2) == 0; } };
static Parts parts(pbt::Case& c) { Parts p; int which = (int)c.u(1, 7); auto one = [&](bool on) { return on ? c.bytes(1 + c.len(200, { 15, 16, 31, 32, 64, 128 })) : Bytes(); }; p.k = one(which & 1); p.n = one(which & 2); p.i = one(which & 4); p.salted = c.flip(); if (p.salted) { p.pol = (SecurityPolicy)c.u(1, 6); p.salt = c.bytes(4 + c.len(100, { 16, 32 })); } return p; }
static SymmetricSecureKey* mk(pbt::Case& c, const Parts& p)
{
	int form = p.i.empty() ? (p.n.empty() && c.flip() ? 1 : c.flip() ? 2 : 3) : 3; bool s = c.flip();
	if (!p.salted) { return form == 1 ? (s ? new SymmetricSecureKey(sec(p.k)) : new SymmetricSecureKey(p.k)) : form == 2 ? (s ? new SymmetricSecureKey(sec(p.k), sec(p.n)) : new SymmetricSecureKey(p.k, p.n)) : (s ? new SymmetricSecureKey(sec(p.k), sec(p.n), sec(p.i)) : new SymmetricSecureKey(p.k, p.n, p.i)); }
	return form == 1 ? (s ? new SymmetricSecureKey(sec(p.k), p.pol, sec(p.salt)) : new SymmetricSecureKey(p.k, p.pol, p.salt)) : form == 2 ? (s ? new SymmetricSecureKey(sec(p.k), sec(p.n), p.pol, sec(p.salt)) : new SymmetricSecureKey(p.k, p.n, p.pol, p.salt)) : (s ? new SymmetricSecureKey(sec(p.k), sec(p.n), sec(p.i), p.pol, sec(p.salt)) : new SymmetricSecureKey(p.k, p.n, p.i, p.pol, p.salt));
}
static Bytes get(ISymmetricKey& k, int what) { switch (what) { case 0: return k.Key(); case 1: return k.IV(); case 2: return k.Info(); case 3: return unsec(k.SecureKey()); case 4: return unsec(k.SecureIV()); default: return unsec(k.SecureInfo()); } }
static const char* W[] = { "Key()", "IV()", "Info()", "SecureKey()", "SecureIV()", "SecureInfo()" };
static const Bytes& want(const Parts& p, int what) { return what % 3 == 0 ? p.k : what % 3 == 1 ? p.n : p.i; }
static void check(ISymmetricKey& k, const Parts& p, const std::string& w) { for (int i = 0; i < 6; ++i) { require_eq(get(k, i), want(p, i), w + ": " + W[i]); } same(k.KeySizes().KeySize(), p.k.size(), w + ": KeySize"); same(k.KeySizes().IVSize(), p.n.size(), w + ": IVSize"); same(k.KeySizes().InfoSize(), p.i.size(), w + ": InfoSize"); }
struct Env { std::wstring computer, user, sid; void apply() const { vf::W->computer = computer; vf::W->user = user; vf::W->sid = sid; } };
static Env env() { return Env{ vf::W->computer, vf::W->user, vf::W->sid }; }
static Env other(pbt::Case& c, Env e) { std::wstring& s = *c.pick<std::wstring*>({ &e.computer, &e.user, &e.sid }); size_t i = c.u(&s == &e.sid ? 10 : 0, s.size() - 1); if (c.flip()) { s[i] = s[i] == L'1' ? L'2' : L'1'; } else { s.insert(i, L"7"); } return e; }
// a history of opening, cloning, saving and moving to another machine and back, of several keys at once
PROP(history, 2500, 40000)
{
	Env home = env(); struct Slot { Parts p; std::unique_ptr<SymmetricSecureKey> k; }; std::vector<Slot> v; size_t nk = c.u(1, 3); for (size_t i = 0; i < nk; ++i) { Slot s; s.p = parts(c); s.k.reset(mk(c, s.p)); c.desc << "key " << s.p.k.size() << "/" << s.p.n.size() << "/" << s.p.i.size() << " policy " << (int)s.p.pol << (s.p.salted ? " salt; " : "; "); v.push_back(std::move(s)); }
	size_t ops = c.u(1, 6);
	for (size_t o = 0; o < ops; ++o)
	{
		Slot& s = v[c.u(0, v.size() - 1)]; int what = (int)c.u(0, 11);
		if (what < 5) { int g = (int)c.u(0, 5); c.desc << W[g] << " "; require_eq(get(*s.k, g), want(s.p, g), std::string("sealed key: ") + W[g]); }
		else if (what == 5) { c.desc << "clone "; Slot n; n.p = s.p; n.k.reset(s.k->Clone()); if (c.flip()) { s.k->Reset(); Parts none; check(*s.k, none, "sealed key after Reset"); } s.k = std::move(n.k); c.tag("clone"); }
		else if (what == 6) { c.desc << "serialize "; SBytes st = SymmetricSecureKey::Serialize(*s.k); std::unique_ptr<SymmetricKey> r(SymmetricSecureKey::DeSerialize(st)); check(*r, s.p, "serialised and reloaded sealed key"); c.tag("serialize"); }
		else if (what < 10)
		{
			other(c, home).apply(); int g = (int)c.u(0, 5); c.desc << "elsewhere " << W[g] << " "; c.tag(s.p.ae() ? "elsewhere, authenticated" : "elsewhere"); Bytes r; bool t = false; try { r = get(*s.k, g); } catch (CEX::Exception::CryptoAuthenticationFailure&) { t = true; }
			if (s.p.ae()) { require(t, std::string("an authenticated key was opened on another machine: ") + W[g]); } else { require(!t, "a key without authentication reported an authentication failure"); const Bytes& w = want(s.p, g); same(r.size(), w.size(), "size of a part"); if (w.size() >= 8) { require(r != w, std::string("a key was opened on another machine: ") + W[g]); } }
			home.apply();
		}
		else { c.desc << "check "; check(*s.k, s.p, "sealed key"); }
	}
	for (auto& s : v) { check(*s.k, s.p, "sealed key at the end of the history"); } c.nontrivial();
}
// sealed memory does not show the key, and two keys sealed alike under other salts or policies do not share their stream
PROP(hidden, 2500, 40000)
{
#if MEMWATCH
	Parts p; p.k = c.random_bytes(c.u(16, 200)); if (c.flip()) { p.n = c.random_bytes(c.u(16, 60)); } if (c.flip()) { p.i = c.random_bytes(c.u(16, 60)); } p.salted = c.flip(); if (p.salted) { p.pol = (SecurityPolicy)c.u(1, 6); p.salt = c.bytes(c.u(4, 40)); } c.desc << p.k.size() << "/" << p.n.size() << "/" << p.i.size() << " policy " << (int)p.pol;
	SBytes k = sec(p.k), n = sec(p.n), i = sec(p.i), s = sec(p.salt); mw::secrets({ &p.k, &p.n, &p.i }); std::unique_ptr<ISymmetricKey> o; bool plain = c.chance(1, 20);
	std::string rel, rel2; std::string r = mw::kept([&] { rel = mw::released([&] { if (plain) { o.reset(new SymmetricKey(k, n, i)); } else if (p.salted) { o.reset(new SymmetricSecureKey(k, n, i, p.pol, s)); } else { o.reset(new SymmetricSecureKey(k, n, i)); } }); });
	require(!mw::S.full, "memwatch: too many blocks"); if (plain) { require(!r.empty(), "memwatch does not find the key of a plain key container"); c.tag("plain key, found"); return; }
	require(r.empty(), "a sealed key is visible in memory after sealing: " + r); c.tag("sealed");
	require(rel.empty(), "sealing a key: " + rel); int g = (int)c.u(0, 2); std::string r2 = mw::kept([&] { rel2 = mw::released([&] { if (g == 0) { o->SecureKey(); } else if (g == 1) { o->SecureIV(); } else { o->SecureInfo(); } }); }); require(rel2.empty(), "opening a sealed key: " + rel2); require(r2.empty(), "a sealed key is visible in memory after it was opened: " + r2); check(*o, p, "sealed key"); c.nontrivial();
#else
	c.discard();
#endif
}
PROP(asymmetric, 2500, 40000)
{
	Env home = env(); Bytes poly = c.bytes(1 + c.len(3000, { 31, 63, 64, 1000 })); Bytes salt = c.bytes(c.flip() ? c.u(4, 40) : 0); SecurityPolicy pol = (SecurityPolicy)c.u(1, 6); auto a = c.pick<AsymmetricPrimitives>({ AsymmetricPrimitives::Kyber, AsymmetricPrimitives::ECDSA, AsymmetricPrimitives::XMSSMT }); auto t = (AsymmetricKeyTypes)c.u(1, 4); auto m = (AsymmetricParameters)c.u(1, 64); bool ae = (int)pol % 2 == 0; c.desc << poly.size() << " bytes policy " << (int)pol << " salt " << salt.size(); c.tag(ae ? "authenticated" : "unauthenticated");
	std::unique_ptr<AsymmetricSecureKey> k(c.flip() ? new AsymmetricSecureKey(poly, salt, a, t, m, pol) : new AsymmetricSecureKey(sec(poly), sec(salt), a, t, m, pol));
	for (size_t o = 0, e = c.u(1, 5); o < e; ++o)
	{
		switch (c.u(0, 4))
		{
		case 0: require_eq(k->Polynomial(), poly, "sealed key: Polynomial()"); break;
		case 1: { size_t extra = c.u(0, 80); SBytes out(poly.size() + extra, 0xA3); k->SecurePolynomial(out); require_eq(ref::sub(unsec(out), 0, poly.size()), poly, "sealed key: SecurePolynomial()"); for (size_t j = poly.size(); j < out.size(); ++j) { require(out[j] == 0xA3, "SecurePolynomial wrote behind the key"); } break; }
		case 2: { SBytes s = AsymmetricSecureKey::Serialize(*k); std::unique_ptr<AsymmetricKey> r(AsymmetricSecureKey::DeSerialize(s)); require_eq(r->Polynomial(), poly, "serialised sealed key: Polynomial()"); same((int)r->PrimitiveType(), (int)a, "serialised sealed key: primitive"); same((int)r->KeyClass(), (int)t, "serialised sealed key: class"); same((int)r->Parameters(), (int)m, "serialised sealed key: parameters"); break; }
		case 3: { SBytes out(poly.size() - 1); require(throws([&] { k->SecurePolynomial(out); }), "an output that is too small was accepted"); break; }
		default: { other(c, home).apply(); Bytes r; bool th = false; try { r = k->Polynomial(); } catch (CEX::Exception::CryptoAuthenticationFailure&) { th = true; } home.apply(); if (ae) { require(th, "an authenticated key was opened on another machine"); } else { require(!th && r.size() == poly.size(), "opening a key on another machine"); if (poly.size() >= 8) { require(r != poly, "a key was opened on another machine"); } } }
		}
		same((int)k->PrimitiveType(), (int)a, "primitive"); same((int)k->KeyClass(), (int)t, "class"); same((int)k->Parameters(), (int)m, "parameters");
	}
	if (c.flip()) { k->Reset(); require(k->Polynomial().empty(), "key after Reset"); same((int)k->KeyClass(), 0, "class after Reset"); } c.nontrivial();
}
