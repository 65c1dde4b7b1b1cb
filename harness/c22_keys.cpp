// C22: keys, their serialised forms and the key generator
// LIBS: -lcrypto
#include "cexutil.h"
#include <set>
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricKeySize.h"
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Enumeration; using CEX::Asymmetric::AsymmetricKey;
struct Parts { Bytes k, n, i; };
static Parts parts(pbt::Case& c, size_t max = 300) { Parts p; int which = (int)c.u(1, 7); auto one = [&](bool on) { return on ? c.bytes(c.chance(1, 40) ? 1 + c.len(70000, { 65534, 65535, 32768 }) : 1 + c.len(max - 1, { 16, 32, 64, 256 })) : Bytes(); }; p.k = one(which & 1); p.n = one(which & 2); p.i = one(which & 4); return p; }
static SymmetricKey* mk(pbt::Case& c, const Parts& p)
{
	bool s = c.flip(); if (p.i.empty() && c.flip()) { if (p.n.empty() && c.flip()) { return s ? new SymmetricKey(sec(p.k)) : new SymmetricKey(p.k); } return s ? new SymmetricKey(sec(p.k), sec(p.n)) : new SymmetricKey(p.k, p.n); }
	return s ? new SymmetricKey(sec(p.k), sec(p.n), sec(p.i)) : new SymmetricKey(p.k, p.n, p.i);
}
static void check(ISymmetricKey& k, const Parts& p, const std::string& w)
{
	require_eq(k.Key(), p.k, w + ": Key()"); require_eq(k.IV(), p.n, w + ": IV()"); require_eq(k.Info(), p.i, w + ": Info()");
	require_eq(unsec(k.SecureKey()), p.k, w + ": SecureKey()"); require_eq(unsec(k.SecureIV()), p.n, w + ": SecureIV()"); require_eq(unsec(k.SecureInfo()), p.i, w + ": SecureInfo()");
	same(k.KeySizes().KeySize(), p.k.size(), w + ": KeySizes().KeySize()"); same(k.KeySizes().IVSize(), p.n.size(), w + ": KeySizes().IVSize()"); same(k.KeySizes().InfoSize(), p.i.size(), w + ": KeySizes().InfoSize()");
}
static Bytes model(const Parts& p) { Bytes o(6); ref::ple(&o[0], p.k.size(), 2); ref::ple(&o[2], p.n.size(), 2); ref::ple(&o[4], p.i.size(), 2); for (auto* v : { &p.k, &p.n, &p.i }) { o.insert(o.end(), v->begin(), v->end()); } return o; }
PROP(symmetric, 30000, 600000)
{
	Parts p = parts(c); c.desc << "key " << p.k.size() << " nonce " << p.n.size() << " info " << p.i.size(); std::unique_ptr<SymmetricKey> a(mk(c, p)), b; check(*a, p, "key");
	bool big = p.k.size() > 65535 || p.n.size() > 65535 || p.i.size() > 65535; if (big) { c.tag("part above 65535"); SBytes s; require(throws([&] { s = SymmetricKey::Serialize(*a); }), "a key with a part above 65535 bytes was serialised to a form that can not hold its size"); check(*a, p, "key after the refusal"); return; }
	SBytes s = SymmetricKey::Serialize(*a); require_eq(unsec(s), model(p), "serialised form"); if (c.chance(1, 3)) { SBytes x = sec(c.bytes(c.u(1, 20))); s.insert(s.end(), x.begin(), x.end()); c.tag("bytes behind the key"); }
	bool clone = c.flip(); b.reset(clone ? a->Clone() : SymmetricKey::DeSerialize(s)); c.tag(clone ? "clone" : "reload"); check(*b, p, clone ? "clone" : "reloaded key"); 
	// copies are independent: whatever happens to the one or to the values it gave away
	int what = (int)c.u(0, 3); if (what == 0) { a->Reset(); check(*a, Parts(), "key after Reset"); } else if (what == 1) { a.reset(); } else if (what == 2) { for (auto& x : s) { x ^= 0xFF; } } else { Bytes k = a->Key(); for (auto& x : k) { x ^= 0xFF; } SBytes q = a->SecureIV(); for (auto& x : q) { x = 1; } check(*a, p, "key after changing values read from it"); }
	check(*b, p, "copy after the original was changed"); if (c.flip()) { b->Reset(); check(*b, Parts(), "copy after Reset"); if (a && what != 0) { check(*a, p, "original after the copy was reset"); } } c.nontrivial();
}
PROP(symmetric_damaged, 30000, 600000)
{
	Parts p = parts(c, 60); if (p.k.size() + p.n.size() + p.i.size() > 5000) { p = Parts{ Bytes(40, 1), Bytes(16, 2), {} }; } Bytes s = model(p); size_t n0 = s.size(); int what = (int)c.u(0, 3);
	if (what == 0) { s.resize(c.u(0, n0)); c.tag("cut"); } else if (what == 1) { for (size_t i = 0, k = c.u(1, 3); i < k; ++i) { s[c.u(0, 5)] = c.flip() ? (uint8_t)c.u(0, 3) : (uint8_t)c.u(0, 255); } c.tag("sizes"); } else if (what == 2) { s[c.u(0, n0 - 1)] ^= (uint8_t)c.u(1, 255); c.tag("byte"); } else { s = c.bytes(c.u(0, 100)); c.tag("arbitrary"); }
	c.desc << "stream of " << n0 << " now " << s.size(); c.nontrivial(); SBytes v = sec(s); v.shrink_to_fit(); bool ok = s.size() >= 6; Parts q; if (ok) { size_t a = s[0] | s[1] << 8, b = s[2] | s[3] << 8, d = s[4] | s[5] << 8; ok = s.size() >= 6 + a + b + d && a + b + d != 0; if (ok) { q.k = ref::sub(s, 6, a); q.n = ref::sub(s, 6 + a, b); q.i = ref::sub(s, 6 + a + b, d); } }
	bool viasec = c.flip(); std::unique_ptr<SymmetricKey> k; bool t = throws([&] { k.reset(viasec ? SymmetricSecureKey::DeSerialize(v) : SymmetricKey::DeSerialize(v)); }); same(t, !ok, ok ? "a valid stream was refused" : "an impossible stream was accepted"); if (ok) { check(*k, q, "key parsed from the stream"); c.tag("accepted"); }
}
PROP(keysize, 20000, 300000)
{
	auto val = [&] { return (size_t)(c.chance(1, 4) ? c.u(0, 0xFFFFFFFFu) : c.u(0, 3) * 16); }; size_t k = val(), n = val(), i = val(); SymmetricKeySize s(k, n, i); same(s.KeySize(), k, "KeySize"); same(s.IVSize(), n, "IVSize"); same(s.InfoSize(), i, "InfoSize"); Bytes b = s.ToBytes(); c.desc << k << "/" << n << "/" << i;
	if (c.chance(1, 4)) { b.resize(c.u(0, 20)); } bool t = throws([&] { SymmetricKeySize r(b); if (b.size() == 12) { same(r.KeySize(), k, "restored KeySize"); same(r.IVSize(), n, "restored IVSize"); same(r.InfoSize(), i, "restored InfoSize"); } }); same(t, b.size() < 12, "short size array");
	std::vector<SymmetricKeySize> v; for (size_t j = 0, e = c.u(0, 6); j < e; ++j) { v.push_back(SymmetricKeySize(c.u(0, 3) * 16, c.u(0, 2) * 16, c.u(0, 2) * 16)); } size_t fk = c.u(1, 3) * 16, fn = c.u(0, 2) * 16, fi = c.u(0, 2) * 16; bool want = false; for (auto& x : v) { want = want || (x.KeySize() == fk && (fn == 0 || x.IVSize() == fn) && (fi == 0 || x.InfoSize() == fi)); }
	same(SymmetricKeySize::Contains(v, fk, fn, fi), want, fmt("Contains(%zu,%zu,%zu)", fk, fn, fi)); s.Reset(); require(s.KeySize() + s.IVSize() + s.InfoSize() == 0, "Reset"); c.nontrivial(want || !v.empty());
}
static AsymmetricPrimitives prim(pbt::Case& c) { return c.pick<AsymmetricPrimitives>({ AsymmetricPrimitives::ECDH, AsymmetricPrimitives::Kyber, AsymmetricPrimitives::McEliece, AsymmetricPrimitives::Dilithium, AsymmetricPrimitives::ECDSA, AsymmetricPrimitives::SphincsPlus, AsymmetricPrimitives::XMSS, AsymmetricPrimitives::XMSSMT }); }
struct AKey { Bytes p; AsymmetricPrimitives a; AsymmetricKeyTypes t; AsymmetricParameters m; };
static AKey akey(pbt::Case& c, size_t max) { return AKey{ c.bytes(1 + c.len(max - 1, { 32, 64, 1024 })), prim(c), (AsymmetricKeyTypes)c.u(1, 4), (AsymmetricParameters)c.u(1, 64) }; }
static void check(AsymmetricKey& k, const AKey& w, const std::string& s) { require_eq(k.Polynomial(), w.p, s + ": Polynomial()"); require_eq(unsec(k.SecurePolynomial()), w.p, s + ": SecurePolynomial()"); same((int)k.PrimitiveType(), (int)w.a, s + ": PrimitiveType()"); same((int)k.KeyClass(), (int)w.t, s + ": KeyClass()"); same((int)k.Parameters(), (int)w.m, s + ": Parameters()"); }
PROP(asymmetric, 20000, 400000)
{
	AKey w = akey(c, c.chance(1, 20) ? 100000 : 3000); c.desc << w.p.size() << " bytes"; std::unique_ptr<AsymmetricKey> a(c.flip() ? new AsymmetricKey(w.p, w.a, w.t, w.m) : new AsymmetricKey(sec(w.p), w.a, w.t, w.m)); check(*a, w, "key");
	SBytes s = AsymmetricKey::Serialize(*a); same(s.size(), w.p.size() + 3, "serialised size"); std::unique_ptr<AsymmetricKey> b(AsymmetricKey::DeSerialize(s)); check(*b, w, "reloaded key");
	AKey w2 = w; for (size_t i = 0, e = c.u(0, 3); i < e; ++i) { w2.p = c.bytes(w.p.size()); b->Update(w2.p); check(*b, w2, "updated key"); } check(*a, w, "original after the copy was updated");
	Bytes other(c.flip() ? w.p.size() + c.u(1, 5) : w.p.size() - c.u(1, std::min<size_t>(w.p.size(), 5))); require(throws([&] { b->Update(other); }), "Update with another size was accepted"); check(*b, w2, "key after a refused update");
	a->Reset(); same((int)a->KeyClass(), 0, "key class after Reset"); require(a->Polynomial().empty(), "key after Reset"); check(*b, w2, "copy after the original was reset");
	Bytes t = unsec(s); int what = (int)c.u(0, 2); if (what == 0) { t.resize(c.u(0, 6)); } else if (what == 1) { t[c.u(0, 2)] = 0; } else { t = c.bytes(c.u(0, 12)); } bool ok = t.size() >= 4 && t[0] && t[1] && t[2]; SBytes v = sec(t); v.shrink_to_fit(); std::unique_ptr<AsymmetricKey> d; bool th = throws([&] { d.reset(AsymmetricKey::DeSerialize(v)); }); same(th, !ok, "damaged stream refused"); if (ok) { check(*d, AKey{ Bytes(t.begin() + 3, t.end()), (AsymmetricPrimitives)t[2], (AsymmetricKeyTypes)t[0], (AsymmetricParameters)t[1] }, "damaged key"); } c.nontrivial();
}
PROP(pair, 4000, 60000)
{
	AKey x = akey(c, 200), y = akey(c, 200); Bytes tag = c.bytes(c.u(0, 40)); auto* pk = new AsymmetricKey(x.p, x.a, x.t, x.m); auto* pub = new AsymmetricKey(y.p, y.a, y.t, y.m); bool wt = c.flip(); std::unique_ptr<Asymmetric::AsymmetricKeyPair> p(wt ? new Asymmetric::AsymmetricKeyPair(pk, pub, tag) : new Asymmetric::AsymmetricKeyPair(pk, pub)); require(p->PrivateKey() == pk && p->PublicKey() == pub, "a key pair does not hold its keys"); check(*p->PrivateKey(), x, "private key"); check(*p->PublicKey(), y, "public key"); require_eq(p->Tag(), wt ? tag : Bytes(), "tag of the pair"); c.nontrivial();
}
// generated keys: the requested sizes, every byte from the source, parts differ, a failing source is reported
PROP(generator, 6000, 60000)
{
	SecurityPolicy pol = (SecurityPolicy)c.u(1, 6); Providers pv = c.chance(1, 8) ? Providers::ACP : c.chance(1, 8) ? Providers::ECP : Providers::CSP; SymmetricKeyGenerator g(pol, pv); size_t k = 1 + c.len(200, { 16, 32, 64 }), n = c.flip() ? c.u(8, 200) : 0, i = c.flip() ? c.u(8, 200) : 0; c.desc << "policy " << (int)pol << " provider " << (int)pv << " " << k << "/" << n << "/" << i;
	vf::W->csp_state = c.u(1, 1u << 30); SymmetricKeySize ks(k, n, i); auto get = [&](bool secure) { Parts p; if (secure) { std::unique_ptr<SymmetricSecureKey> s(g.GetSecureKey(ks)); p = Parts{ s->Key(), s->IV(), s->Info() }; } else { std::unique_ptr<SymmetricKey> s(g.GetSymmetricKey(ks)); p = Parts{ s->Key(), s->IV(), s->Info() }; } return p; };
	if (c.chance(1, 5) && pv == Providers::CSP) { vf::W->csp_fail_after = vf::W->csp_calls + (int)c.u(0, 2); vf::W->csp_acquire_fail = false; bool early = vf::W->csp_fail_after <= vf::W->csp_calls; std::string e = thrown([&] { Parts p = get(false); require(!early, "a key was generated although the source fails"); same(p.k.size(), k, "key size"); }); vf::W->csp_fail_after = -1; c.tag("source fails"); if (early) { require(!e.empty(), "a key was generated although the source fails"); } }
	Parts p = get(c.chance(1, 10)), q = get(false); for (auto* x : { &p, &q }) { same(x->k.size(), k, "size of the generated key"); same(x->n.size(), n, "size of the generated nonce"); same(x->i.size(), i, "size of the generated info"); }
	auto pre = [](const Bytes& a) { return ref::sub(a, 0, std::min<size_t>(8, a.size())); }; if (k >= 8) { require(pre(p.k) != pre(q.k), "two generated keys begin alike"); if (n) { require(pre(p.k) != pre(p.n), "key and nonce begin alike"); } if (i) { require(pre(p.k) != pre(p.i), "key and info begin alike"); } if (n && i) { require(pre(p.n) != pre(p.i), "nonce and info begin alike"); } }
	for (auto* x : { &p.k, &p.n, &p.i }) { std::set<Bytes> seen; for (size_t j = 0; j + 8 <= x->size(); j += 8) { require(seen.insert(ref::sub(*x, j, 8)).second, "eight bytes occur twice in a generated key"); } }
	size_t len = c.u(0, 300), off = c.u(0, 20), aft = c.u(0, 20); SBytes a(off + len + aft, 0xA3), b(off + len + aft, 0x5C); uint64_t st = vf::W->csp_state; auto run = [&](SBytes& v) { vf::W->csp_state = st; return throws([&] { g.Generate(v, off, len); }); }; bool t1 = run(a), t2 = run(b); same(t1, len == 0, "Generate of a range"); same(t2, t1, "Generate twice"); if (t1) { return; }
	for (size_t j = 0; j < a.size(); ++j) { bool in = j >= off && j < off + len; if (!in) { require(a[j] == 0xA3 && b[j] == 0x5C, "Generate wrote outside of its range"); } else if (pv == Providers::CSP) { require(a[j] == b[j], "Generate left bytes of its range"); } }
	require(throws([&] { g.Generate(a, off, a.size() - off + 1); }), "a range behind the end was accepted"); SBytes w = g.Generate(len); same(w.size(), len, "Generate(length)"); require(throws([&] { g.Generate(0); }), "length zero was accepted"); c.nontrivial();
}
