// models of the stream ciphers and of their authentication, and the objects under test
#pragma once
#include "modes.h"
#include "kdfmodel.h"
#include "ChaChaP20.h"
#include "CSX512.h"
#include "RCS.h"
#include "RWS.h"
#include "TSX256.h"
#include "TSX512.h"
#include "TSX1024.h"
#include "StreamCipherFromName.h"
using namespace CEX; using namespace CEX::Enumeration;
typedef Cipher::Stream::IStreamCipher ISC;
enum SK { S_CHACHA, S_CSX, S_RCS, S_RWS, S_T256, S_T512, S_T1024, S_COUNT };
inline const char* sk_name(SK k) { static const char* n[] = { "ChaChaP20", "CSX512", "RCS", "RWS", "TSX256", "TSX512", "TSX1024" }; return n[k]; }
inline Bytes le64b(uint64_t v) { Bytes b(8); ref::ple(&b[0], v, 8); return b; }
namespace ref {
// ChaCha over words of type W: rotations for the columns and diagonals in the order of the quarter rounds
template<typename W> std::vector<W> chacha_block(const std::vector<W>& in, int rounds, const int (*rot)[4])
{
	const int B = sizeof(W) * 8; std::vector<W> x(in);
	auto rl = [B](W v, int n) { return (W)(v << n | v >> (B - n)); };
	static const int Q[8][4] = { {0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14} };
	for (int r = 0; r < rounds; r += 2) { for (int q = 0; q < 8; ++q) { W &a = x[Q[q][0]], &b = x[Q[q][1]], &c = x[Q[q][2]], &d = x[Q[q][3]]; a += b; d = rl(d ^ a, rot[q][0]); c += d; b = rl(b ^ c, rot[q][1]); a += b; d = rl(d ^ a, rot[q][2]); c += d; b = rl(b ^ c, rot[q][3]); } }
	for (int i = 0; i < 16; ++i) { x[i] += in[i]; } return x;
}
// Rijndael with x.size() / 4 columns; rk holds rounds + 1 blocks
inline Bytes rijndael(const Bytes& rk, Bytes x)
{
	const AesTab& T = aestab(); const size_t N = x.size(), NC = N / 4, R = rk.size() / N - 1; const size_t sh[4] = { 0, 1, NC == 8 ? 3u : 2u, NC == 8 ? 4u : NC == 4 ? 3u : 0u };
	size_t s[4] = { sh[0], sh[1], sh[2], sh[3] }; if (NC == 16) { s[0] = 1; s[1] = 2; s[2] = 4; s[3] = 8; }
	for (size_t i = 0; i < N; ++i) { x[i] ^= rk[i]; }
	for (size_t r = 1; r <= R; ++r)
	{
		Bytes y(N); for (size_t c = 0; c < NC; ++c) { for (size_t k = 0; k < 4; ++k) { y[4 * c + k] = T.s[x[4 * ((c + s[k]) % NC) + k]]; } }
		if (r != R) { for (size_t c = 0; c < NC; ++c) { uint8_t a[4]; memcpy(a, &y[4 * c], 4); for (int k = 0; k < 4; ++k) { y[4 * c + k] = T.m[2][a[k]] ^ T.m[3][a[(k + 1) % 4]] ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; } } }
		for (size_t i = 0; i < N; ++i) { x[i] = y[i] ^ rk[r * N + i]; }
	}
	return x;
}
}
struct StreamMsg { std::vector<Bytes> aad; Bytes pt, ct; };
struct StreamModel
{
	SK k; bool auth; Bytes ck, mk, info, ctr, rk; uint64_t n = 0; std::string name; size_t bs, taglen = 0; size_t klen;
	StreamModel(SK kind, bool a, const Bytes& key, const Bytes& nonce, const Bytes& inf) : k(kind), auth(a), ck(key), info(inf), ctr(nonce), klen(key.size())
	{
		switch (k)
		{
		case S_CHACHA: bs = 64; ctr = Bytes(8, 0); if (info.empty()) { info = ref::str("expand 32-byte k"); } info.insert(info.end(), nonce.begin(), nonce.end()); name = a ? "ChaChaP20-KMAC256" : "ChaChaP20"; if (a) { XofStream g(136, key, {}, ref::str(name)); ck = g.next(32); mk = g.next(32); taglen = 32; } break;
		case S_CSX: bs = 128; if (info.empty()) { info = ref::str("CSX512 KMAC authentication ver. 1c CEX++ library"); } info.resize(48, 0); name = a ? "CSX512-KMAC512" : "CSX512"; if (a) { XofStream g(72, key, {}, ref::str(name)); ck = g.next(64); mk = g.next(64); taglen = 64; } break;
		case S_RCS: case S_RWS:
		{
			bool rcs = k == S_RCS; bs = rcs ? 32 : 64; size_t rate = klen == 64 ? 72 : klen == 32 ? 136 : 168, R = rcs ? (klen == 32 ? 22 : 30) : klen == 16 ? 20 : klen == 32 ? 40 : 80;
			n = rcs ? 1 : 0; name = std::string(rcs ? "RCS" : "RWS") + (!a || klen == 16 ? "" : klen == 32 ? "K256" : "K512"); taglen = a ? klen : 0;
			Bytes nm = ref::cat({ le64b(n), Bytes{ (uint8_t)(klen * 8), (uint8_t)(klen * 8 >> 8) }, ref::str(name) }); XofStream g(rate, key, info, nm); rk = g.next(bs * (R + 1)); mk = g.next(klen); break;
		}
		default:
			bs = k == S_T256 ? 32 : k == S_T512 ? 64 : 128; if (info.empty()) { info = ref::str(k == S_T256 ? "ThreefishP256R72" : k == S_T512 ? "ThreefishP512R96" : "Threefish1024120"); } info.resize(16, 0);
			name = std::string(sk_name(k)) + (!a ? "" : k == S_T256 ? "-KMAC256" : "-KMAC512");
			if (a) { n = 1; XofStream g(k == S_T256 ? 136 : 72, key, ref::cat({ le64b(1), ref::str(name) }), {}); ck = g.next(bs); mk = g.next(k == S_T256 ? 32 : 64); taglen = bs; }
		}
	}
	Bytes block()
	{
		static const int R32[8][4] = { {16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7} };
		static const int R64[8][4] = { {38,19,10,55},{33,4,51,13},{16,34,56,51},{4,53,42,41},{34,41,59,17},{23,31,37,20},{31,44,47,46},{12,47,44,30} };
		Bytes o;
		if (k == S_CHACHA) { Bytes s = ref::cat({ ref::sub(info, 0, 16), ck, ctr, ref::sub(info, 16, 8) }); std::vector<uint32_t> x(16); for (int i = 0; i < 16; ++i) { x[i] = (uint32_t)ref::le(&s[4 * i], 4); } x = ref::chacha_block(x, 20, R32); o.resize(64); for (int i = 0; i < 16; ++i) { ref::ple(&o[4 * i], x[i], 4); } }
		else if (k == S_CSX) { auto x = ref::words(ref::cat({ ck, ref::sub(info, 0, 32), ctr, ref::sub(info, 32, 16) })); o = ref::unwords(ref::chacha_block(x, 40, R64)); }
		else if (k == S_RCS || k == S_RWS) { o = ref::rijndael(rk, ctr); }
		else { auto x = ref::words(ref::cat({ ctr, Bytes(bs - 16, 0xFF) })); ref::threefish(ref::words(ck), ref::le(&info[0], 8), ref::le(&info[8], 8), x, k == S_T256 ? 72 : k == S_T512 ? 96 : 120, k == S_T256 ? 18 : k == S_T512 ? 18 : 20); o = ref::unwords(x); } // the last subkey is that of the published round count: the known answers of the test suite fix it
		for (size_t i = 0, e = std::min<size_t>(16, ctr.size()); i < e && ++ctr[i] == 0; ++i) {}
		return o;
	}
	Bytes crypt(const Bytes& m) { Bytes o(m); for (size_t p = 0; p < m.size(); p += bs) { Bytes b = block(); for (size_t i = 0; i < bs && p + i < m.size(); ++i) { o[p + i] ^= b[i]; } } return o; }
	// the authenticator keeps its sponge between the messages of a session: each tag also covers the messages before it
	std::unique_ptr<ref::Sponge> sp;
	Bytes mac(const Bytes& in)
	{
		size_t rate = taglen == 16 ? 168 : taglen == 32 ? 136 : 72; // the 1024 bit cipher takes 128 bytes from KMAC512
		if (!sp) { sp.reset(new ref::Sponge(rate)); sp->absorb_full(ref::cat({ ref::bytepad(ref::cat({ ref::encode_string(ref::str("KMAC")), ref::encode_string({}) }), rate), ref::bytepad(ref::encode_string(mk), rate) })); }
		sp->absorb_final(ref::cat({ in, ref::right_encode(taglen * 8) }), 0x04); return sp->squeeze(taglen);
	}
	// ciphertext and tag
	Bytes seal(const std::vector<Bytes>& aad, const Bytes& m)
	{
		Bytes in; for (auto& a : aad) { in = ref::cat({ in, a }); if (k != S_CHACHA) { Bytes l(4); ref::ple(&l[0], a.size(), 4); in = ref::cat({ in, l }); } }
		Bytes c0 = ctr, c = crypt(m); if (!auth) { return c; }
		n += m.size(); in = ref::cat({ in, c0, c });
		if (k == S_CHACHA || k == S_CSX) { in = ref::cat({ in, le64b(n) }); } else if (k == S_RCS || k == S_RWS) { in = ref::cat({ in, le64b(n + ctr.size() + 8) }); } else { in = ref::cat({ in, le64b(n), ref::str(name) }); }
		return ref::cat({ c, mac(in) });
	}
};
struct StreamObj
{
	SK k; bool auth; std::unique_ptr<ISC> o;
	ISC* operator->() { return o.get(); }
	void make(pbt::Case& c, int kind = -1, int au = -1) { k = kind >= 0 ? (SK)kind : (SK)c.u(0, S_COUNT - 1); auth = au >= 0 ? au != 0 : c.flip(); rebuild(c); c.tag(std::string(sk_name(k)) + (auth ? " authenticated" : "")); }
	void rebuild(pbt::Case& c)
	{
		using namespace Cipher::Stream; o.reset();
		if (c.flip())
		{
			StreamCiphers e; switch (k) { case S_CHACHA: e = auth ? StreamCiphers::CSXR20K256 : StreamCiphers::ChaChaP20; break; case S_CSX: e = auth ? StreamCiphers::CSXR80K512 : StreamCiphers::CSX512; break;
			case S_RCS: e = auth ? (c.flip() ? StreamCiphers::RCSK256 : StreamCiphers::RCSK512) : StreamCiphers::RCS; break; case S_RWS: e = auth ? (c.flip() ? StreamCiphers::RWSK256 : StreamCiphers::RWSK512) : StreamCiphers::RWS; break;
			case S_T256: e = auth ? StreamCiphers::TSXR72K256 : StreamCiphers::TSX256; break; case S_T512: e = auth ? StreamCiphers::TSXR96K512 : StreamCiphers::TSX512; break; default: e = auth ? StreamCiphers::TSXR120K512 : StreamCiphers::TSX1024; }
			o.reset(Helper::StreamCipherFromName::GetInstance(e)); return;
		}
		switch (k) { case S_CHACHA: o.reset(new ChaChaP20(auth)); break; case S_CSX: o.reset(new CSX512(auth)); break; case S_RCS: o.reset(new RCS(auth)); break; case S_RWS: o.reset(new RWS(auth)); break; case S_T256: o.reset(new TSX256(auth)); break; case S_T512: o.reset(new TSX512(auth)); break; default: o.reset(new TSX1024(auth)); }
	}
	std::string name() const { return std::string(sk_name(k)) + (auth ? " with authentication" : ""); }
	size_t keylen(pbt::Case& c) const { switch (k) { case S_CHACHA: case S_T256: return 32; case S_CSX: case S_T512: return 64; case S_RCS: return c.pick<size_t>({ 32, 64 }); case S_RWS: return c.pick<size_t>({ 32, 16, 64 }); default: return 128; } }
	size_t noncelen() const { switch (k) { case S_CHACHA: return 8; case S_RCS: return 32; case S_RWS: return 64; default: return 16; } }
	Bytes info(pbt::Case& c) const { if (c.flip()) { return {}; } switch (k) { case S_CHACHA: case S_T256: return c.bytes(16); case S_CSX: return c.bytes(c.u(1, 48)); case S_RCS: case S_RWS: return c.bytes(c.u(4, 40)); /* cSHAKE takes no shorter ones */ default: return c.bytes(c.u(1, 16)); } }
	size_t unit() const { static const size_t b[] = { 64, 128, 32, 64, 32, 64, 128 }; return b[k]; }
	Bytes nonce(pbt::Case& c) const { Bytes b = c.bytes(noncelen()); if (c.chance(1, 4)) { for (size_t i = 0, w = c.u(1, std::min<size_t>(b.size(), 16)); i < w; ++i) { b[i] = 0xFF; } if (k != S_CHACHA) { c.tag("counter carries"); } } return b; }
	void aad(pbt::Case& c, const Bytes& a) { size_t p = c.flip() ? c.u(0, 20) : 0; Bytes b(p, 0x77); b.insert(b.end(), a.begin(), a.end()); b.resize(b.size() + c.u(0, 3), 0x78); o->SetAssociatedData(b, p, a.size()); }
	// one message through Transform, compared with the model's
	void run(pbt::Case& c, bool enc, const StreamMsg& m, const std::string& ctx)
	{
		std::string what = name() + (enc ? " encrypting " : " decrypting ") + std::to_string(m.pt.size()) + " bytes, " + ctx;
		for (auto& a : m.aad) { aad(c, a); }
		const Bytes& in = enc ? m.pt : m.ct; const Bytes& want = enc ? m.ct : m.pt;
		size_t io = c.flip() ? c.u(0, 40) : 0, oo = c.flip() ? c.u(0, 40) : 0, ob = c.flip() ? c.u(0, 40) : 0; c.desc << " in " << io << " out " << oo;
		Bytes I(io, 0x31); I.insert(I.end(), in.begin(), in.end()); I.resize(I.size() + c.u(0, 3), 0x32); Bytes I0 = I; pbt::Guarded g(oo, want.size(), ob, 0x5A);
		if (auth && enc && c.chance(1, 20)) { Bytes t(oo + want.size() - 1 - c.u(0, want.size() - m.pt.size() - 1)); require(throws([&] { o->Transform(I, io, t, oo, m.pt.size()); }), what + ": an output of " + std::to_string(t.size() - oo) + " bytes was accepted"); c.tag("output too short for the tag"); }
		o->Transform(I, io, g.b, oo, m.pt.size());
		require_eq(g.out(), want, what); g.check(what); require(I == I0, what + ": the input was changed");
		if (auth) { size_t t = m.ct.size() - m.pt.size(); require(o->TagSize() == t, what + ": TagSize"); require_eq(o->Tag(), ref::sub(m.ct, m.pt.size(), t), what + ": Tag()"); SBytes st(t); o->Tag(st); require_eq(unsec(st), ref::sub(m.ct, m.pt.size(), t), what + ": Tag(SecureVector)"); }
	}
};
inline StreamMsg stream_msg(pbt::Case& c, StreamObj& S, StreamModel& M, size_t max, std::initializer_list<size_t> marks)
{
	StreamMsg m; if (S.auth) { int na = (int)c.pick<int>({ 0, 1, 0, 1, 2 }); for (int i = 0; i < na; ++i) { m.aad.push_back(c.bytes(1 + c.len(300, { 16, 136 }))); } }
	m.pt = c.bytes(c.len(max, marks)); m.ct = M.seal(m.aad, m.pt); return m;
}
