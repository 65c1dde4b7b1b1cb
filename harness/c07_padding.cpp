// LIBS: -lcrypto
// C07: block paddings against their definitions
#include "cexutil.h"
#include "PaddingFromName.h"
#include "IPadding.h"
#include "PaddingModes.h"
using CEX::Enumeration::PaddingModes; using CEX::Cipher::Block::Padding::IPadding;
static std::unique_ptr<IPadding> mk(PaddingModes m) { return std::unique_ptr<IPadding>(CEX::Helper::PaddingFromName::GetInstance(m)); }
static const PaddingModes ALL[] = { PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne };
static std::string nm(PaddingModes m) { return CEX::Enumeration::PaddingModeConvert::ToName(m); }
// the bytes n of padding
static Bytes padding(PaddingModes m, size_t n)
{
	Bytes p(n, 0);
	for (size_t i = 0; i < n; ++i) { p[i] = m == PaddingModes::ESP ? (uint8_t)(i + 1) : m == PaddingModes::PKCS7 ? (uint8_t)n : 0; }
	if (n && m == PaddingModes::X923) { p[n - 1] = (uint8_t)n; }
	if (n && m == PaddingModes::ZeroOne) { p[0] = 0x80; }
	return p;
}
// where the data of the range [off, end) stops: end when it does not carry a well formed padding
static size_t data_end(PaddingModes m, const Bytes& b, size_t off, size_t end)
{
	if (m == PaddingModes::ZeroOne)
	{
		size_t i = end; while (i > off && b[i - 1] == 0) { --i; }
		return i > off && b[i - 1] == 0x80 ? i - 1 : end;
	}
	size_t n = b[end - 1]; if (n == 0 || n > end - off) { return end; }
	Bytes p = padding(m, n);
	return std::equal(p.begin(), p.end(), b.begin() + (end - n)) ? end - n : end;
}
static size_t get(IPadding& p, const Bytes& b, size_t off, size_t end, bool whole) { return whole ? p.GetBlockLength(b) : p.GetBlockLength(b, off, end); }

PROP(round_trip, 60000, 2000000)
{
	PaddingModes m = ALL[c.u(0, 3)]; auto p = mk(m);
	size_t blk = c.flip() ? 16 : c.u(1, c.flip() ? 32 : 255), n = c.u(1, blk), front = c.flip() ? 0 : c.u(0, 40), back = c.flip() ? 0 : c.u(0, 40);
	bool whole = front == 0 && back == 0 && c.flip();
	c.desc << nm(m) << " block " << blk << " padded " << n << " at " << front << " of " << front + blk + back;
	Bytes b = c.bytes(front + blk + back), want(b);
	size_t at = front + blk - n, end = front + blk; Bytes pd = padding(m, n); std::copy(pd.begin(), pd.end(), want.begin() + at);
	c.nontrivial(n < blk); c.tag(nm(m)); if (n == blk) { c.tag("whole block is padding"); }
	p->AddPadding(b, at, end);
	require_eq(b, want, "AddPadding");
	size_t got = get(*p, b, front, end, whole);
	require(got == at, "the data ends at " + std::to_string(at) + ", reported " + std::to_string(got) + " for block " + pbt::hex(b));
	require_eq(b, want, "GetBlockLength changed the data");
}
PROP(any_block, 120000, 4000000)
{
	PaddingModes m = ALL[c.u(0, 3)]; auto p = mk(m);
	size_t blk = c.flip() ? 16 : c.u(1, c.flip() ? 32 : 300), front = c.flip() ? 0 : c.u(0, 40), back = c.flip() ? 0 : c.u(0, 40), end = front + blk;
	bool whole = front == 0 && back == 0 && c.flip();
	Bytes b = c.bytes(front + blk + back);
	uint64_t kind = c.u(0, 5); // a valid padding, then a spoiled one, or anything
	if (kind >= 1)
	{
		size_t n = c.u(1, std::min<size_t>(blk, 255)); Bytes pd = padding(m, n); std::copy(pd.begin(), pd.end(), b.begin() + (end - n));
		if (kind >= 2) { size_t k = c.u(0, n); if (k < n) { b[end - 1 - k] ^= (uint8_t)(1u << c.u(0, 7)); } else if (end - n > 0) { b[end - n - 1] = kind == 3 ? 0 : pd[0]; } }
		if (kind == 4) { b[end - 1] = (uint8_t)c.u(0, 255); }
		if (kind == 5 && blk < 250) { b[end - 1] = (uint8_t)(blk + c.u(0, 2)); }
	}
	// the vector ends with the block: a read past it would be seen by the address sanitizer
	if (c.chance(1, 3)) { b.resize(end); }
	c.desc << nm(m) << " kind " << kind << " block [" << front << "," << end << ") of " << pbt::hex(b, 80);
	c.nontrivial(kind >= 1); c.tag(nm(m)); Bytes copy(b);
	size_t want = data_end(m, b, front, end), got = get(*p, b, front, end, whole && b.size() == end);
	c.tag(want == end ? "no padding" : "padding found");
	require(got >= front && got <= end, "the reported end " + std::to_string(got) + " lies outside the block");
	require(got == want, "reported " + std::to_string(got) + ", expected " + std::to_string(want));
	require_eq(b, copy, "GetBlockLength changed the data");
}
PROP(bad_ranges, 6000, 100000)
{
	PaddingModes m = ALL[c.u(0, 3)]; auto p = mk(m);
	size_t n = c.u(0, 64), end = n + c.u(1, 40), off = c.u(0, end); Bytes b = c.bytes(n), copy(b);
	c.desc << nm(m) << " size " << n << " range [" << off << "," << end << ")"; c.nontrivial();
	require(throws([&] { p->AddPadding(b, off, end); }), "AddPadding accepted a length beyond the array");
	require(throws([&] { p->GetBlockLength(b, off, end); }), "GetBlockLength accepted a length beyond the array");
	require_eq(b, copy, "the array was changed");
}
