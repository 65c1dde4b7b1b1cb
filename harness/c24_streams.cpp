// LIBS: -lcrypto
// C24: byte streams behave as one byte array with a cursor
#include "cexutil.h"
#include "MemoryStream.h"
#include "FileStream.h"
#include "SecureStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SeekOrigin.h"
#include <fstream>
#include <unistd.h>
using namespace CEX::IO;
static std::string scratch() { const char* d = getenv("VF_SCRATCH"); return std::string(d ? d : "/tmp") + "/c24-" + std::to_string(getpid()); }
static Bytes slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static void spew(const std::string& f, const Bytes& b) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write((const char*)b.data(), b.size()); }
enum Kind { MEM, FIL, SEC };
struct Model { Bytes d; size_t p = 0; void write(const Bytes& b) { if (b.empty()) { return; } if (d.size() < p + b.size()) { d.resize(p + b.size()); } std::copy(b.begin(), b.end(), d.begin() + p); p += b.size(); } };

static void agree(IByteStream& s, const Model& m, const std::string& when)
{
	require(s.Length() == m.d.size(), when + ": length " + std::to_string(s.Length()) + ", expected " + std::to_string(m.d.size()));
	require(s.Position() == m.p, when + ": position " + std::to_string(s.Position()) + ", expected " + std::to_string(m.p));
}
static Bytes contents(IByteStream& s, Kind k)
{
	if (k == MEM) { return static_cast<MemoryStream&>(s).ToArray(); }
	if (k == SEC) { return static_cast<SecureStream&>(s).ToArray(); }
	static_cast<FileStream&>(s).Flush(); return slurp(static_cast<FileStream&>(s).FileName());
}

PROP(array_with_cursor, 9000, 300000)
{
	Kind k = c.pick({ MEM, MEM, FIL, FIL, FIL, SEC }); Model m; std::unique_ptr<IByteStream> s; std::string file;
	bool rd = true, wr = true, app = false;
	size_t big = k == SEC ? 600 : c.chance(1, 4) ? 20000 : 300;
	if (k == MEM)
	{
		uint64_t how = c.u(0, 3);
		if (how == 0) { s.reset(new MemoryStream()); }
		else if (how == 1) { s.reset(new MemoryStream((size_t)c.u(0, 100))); }
		else if (how == 2) { m.d = c.bytes(c.len(big, { 32, 4096 })); s.reset(new MemoryStream(m.d)); }
		else { Bytes b = c.bytes(c.len(big, { 32 })); size_t o = c.u(0, b.size()), l = c.u(0, b.size() - o); m.d = ref::sub(b, o, l); s.reset(new MemoryStream(b, o, l)); }
		c.desc << "memory(" << how << ")";
	}
	else if (k == SEC)
	{
		uint64_t how = c.u(0, 3), salt = c.flip() ? 0 : c.u(0, ~0ull);
		if (how == 0) { s.reset(new SecureStream()); }
		else if (how == 1) { s.reset(new SecureStream((size_t)c.u(0, 100), salt)); }
		else if (how == 2) { m.d = c.bytes(c.len(big, { 32 })); s.reset(new SecureStream(m.d, salt)); }
		else { Bytes b = c.bytes(c.len(big, { 32 })); size_t o = c.u(0, b.size()), l = c.u(0, b.size() - o); m.d = ref::sub(b, o, l); s.reset(new SecureStream(b, o, l, salt)); }
		c.desc << "secure(" << how << ") salt " << salt;
	}
	else
	{
		file = scratch(); unlink(file.c_str());
		Bytes init = c.bytes(c.len(big, { 4096 })); uint64_t how = c.u(0, 6);
		bool exists = how != 1 && how != 5; if (exists) { spew(file, init); }
		typedef FileStream FS;
		switch (how)
		{
		case 0: case 6: m.d = init; s.reset(new FS(file, FS::FileAccess::ReadWrite)); break;
		case 1: s.reset(new FS(file, FS::FileAccess::Write)); rd = false; break;
		case 2: s.reset(new FS(file, FS::FileAccess::Write)); rd = false; break; // truncates
		case 3: m.d = init; s.reset(new FS(file, FS::FileAccess::Read)); wr = false; break;
		case 4: m.d = init; m.p = m.d.size(); s.reset(new FS(file, FS::FileAccess::ReadWrite, FS::FileModes::AtEnd)); break;
		default: s.reset(new FS(file, FS::FileAccess::ReadWrite, FS::FileModes::Truncate)); break;
		}
		c.desc << "file(" << how << ", " << init.size() << ")";
	}
	c.tag(k == MEM ? "memory" : k == FIL ? "file" : "secure");
	require(s->CanRead() == rd && s->CanWrite() == wr && s->CanSeek(), "access flags");
	agree(*s, m, "a new stream");
	int ops = 1 + (int)c.u(0, 24);
	for (int i = 0; i < ops; ++i)
	{
		uint64_t op = c.u(0, 11); std::string w = "op " + std::to_string(i);
		if (op <= 2 && wr)
		{
			Bytes b = c.bytes(c.len(big, { 32, 4096 })); if (b.empty() && m.p > m.d.size()) { continue; }
			size_t f = c.flip() ? c.u(0, 20) : 0; Bytes I(f, 0x31); I.insert(I.end(), b.begin(), b.end()); I.resize(I.size() + 1 + c.u(0, 9), 0x32); Bytes I0 = I;
			c.desc << " write " << b.size() << "@" << f; w += " write";
			s->Write(I, f, b.size()); m.write(b); require(I == I0, w + ": input changed"); c.nontrivial();
		}
		else if (op == 3 && wr) { uint8_t v = (uint8_t)c.u(0, 255); c.desc << " byte"; w += " WriteByte"; s->WriteByte(v); m.write({ v }); }
		else if (op <= 6 && rd)
		{
			size_t want = c.len(big + 50, { 32, 4096 }), f = c.flip() ? c.u(0, 40) : 0, left = m.p < m.d.size() ? m.d.size() - m.p : 0, n = std::min(want, left);
			c.desc << " read " << want << "@" << f; w += " read " + std::to_string(want) + " of " + std::to_string(left) + " left";
			pbt::Guarded g(f, want, c.u(0, 9), 0x77); // exactly as large as the request
			size_t got = s->Read(g.b, f, want);
			require(got == n, w + ": returned " + std::to_string(got)); g.check(w);
			require_eq(ref::sub(g.out(), 0, n), ref::sub(m.d, std::min(m.p, m.d.size()), n), w);
			for (size_t j = n; j < want; ++j) { require(g.b[f + j] == 0x77, w + ": wrote past the bytes read"); }
			m.p += n; c.nontrivial(m.d.size() != 0);
		}
		else if (op == 7 && rd && m.p < m.d.size()) { c.desc << " ReadByte"; uint8_t v = s->ReadByte(); require(v == m.d[m.p], w + ": ReadByte"); ++m.p; }
		else if (op <= 9)
		{
			uint64_t o = c.u(0, 2); size_t lim = wr ? m.d.size() + (c.chance(1, 5) ? 60 : 0) : m.d.size(), to = c.u(0, 2) ? c.u(0, lim) : c.pick<size_t>({ 0, m.d.size() });
			if (o == 1 && to > m.d.size()) { o = 0; }
			c.desc << " seek " << to << (o == 0 ? "b" : o == 1 ? "e" : "c"); w += " seek";
			if (o == 0) { s->Seek(to, SeekOrigin::Begin); } else if (o == 1) { s->Seek(m.d.size() - to, SeekOrigin::End); } else { s->Seek((uint64_t)to - m.p, SeekOrigin::Current); }
			m.p = to;
		}
		else if (op == 10 && wr) { size_t n = c.flip() ? c.u(0, m.d.size() + 1) : c.len(big, { 4096 }); c.desc << " SetLength " << n; w += " SetLength"; s->SetLength(n); m.d.resize(n); }
		else if (op == 11)
		{
			uint64_t o = c.u(0, 4);
			if (o == 0 && rd && m.d.size() != 0) { c.desc << " CopyTo"; w += " CopyTo"; MemoryStream d; s->CopyTo(&d); require_eq(Bytes(d.ToArray()), m.d, w); }
			else if (o == 1 && k != FIL) { c.desc << " Reset"; w += " Reset"; s->Reset(); m = Model(); }
			else if (o == 2 && k == FIL) { c.desc << " Reset"; w += " Reset"; s->Reset(); m.p = 0; }
			else if (o == 3 && k != FIL) { c.desc << " Close"; w += " Close"; s->Close(); m = Model(); }
			else if (o == 4 && k == MEM) { c.desc << " copy"; std::unique_ptr<IByteStream> t(new MemoryStream(static_cast<MemoryStream&>(*s))); require_eq(contents(*s, k), m.d, w + ": the original after a copy"); s.swap(t); if (t) { t->Close(); } m.p = 0; w += " copy"; }
		}
		agree(*s, m, w);
		if (k != FIL || c.chance(1, 6)) { if (wr || k != FIL) { require_eq(contents(*s, k), m.d, w + ": contents"); } }
	}
	if (k == FIL) { s->Close(); require_eq(slurp(file), m.d, "the file after closing"); require(FileStream::FileSize(file) == m.d.size(), "FileSize"); s.reset(); unlink(file.c_str()); require(!FileStream::FileExists(file), "FileExists of a removed file"); }
}
PROP(file_append, 1500, 30000)
{
	std::string file = scratch(); Bytes m = c.bytes(c.len(9000, { 4096 })); spew(file, m); c.desc << m.size();
	{
		FileStream s(file, FileStream::FileAccess::Write, FileStream::FileModes::Append);
		for (int i = 0, n = 1 + (int)c.u(0, 5); i < n; ++i) { Bytes b = c.bytes(c.len(5000, { 4096 })); c.desc << " +" << b.size(); s.Write(b, 0, b.size()); m.insert(m.end(), b.begin(), b.end()); require(s.Length() == m.size(), "length after appending"); c.nontrivial(!b.empty()); if (c.flip()) { s.Flush(); require_eq(slurp(file), m, "the file after a flush"); } }
	}
	require_eq(slurp(file), m, "the file after appending"); unlink(file.c_str());
	require(throws([&] { FileStream s(file, FileStream::FileAccess::Read); }), "a missing file opened for reading");
	require(throws([&] { FileStream s(file + "/x/y", FileStream::FileAccess::Write); }), "a file that cannot be created");
}
template<typename T> static void put(Bytes& m, T v) { for (size_t i = 0; i < sizeof(T); ++i) { m.push_back((uint8_t)((uint64_t)v >> (8 * i))); } }
template<typename T> static void wr_array(pbt::Case& c, StreamWriter& w, Bytes& m)
{
	size_t n = c.u(0, 70); std::vector<T> v(n); for (auto& x : v) { x = (T)c.rng.next(); }
	Bytes raw = c.bytes(n * sizeof(T)); if (n) { memcpy(v.data(), raw.data(), raw.size()); }
	uint64_t how = c.u(0, 1); size_t o = 0, e = n; if (how) { o = c.u(0, n); e = c.u(0, n - o); }
	c.desc << " array" << sizeof(T) * 8 << "[" << o << "+" << e << "/" << n << "]";
	if (how) { w.Write(v, o, e); } else { w.Write(v); }
	for (size_t i = 0; i < e; ++i) { put(m, v[o + i]); }
}
PROP(writer_reader, 8000, 200000)
{
	size_t init = c.chance(1, 3) ? c.u(0, 50) : 0; StreamWriter w(init); Bytes m; std::vector<std::pair<int, uint64_t>> items; size_t arr = 0;
	for (int i = 0, n = 1 + (int)c.u(0, 12); i < n; ++i)
	{
		uint64_t v = c.u(0, ~0ull);
		switch (c.u(0, 7))
		{
		case 0: w.Write((uint8_t)v); put(m, (uint8_t)v); items.push_back({ 1, (uint8_t)v }); c.desc << " u8"; break;
		case 1: w.Write((uint16_t)v); put(m, (uint16_t)v); items.push_back({ 2, (uint16_t)v }); c.desc << " u16"; break;
		case 2: w.Write((uint32_t)v); put(m, (uint32_t)v); items.push_back({ 4, (uint32_t)v }); c.desc << " u32"; break;
		case 3: w.Write(v); put(m, v); items.push_back({ 8, v }); c.desc << " u64"; break;
		case 4: { size_t b = m.size(); wr_array<uint8_t>(c, w, m); items.push_back({ -1, m.size() - b }); ++arr; break; }
		case 5: { size_t b = m.size(); wr_array<uint16_t>(c, w, m); items.push_back({ -1, m.size() - b }); ++arr; break; }
		case 6: { size_t b = m.size(); wr_array<uint32_t>(c, w, m); items.push_back({ -1, m.size() - b }); ++arr; break; }
		default: { size_t b = m.size(); wr_array<uint64_t>(c, w, m); items.push_back({ -1, m.size() - b }); ++arr; break; }
		}
		require(w.Position() == m.size(), "writer position " + std::to_string(w.Position()) + ", expected " + std::to_string(m.size()));
		require(w.Length() == std::max(init, m.size()), "writer length");
	}
	c.nontrivial(items.size() > 1);
	Bytes all(m); if (all.size() < init) { all.resize(init, 0); }
	require_eq(Bytes(w.Generate()), all, "writer bytes");
	std::unique_ptr<MemoryStream> ms(w.GetStream()); require_eq(Bytes(ms->ToArray()), m, "GetStream");
	StreamReader r(*ms); size_t p = 0; require(r.Length() == m.size(), "reader length");
	for (auto& it : items)
	{
		if (it.first == 1) { require((c.flip() ? r.ReadByte() : r.ReadInt<uint8_t>()) == it.second, "reader u8"); p += 1; }
		else if (it.first == 2) { require(r.ReadInt<uint16_t>() == it.second, "reader u16"); p += 2; }
		else if (it.first == 4) { require(r.ReadInt<uint32_t>() == it.second, "reader u32"); p += 4; }
		else if (it.first == 8) { require(r.ReadInt<uint64_t>() == it.second, "reader u64"); p += 8; }
		else { require_eq(r.ReadBytes(it.second), ref::sub(m, p, it.second), "reader bytes"); p += it.second; }
		require(r.Position() == p, "reader position");
	}
}
