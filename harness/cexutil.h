#pragma once
#include "pbt.h"
#include "ref.h"
#include "CexDomain.h"
#include "SymmetricKey.h"
#include "SymmetricSecureKey.h"
#include "SecureVector.h"
using pbt::require; using pbt::require_eq; using pbt::fail;
typedef pbt::Bytes Bytes;
typedef CEX::SecureVector<uint8_t> SBytes;
inline SBytes sec(const Bytes& b) { return SBytes(b.begin(), b.end()); }
inline Bytes unsec(const SBytes& b) { return Bytes(b.begin(), b.end()); }
// does f throw one of the library's exceptions (or any std::exception)?
// a machine with another number of cores
inline void world(pbt::Case& c) { vf::W->cores = (unsigned)c.pick<int>({ 8, 4, 2, 6, 1, 3, 16, 5, 12, 32 }); vf::W->hyperthread = c.flip(); }
template<typename... A> std::string fmt(const char* f, A... a) { char b[400]; snprintf(b, sizeof b, f, a...); return b; }
template<typename A, typename B> void same(const A& got, const B& want, const std::string& what, const std::string& sig = "") { if (!(got == want)) { std::ostringstream o; o << what << ": " << got << ", expected " << want; pbt::fail(o.str(), sig); } }
template<typename F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template<typename F> std::string thrown(F f) { try { f(); } catch (std::exception& e) { return std::string("exception ") + e.what(); } return ""; }
inline std::unique_ptr<CEX::Cipher::ISymmetricKey> mkkey(pbt::Case& c, const Bytes& k, const Bytes& iv, const Bytes& info)
{
	using namespace CEX::Cipher;
	if (c.chance(1, 6)) { return std::unique_ptr<ISymmetricKey>(new SymmetricKey(sec(k), sec(iv), sec(info))); }
	return std::unique_ptr<ISymmetricKey>(new SymmetricKey(k, iv, info));
}
