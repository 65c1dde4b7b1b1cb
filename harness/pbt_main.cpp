#include "pbt.h"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <poll.h>
#include <typeinfo>
#include <cxxabi.h>
#include "CryptoException.h"

namespace pbt {
std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
std::string hex(const uint8_t* p, size_t n, size_t max)
{
	static const char* d = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
	if (n > max) { s += "...(" + std::to_string(n) + ")"; }
	return s;
}
Bytes unhex(const std::string& s) { Bytes b; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) { b.push_back((uint8_t)(v(s[i]) * 16 + v(s[i + 1]))); } return b; }
uint64_t hash64(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; } return h; }
void require_eq(const uint8_t* got, const uint8_t* want, size_t n, const std::string& what, const std::string& sig)
{
	if (n == 0 || memcmp(got, want, n) == 0) { return; }
	size_t i = 0; while (got[i] == want[i]) { ++i; }
	fail(what + ": differs at byte " + std::to_string(i) + " of " + std::to_string(n) + ": got " + hex(got + i, std::min<size_t>(n - i, 16)) + " expected " + hex(want + i, std::min<size_t>(n - i, 16)), sig);
}
}
using namespace pbt;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=5"; }
extern "C" const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1:report_bugs=1:allocator_may_return_null=1"; }

enum Res { PASS = 0, FAILED = 1, DISCARDED = 2, CRASHED = 3 };
struct Out { Res r = PASS; std::string what, sig; };
static double g_case_cpu = 90, g_case_wall = 240;

static std::string demangle(const char* n) { int s; char* d = abi::__cxa_demangle(n, 0, 0, &s); std::string r = d ? d : n; free(d); return r; }
static Out run_case(const Prop& p, Case& c, uint64_t wseed)
{
	Out o;
	vf::reset_world(wseed);
	struct itimerval cpu = {}, wall = {};
	cpu.it_value.tv_sec = (long)g_case_cpu; setitimer(ITIMER_PROF, &cpu, nullptr);
	wall.it_value.tv_sec = (long)g_case_wall; setitimer(ITIMER_REAL, &wall, nullptr);
	try { p.fn(c); }
	catch (Discard&) { o.r = DISCARDED; }
	catch (Failure& f) { o = { FAILED, f.what, f.sig }; }
	catch (CEX::Exception::CryptoException& e) { o = { FAILED, "unexpected exception of the library: " + demangle(typeid(e).name()) + " location='" + e.Location() + "' origin='" + e.Origin() + "' message='" + e.Message() + "'", "" }; }
	catch (std::exception& e) { o = { FAILED, "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what(), "" }; }
	cpu.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &cpu, nullptr);
	wall.it_value.tv_sec = 0; setitimer(ITIMER_REAL, &wall, nullptr);
	vf::reset_world(0);
	return o;
}
static uint64_t case_seed(uint64_t seed, const Prop& p, uint64_t i) { uint64_t h = hash64(p.name.data(), p.name.size(), 0xcbf29ce484222325ull ^ (seed * 0x9E3779B97F4A7C15ull)); Rng r{ h ^ (i * 0xD1342543DE82EF95ull) }; r.next(); return r.next(); }
static uint64_t world_seed(const std::vector<uint64_t>&) { return 99; }

static const Prop* find(const std::string& n) { for (auto& p : props()) { if (p.name == n) { return &p; } } return nullptr; }

// run a tape in a forked child
static Out forked(const Prop& p, const std::vector<uint64_t>& tape, std::vector<uint64_t>* used, std::string* desc, bool thorough)
{
	int fd[2]; if (pipe(fd)) { abort(); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0)
	{
		close(fd[0]);
		int nul = open("/dev/null", O_WRONLY); if (!getenv("VF_VERBOSE")) { dup2(nul, 1); dup2(nul, 2); }
		Case c; c.replaying = true; c.in = &tape; c.thorough = thorough;
		Out o = run_case(p, c, world_seed(tape));
		std::string m; m += (char)o.r; auto put = [&](const std::string& s) { uint64_t n = s.size(); m.append((char*)&n, 8); m += s; };
		put(o.what); put(o.sig); put(c.desc.str().substr(0, 20000)); put(std::string((char*)c.tape.data(), c.tape.size() * 8));
		size_t off = 0; while (off < m.size()) { ssize_t k = write(fd[1], m.data() + off, m.size() - off); if (k <= 0) { break; } off += k; }
		_exit(0);
	}
	close(fd[1]);
	std::string m; char buf[65536]; ssize_t k;
	while ((k = read(fd[0], buf, sizeof buf)) > 0) { m.append(buf, k); }
	close(fd[0]);
	int st = 0; waitpid(pid, &st, 0);
	Out o;
	if (m.size() < 33 || !WIFEXITED(st) || WEXITSTATUS(st) != 0)
	{
		o.r = CRASHED;
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) { o.what = "did not terminate (watchdog)"; o.sig = "hang"; }
		else if (WIFSIGNALED(st)) { o.what = std::string("crashed with signal ") + std::to_string(WTERMSIG(st)); }
		else { o.what = "crashed: sanitizer report or exit, code " + std::to_string(WEXITSTATUS(st)); }
		if (used) { *used = tape; }
		return o;
	}
	o.r = (Res)m[0]; size_t off = 1;
	auto get = [&]() { uint64_t n; memcpy(&n, m.data() + off, 8); off += 8; std::string s = m.substr(off, n); off += n; return s; };
	o.what = get(); o.sig = get(); std::string d = get(), t = get();
	if (desc) { *desc = d; }
	if (used) { used->resize(t.size() / 8); memcpy(used->data(), t.data(), t.size()); }
	return o;
}
static std::string js(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); r += b; } else { r += ch; } } return r + "\""; }
static std::string jt(const std::vector<uint64_t>& t) { std::string s = "["; for (size_t i = 0; i < t.size(); ++i) { s += (i ? "," : "") + std::to_string(t[i]); } return s + "]"; }

static std::set<std::string> g_known;
static bool bad(const Out& o) { return (o.r == FAILED || o.r == CRASHED) && !(g_known.count(o.sig) && !o.sig.empty()); }

// tape files:  property name on the first line, then the integers
static bool load(const char* f, std::string& name, std::vector<uint64_t>& tape) { std::ifstream i(f); if (!std::getline(i, name)) { return false; } uint64_t v; while (i >> v) { tape.push_back(v); } return true; }

static int do_shrink(const char* file, const char* outf, double budget, bool thorough)
{
	std::string name; std::vector<uint64_t> best, used; std::string desc;
	if (!load(file, name, best)) { return 2; }
	const Prop* p = find(name); if (!p) { return 2; }
	Out o = forked(*p, best, &used, &desc, thorough);
	int first = bad(o);
	if (first)
	{
		auto t0 = std::chrono::steady_clock::now();
		auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
		best = used;
		auto attempt = [&](const std::vector<uint64_t>& t) { if (left() <= 0) { return false; } std::vector<uint64_t> u2; std::string d2; Out q = forked(*p, t, &u2, &d2, thorough); if (bad(q) && (u2.size() < best.size() || (u2.size() == best.size() && u2 < best))) { best = u2; o = q; desc = d2; return true; } return false; };
		bool progress = o.sig != "hang";
		while (progress && left() > 0)
		{
			progress = false;
			for (size_t k : { (size_t)64, (size_t)16, (size_t)8, (size_t)4, (size_t)3, (size_t)2, (size_t)1 })
			{
				for (size_t i = best.size(); i-- > 0 && left() > 0;) { if (i + k > best.size()) { continue; } auto t = best; t.erase(t.begin() + i, t.begin() + i + k); if (attempt(t)) { progress = true; } }
			}
			for (size_t i = 0; i < best.size() && left() > 0; ++i)
			{
				if (best[i] == 0) { continue; }
				auto t = best; t[i] = 0; if (attempt(t)) { progress = true; continue; }
				uint64_t lo = 0, hi = best[i]; int n = 0;
				while (lo + 1 < hi && n++ < 20 && left() > 0 && i < best.size()) { uint64_t mid = lo + (hi - lo) / 2; auto t2 = best; t2[i] = mid; if (attempt(t2)) { hi = best.size() > i ? best[i] : 0; progress = true; } else { lo = mid; } }
			}
		}
	}
	std::ofstream f(outf);
	f << "{\"fails\":" << (first ? "true" : "false") << ",\"prop\":" << js(name) << ",\"tape\":" << jt(best) << ",\"message\":" << js(o.what) << ",\"signature\":" << js(o.sig) << ",\"case\":" << js(desc) << "}\n";
	return 0;
}

struct Heart { uint64_t prop, idx; };
int main(int argc, char** argv)
{
	std::string mode = "run", out, file, only, tier = "quick"; uint64_t shard = 0, shards = 1, seed = 1, from = 0, to = ~0ull; double maxsec = 1e9, scale = 1; bool nostop = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--list") { mode = "list"; } else if (a == "--shard") { shard = std::stoull(nx()); } else if (a == "--shards") { shards = std::stoull(nx()); } else if (a == "--seed") { seed = std::stoull(nx()); }
		else if (a == "--tier") { tier = nx(); } else if (a == "--out") { out = nx(); } else if (a == "--prop") { only = nx(); } else if (a == "--replay") { mode = "replay"; file = nx(); } else if (a == "--shrink") { mode = "shrink"; file = nx(); }
		else if (a == "--known") { g_known.insert(nx()); } else if (a == "--maxsec") { maxsec = std::stod(nx()); } else if (a == "--scale") { scale = std::stod(nx()); } else if (a == "--from") { from = std::stoull(nx()); } else if (a == "--to") { to = std::stoull(nx()); } else if (a == "--nostop") { nostop = true; }
		else if (a == "--tape") { mode = "tape"; only = nx(); }
	}
	bool thorough = tier == "thorough";
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	if (mode == "list") { for (auto& p : props()) { printf("%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quick, (unsigned long long)p.thorough); } return 0; }
	if (mode == "replay")
	{
		std::string name; std::vector<uint64_t> tape; if (!load(file.c_str(), name, tape)) { return 2; }
		const Prop* p = find(name); if (!p) { return 2; }
		std::string d; Out o = forked(*p, tape, nullptr, &d, thorough);
		printf("%s\n%s\ncase: %s\n", o.r == PASS ? "PASS" : o.r == DISCARDED ? "DISCARDED" : "FAIL", o.what.c_str(), d.c_str());
		return o.r == PASS || o.r == DISCARDED ? 0 : 1;
	}
	if (mode == "shrink") { return do_shrink(file.c_str(), out.c_str(), maxsec > 1e8 ? 40 : maxsec, thorough); }
	if (mode == "tape") // regenerate the tape of case (prop, from) without running it to the end: used when a shard died
	{
		const Prop* p = find(only); if (!p) { return 2; }
		Heart* h = nullptr; (void)h;
		int fd[2]; if (pipe(fd)) { return 2; }
		size_t cap = 1 << 24; uint64_t* sh = (uint64_t*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		pid_t pid = fork();
		if (pid == 0)
		{
			Case c; c.thorough = thorough; c.rng.s = case_seed(seed, *p, from);
			// mirror the choices into shared memory as they are made
			struct Mirror : Case {};
			static Case* pc = &c; static uint64_t* ps = sh; static size_t lim = cap / 8 - 1;
			auto sync = [](int) { size_t n = std::min(lim, pc->tape.size()); ps[0] = n; memcpy(ps + 1, pc->tape.data(), n * 8); _exit(0); };
			for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGPROF, SIGALRM }) { signal(s, sync); }
			int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
			std::atexit([] { size_t n = std::min(lim, pc->tape.size()); ps[0] = n; memcpy(ps + 1, pc->tape.data(), n * 8); });
			run_case(*p, c, world_seed({}));
			sync(0);
		}
		int st; waitpid(pid, &st, 0);
		std::ofstream f(out); f << only << "\n"; for (uint64_t i = 0; i < sh[0]; ++i) { f << sh[1 + i] << "\n"; }
		return 0;
	}

	// exploration
	int hfd = open((out + ".heart").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (ftruncate(hfd, sizeof(Heart))) { return 2; }
	Heart* heart = (Heart*)mmap(nullptr, sizeof(Heart), PROT_READ | PROT_WRITE, MAP_SHARED, hfd, 0);
	heart->prop = ~0ull;
	struct Stat { uint64_t evals = 0, disc = 0, non = 0, known = 0; double secs = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> tags, knowns; std::vector<std::string> samples; };
	std::vector<Stat> st(props().size());
	auto t0 = std::chrono::steady_clock::now();
	bool capped = false;
	std::string failjson = "null";
	// all properties advance together, in proportion to their case counts
	uint64_t steps = 0; for (auto& p : props()) { if (!only.empty() && p.name != only) { continue; } steps = std::max<uint64_t>(steps, (uint64_t)((thorough ? p.thorough : p.quick) * scale + 0.5)); }
	std::vector<uint64_t> done(props().size(), 0);
	for (uint64_t s = 0; s < steps && failjson == "null" && !capped; ++s)
	{
		for (size_t k = 0; k < props().size() && failjson == "null"; ++k)
		{
			const Prop& p = props()[k];
			if (!only.empty() && p.name != only) { continue; }
			uint64_t total = std::max<uint64_t>(1, (uint64_t)((thorough ? p.thorough : p.quick) * scale + 0.5));
			uint64_t upto = (uint64_t)(((unsigned __int128)total * (s + 1) + steps - 1) / steps);
			for (; done[k] < upto && failjson == "null"; ++done[k])
			{
				uint64_t i = done[k];
				if (i % shards != (shard + k) % shards || i < from || i > to) { continue; }
				double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
				if (el > maxsec) { capped = true; break; }
				heart->prop = k; heart->idx = i;
				Case c; c.thorough = thorough; c.rng.s = case_seed(seed, p, i);
				Out o = run_case(p, c, world_seed({}));
				Stat& S = st[k];
				S.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() - el;
				++S.evals;
				if (o.r == DISCARDED) { ++S.disc; continue; }
				for (auto& t : c.tags) { S.tags[t.first] += t.second; }
				if (c.is_nontrivial) { ++S.non; S.distinct.insert(hash64(c.tape.data(), c.tape.size() * 8)); if (S.samples.size() < 2) { S.samples.push_back(c.desc.str().substr(0, 400)); } }
				if (o.r == FAILED && g_known.count(o.sig) && !o.sig.empty()) { ++S.known; ++S.knowns[o.sig]; continue; }
				if (o.r == FAILED)
				{
					std::ofstream f(out + ".tape"); f << p.name << "\n"; for (uint64_t v : c.tape) { f << v << "\n"; }
					std::ostringstream m; m << "{\"prop\":" << js(p.name) << ",\"index\":" << i << ",\"message\":" << js(o.what) << ",\"signature\":" << js(o.sig) << ",\"case\":" << js(c.desc.str().substr(0, 4000)) << "}";
					if (nostop) { fprintf(stderr, "FAIL %s #%llu: %s | %s\n", p.name.c_str(), (unsigned long long)i, o.what.c_str(), c.desc.str().substr(0, 300).c_str()); } else { failjson = m.str(); }
				}
			}
		}
	}
	heart->prop = ~0ull;
	{
		std::ofstream hf(out + ".hashes", std::ios::binary);
		for (size_t k = 0; k < props().size(); ++k) { for (uint64_t h : st[k].distinct) { uint64_t v = h ^ (k * 0x9E3779B97F4A7C15ull); hf.write((char*)&v, 8); } }
	}
	std::ofstream f(out);
	f << "{\"fail\":" << failjson << ",\"capped\":" << (capped ? "true" : "false") << ",\"props\":[";
	bool firstp = true;
	for (size_t k = 0; k < props().size(); ++k)
	{
		Stat& S = st[k]; if (S.evals == 0) { continue; }
		f << (firstp ? "" : ",") << "{\"name\":" << js(props()[k].name) << ",\"evals\":" << S.evals << ",\"discarded\":" << S.disc << ",\"nontrivial\":" << S.non << ",\"distinct\":" << S.distinct.size() << ",\"known\":" << S.known << ",\"secs\":" << S.secs << ",\"tags\":{";
		firstp = false; bool ft = true; for (auto& t : S.tags) { f << (ft ? "" : ",") << js(t.first) << ":" << t.second; ft = false; }
		f << "},\"knowns\":{"; ft = true; for (auto& t : S.knowns) { f << (ft ? "" : ",") << js(t.first) << ":" << t.second; ft = false; }
		f << "},\"samples\":["; ft = true; for (auto& t : S.samples) { f << (ft ? "" : ",") << js(t); ft = false; }
		f << "]}";
	}
	f << "]}\n";
	return failjson == "null" ? 0 : 1;
}
