// Native search and replay: runs the real code of /repo on concrete inputs and compares with an oracle of its own.
// usage: driver <property> <seed> <seconds> <replay-out> [hint ...]      exit 0: nothing found, 1: failing input found
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <chrono>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include "utils/Logger.h"
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
namespace nv {
typedef std::vector<uint8_t> Bytes;
inline std::vector<uint64_t> g_hints;
inline std::string g_prop, g_out;
inline uint64_t g_seed, g_trial;
inline std::ostringstream g_note;
struct Rng {
	uint64_t s;
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	bool coin(unsigned n = 2) { return below(n) == 0; }
	// an integer: hints from the verifier's counterexample, boundary values, small values, anything
	uint64_t num() {
		static const uint64_t B[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 257, 511, 512, 1000, 1023, 4095, 4096,
			0x7fff, 0x8000, 0xff00, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000ull, 0xffff0000ull, 0xffffffffull, 0x100000000ull, 0x0102030405060708ull, ~0ull, 1ull << 63};
		switch (below(g_hints.empty() ? 4 : 6)) {
			case 0: return next();
			case 1: return B[below(sizeof(B) / sizeof(*B))];
			case 2: return below(300);
			case 3: return next() >> below(64);
			default: { uint64_t h = g_hints[below(g_hints.size())]; return coin(8) ? h + below(3) - 1 : h; }
		}
	}
	uint8_t u8() { return num(); }
	uint16_t u16() { return num(); }
	uint32_t u32() { return num(); }
	uint64_t u64() { return num(); }
	Bytes bytes(size_t max) {
		Bytes b(below(max + 1));
		bool z = coin(8);
		for (auto& x : b) x = z ? 0 : u8();
		return b;
	}
	// a length up to max, now and then one that a width or a constant in the code makes special (still at most cap)
	size_t len(size_t max, size_t cap) {
		static const size_t B[] = {126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000};
		if (!coin(24)) return below(max + 1);
		for (int i = 0; i < 8; i++) {
			size_t n = !g_hints.empty() && coin() ? g_hints[below(g_hints.size())] + below(3) - 1 : B[below(sizeof(B) / sizeof(*B))];
			if (coin(6)) n += below(n / 2 + 1);
			if (n <= cap) return n;
		}
		return below(cap + 1 < 1000 ? cap + 1 : 1000);
	}
	Bytes blob(size_t max, size_t cap) {
		Bytes b(len(max, cap));
		if (b.size() > 300) { uint64_t v = 0; size_t k = 0; for (auto& x : b) { if (!(k++ & 7)) v = next(); x = v; v >>= 8; } return b; }
		bool z = coin(8);
		for (auto& x : b) x = z ? 0 : u8();
		return b;
	}
	std::string str(size_t max) { auto b = bytes(max); return std::string(b.begin(), b.end()); }
};
inline Rng g_rng;
inline std::string hex(const Bytes& b) {
	std::string s; char t[4];
	for (size_t i = 0; i < b.size() && i < 600; i++) { snprintf(t, 4, "%02x ", b[i]); s += t; }
	return "[" + std::to_string(b.size()) + "] " + s;
}
template <class T> inline void note(const std::string& k, const T& v) { g_note << "  " << k << " = " << v << "\n"; }
inline void note(const std::string& k, const Bytes& v) { g_note << "  " << k << " = " << hex(v) << "\n"; }
inline void report(const std::string& what) {
	FILE* f = fopen(g_out.c_str(), "w");
	if (f) {
		fprintf(f, "property %s violated by the real code\n%s\ninput (driver seed %llu, trial %llu):\n%s", g_prop.c_str(), what.c_str(),
			(unsigned long long)g_seed, (unsigned long long)g_trial, g_note.str().c_str());
		fclose(f);
	}
	printf("FOUND %s: %s\n%s", g_prop.c_str(), what.c_str(), g_note.str().c_str());
	fflush(stdout);
}
[[noreturn]] inline void fail(const std::string& what) { report(what); _exit(1); }
inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }
inline void death() { report("the address sanitizer stopped the program (memory access outside the data)"); }
inline void le(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back(v >> (8 * i)); }
inline uint64_t rd(const Bytes& b, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) if (o + i < b.size()) v |= (uint64_t)b[o + i] << (8 * i); return v; }
inline Bytes cat(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes sub(const Bytes& b, size_t o, size_t n) { Bytes r; for (size_t i = 0; i < n && o + i < b.size(); i++) r.push_back(b[o + i]); return r; }
// result of running f: "ok", "runtime_error", "system_error <code>", "exception", "unknown exception"
inline std::string outcome(const std::function<void()>& f) {
	try { f(); return "ok"; }
	catch (const std::system_error& e) { return "system_error " + std::to_string(e.code().value()); }
	catch (const std::runtime_error& e) { return "runtime_error"; }
	catch (const std::exception& e) { return "exception"; }
	catch (...) { return "unknown exception"; }
}
typedef std::map<std::string, std::vector<std::function<void()>>> Table;
inline double secs_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void onsig(int s) { report("the program was ended by signal " + std::to_string(s)); _exit(1); }
inline int run(int argc, char** argv, Table t) {
	if (argc < 5) return 2;
	eipScanner::utils::Logger::setLogLevel(eipScanner::utils::LogLevel::ERROR);
	std::cout.setstate(std::ios::failbit);
	g_prop = argv[1]; g_seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); g_out = argv[4];
	for (int i = 5; i < argc; i++) g_hints.push_back(strtoull(argv[i], 0, 10));
	if (__asan_set_death_callback) __asan_set_death_callback(death);
	signal(SIGABRT, onsig); signal(SIGFPE, onsig);
	auto& ts = t[g_prop];
	if (ts.empty()) { fprintf(stderr, "no test for %s\n", g_prop.c_str()); return 2; }
	auto t0 = secs_now();
	uint64_t n = 0;
	for (g_trial = 0;; g_trial++) {
		if ((g_trial & 15) == 0 && secs_now() - t0 > secs) break;
		g_rng.s = g_seed * 0x1000003 + g_trial * 0x9e3779b9;
		g_note.str("");
		auto& f = ts[g_trial % ts.size()];
		try { f(); }
		catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
		catch (...) { fail("unexpected exception"); }
		n++;
	}
	printf("TRIALS %llu\n", (unsigned long long)n);
	return 0;
}
}
