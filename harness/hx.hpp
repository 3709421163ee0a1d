// Reporting protocol between a harness and vf/harness.py:
//   V <key> <message>     violation observed
//   O <name> <n>          monitor counter (summed)      M <name> <n>   (maximum)
//   C <ident>             one evaluated distinct case   N <n>          n further evaluations
//   S <text>              a sample case, written out
//   DONE                  the harness reached its end (its absence is an abnormal termination)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <mutex>

namespace hx {

inline std::mutex& io_mutex() { static std::mutex m; return m; }
inline FILE*& out() { static FILE* f = nullptr; if(!f) { const char* p = getenv("VERIF_HX"); f = p ? fopen(p, "w") : stdout; } return f; }

inline std::string fmt(const char* f, ...) {
	char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	for(char* p = b; *p; ++p) if(*p == '\n') *p = ' ';
	return b;
}
inline std::map<std::string, int>& vcount() { static std::map<std::string, int> m; return m; }
inline void violation(const std::string& key, const std::string& msg) {
	std::lock_guard<std::mutex> l(io_mutex());
	if(vcount()[key]++ < 3) { fprintf(out(), "V %s %s\n", key.c_str(), msg.c_str()); fflush(out()); }
}
inline void observe(const std::string& n, uint64_t v) { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "O %s %llu\n", n.c_str(), (unsigned long long)v); fflush(out()); }
inline void observe_max(const std::string& n, uint64_t v) { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "M %s %llu\n", n.c_str(), (unsigned long long)v); fflush(out()); }
inline void kase(const std::string& id) { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "C %s\n", id.c_str()); fflush(out()); }
inline void evals(uint64_t n) { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "N %llu\n", (unsigned long long)n); fflush(out()); }
inline void sample(const std::string& s) { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "S %s\n", s.c_str()); fflush(out()); }
inline void at(const std::string& s) { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "A %s\n", s.c_str()); fflush(out()); }	// what is being tried now
inline void done() { std::lock_guard<std::mutex> l(io_mutex()); fprintf(out(), "DONE\n"); fflush(out()); }

struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { s[0] = mix(seed + 0x9E3779B97F4A7C15ull); s[1] = mix(s[0] + 0xD1B54A32D192ED03ull); if(!(s[0] | s[1])) s[0] = 1; }
	static uint64_t mix(uint64_t a) { a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31; return a; }
	uint64_t operator()() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
	uint64_t below(uint64_t n) { return n ? (unsigned __int128)(*this)() * n >> 64 : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned pct) { return below(100) < pct; }
	uint64_t bits(int n) { return n <= 0 ? 0 : n >= 64 ? (*this)() : (*this)() & ((uint64_t(1) << n) - 1); }
	// values with extremes
	uint64_t edgy(int nbits) {
		const uint64_t m = nbits >= 64 ? ~uint64_t(0) : (uint64_t(1) << nbits) - 1;
		switch(below(8)) {
			case 0: return 0; case 1: return m; case 2: return m ^ bits(nbits > 4 ? 4 : nbits);
			case 3: return bits((int)below(nbits + 1)); case 4: return uint64_t(1) << below(nbits); default: return bits(nbits);
		}
	}
};
inline uint64_t seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, 0, 10) : 1; }
inline bool thorough() { const char* s = getenv("VERIF_TIER"); return s && !strcmp(s, "thorough"); }
inline const char* arg(int argc, char** argv, const char* name, const char* def) {
	for(int i = 1; i + 1 < argc; ++i) if(!strcmp(argv[i], name)) return argv[i + 1];
	return def;
}
}
