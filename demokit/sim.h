// Stand-in for the simulator's interface: lets the block builder (chainlib) be used in a plain program.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
namespace sim {
inline uint64_t g_seed = 1;
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
inline uint64_t hashStr(const char* s) { uint64_t x = 1469598103934665603ull; for (; *s; s++) x = (x ^ (uint8_t)*s) * 0x100000001b3ull; return x; }
inline uint64_t stream(const char* n, uint64_t i = 0, uint64_t j = 0) { return mix(mix(mix(g_seed, hashStr(n)), i + 1), j + 1); }
inline Rng rng(const char* n, uint64_t i = 0, uint64_t j = 0) { return Rng(mix(mix(mix(g_seed, hashStr(n)), i + 1), j + 1)); }
inline void count(const char*, uint64_t = 1) {}
inline void state(uint64_t) {}
inline void note(const char*, ...) {}
template <class... A> [[noreturn]] inline void violation(const char*, const char* f, A... a) { printf("FAIL: "); printf(f, a...); printf("\n"); fflush(stdout); _Exit(1); }
[[noreturn]] inline void violation(const char*, const char* f) { printf("FAIL: %s\n", f); fflush(stdout); _Exit(1); }
#define SIM_CHECK(prop, cond, ...) do { if (!(cond)) ::sim::violation(prop, __VA_ARGS__); } while (0)
}
