// Stand-in for scrypt: same interface, one cheap mixing pass (password and salt both decide every output byte).
#include <cstdint>
#include <cstddef>
#include "sim.h"
int crypto_scrypt(const uint8_t* p, size_t pn, const uint8_t* s, size_t sn, uint64_t N, uint32_t r, uint32_t q, uint8_t* out, size_t n) {
	uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full; auto in = [&](uint64_t v) { a = sim::mix(a, v); b = sim::mix(b ^ a, v + 1); };
	in(pn); for (size_t i = 0; i < pn; i++) in(p[i]); in(sn); for (size_t i = 0; i < sn; i++) in(s[i]); in(N); in(r); in(q);
	for (size_t i = 0; i < n; i++) { a = sim::mix(a, b + i); b = sim::mix(b, a); out[i] = (uint8_t)(a >> 17); }
	return 0;
}
