#pragma once
#include "sim.h"
#include <cerrno>
#include <sys/syscall.h>
#include <time.h>
namespace sim {
extern bool g_on, g_det;            // scheduler active in this process
extern int g_kernel;         // >0: simulator-internal code
extern uint64_t g_now;       // simulated monotonic ns
extern int64_t g_wallOff;    // wall = g_now + g_wallOff
extern uint64_t g_hash;
extern bool g_trace; void traceH(uint64_t v);
inline void h(uint64_t v) { if (g_trace) traceH(v); g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0); // raw syscall, -errno
inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
inline bool on() { return g_on && g_kernel == 0; }
void* realSym(const char* n);
bool blockOn(const void* obj, uint64_t deadline, const char* what); // false on timeout
void wake(const void* obj, bool all);
uint64_t rnd64();            // seeded randomness for the program (getrandom etc.)
void rndFill(void* p, size_t n);
bool faultPoint(uint32_t cls, double p, uint64_t* val, uint64_t range); // fault decision, recorded
void ioPoint();              // yield point at an I/O call
const char* threadName();
std::string btString(int skip, int maxFrames);
}
