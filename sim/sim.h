// Deterministic simulator: public interface used by scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>

namespace sim {

// ---------------------------------------------------------------- randomness
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const char* s);
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- explicit traces (replay / minimisation)
struct Ev { uint32_t cls; uint64_t idx; uint64_t val; };
enum : uint32_t { EV_YIELD = 1, EV_MEM = 2, EV_BLOCK = 3, EV_COND = 4, EV_FAULT0 = 16 };

// Result block shared between the run's processes and the worker.
struct Counter { char name[56]; uint64_t n; };
struct Shared {
	volatile int status;            // 0 running/ok, 1 violation, 2 inconclusive (budget), 3 harness error
	char prop[32];
	char msg[4096];
	uint64_t hash;                  // hash over everything observable
	uint64_t steps, simNs, switches, memPts;
	uint64_t interleaving;          // hash of the schedule alone
	uint32_t ncounters; Counter counters[400];
	uint32_t nstates; uint64_t states[4096]; // distinct state digests reported by the scenario
	uint32_t nev; Ev ev[400000];
	uint32_t evDropped;
	uint32_t nops; uint8_t opUsed[4096];
	uint32_t phase; uint32_t phaseBase;
	volatile int crashedByPlan;
	uint64_t logLen; uint64_t logCap; uint8_t* log; // shared bump log
	volatile uint32_t families;     // store families modified since disk::mark()
	char ctx[160];                  // put in front of every violation message
	char blurb[65536]; uint32_t blurbLen;   // human readable narrative of the run
};
extern Shared* sh;

// ---------------------------------------------------------------- run control
struct Plan {                        // what to do at decision points
	bool expl = false;               // explicit trace: only the listed events happen
	std::vector<Ev> ev;              // sorted use via map
	std::set<uint32_t> offOps;       // operations switched off (minimisation)
};
extern Plan plan;
extern uint64_t seed;
extern bool verbose, nodeLog; extern uint64_t dumpAt;

uint64_t stream(const char* name, uint64_t i = 0, uint64_t j = 0); // stateless draw keyed by name and indices
Rng rng(const char* name, uint64_t i = 0, uint64_t j = 0);
bool opOn(uint32_t i);               // is operation i of this run enabled

void count(const char* name, uint64_t n = 1);
void state(uint64_t digest);         // record a distinct state
void vnote(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // narrative only, when verbose
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // goes into the hash and the narrative
[[noreturn]] void violation(const char* prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void inconclusive(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(prop, cond, ...) do { if (!(cond)) ::sim::violation(prop, __VA_ARGS__); } while (0)
extern std::string wantProp;           // the property the current check is about (may be empty)
void defaultProp(const char* prop);  // property charged with crashes, deadlocks and runaway loops
void context(const std::string& s);  // prefix of every later violation message of this run (survives phases)

// shared log between phases of one run
void logPut(uint32_t tag, const void* p, size_t n);
inline void logPut(uint32_t tag, const std::string& s) { logPut(tag, s.data(), s.size()); }
struct LogRec { uint32_t tag; std::string data; };
std::vector<LogRec> logAll();

// ---------------------------------------------------------------- phases (processes)
struct SchedCfg {
	int mode = 1;                    // 0 run-to-block, 1 random preemption, 2 priorities (PCT)
	double pYield = 0.05;            // preemption probability at synchronisation/I-O points
	uint64_t memMean = 0;            // mean number of instrumented accesses between preemptions (0 = none)
	double pSpurious = 0;            // spurious condition variable wake-ups
	uint64_t stepNs = 2000;          // simulated cost of one step
	uint64_t maxSteps = 20000000;    // synchronisation steps before the run is given up
	uint64_t maxMem = 6000000000ull; // instrumented accesses before a loop counts as runaway
	int pctDepth = 3; uint64_t pctSpan = 20000;
	bool stepLimitIsViolation = false;
};
SchedCfg swarmSched(Rng r, bool concurrent);
struct PhaseEnd { int kind; int sig; }; // kind: 0 returned, 1 killed by plan (crash point)
enum { PH_OK = 0, PH_CRASHED = 1 };
PhaseEnd phase(const std::function<void()>& f, const SchedCfg& sc); // violations/crashes end the run inside

// ---------------------------------------------------------------- threads and time (inside a phase)
bool active();
void yield(int kind = 0);
uint64_t nowNs();                    // simulated monotonic clock
void advance(uint64_t ns);           // let simulated time pass for the calling thread only (sleep)
void jumpWall(int64_t ns);           // step the wall clock
void sleepMs(uint64_t ms);
int liveThreads();
int selfId();
void nameThread(const char* n);
void at(uint64_t ns, std::function<void()> f); // simulator event
void* waitOn(const void* obj, uint64_t deadlineNs); // block on a simulator object (null on timeout)
void wakeAll(const void* obj);
void wakeOne(const void* obj);
std::string threadDump();
struct Kernel { Kernel(); ~Kernel(); }; // simulator-internal section: no yields, no faults
bool waitUntil(const std::function<bool()>& p, uint64_t ns, uint64_t pollNs = 1000000); // poll in simulated time

// ---------------------------------------------------------------- disk
std::string root();                  // scratch directory of this run
struct DiskFault { std::string match; int err = 0; uint64_t from = 0, len = 0; double p = 1; int kinds = 1; }; // kinds bit0 writes/renames.., bit1 reads, bit2 short writes
namespace disk {
	void track(const std::string& dir);     // operations below dir are counted and faultable
	uint64_t ops();                         // mutating operations so far in this phase
	void crashAt(uint64_t opsFromNow, double torn); // kill the process at that operation (torn: fraction of a write applied; <0 none)
	void crashOff();
	void match(const std::string& sub);     // only count operations whose path contains sub ("" = all)
	void setFault(const DiskFault& f);
	void clearFault();
	bool faultHit();
	uint64_t faultCount();
	void families(const std::vector<std::string>& subs); // path substrings; bit i of touched() is set once an operation on such a path took effect
	void mark();                            // forget what was touched
	uint32_t touched();                     // survives a kill
}
[[noreturn]] void crashNow();

// ---------------------------------------------------------------- registration
struct Scenario { const char* name; const char* props; void (*run)(); };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, const char* p, void (*f)()) { scenarios().push_back({ n, p, f }); } };
#define SCENARIO(name, props, fn) static ::sim::Reg reg_##fn(name, props, fn)
bool thorough();

} // namespace sim
