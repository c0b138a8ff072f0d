// Deterministic scheduler: pthread interposition, simulated clock.
#include "internal.h"
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <execinfo.h>
#include <cxxabi.h>
#include <algorithm>
#include <queue>
#include <semaphore.h>

namespace sim {
Shared* sh = nullptr;
Plan plan;
uint64_t seed = 1;
bool verbose = false, nodeLog = false; uint64_t dumpAt = 0;
bool g_on = false;
int g_kernel = 1;
uint64_t g_now = 0;
int64_t g_wallOff = 0;
uint64_t g_hash = 1469598103934665603ull;
static char g_defProp[128] = "X00";
static uint64_t g_inter = 7;

long raw(long n, long a, long b, long c, long d, long e, long f) {
	long r;
	register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
void* realSym(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no symbol %s\n", n); _exit(3); } return p; }

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
uint64_t hashStr(const char* s) { uint64_t x = 1469598103934665603ull; for (; *s; s++) x = (x ^ (uint8_t)*s) * 0x100000001b3ull; return x; }
uint64_t stream(const char* name, uint64_t i, uint64_t j) { return mix(mix(mix(seed, hashStr(name)), i + 1), j + 1); }
Rng rng(const char* name, uint64_t i, uint64_t j) { return Rng(stream(name, i, j)); }

// ------------------------------------------------------------------ threads
enum State { READY, BLOCKED, DONE };
struct SThread {
	int id; pthread_t real; volatile int go = 0; State st = READY; const void* obj = nullptr; uint64_t deadline = UINT64_MAX; bool timedOut = false;
	const char* what = ""; char name[32] = { 0 }; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* retval = nullptr; bool detached = false, joined = false;
	uint64_t prio = 0; uint64_t ran = 0; int dtor = 0; void* caller = nullptr; void* stack[8]; int nstack = 0;
};
static std::vector<SThread*>* T = nullptr;
static SThread* cur = nullptr;
static __thread SThread* self_ = nullptr;
static SThread* zombie = nullptr;   // exiting thread the next runner must reap
static SchedCfg cfg;
static Rng schedRng(1), progRng(2), faultRng(3);
static uint64_t yieldIdx, blockIdx, condIdx, stepCount, switchCount;
long g_memLeft = 0x7fffffffffffffffl; static uint64_t memBase = 0, memSpan = 0; // accesses consumed so far = memBase + (memSpan - g_memLeft)
static std::map<uint64_t, uint64_t> exY, exM, exB, exC; static std::map<std::pair<uint32_t, uint64_t>, uint64_t> exF;
static pthread_key_t exitKey; static bool exitKeyMade = false;
static uint64_t minDeadline = UINT64_MAX;
struct Event { uint64_t t, seq; std::function<void()> f; bool operator<(const Event& o) const { return t != o.t ? t > o.t : seq > o.seq; } };
static std::priority_queue<Event>* evq = nullptr; static uint64_t evSeq = 0;
static int liveCount = 0;
static std::vector<uint64_t> pctPoints;

Kernel::Kernel() { g_kernel++; }
Kernel::~Kernel() { g_kernel--; }

static void futexWait(volatile int* a, int v) { raw(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futexWake(volatile int* a) { raw(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void record(uint32_t cls, uint64_t idx, uint64_t val) {
	if (sh->nev < sizeof(sh->ev) / sizeof(Ev)) sh->ev[sh->nev++] = Ev{ cls | (sh->phase << 16), idx, val };
	else sh->evDropped++;
}

static uint64_t memNow() { return memBase + (memSpan - (uint64_t)g_memLeft); }
static uint64_t memNext = UINT64_MAX; // access count of the next preemption
static void memArm(bool redraw) {
	memBase = memNow();
	if (redraw) {
		memNext = UINT64_MAX;
		if (plan.expl) { auto it = exM.upper_bound(memBase); if (it != exM.end()) memNext = it->first; }
		else if (cfg.memMean) memNext = memBase + 1 + schedRng.below(cfg.memMean * 2);
	}
	uint64_t tick = (memBase | 0xffff) + 1;
	memSpan = std::min(tick, memNext) - memBase;
	g_memLeft = (long)memSpan;
}

static void wakeDue() {
	if (g_now < minDeadline) return;
	uint64_t m = UINT64_MAX;
	for (auto* t : *T) if (t->st == BLOCKED && t->deadline != UINT64_MAX) {
		if (t->deadline <= g_now) { t->st = READY; t->timedOut = true; t->deadline = UINT64_MAX; }
		else m = std::min(m, t->deadline);
	}
	minDeadline = m;
}
static void runEvents() {
	while (!evq->empty() && evq->top().t <= g_now) {
		Kernel k; auto f = evq->top().f; evq->pop(); f();
	}
}

static void fini() { if (sh) { sh->hash = g_hash; sh->steps += stepCount; sh->switches += switchCount; sh->simNs += g_now; sh->memPts += memNow(); sh->interleaving = mix(sh->interleaving, g_inter); stepCount = switchCount = 0; } }

static void limits() {
	if (stepCount > cfg.maxSteps) { if (cfg.stepLimitIsViolation) violation(g_defProp, "no completion within the step budget: %s", threadDump().c_str()); inconclusive("step budget exceeded"); }
	if (memNow() > cfg.maxMem) violation(g_defProp, "runaway computation in thread %s: %s", threadName(), btString(2, 8).c_str());
}

static std::vector<SThread*> ready;
static SThread* defaultNext() { // round robin after the current thread
	int n = (int)T->size(); int c = cur ? cur->id : 0;
	for (int i = 1; i <= n; i++) { auto* t = (*T)[(c + i) % n]; if (t->st == READY) return t; }
	return nullptr;
}
static void collect() { ready.clear(); for (auto* t : *T) if (t->st == READY) ready.push_back(t); }
static SThread* pctTop() { SThread* b = nullptr; for (auto* t : ready) if (!b || t->prio > b->prio) b = t; return b; }

static void reap() {
	if (!zombie) return;
	SThread* z = zombie; zombie = nullptr;
	static auto rj = (int (*)(pthread_t, void**))realSym("pthread_join");
	rj(z->real, nullptr);
}
static void switchTo(SThread* n) {
	SThread* me = cur;
	if (n == me) return;
	switchCount++; g_inter = mix(g_inter, (uint64_t)n->id * 131 + (me ? me->id : 0)); h(0x5151 + n->id);
	cur = n;
	__atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST); futexWake(&n->go);
	if (!me || me->st == DONE) return;
	while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) futexWait(&me->go, 0);
	me->go = 0;
	reap();
}

// choose the next thread when the current one cannot continue
static SThread* pickBlocked() {
	for (;;) {
		runEvents(); wakeDue(); collect();
		if (!ready.empty()) break;
		uint64_t t = minDeadline;
		if (!evq->empty()) t = std::min(t, evq->top().t);
		if (t == UINT64_MAX) violation(g_defProp, "deadlock: every thread waits forever: %s", threadDump().c_str());
		if (t > g_now) g_now = t;
		if (++stepCount > cfg.maxSteps) limits();
	}
	if (ready.size() == 1) return ready[0];
	SThread* d = defaultNext();
	uint64_t idx = blockIdx++;
	SThread* c = d;
	if (plan.expl) { auto it = exB.find(idx); if (it != exB.end()) { for (auto* t : ready) if (t->id == (int)it->second) c = t; } }
	else if (cfg.mode == 1) c = ready[schedRng.below(ready.size())];
	else if (cfg.mode == 2) c = pctTop();
	if (c != d) record(EV_BLOCK, idx, c->id);
	return c;
}

void yield(int kind) {
	if (!on()) return;
	Kernel k;
	uint64_t idx = yieldIdx++;
	stepCount++; g_now += cfg.stepNs;
	if ((stepCount & 0xfff) == 0) limits();
	runEvents(); wakeDue();
	if (plan.expl) {
		auto it = exY.find(idx);
		if (it != exY.end()) for (auto* t : *T) if (t->st == READY && t->id == (int)it->second && t != cur) { record(EV_YIELD, idx, t->id); switchTo(t); return; }
		return;
	}
	SThread* c = cur; cur->ran++;
	if (cfg.mode == 1) {
		if (!schedRng.chance(cfg.pYield)) return;
		collect(); if (ready.size() < 2) return;
		c = ready[schedRng.below(ready.size())];
	} else if (cfg.mode == 2) {
		for (auto& p : pctPoints) if (p == idx) cur->prio = schedRng.below(1000);
		if (cur->ran > 30000) { cur->ran = 0; cur->prio = schedRng.below(1000); }
		collect(); c = pctTop(); if (!c) return;
	} else {
		if (cur->ran > 20000) { cur->ran = 0; collect(); c = defaultNext(); if (!c) return; } else return;
	}
	if (c != cur) { record(EV_YIELD, idx, c->id); switchTo(c); }
}

void memSlow() {
	if (!on()) { memArm(false); if (memNext <= memBase) memArm(true); return; }
	Kernel k;
	g_memLeft = 0;
	uint64_t idx = memNow();
	if ((idx & 0xffff) == 0) { g_now += cfg.stepNs * 10; limits(); runEvents(); wakeDue(); }
	SThread* c = nullptr; bool re = idx >= memNext;
	if (re) {
		if (plan.expl) { auto it = exM.find(idx); if (it != exM.end()) for (auto* t : *T) if (t->st == READY && t->id == (int)it->second && t != cur) c = t; }
		else if (cfg.memMean) { collect(); if (ready.size() > 1) c = ready[schedRng.below(ready.size())]; if (c == cur) c = nullptr; }
	}
	memArm(re);
	if (c) { record(EV_MEM, idx, c->id); switchTo(c); }
}

bool blockOn(const void* obj, uint64_t deadline, const char* what) {
	Kernel k;
	SThread* me = cur;
	stepCount++; g_now += cfg.stepNs; me->ran = 0;
	if ((stepCount & 0xff) == 0) limits();
	me->st = BLOCKED; me->obj = obj; me->deadline = deadline; me->timedOut = false; me->what = what;
	if (deadline < minDeadline) minDeadline = deadline;
	if (verbose) me->nstack = backtrace(me->stack, 8);
	SThread* n = pickBlocked();
	if (n != me) switchTo(n); 
	me->obj = nullptr; me->deadline = UINT64_MAX;
	return !me->timedOut;
}
void wake(const void* obj, bool all) {
	if (!T) return;
	if (all) { for (auto* t : *T) if (t->st == BLOCKED && t->obj == obj) { t->st = READY; t->deadline = UINT64_MAX; } return; }
	std::vector<SThread*> w; for (auto* t : *T) if (t->st == BLOCKED && t->obj == obj) w.push_back(t);
	if (w.empty()) return;
	size_t i = 0;
	if (w.size() > 1) {
		uint64_t idx = condIdx++;
		if (plan.expl) { auto it = exC.find(idx); if (it != exC.end() && it->second < w.size()) i = it->second; }
		else if (cfg.mode == 1) i = schedRng.below(w.size());
		if (i) record(EV_COND, idx, i);
	}
	w[i]->st = READY; w[i]->deadline = UINT64_MAX;
}
void* waitOn(const void* obj, uint64_t dl) { if (!g_on) return nullptr; return blockOn(obj, dl, "sim") ? (void*)obj : nullptr; }
void wakeAll(const void* o) { wake(o, true); }
void wakeOne(const void* o) { wake(o, false); }
void at(uint64_t ns, std::function<void()> f) { Kernel k; evq->push(Event{ ns, evSeq++, std::move(f) }); }

bool active() { return g_on; }
uint64_t nowNs() { return g_now; }
int liveThreads() { return liveCount; }
int selfId() { return self_ ? self_->id : -1; }
const char* threadName() { return self_ ? (self_->name[0] ? self_->name : "?") : "main"; }
void nameThread(const char* n) { if (self_) { strncpy(self_->name, n, 31); } }
bool g_trace = false; void traceH(uint64_t v) { char b[64]; int n = snprintf(b, 64, "H %lu %ld\n", v, (long)g_now); raw(SYS_write, 2, (long)b, n); }
void jumpWall(int64_t ns) { g_wallOff += ns; h(ns); }
void advance(uint64_t ns) { if (!g_on) return; static int z; uint64_t dl = g_now + ns; int dummy; blockOn(&dummy, dl, "sleep"); (void)z; }
void sleepMs(uint64_t ms) { advance(ms * 1000000ull); }
bool waitUntil(const std::function<bool()>& p, uint64_t ns, uint64_t poll) {
	uint64_t end = g_now + ns;
	for (;;) { if (p()) return true; if (g_now >= end) return false; advance(std::min(poll, end - g_now + 1)); }
}
std::string threadDump();
std::string threadDump() {
	Kernel k; std::string s;
	if (!T) return s;
	for (auto* t : *T) if (t->st != DONE) {
		char b[160]; snprintf(b, sizeof b, "[#%d %s %s %s]", t->id, t->name[0] ? t->name : "?", t->st == READY ? "ready" : "blocked", t->st == READY ? "" : t->what); s += b;
		if (verbose && t->st == BLOCKED && t->nstack) { char** q = backtrace_symbols(t->stack, t->nstack); for (int i = 2; i < t->nstack; i++) { s += "\n    "; s += q[i]; } free(q); s += "\n"; }
	}
	return s;
}
std::string btString(int skip, int maxFrames) {
	Kernel k; void* b[40]; int n = backtrace(b, 40); std::string s; int got = 0;
	for (int i = skip; i < n && got < maxFrames; i++) {
		Dl_info di; if (!dladdr(b[i], &di) || !di.dli_sname) continue;
		int st; char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); std::string f = d ? d : di.dli_sname; free(d);
		if (f.find("sim::") == 0 || f.find("__restore") == 0) continue;
		size_t p = f.find('('); if (p != std::string::npos) f = f.substr(0, p);
		if (f.size() > 90) f = f.substr(0, 90);
		if (got++) s += " < "; s += f;
	}
	return s;
}

// ------------------------------------------------------------------ program randomness, fault decisions
bool g_det = false;
uint64_t rnd64() { return progRng.next(); }
void rndFill(void* p, size_t n) { uint8_t* q = (uint8_t*)p; while (n) { uint64_t v = progRng.next(); size_t k = std::min<size_t>(n, 8); memcpy(q, &v, k); q += k; n -= k; } }
static std::map<uint32_t, uint64_t>* fidx = nullptr;
bool faultPoint(uint32_t cls, double p, uint64_t* val, uint64_t range) {
	if (!g_on) return false;
	Kernel k;
	uint64_t idx = (*fidx)[cls]++; bool hit = false; uint64_t v = 0;
	if (plan.expl) { auto it = exF.find({ cls, idx }); if (it != exF.end()) { hit = true; v = it->second; } }
	else if (p > 0) { hit = faultRng.chance(p); v = range ? faultRng.below(range) : 0; }
	if (hit) { record(cls, idx, v); h(cls * 1000 + idx); if (val) *val = v; }
	return hit;
}
void ioPoint() { if (on()) yield(1); }

// ------------------------------------------------------------------ results
void context(const std::string& s) { strncpy(sh->ctx, s.c_str(), sizeof sh->ctx - 1); }
void defaultProp(const char* p) { strncpy(g_defProp, p, 127); }
void vnote(const char* fmt, ...) {
	if (!verbose) return;
	Kernel k; char b[1024], l[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	int m = snprintf(l, sizeof l, "[%u %.6fs #%d] %s\n", sh ? sh->phase : 0, g_now / 1e9, self_ ? self_->id : -1, b); if (m > 0) raw(SYS_write, 2, (long)l, std::min<size_t>(m, sizeof l - 1));
}
void note(const char* fmt, ...) {
	Kernel k; char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (int i = 0; i < n && i < 1023; i++) h((uint8_t)b[i]);
	if (sh) { char l[1200]; int m = snprintf(l, sizeof l, "[%u %.6fs #%d] %s\n", sh->phase, g_now / 1e9, self_ ? self_->id : -1, b); if (verbose) { fputs(l, stderr); } if (sh->blurbLen + m < sizeof sh->blurb) { memcpy(sh->blurb + sh->blurbLen, l, m); sh->blurbLen += m; } else { memcpy(sh->blurb + sizeof sh->blurb - 400, "\n...\n", 5); } }
}
void count(const char* name, uint64_t n) {
	if (!sh) return;
	for (uint32_t i = 0; i < sh->ncounters; i++) if (!strncmp(sh->counters[i].name, name, 55)) { sh->counters[i].n += n; return; }
	if (sh->ncounters < 400) { auto& c = sh->counters[sh->ncounters++]; strncpy(c.name, name, 55); c.n = n; }
}
void state(uint64_t d) { for (uint32_t i = sh->nstates; i-- > 0 && i + 64 > sh->nstates;) if (sh->states[i] == d) return; if (sh->nstates < 4096) sh->states[sh->nstates++] = d; h(d); }
std::string wantProp;
static void setProp(const char* list) { // "C03|C04": charged to the checked property if listed, else to the first
	std::string l = list; size_t p = 0; std::string first;
	while (p <= l.size()) { size_t e = l.find_first_of("|,", p); if (e == std::string::npos) e = l.size(); std::string x = l.substr(p, e - p); if (first.empty()) first = x; if (x == wantProp) first = x; p = e + 1; }
	strncpy(sh->prop, first.c_str(), 31);
}
void violation(const char* prop, const char* fmt, ...) {
	g_kernel++;
	if (sh->status == 0) {
		setProp(prop); va_list ap; va_start(ap, fmt); size_t n = strlen(strcpy(sh->msg, sh->ctx)); vsnprintf(sh->msg + n, sizeof sh->msg - n, fmt, ap); va_end(ap); sh->status = 1;
		for (const char* p = sh->msg; *p; p++) h((uint8_t)*p);
		fini();
	}
	if (verbose) fprintf(stderr, "VIOLATION %s: %s\n   at %s\n", sh->prop, sh->msg, btString(1, 12).c_str());
	_exit(1);
}
void inconclusive(const char* fmt, ...) { g_kernel++; if (!sh->status) { va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap); sh->status = 2; fini(); } _exit(2); }
void harnessError(const char* fmt, ...) { g_kernel++; if (!sh->status) { va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap); sh->status = 3; fini(); } _exit(3); }
bool opOn(uint32_t i) { if (i < 4096) { sh->opUsed[i] = 1; if (i + 1 > sh->nops) sh->nops = i + 1; } return !plan.offOps.count(i); }

void logPut(uint32_t tag, const void* p, size_t n) {
	if (sh->logLen + n + 16 > sh->logCap) harnessError("shared log full");
	uint8_t* q = sh->log + sh->logLen; uint64_t len = n; memcpy(q, &tag, 4); memcpy(q + 8, &len, 8); memcpy(q + 16, p, n);
	sh->logLen += 16 + n; // published last: a kill in between loses the whole record
}
std::vector<LogRec> logAll() {
	std::vector<LogRec> r; uint64_t o = 0;
	while (o + 16 <= sh->logLen) { uint32_t t; uint64_t n; memcpy(&t, sh->log + o, 4); memcpy(&n, sh->log + o + 8, 8); r.push_back({ t, std::string((char*)sh->log + o + 16, n) }); o += 16 + n; }
	return r;
}

// ------------------------------------------------------------------ phases
static void onSignal(int sig, siginfo_t* si, void*) {
	g_kernel += 100;
	std::string bt = btString(1, 10);
	if (sh->status == 0) { setProp(g_defProp); snprintf(sh->msg, sizeof sh->msg, "%sprocess died by signal %d (%s) in thread %s: %s", sh->ctx, sig, strsignal(sig), threadName(), bt.c_str()); sh->status = 1; h(sig); fini(); }
	if (verbose) fprintf(stderr, "SIGNAL %s\n", sh->msg);
	_exit(1);
}
static void onTerminate() {
	g_kernel += 100;
	std::string what = "?";
	if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { what = x.what(); } catch (...) { what = "non-standard exception"; } } else what = "terminate without exception (joinable thread destroyed?)";
	std::string bt = btString(1, 14);
	if (sh->status == 0) { setProp(g_defProp); snprintf(sh->msg, sizeof sh->msg, "%suncaught exception terminates the process in thread %s: %.300s [%s]", sh->ctx, threadName(), what.c_str(), bt.c_str()); sh->status = 1; h(77); fini(); }
	if (verbose) fprintf(stderr, "TERMINATE %s\n", sh->msg);
	_exit(1);
}

static void exitDtor(void* p) {
	SThread* t = (SThread*)p;
	if (t->dtor < 3) { t->dtor++; pthread_setspecific(exitKey, t); return; }
	g_kernel++;
	t->st = DONE; liveCount--; wake(t, true);
	zombie = t; // the next runner joins the real thread before it continues
	SThread* n = pickBlocked();
	cur = t; switchCount++; h(0xdead + t->id);
	g_inter = mix(g_inter, (uint64_t)n->id * 977 + t->id);
	cur = n; __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST); futexWake(&n->go);
}
static void* trampoline(void* p) {
	SThread* t = (SThread*)p; self_ = t;
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futexWait(&t->go, 0);
	t->go = 0; // g_kernel was raised by whoever switched to us
	reap();
	g_kernel = 0;
	pthread_setspecific(exitKey, t);
	t->dtor = 0;
	void* r = t->fn(t->arg);
	t->retval = r; t->dtor = 0;
	return r;
}

void detStart() { g_det = true; progRng = rng("prog", 0); }
namespace disk { void phaseStart(); }
void netPhaseStart();

PhaseEnd phase(const std::function<void()>& f, const SchedCfg& sc) {
	if (g_on) harnessError("nested phase");
	sh->phase++;
	sh->crashedByPlan = 0;
	fflush(stderr);
	pid_t pid = (pid_t)raw(SYS_fork);
	if (pid == 0) {
		cfg = sc;
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
		{ struct sigaction ig; memset(&ig, 0, sizeof ig); ig.sa_handler = SIG_IGN; sigaction(SIGPIPE, &ig, nullptr); }
		std::set_terminate(onTerminate);
		T = new std::vector<SThread*>(); T->reserve(512); evq = new std::priority_queue<Event>(); fidx = new std::map<uint32_t, uint64_t>(); ready.reserve(512);
		uint64_t ph = sh->phase;
		schedRng = rng("sched", ph); progRng = rng("prog", ph); faultRng = rng("fault", ph);
		exY.clear(); exM.clear(); exB.clear(); exC.clear(); exF.clear();
		for (auto& e : plan.ev) if ((e.cls >> 16) == ph) switch (e.cls & 0xffff) { case EV_YIELD: exY[e.idx] = e.val; break; case EV_MEM: exM[e.idx] = e.val; break; case EV_BLOCK: exB[e.idx] = e.val; break; case EV_COND: exC[e.idx] = e.val; break; default: exF[{ e.cls & 0xffff, e.idx }] = e.val; }
		pctPoints.clear(); if (cfg.mode == 2) for (int i = 0; i < cfg.pctDepth; i++) pctPoints.push_back(schedRng.below(cfg.pctSpan));
		if (!exitKeyMade) { pthread_key_create(&exitKey, exitDtor); exitKeyMade = true; }
		SThread* m = new SThread(); m->id = 0; m->real = pthread_self(); strcpy(m->name, "main"); m->prio = schedRng.below(1000); T->push_back(m); self_ = m; cur = m; liveCount = 1;
		g_hash = mix(sh->hash, ph); g_inter = ph; g_now = 1000000; g_wallOff = 1577836800000000000ll + (int64_t)(sh->phase * 3600ull * 1000000000ull);
		stepCount = switchCount = 0; yieldIdx = blockIdx = condIdx = 0; memBase = 0; memSpan = 0; g_memLeft = 0; memArm(true);
		disk::phaseStart(); netPhaseStart();
		if (dumpAt > g_now) at(dumpAt, [] { fputs(threadDump().c_str(), stderr); });
		g_on = true; g_kernel = 0;
		f();
		g_kernel++; g_on = false;
		fini();
		_exit(0);
	}
	int st = 0;
	while (raw(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
	if (sh->status) _exit(sh->status);   // the run is over
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && sh->crashedByPlan) return { PH_CRASHED, 0 };
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return { PH_OK, 0 };
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) harnessError("phase killed (memory?)");
	setProp(g_defProp); snprintf(sh->msg, sizeof sh->msg, "%sprocess ended abnormally (status %x)", sh->ctx, st); sh->status = 1; _exit(1);
}
void crashNow() { g_kernel++; sh->crashedByPlan = 1; count("fault.kill"); fini(); _exit(77); }

SchedCfg swarmSched(Rng r, bool concurrent) {
	SchedCfg c;
	if (!concurrent) { // mostly sequential histories: some runs still shuffle background threads
		int k = r.range(0, 3); if (k < 2) { c.mode = 0; } else { c.mode = 1; c.pYield = 0.01; }
		return c;
	}
	switch (r.range(0, 5)) {
	case 0: c.mode = 1; c.pYield = 0.3; break;
	case 1: c.mode = 1; c.pYield = 0.05; break;
	case 2: c.mode = 1; c.pYield = 0.01; c.memMean = 20000; break;
	case 3: c.mode = 1; c.pYield = 0.1; c.memMean = 1500; break;
	case 4: c.mode = 1; c.pYield = 0.1; c.memMean = 150; break;
	default: c.mode = 2; c.pctDepth = r.range(1, 6); c.pctSpan = 500 << r.range(0, 6); break;
	}
	if (r.chance(0.3)) c.pSpurious = 0.02;
	c.stepNs = 200ull << r.range(0, 6);
	return c;
}
} // namespace sim

using namespace sim;
// ==================================================================== pthread interposition
struct SMutex { int owner; unsigned count; int a, b; int kind; };
struct SRw { int readers; int writer; };
struct SCond { int clock; unsigned seq; };
#define MX(m) ((SMutex*)(m))
#define MY() ((self_ ? self_->id : 0) + 1)

static uint64_t absToMono(clockid_t c, const struct timespec* ts) {
	uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	if (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW) return t;
	int64_t m = (int64_t)t - g_wallOff; return m < 0 ? 0 : (uint64_t)m;
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset((void*)m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); MX(m)->kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
static int lockMutex(pthread_mutex_t* m, uint64_t deadline) {
	SMutex* s = MX(m); int me = MY();
	if (on()) yield(2);
	if (s->owner == me) {
		int k = s->kind & 3;
		if (k == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	while (s->owner) {
		if (!g_on) return 0; // single threaded: nothing can hold it
		if (g_kernel) { break; }
		if (!blockOn(m, deadline, s->owner == me ? "mutex held by itself" : "mutex")) return ETIMEDOUT;
	}
	s->owner = me; s->count = 1;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lockMutex(m, UINT64_MAX); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return lockMutex(m, absToMono(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return lockMutex(m, absToMono(c, ts)); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
	SMutex* s = MX(m); int me = MY();
	if (on()) yield(2);
	if (s->owner == me && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
	if (s->owner) return EBUSY;
	s->owner = me; s->count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	SMutex* s = MX(m);
	if (--s->count && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) return 0;
	s->owner = 0; s->count = 0;
	if (g_on) { wake(m, true); if (on()) yield(3); }
	return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset((void*)l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rdlock(pthread_rwlock_t* l, uint64_t dl) {
	SRw* s = (SRw*)l; if (on()) yield(2);
	if (s->writer == MY()) return EDEADLK;
	while (s->writer) { if (!on()) break; if (!blockOn(l, dl, "rdlock")) return ETIMEDOUT; }
	s->readers++; return 0;
}
static int wrlock(pthread_rwlock_t* l, uint64_t dl) {
	SRw* s = (SRw*)l; if (on()) yield(2);
	if (s->writer == MY()) return EDEADLK;
	while (s->writer || s->readers) { if (!on()) break; if (!blockOn(l, dl, "wrlock")) return ETIMEDOUT; }
	s->writer = MY(); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rdlock(l, UINT64_MAX); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wrlock(l, UINT64_MAX); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { return rdlock(l, absToMono(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { return wrlock(l, absToMono(CLOCK_REALTIME, t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { return rdlock(l, absToMono(c, t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { return wrlock(l, absToMono(c, t)); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { SRw* s = (SRw*)l; if (on()) yield(2); if (s->writer) return EBUSY; s->readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { SRw* s = (SRw*)l; if (on()) yield(2); if (s->writer || s->readers) return EBUSY; s->writer = MY(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
	SRw* s = (SRw*)l; if (s->writer) s->writer = 0; else if (s->readers) s->readers--;
	if (g_on) { wake(l, true); if (on()) yield(3); } return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset((void*)c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); ((SCond*)c)->clock = k; return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
	if (!on()) return 0;
	SMutex* s = MX(m); unsigned cnt = s->count;
	uint64_t v;
	if (cfg.pSpurious > 0 || plan.expl) if (faultPoint(EV_FAULT0 + 1, cfg.pSpurious, &v, 1)) { // spurious wake-up
		count("fault.spurious-wakeup"); pthread_mutex_unlock(m); yield(4); pthread_mutex_lock(m); return 0;
	}
	s->owner = 0; s->count = 0; wake(m, true);
	bool ok = blockOn(c, dl, "condition");
	lockMutex(m, UINT64_MAX); s->count = cnt;
	return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, UINT64_MAX); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return condWait(c, m, absToMono(((SCond*)c)->clock, t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return condWait(c, m, absToMono(k, t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (g_on) { wake(c, false); if (on()) yield(3); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (g_on) { wake(c, true); if (on()) yield(3); } return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
	int* s = (int*)o;
	for (;;) {
		if (*s == 2) return 0;
		if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; if (g_on) wake(o, true); throw; } *s = 2; if (g_on) wake(o, true); return 0; }
		if (!on()) return 0;
		blockOn(o, UINT64_MAX, "once");
	}
}
int sem_init(sem_t* s, int, unsigned v) { *(int*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { ++*(int*)s; if (g_on) wake(s, true); return 0; }
int sem_wait(sem_t* s) { while (*(int*)s <= 0) { if (!on()) return 0; blockOn(s, UINT64_MAX, "semaphore"); } --*(int*)s; return 0; }
int sem_trywait(sem_t* s) { if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; return 0; }
int sem_timedwait(sem_t* s, const struct timespec* t) { uint64_t d = absToMono(CLOCK_REALTIME, t); while (*(int*)s <= 0) { if (!on()) return 0; if (!blockOn(s, d, "semaphore")) { errno = ETIMEDOUT; return -1; } } --*(int*)s; return 0; }

int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
	static auto rc = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))realSym("pthread_create");
	if (!g_on) return rc(out, a, fn, arg);
	uint64_t v; if (faultPoint(EV_FAULT0 + 2, 0, &v, 1)) { count("fault.thread-create"); return EAGAIN; }
	SThread* t;
	{
		Kernel k;
		t = new SThread(); t->id = (int)T->size(); t->fn = fn; t->arg = arg; t->prio = schedRng.below(1000);
		if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
		int e = rc(&t->real, &at, trampoline, t); pthread_attr_destroy(&at);
		if (e) { delete t; return e; }
		T->push_back(t); liveCount++; *out = (pthread_t)t; h(0x7171 + t->id);
		if (T->size() > 4000) harnessError("too many threads");
	}
	yield(5);
	return 0;
}
int pthread_join(pthread_t p, void** rv) {
	if (!g_on) { static auto rj = (int (*)(pthread_t, void**))realSym("pthread_join"); return rj(p, rv); }
	SThread* t = (SThread*)p;
	if (t == self_) return EDEADLK;
	yield(2);
	while (t->st != DONE) blockOn(t, UINT64_MAX, "join");
	t->joined = true; if (rv) *rv = t->retval;
	return 0;
}
int pthread_detach(pthread_t p) { if (!g_on) return 0; ((SThread*)p)->detached = true; return 0; }
pthread_t pthread_self(void) noexcept {
	if (self_ && self_->id) return (pthread_t)self_;
	static auto rs = (pthread_t(*)())realSym("pthread_self"); return rs();
}
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int pthread_setname_np(pthread_t, const char* n) noexcept { nameThread(n); return 0; }
int pthread_getname_np(pthread_t, char* b, size_t n) noexcept { if (n) b[0] = 0; return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param*) noexcept { return 0; }
int pthread_kill(pthread_t, int) noexcept { return 0; }
int pthread_cancel(pthread_t) { return 0; }
int sched_yield(void) noexcept { if (on()) yield(6); return 0; }
int get_nprocs(void) noexcept { return 4; }
int get_nprocs_conf(void) noexcept { return 4; }
int sched_getcpu(void) noexcept { return 0; }
long sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4; static auto r = (long (*)(int))realSym("sysconf"); return r(n); }
int sched_getaffinity(pid_t, size_t sz, cpu_set_t* s) noexcept { memset(s, 0, sz); ((unsigned char*)s)[0] = 0xf; return 0; }

// ---- futex (libstdc++ guards and futures)
long syscall(long n, ...) noexcept {
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
	if (n == SYS_getrandom) { if (g_det) { rndFill((void*)a, b); return b; } }
	if (n == SYS_futex && on()) {
		int op = (int)b & 0x7f; volatile int* addr = (volatile int*)a;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			yield(2);
			if (*addr != (int)c) { errno = EAGAIN; return -1; }
			uint64_t dl = UINT64_MAX; const struct timespec* ts = (const struct timespec*)d;
			if (ts) { if (op == FUTEX_WAIT) dl = g_now + ts->tv_sec * 1000000000ull + ts->tv_nsec; else dl = absToMono((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
			if (!blockOn((const void*)addr, dl, "futex")) { errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake((const void*)addr, true); return 1; }
	}
	return ret(raw(n, a, b, c, d, e, f));
}

// ---- clocks
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
	if (!g_on && g_det) { ts->tv_sec = c == CLOCK_REALTIME ? 1577836800 : 100; ts->tv_nsec = 0; return 0; }
	if (!g_on) return (int)ret(raw(SYS_clock_gettime, c, (long)ts));
	g_now += 100;
	uint64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? g_now + g_wallOff : g_now;
	ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0;
}
int clock_getres(clockid_t, struct timespec* ts) noexcept { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* p) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
clock_t clock(void) noexcept { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
int nanosleep(const struct timespec* a, struct timespec*) {
	if (!on()) { if (g_on) return 0; return (int)ret(raw(SYS_nanosleep, (long)a, 0)); }
	advance((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec*) {
	if (!on()) return 0;
	uint64_t dl = (fl & TIMER_ABSTIME) ? absToMono(c, a) : g_now + (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec;
	if (dl > g_now) advance(dl - g_now); else yield(6); return 0;
}
int usleep(useconds_t u) { if (on()) advance(u * 1000ull); return 0; }
unsigned sleep(unsigned s) { if (on()) advance(s * 1000000000ull); return 0; }

// ---- randomness
ssize_t getrandom(void* p, size_t n, unsigned) { if (g_det) { rndFill(p, n); return n; } return ret(raw(SYS_getrandom, (long)p, n, 0)); }
int getentropy(void* p, size_t n) { if (g_det) { rndFill(p, n); return 0; } return raw(SYS_getrandom, (long)p, n, 0) < 0 ? -1 : 0; }
uint32_t arc4random(void) noexcept { uint32_t v; getentropy(&v, 4); return v; }
void arc4random_buf(void* p, size_t n) noexcept { while (n) { size_t k = n > 256 ? 256 : n; getentropy(p, k); p = (char*)p + k; n -= k; } }
void randombytes_buf(void* p, size_t n) { if (g_det) rndFill(p, n); else while (n) { size_t k = n > 256 ? 256 : n; getentropy(p, k); p = (char*)p + k; n -= k; } }
uint32_t randombytes_random(void) { uint32_t v; randombytes_buf(&v, 4); return v; }
uint32_t randombytes_uniform(uint32_t n) { return n < 2 ? 0 : (uint32_t)(((uint64_t)randombytes_random() * n) >> 32); }
void randombytes(unsigned char* p, unsigned long long n) { randombytes_buf(p, n); }
int rand(void) noexcept { return (int)(rnd64() & 0x7fffffff); }
long random(void) noexcept { return (long)(rnd64() & 0x7fffffff); }
sighandler_t signal(int sig, sighandler_t f) noexcept { (void)sig; (void)f; return SIG_DFL; }
void uuid_generate(unsigned char* u) { rndFill(u, 16); }
void uuid_generate_random(unsigned char* u) { rndFill(u, 16); }
pid_t getpid(void) noexcept { return g_on ? 4242 : (pid_t)raw(SYS_getpid); }
pid_t gettid(void) noexcept { return g_on ? 4242 + (self_ ? self_->id : 0) : (pid_t)raw(SYS_gettid); }
}
// std::random_device lives in libstdc++ (rdrand/getentropy): replaced as a whole
#include <random>
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (result_type)sim::rnd64(); }
random_device::result_type random_device::_M_getval_pretr1() { return (result_type)sim::rnd64(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}
