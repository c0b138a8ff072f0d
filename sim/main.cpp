// Driver: runs simulations in forked processes, detects violations, gates and minimises them.
//   sim list
//   sim run <scenario> --seeds A:B --tier quick|thorough --stats FILE [--budget SECONDS] [--stop-after K]
//   sim one <scenario> --seed S [--plan FILE] [-v]
//   sim minimise <scenario> --seed S --out FILE [--budget SECONDS]
#include <execinfo.h>
#include "internal.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <fstream>
#include <sstream>
#include <algorithm>
namespace sim {
void setRoot(const std::string&); void detStart();
static bool g_thorough = false;
bool thorough() { return g_thorough; }
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
}
using namespace sim;
static double wall() { struct timespec ts; raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void rmTree(const std::string& d) {
	DIR* D = opendir(d.c_str()); if (!D) { raw(SYS_unlink, (long)d.c_str()); return; }
	while (auto* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmTree(p); else raw(SYS_unlink, (long)p.c_str()); }
	closedir(D); raw(SYS_rmdir, (long)d.c_str());
}
static std::string g_base;
static int runNo = 0;
struct Result { int status; std::string prop, msg; uint64_t hash; std::vector<Ev> ev; std::vector<uint32_t> ops; std::string blurb; };

static Shared* mapShared() {
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	Shared* s = (Shared*)p; s->logCap = 256ull << 20;
	s->log = (uint8_t*)mmap(nullptr, s->logCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return s;
}
static void resetShared() {
	uint8_t* log = sh->log; uint64_t cap = sh->logCap, used = sh->logLen; uint32_t nev = sh->nev;
	memset((void*)sh, 0, offsetof(Shared, ev)); memset(sh->ev, 0, nev * sizeof(Ev)); memset((char*)sh + offsetof(Shared, evDropped), 0, sizeof(Shared) - offsetof(Shared, evDropped));
	sh->log = log; sh->logCap = cap; if (used) madvise(log, (used + 4095) & ~4095ull, MADV_REMOVE);
	if (used) memset(log, 0, 16);
	sh->hash = 0x1234;
}
// Every run is forked from a process that has done nothing else, so that a run does not depend on what ran before it,
// on the mode or on the command line.
struct Req { volatile int pid; int scen, tier, verb, trace, log, cpu; uint64_t dump, seed; char prop[64], base[64]; uint32_t expl, nev, noff; uint32_t off[4096]; Ev ev[400000]; };
static Req* req; static int toZ[2], fromZ[2]; static int g_cpu = -1, g_scen = -1;
static void zygote() {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	for (;;) {
		char c; long n = raw(SYS_read, toZ[0], (long)&c, 1); if (n != 1) raw(SYS_exit_group, 0);
		int pid = (int)raw(SYS_fork);
		if (pid == 0) {
			raw(SYS_setpgid, 0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); setenv("TMPDIR", "r", 1); setenv("HOME", "r", 1);
			if (req->cpu >= 0) { unsigned long m = 1ul << req->cpu; raw(SYS_sched_setaffinity, 0, sizeof m, (long)&m); }
			g_thorough = req->tier; verbose = req->verb; g_trace = req->trace; nodeLog = req->log; dumpAt = req->dump; seed = req->seed; wantProp = req->prop; g_base = req->base;
			plan.expl = req->expl; plan.ev.assign(req->ev, req->ev + req->nev); for (uint32_t i = 0; i < req->noff; i++) plan.offOps.insert(req->off[i]);
			setRoot(g_base + "/r"); if (chdir(g_base.c_str())) _exit(9);
			const Scenario& sc = scenarios()[req->scen]; defaultProp(sc.props);
			disk::track("/sim/r"); detStart(); sc.run(); _exit(0);
		}
		req->pid = pid; int st = 0; while (raw(SYS_wait4, pid, (long)&st, 0, 0) != pid) ;
		raw(SYS_write, fromZ[1], (long)&st, 4);
	}
}
static Result runOne(const Scenario& sc, uint64_t sd, const Plan& pl, double limit) {
	(void)sc; resetShared();
	std::string dir = g_base + "/r"; rmTree(dir); mkdir(dir.c_str(), 0700);
	req->pid = 0; req->scen = g_scen; req->tier = g_thorough; req->verb = verbose; req->trace = g_trace; req->log = nodeLog; req->dump = dumpAt; req->cpu = g_cpu; req->seed = sd;
	snprintf(req->prop, sizeof req->prop, "%s", wantProp.c_str()); snprintf(req->base, sizeof req->base, "%s", g_base.c_str());
	req->expl = pl.expl; req->nev = std::min<size_t>(pl.ev.size(), 400000); std::copy(pl.ev.begin(), pl.ev.begin() + req->nev, req->ev); req->noff = 0; for (auto x : pl.offOps) if (req->noff < 4096) req->off[req->noff++] = x;
	raw(SYS_write, toZ[1], (long)"g", 1);
	int st = 0; double t0 = wall(); bool killed = false;
	for (;;) {
		struct { int fd; short ev, rev; } pf{ fromZ[0], 1, 0 };
		long r = raw(SYS_poll, (long)&pf, 1, 50);
		if (r == 1) { if (raw(SYS_read, fromZ[0], (long)&st, 4) != 4) { fprintf(stderr, "runner lost\n"); _exit(9); } break; }
		if (!killed && wall() - t0 > limit && req->pid) { raw(SYS_kill, -req->pid, SIGKILL); raw(SYS_kill, req->pid, SIGKILL); killed = true; }
	}
	Result R; R.status = sh->status; R.prop = sh->prop; R.msg = sh->msg; R.hash = sh->hash; R.blurb.assign(sh->blurb, sh->blurbLen);
	if (killed) { R.status = 4; R.msg = "real-time limit"; }
	else if (!R.status && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { R.status = 3; char b[64]; snprintf(b, 64, "supervisor ended with %x", st); R.msg = b; }
	R.ev.assign(sh->ev, sh->ev + sh->nev);
	for (uint32_t i = 0; i < sh->nops; i++) if (sh->opUsed[i] && !pl.offOps.count(i)) R.ops.push_back(i);
	runNo++;
	return R;
}
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string msgClass(const std::string& m) { // violation identity for minimisation: text with numbers and hex removed
	std::string o; for (size_t i = 0; i < m.size() && o.size() < 60; i++) { char c = m[i]; if (c == ' ' || (c >= '0' && c <= '9')) continue; o += c; } return o;
}
static void writePlan(const std::string& f, const Scenario& sc, uint64_t sd, const Plan& p, const Result& r) {
	std::ofstream o(f);
	o << "{\n \"scenario\": \"" << sc.name << "\", \"seed\": " << sd << ", \"prop\": \"" << wantProp << "\", \"tier\": \"" << (thorough() ? "thorough" : "quick") << "\",\n \"property\": \"" << jesc(r.prop) << "\",\n \"violation\": \"" << jesc(r.msg) << "\",\n \"hash\": \"" << std::hex << r.hash << std::dec << "\",\n \"explicit\": " << (p.expl ? 1 : 0) << ",\n \"off_ops\": [";
	bool first = true; for (auto x : p.offOps) { o << (first ? "" : ",") << x; first = false; }
	o << "],\n \"events\": [";
	first = true; for (auto& e : p.ev) { o << (first ? "" : ",") << "[" << e.cls << "," << e.idx << "," << e.val << "]"; first = false; }
	o << "],\n \"narrative\": \"" << jesc(r.blurb) << "\"\n}\n";
}
static std::string field(const std::string& t, const std::string& k) { size_t p = t.find("\"" + k + "\":"); if (p == std::string::npos) return ""; p = t.find(':', p) + 1; while (t[p] == ' ') p++; if (t[p] == '"') { size_t e = p + 1; std::string o; while (t[e] != '"') { if (t[e] == '\\') e++; o += t[e++]; } return o; } if (t[p] == '[') { int d = 0; size_t e = p; do { if (t[e] == '[') d++; if (t[e] == ']') d--; e++; } while (d); return t.substr(p, e - p); } size_t e = p; while (isdigit((unsigned char)t[e])) e++; return t.substr(p, e - p); }
static std::vector<uint64_t> nums(const std::string& s) { std::vector<uint64_t> v; uint64_t c = 0; bool in = false; for (char ch : s) { if (isdigit((unsigned char)ch)) { c = c * 10 + (ch - '0'); in = true; } else { if (in) v.push_back(c); c = 0; in = false; } } return v; }

int main(int argc, char** argv) {
	if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& s : scenarios()) printf("%s %s\n", s.name, s.props); return 0; }
	std::vector<std::string> args;
	if (!getenv("SIM_NOASLR")) { // same addresses on every run
		int per = personality(0xffffffff);
		if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) >= 0) {
			char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
			// a fixed environment and command line keep the initial stack the same; the arguments travel in a file
			char* envp[] = { (char*)"SIM_NOASLR=1", (char*)"PATH=/usr/bin:/bin", (char*)"LC_ALL=C", nullptr }; char* av[] = { (char*)"sim", nullptr };
			int fd = memfd_create("args", 0); for (int i = 1; i < argc; i++) raw(SYS_write, fd, (long)argv[i], strlen(argv[i]) + 1); raw(SYS_dup2, fd, 90); raw(SYS_lseek, 90, 0, 0); if (fd != 90) raw(SYS_close, fd);
			if (n > 0) { exe[n] = 0; execve(exe, av, envp); }
		}
	}
	mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 26); mallopt(M_TRIM_THRESHOLD, 1 << 28); mallopt(M_TOP_PAD, 1 << 20);
	{ void* w[4]; backtrace(w, 4); } // loads what it needs now, so that -v leaves the heap as it is without
	struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	sh = mapShared(); req = (Req*)mmap(nullptr, sizeof(Req), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	raw(SYS_pipe2, (long)toZ, O_CLOEXEC); raw(SYS_pipe2, (long)fromZ, O_CLOEXEC); for (int i = 0; i < 2; i++) { raw(SYS_dup2, toZ[i], 91 + i); raw(SYS_close, toZ[i]); toZ[i] = 91 + i; raw(SYS_dup2, fromZ[i], 93 + i); raw(SYS_close, fromZ[i]); fromZ[i] = 93 + i; }
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (raw(SYS_fork) == 0) { raw(SYS_close, toZ[1]); zygote(); }
	raw(SYS_close, toZ[0]); raw(SYS_close, fromZ[1]);
	if (getenv("SIM_NOASLR")) { std::string cur; char c; while (raw(SYS_read, 90, (long)&c, 1) == 1) if (c) cur += c; else { args.push_back(cur); cur.clear(); } } else for (int i = 1; i < argc; i++) args.push_back(argv[i]);
	args.insert(args.begin(), "sim"); argc = (int)args.size();
	if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
	std::string mode = args[1], scn = args[2], tier = "quick", stats, planFile, out, scratch = "/dev/shm"; uint64_t s0 = 1, s1 = 2, stride = 1; double budget = 1e9, lim = 120; int stopAfter = 1; int cpu = -1;
	for (int i = 3; i < argc; i++) { std::string a = args[i];
		auto nx = [&]() { return i + 1 < argc ? args[++i] : std::string(); };
		if (a == "--seeds") { auto v = nx(); s0 = strtoull(v.c_str(), 0, 10); s1 = strtoull(v.c_str() + v.find(':') + 1, 0, 10); }
		else if (a == "--seed") { s0 = strtoull(nx().c_str(), 0, 10); s1 = s0 + 1; }
		else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
		else if (a == "--tier") tier = nx(); else if (a == "--stats") stats = nx(); else if (a == "--plan") planFile = nx(); else if (a == "--out") out = nx();
		else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--limit") lim = atof(nx().c_str()); else if (a == "--stop-after") stopAfter = atoi(nx().c_str()); else if (a == "--scratch") scratch = nx(); else if (a == "--cpu") cpu = atoi(nx().c_str());
		else if (a == "--prop") wantProp = nx(); else if (a == "-v") verbose = true; else if (a == "--trace") g_trace = true; else if (a == "--log") nodeLog = true; else if (a == "--dumpat") dumpAt = atof(nx().c_str()) * 1e9; }
	g_thorough = tier == "thorough";
	if (cpu >= 0) { unsigned long m = 1ul << cpu; raw(SYS_sched_setaffinity, 0, sizeof m, (long)&m); }
	g_cpu = cpu;
	// scratch path of constant length: the path must not influence addresses
	char b[64]; snprintf(b, 64, "%s/sim%07ld", scratch.c_str(), (long)raw(SYS_getpid)); g_base = b; mkdir(b, 0700);
	const Scenario* S = nullptr; for (size_t i = 0; i < scenarios().size(); i++) if (scn == scenarios()[i].name) { S = &scenarios()[i]; g_scen = (int)i; }
	if (!S) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 2; }
	int rc = 0;
	if (mode == "one") {
		Plan p; uint64_t sd = s0;
		if (!planFile.empty()) { std::ifstream f(planFile); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str(); sd = strtoull(field(t, "seed").c_str(), 0, 10); g_thorough = field(t, "tier") == "thorough"; if (wantProp.empty()) wantProp = field(t, "prop"); p.expl = field(t, "explicit") == "1"; for (auto v : nums(field(t, "off_ops"))) p.offOps.insert((uint32_t)v); auto e = nums(field(t, "events")); for (size_t i = 0; i + 2 < e.size(); i += 3) p.ev.push_back({ (uint32_t)e[i], e[i + 1], e[i + 2] }); }
		Result r = runOne(*S, sd, p, lim);
		printf("status=%d prop=%s hash=%lx events=%zu msg=%s\n", r.status, r.prop.c_str(), r.hash, r.ev.size(), r.msg.c_str());
		if (!out.empty()) { Plan q; q.expl = p.expl; q.ev = p.ev; q.offOps = p.offOps; writePlan(out, *S, sd, q, r); }
		rc = r.status;
	} else if (mode == "run") {
		double t0 = wall(); uint64_t n = 0, incon = 0; std::map<std::string, uint64_t> cnt; std::set<uint64_t> states, inter, hashes; uint64_t steps = 0, ns = 0, sw = 0, mem = 0, lastSeed = 0; int found = 0; std::string firstMsg; uint64_t phases = 0;
		std::vector<std::string> viol; std::string err, sample; std::set<uint64_t> nontriv; uint64_t limits = 0;
		for (uint64_t s = s0; s < s1; s += stride) {
			if (wall() - t0 > budget) break;
			Result r = runOne(*S, s, Plan(), lim);
			n++; lastSeed = s;
			for (uint32_t i = 0; i < sh->ncounters; i++) cnt[sh->counters[i].name] += sh->counters[i].n;
			for (uint32_t i = 0; i < sh->nstates; i++) if (states.size() < 2000000) states.insert(sh->states[i]);
			inter.insert(sh->interleaving); hashes.insert(r.hash); steps += sh->steps; ns += sh->simNs; sw += sh->switches; mem += sh->memPts; phases += sh->phase;
			if (r.status == 2) incon++;
			bool nt = false; for (uint32_t i = 0; i < sh->ncounters; i++) if (!strcmp(sh->counters[i].name, "nontrivial")) nt = true;
			if (nt) { nontriv.insert(r.hash); if (sample.empty() || (n == 7)) sample = r.blurb.substr(0, 2500); }
			if (r.status == 4 && ++limits < 3) continue;
			if (r.status == 3 || r.status == 4) { err = r.msg + " (seed " + std::to_string(s) + ")"; break; }
			if (r.status == 1) { viol.push_back("{\"seed\": " + std::to_string(s) + ", \"prop\": \"" + jesc(r.prop) + "\", \"msg\": \"" + jesc(r.msg) + "\"}"); if ((wantProp.empty() || wantProp == r.prop) && ++found >= stopAfter) break; if (viol.size() > 400) break; }
		}
		FILE* f = stats.empty() ? stdout : fopen(stats.c_str(), "w");
		fprintf(f, "{\"scenario\": \"%s\", \"runs\": %lu, \"inconclusive\": %lu, \"last_seed\": %lu, \"wall\": %.3f, \"steps\": %lu, \"sim_ns\": %lu, \"switches\": %lu, \"mem_points\": %lu, \"phases\": %lu, \"distinct_states\": %zu, \"distinct_interleavings\": %zu, \"distinct_runs\": %zu, \"distinct_nontrivial\": %zu, \"real_time_limit_hits\": %lu,\n \"sample\": \"%s\",\n \"error\": \"%s\",\n \"counters\": {", S->name, n, incon, lastSeed, wall() - t0, steps, ns, sw, mem, phases, states.size(), inter.size(), hashes.size(), nontriv.size(), limits, jesc(sample).c_str(), jesc(err).c_str());
		bool first = true; for (auto& c : cnt) { fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", jesc(c.first).c_str(), c.second); first = false; }
		fprintf(f, "},\n \"violations\": ["); for (size_t i = 0; i < viol.size(); i++) fprintf(f, "%s%s", i ? ",\n" : "", viol[i].c_str());
		fprintf(f, "]}\n"); if (f != stdout) fclose(f);
	} else if (mode == "minimise") {
		double t0 = wall(); uint64_t sd = s0;
		Result a = runOne(*S, sd, Plan(), lim);
		if (a.status != 1) { printf("NOREPRO first status=%d %s\n", a.status, a.msg.c_str()); rc = 5; goto done; }
		{
			Result a2 = runOne(*S, sd, Plan(), lim);
			if (a2.status != 1 || a2.hash != a.hash) { printf("NONDETERMINISTIC %lx %lx %s | %s\n", a.hash, a2.hash, a.msg.c_str(), a2.msg.c_str()); rc = 6; goto done; }
			std::string cls = a.prop + msgClass(a.msg);
			Plan best; Result bestR = a; bool expl = false;
			auto tryPlan = [&](const Plan& p) { if (wall() - t0 > budget) return false; Result r = runOne(*S, sd, p, lim); if (r.status == 1 && r.prop + msgClass(r.msg) == cls) { best = p; bestR = r; return true; } return false; };
			// operations first (the rest of the run stays seeded)
			std::vector<uint32_t> ops = a.ops; 
			for (size_t chunk = std::max<size_t>(1, ops.size() / 2); chunk >= 1 && !ops.empty() && wall() - t0 < budget;) {
				bool any = false;
				for (size_t i = 0; i < ops.size();) { Plan p = best; size_t e = std::min(ops.size(), i + chunk); for (size_t j = i; j < e; j++) p.offOps.insert(ops[j]); if (tryPlan(p)) { ops.erase(ops.begin() + i, ops.begin() + e); any = true; } else i = e; }
				if (chunk == 1) { if (!any) break; } else chunk /= 2;
			}
			// then scheduling and fault events, made explicit
			Plan ex = best; ex.expl = true; ex.ev = bestR.ev;
			if (bestR.ev.size() < 399999 && tryPlan(ex)) {
				expl = true; std::vector<Ev> ev = bestR.ev; std::vector<Ev> curEv = ex.ev;
				{ Plan p = best; p.ev.clear(); if (tryPlan(p)) curEv.clear(); }
				for (size_t chunk = std::max<size_t>(1, curEv.size() / 2); chunk >= 1 && !curEv.empty() && wall() - t0 < budget;) {
					bool any = false;
					for (size_t i = 0; i < curEv.size() && wall() - t0 < budget;) { size_t e = std::min(curEv.size(), i + chunk); Plan p = best; p.ev = curEv; p.ev.erase(p.ev.begin() + i, p.ev.begin() + e); if (tryPlan(p)) { curEv = p.ev; any = true; } else i = e; }
					if (chunk == 1) { if (!any) break; } else chunk /= 2;
				}
			}
			(void)expl;
			Result c1 = runOne(*S, sd, best, lim);
			if (c1.status != 1 || c1.hash != bestR.hash) { printf("NONDETERMINISTIC replay %lx %lx\n", c1.hash, bestR.hash); rc = 6; goto done; }
			writePlan(out, *S, sd, best, c1);
			printf("MINIMISED prop=%s ops=%zu events=%zu runs=%d msg=%s\n", c1.prop.c_str(), c1.ops.size(), best.ev.size(), runNo, c1.msg.c_str());
		}
	}
done:
	rmTree(g_base);
	return rc;
}
