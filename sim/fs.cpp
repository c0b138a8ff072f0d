// File-system interposition: counting, kill points, injected errors.
#include "internal.h"
#include "net.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <unordered_map>
#include <algorithm>
namespace sim {
static std::string g_root;
std::string root() { return g_root; }
static std::string g_real; // absolute path of the scratch directory; its name differs between processes and must not leak into the run
void setRoot(const std::string& r) { g_root = "r"; g_real = r.substr(0, r.size() - 2); }
static std::string g_track, g_match;
static std::unordered_map<int, std::string>* fds = nullptr;
static std::unordered_map<FILE*, std::string>* files = nullptr;
static uint64_t g_ops = 0, g_crash = UINT64_MAX; static double g_torn = -1;
static DiskFault g_fault; static bool g_faultOn = false; static uint64_t g_faultOps = 0, g_faultHits = 0;

namespace disk {
void phaseStart() { fds = new std::unordered_map<int, std::string>(); files = new std::unordered_map<FILE*, std::string>(); g_ops = 0; g_crash = UINT64_MAX; g_faultOn = false; g_match.clear(); g_faultHits = 0; }
void track(const std::string& d) { g_track = d; }
uint64_t ops() { return g_ops; }
void crashAt(uint64_t n, double torn) { g_crash = g_ops + n; g_torn = torn; }
void crashOff() { g_crash = UINT64_MAX; }
void match(const std::string& s) { g_match = s; }
void setFault(const DiskFault& f) { g_fault = f; g_faultOn = true; g_faultOps = 0; }
void clearFault() { g_faultOn = false; }
bool faultHit() { return g_faultHits != 0; }
uint64_t faultCount() { return g_faultHits; }
static std::vector<std::string> g_fam;
void families(const std::vector<std::string>& v) { g_fam = v; }
void mark() { sh->families = 0; }
uint32_t touched() { return sh->families; }
static void touch(const std::string& p) { for (size_t i = 0; i < g_fam.size(); i++) if (p.find(g_fam[i]) != std::string::npos) sh->families = sh->families | (1u << i); }
}
static bool tracked(const char* p) { return p && !g_track.empty() && !strncmp(p, g_track.c_str(), g_track.size()); }
static std::string absPath(const char* p) { if (!p) return ""; if (p[0] == '/') { if (!strncmp(p, g_real.c_str(), g_real.size()) && p[g_real.size()] == '/') return "/sim" + std::string(p + g_real.size()); return p; } if (p[0] == '.' && p[1] == '/') p += 2; return std::string("/sim/") + p; }
static std::string base(const std::string& p) { size_t k = p.size() > g_track.size() ? g_track.size() : 0; return p.substr(k); }

enum { OP_W = 1, OP_R = 2 };
// Returns 0 to proceed, an errno to fail; *part receives a byte count for short/torn writes (SIZE_MAX = all).
static int point(const std::string& path, const char* what, int kind, size_t len, size_t* part) {
	if (part) *part = SIZE_MAX;
	if (!on()) return 0;
	yield(1);
	Kernel k;
	if (!g_match.empty() && path.find(g_match) == std::string::npos) return 0;
	if (kind == OP_W) {
		if (g_trace) { std::string t = std::string(what) + " " + base(path) + "\n"; raw(SYS_write, 2, (long)t.c_str(), t.size()); }
		h(hashStr(what)); h(len);
		g_ops++;
		if (g_ops > g_crash) {
			note("kill at disk operation %lu: %s %s (%zu bytes%s)", g_ops, what, base(path).c_str(), len, g_torn >= 0 && len > 1 && part ? ", torn" : "");
			if (g_torn >= 0 && len > 1 && part) { disk::touch(path); *part = (size_t)(g_torn * len); count("fault.torn-write"); return -1; }
			crashNow();
		}
	}
	if (g_faultOn && (g_fault.match.empty() || path.find(g_fault.match) != std::string::npos) && (kind == OP_W ? (g_fault.kinds & 5) : (g_fault.kinds & 2))) {
		uint64_t i = g_faultOps++, v = 0; double p = (i >= g_fault.from && i - g_fault.from < g_fault.len) ? g_fault.p : 0;
		if (faultPoint(EV_FAULT0 + 3, p, &v, 1000)) {
			g_faultHits++;
			int e = g_fault.err;
			if ((g_fault.kinds & 4) && part && len > 1 && (v & 1)) { *part = 1 + (v / 2) % (len - 1); count("fault.short-write"); note("short write %s %s %zu/%zu", what, base(path).c_str(), *part, len); return 0; }
			count(kind == OP_R ? "fault.read-error" : e == ENOSPC ? "fault.disk-full" : "fault.io-error");
			note("disk error %d at %s %s", e, what, base(path).c_str());
			return e;
		}
	}
	if (kind == OP_W) disk::touch(path);
	return 0;
}
static const std::string* fdPath(int fd) { if (!fds || !on()) return nullptr; auto it = fds->find(fd); return it == fds->end() ? nullptr : &it->second; }
} // namespace sim
using namespace sim;
#define FAILIF(e) do { int e_ = (e); if (e_ > 0) { errno = e_; return -1; } } while (0)

static std::unordered_map<int, int>* g_rnd = nullptr; // descriptors standing for /dev/urandom
static int openRandom() { int fd = (int)ret(raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY, 0)); if (fd >= 0) { Kernel k; if (!g_rnd) g_rnd = new std::unordered_map<int, int>(); (*g_rnd)[fd] = 1; } return fd; }
static int doOpen(int dfd, const char* path, int flags, int mode) {
	if (g_det && path && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))) return openRandom();
	if (on() && (dfd == AT_FDCWD || (path && path[0] == '/'))) {
		std::string ap; bool tr; { Kernel k; ap = absPath(path); tr = tracked(ap.c_str()); }
		if (path && !strncmp(path, "/proc/sys/kernel/random", 23)) { errno = ENOENT; return -1; }
		if (tr) {
			bool mut = false;
			if (flags & O_TRUNC) mut = true;
			if (flags & O_CREAT) { struct stat st; mut = mut || raw(SYS_stat, (long)path, (long)&st) < 0; }
			FAILIF(point(ap, mut ? "open-create" : "open", mut ? OP_W : OP_R, 0, nullptr));
			int fd = (int)ret(raw(SYS_openat, dfd, (long)path, flags, mode));
			if (fd >= 0) { Kernel k; (*fds)[fd] = ap; }
			return fd;
		}
	}
	return (int)ret(raw(SYS_openat, dfd, (long)path, flags, mode));
}
static ssize_t doWrite(int fd, const void* p, size_t n, off_t off, bool at) {
	if (isNet(fd)) return netWrite(fd, p, n);
	size_t part = SIZE_MAX; bool die = false;
	if (auto* ph = fdPath(fd)) {
		int e = point(*ph, "write", OP_W, n, &part);
		if (e == -1) die = true; else if (e) { errno = e; return -1; }
		if (part < n) n = part;
		if (g_trace) { uint64_t f = 1469598103934665603ull; for (size_t i = 0; i < n; i++) f = (f ^ ((const uint8_t*)p)[i]) * 1099511628211ull; char b[96]; int k = snprintf(b, 96, "DATA %zu %lx\n", n, f); raw(SYS_write, 2, (long)b, k); if (getenv("SIM_DUMP") || access("/tmp/simdump", 0) == 0) { char q[64]; static int seq = 0; snprintf(q, 64, "/tmp/simdump/%06d", seq++); int fd2 = (int)raw(SYS_open, (long)q, O_CREAT | O_WRONLY | O_TRUNC, 0600); raw(SYS_write, fd2, (long)p, n); raw(SYS_close, fd2); } }
	}
	ssize_t r = n || !die ? ret(at ? raw(SYS_pwrite64, fd, (long)p, n, off) : raw(SYS_write, fd, (long)p, n)) : 0;
	if (die) crashNow();
	return r;
}
static ssize_t doRead(int fd, void* p, size_t n, off_t off, bool at) {
	if (isNet(fd)) return netRead(fd, p, n);
	if (g_rnd && g_rnd->count(fd)) { rndFill(p, n); return n; }
	if (g_on && g_faultOn) if (auto* ph = fdPath(fd)) FAILIF(point(*ph, "read", OP_R, n, nullptr));
	return ret(at ? raw(SYS_pread64, fd, (long)p, n, off) : raw(SYS_read, fd, (long)p, n));
}
extern "C" {
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char* p, int flags, ...) { MODE; return doOpen(AT_FDCWD, p, flags, mode); }
int open64(const char* p, int flags, ...) { MODE; return doOpen(AT_FDCWD, p, flags, mode); }
int openat(int d, const char* p, int flags, ...) { MODE; return doOpen(d, p, flags, mode); }
int openat64(int d, const char* p, int flags, ...) { MODE; return doOpen(d, p, flags, mode); }
int __open_2(const char* p, int flags) { return doOpen(AT_FDCWD, p, flags, 0); }
int __open64_2(const char* p, int flags) { return doOpen(AT_FDCWD, p, flags, 0); }
int creat(const char* p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void* p, size_t n) { return doWrite(fd, p, n, 0, false); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return doWrite(fd, p, n, o, true); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { return doWrite(fd, p, n, o, true); }
ssize_t writev(int fd, const struct iovec* v, int c) {
	size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
	if (isNet(fd) || fdPath(fd)) { char* b = (char*)malloc(tot + 1); size_t o = 0; for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } ssize_t r = doWrite(fd, b, tot, 0, false); int e = errno; free(b); errno = e; return r; }
	return ret(raw(SYS_writev, fd, (long)v, c));
}
ssize_t read(int fd, void* p, size_t n) { return doRead(fd, p, n, 0, false); }
ssize_t __read_chk(int fd, void* p, size_t n, size_t) { return doRead(fd, p, n, 0, false); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return doRead(fd, p, n, o, true); }
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { return doRead(fd, p, n, o, true); }
ssize_t __pread64_chk(int fd, void* p, size_t n, off64_t o, size_t) { return doRead(fd, p, n, o, true); }
ssize_t __pread_chk(int fd, void* p, size_t n, off_t o, size_t) { return doRead(fd, p, n, o, true); }
int close(int fd) {
	if (isNet(fd)) return netClose(fd);
	if (g_rnd) { Kernel k; g_rnd->erase(fd); }
	if (fds && g_on) { Kernel k; fds->erase(fd); }
	return (int)ret(raw(SYS_close, fd));
}
static FILE* doFopen(const char* p, const char* m, const char* sym) {
	auto rf = (FILE * (*)(const char*, const char*)) realSym(sym);
	if (on() && p) {
		std::string ap; bool tr; { Kernel k; ap = absPath(p); tr = tracked(ap.c_str()); }
		if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) p = "/dev/zero";
		if (!strncmp(p, "/proc/sys/kernel/random", 23)) { errno = ENOENT; return nullptr; }
		if (tr) {
			bool mut = m[0] == 'w'; if (m[0] == 'a') { struct stat st; mut = raw(SYS_stat, (long)p, (long)&st) < 0; }
			int e = point(ap, mut ? "open-create" : "open", mut ? OP_W : OP_R, 0, nullptr);
			if (e > 0) { errno = e; return nullptr; }
			FILE* f = rf(p, m);
			if (f) { Kernel k; (*files)[f] = ap; (*fds)[fileno(f)] = ap; }
			return f;
		}
	}
	return rf(p, m);
}
FILE* fopen(const char* p, const char* m) { return doFopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return doFopen(p, m, "fopen64"); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
	static auto rw = (size_t(*)(const void*, size_t, size_t, FILE*))realSym("fwrite");
	if (on() && files) {
		auto it = files->find(f);
		if (it != files->end()) { size_t part; int e = point(it->second, "fwrite", OP_W, s * n, &part); if (e == -1) { rw(p, 1, part, f); fflush(f); crashNow(); } if (e) { errno = e; return 0; } if (part < s * n) return rw(p, 1, part, f) / (s ? s : 1); }
	}
	return rw(p, s, n, f);
}
int fclose(FILE* f) {
	static auto rc = (int (*)(FILE*))realSym("fclose");
	if (on() && files) {
		auto it = files->find(f);
		if (it != files->end()) {
			int fd = fileno(f); std::string ph = it->second;
			int e = 0; { e = point(ph, "fclose", OP_W, 0, nullptr); }
			{ Kernel k; files->erase(f); fds->erase(fd); }
			int r = rc(f); if (e > 0) { errno = e; return EOF; } return r;
		}
	}
	return rc(f);
}
#define PATHOP(what, path, call) do { if (on()) { std::string ap; bool tr; { Kernel k; ap = absPath(path); tr = tracked(ap.c_str()); } if (tr) FAILIF(point(ap, what, OP_W, 0, nullptr)); } return (int)ret(call); } while (0)
int rename(const char* a, const char* b) noexcept { PATHOP("rename", b, raw(SYS_rename, (long)a, (long)b)); }
int unlink(const char* a) noexcept { PATHOP("unlink", a, raw(SYS_unlink, (long)a)); }
int unlinkat(int d, const char* a, int f) noexcept { if (a && (a[0] == '/' || d == AT_FDCWD)) PATHOP("unlink", a, raw(SYS_unlinkat, d, (long)a, f)); return (int)ret(raw(SYS_unlinkat, d, (long)a, f)); }
int rmdir(const char* a) noexcept { PATHOP("rmdir", a, raw(SYS_rmdir, (long)a)); }
int remove(const char* a) noexcept { if (on()) { std::string ap; bool tr; { Kernel k; ap = absPath(a); tr = tracked(ap.c_str()); } if (tr) FAILIF(point(ap, "remove", OP_W, 0, nullptr)); } long r = raw(SYS_unlink, (long)a); if (r == -EISDIR || r == -EPERM) r = raw(SYS_rmdir, (long)a); return (int)ret(r); }
int mkdir(const char* a, mode_t m) noexcept { struct stat st; if (on() && raw(SYS_stat, (long)a, (long)&st) == 0) { errno = EEXIST; return -1; } PATHOP("mkdir", a, raw(SYS_mkdir, (long)a, m)); }
int link(const char* a, const char* b) noexcept { PATHOP("link", b, raw(SYS_link, (long)a, (long)b)); }
int symlink(const char* a, const char* b) noexcept { PATHOP("symlink", b, raw(SYS_symlink, (long)a, (long)b)); }
int truncate(const char* a, off_t n) noexcept { PATHOP("truncate", a, raw(SYS_truncate, (long)a, n)); }
int truncate64(const char* a, off64_t n) noexcept { PATHOP("truncate", a, raw(SYS_truncate, (long)a, n)); }
#define FDOP(what, fd, call) do { if (auto* ph = fdPath(fd)) FAILIF(point(*ph, what, OP_W, 0, nullptr)); return (int)ret(call); } while (0)
int ftruncate(int fd, off_t n) noexcept { FDOP("ftruncate", fd, raw(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) noexcept { FDOP("ftruncate", fd, raw(SYS_ftruncate, fd, n)); }
int fsync(int fd) { FDOP("fsync", fd, 0L); }
int fdatasync(int fd) { FDOP("fdatasync", fd, 0L); }
int sync_file_range(int fd, off64_t, off64_t, unsigned) { return 0; }
int fallocate(int fd, int m, off_t o, off_t n) { FDOP("fallocate", fd, raw(SYS_fallocate, fd, m, o, n)); }
int fallocate64(int fd, int m, off64_t o, off64_t n) { FDOP("fallocate", fd, raw(SYS_fallocate, fd, m, o, n)); }
int posix_fallocate(int fd, off_t o, off_t n) { if (auto* ph = fdPath(fd)) { int e = point(*ph, "fallocate", OP_W, 0, nullptr); if (e > 0) return e; } return (int)-raw(SYS_fallocate, fd, 0, o, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) noexcept {
	if (fd >= 0 && g_on) { if (auto* ph = fdPath(fd)) { int e = point(*ph, "mmap", OP_R, n, nullptr); if (e > 0) { errno = e; return MAP_FAILED; } } }
	return (void*)ret(raw(SYS_mmap, (long)a, n, pr, fl, fd, o));
}
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t o) noexcept { return mmap(a, n, pr, fl, fd, o); }
int ioctl(int fd, unsigned long rq, ...) noexcept { va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap); if (isNet(fd)) return netIoctl(fd, rq, a); return (int)ret(raw(SYS_ioctl, fd, rq, (long)a)); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (isNet(fd)) return netFcntl(fd, cmd, a); return (int)ret(raw(SYS_fcntl, fd, cmd, a)); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (isNet(fd)) return netFcntl(fd, cmd, a); return (int)ret(raw(SYS_fcntl, fd, cmd, a)); }
}
