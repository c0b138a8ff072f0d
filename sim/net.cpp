// Simulated TCP network behind the socket system calls. Only the node's side has descriptors; the other side is scenario code driven by simulator events.
#include "internal.h"
#include "net.h"
#include <map>
#include <set>
#include <algorithm>
#include <cstring>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <netdb.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

namespace sim { namespace net {
enum Kind { STREAM, LISTEN, EPOLL, EVENT };
enum St { FRESH, BOUND, CONNECTING, CONNECTED, FAILED };
struct Epi { uint32_t events; epoll_data_t data; uint32_t pend; std::weak_ptr<Sock> s; };
struct Sock : std::enable_shared_from_this<Sock> {
	int fd = -1; Kind kind = STREAM; St st = FRESH; bool open = true, nonblock = false; uint64_t rcvTo = 0, sndTo = 0;
	uint32_t lip = 0, rip = 0; uint16_t lport = 0, rport = 0; int soErr = 0;
	std::string rx; size_t rxOff = 0; bool eof = false, rst = false, rdShut = false, wrShut = false; bool rstSeen = false; size_t inFlight = 0;
	ConnPtr conn; std::deque<std::shared_ptr<Sock>> queue; int backlog = 0; // listener
	std::map<int, Epi> watch;      // epoll
	uint64_t counter = 0;          // eventfd
	size_t avail() const { return rx.size() - rxOff; }
};
typedef std::shared_ptr<Sock> SockPtr;
Faults faults;
static std::vector<SockPtr>* fds = nullptr; static std::map<uint32_t, Host>* hosts = nullptr; static std::vector<ConnPtr>* all = nullptr; static std::vector<uint32_t>* dnsIps = nullptr;
static uint16_t ephemeral = 40000; static int g_poll; static uint32_t NODE_IP;

uint32_t ip4(int a, int b, int c, int d) { return (uint32_t)a << 24 | b << 16 | c << 8 | d; }
std::string ipStr(uint32_t ip) { char b[32]; snprintf(b, 32, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); return b; }
static SockPtr get(int fd) { size_t i = fd - NETFD; return fds && fd >= NETFD && i < fds->size() ? (*fds)[i] : nullptr; }
static SockPtr make(Kind k) {
	auto s = std::make_shared<Sock>(); s->kind = k; size_t i = 0; while (i < fds->size() && (*fds)[i]) i++;
	if (i == fds->size()) fds->push_back(s); else (*fds)[i] = s;
	s->fd = NETFD + (int)i; return s;
}
static uint32_t ready(Sock& s) {
	switch (s.kind) {
	case LISTEN: return s.queue.empty() ? 0 : EPOLLIN;
	case EVENT: return (s.counter ? EPOLLIN : 0) | EPOLLOUT;
	case EPOLL: return 0;
	default: break;
	}
	if (s.st == FRESH || s.st == BOUND) return EPOLLOUT | EPOLLHUP;
	if (s.st == CONNECTING) return 0;
	if (s.st == FAILED) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
	uint32_t m = 0;
	if (s.avail() || s.eof || s.rst || s.rdShut) m |= EPOLLIN;
	if (s.eof || s.rdShut) m |= EPOLLRDHUP;
	if (s.rst) m |= EPOLLOUT | EPOLLHUP | (s.rstSeen ? 0 : EPOLLERR);
	if ((s.eof || s.rdShut) && s.wrShut) m |= EPOLLHUP;
	if (s.wrShut || s.inFlight < s.conn->link.sndBuf * 2 / 3) m |= EPOLLOUT;
	return m;
}
static void changed(Sock& s, uint32_t what) { // a readiness transition
	wake(&s, true); wake(&g_poll, true);
	for (auto& e : *fds) if (e && e->kind == EPOLL) { auto it = e->watch.find(s.fd); if (it != e->watch.end() && it->second.s.lock().get() == &s) { it->second.pend |= what & (it->second.events | EPOLLERR | EPOLLHUP); if (it->second.pend) wake(e.get(), true); } }
}
static bool park(const void* o, uint64_t dl, const char* what) { int k = g_kernel; g_kernel = 0; bool r = blockOn(o, dl, what); g_kernel = k; return r; } // no simulator section may be held while blocked
static uint64_t draw(const Conn& c, int dir, uint64_t seq, int k) { return stream("net", (uint64_t)c.id * 4 + dir, seq * 8 + k); }
static double unit(uint64_t v) { return (v >> 11) * (1.0 / 9007199254740992.0); }
static uint64_t lat(const Conn& c, int dir) { uint64_t q = const_cast<Conn&>(c).seq++; uint64_t d = c.link.latNs + (c.link.jitNs ? draw(c, dir, q, 0) % c.link.jitNs : 0), v = 0; if (faultPoint(EV_FAULT0 + 9, faults.pDelay, &v, 1000)) { count("fault.net-delay"); d += faults.delayNs * (v + 1) / 1000; } return d; }
static bool parted(const Conn& c) { auto it = hosts->find(c.ip); return it != hosts->end() && it->second.partitioned; }
static void sendToNode(const ConnPtr& c, std::function<void()> f, uint64_t delay = 0) { // in order
	uint64_t t = std::max(c->lastToNode, g_now + delay + lat(*c, 0)); c->lastToNode = t;
	at(t, [c, f] { if (parted(*c) || !c->parkedIn.empty()) c->parkedIn.push_back(f); else f(); });
}
static void sendToPeer(const ConnPtr& c, std::function<void()> f) {
	uint64_t t = std::max(c->lastFromNode, g_now + lat(*c, 1)); c->lastFromNode = t;
	at(t, [c, f] { if (parted(*c) || !c->parkedOut.empty()) c->parkedOut.push_back(f); else f(); });
}
static void rstNode(const ConnPtr& c) { auto s = c->sock.lock(); if (s && !s->rst) { s->rst = true; s->inFlight = 0; s->eof = true; changed(*s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP); } }
void Conn::send(const std::string& bytes, uint64_t delay) {
	if (closed || bytes.empty()) return;
	auto self = shared_from_this(); sent += bytes.size(); size_t o = 0;
	while (o < bytes.size()) {
		size_t n = bytes.size() - o; uint64_t q = seq;
		if (unit(draw(*this, 2, q, 1)) < link.pSplit) { size_t m = std::min(n, link.maxSeg); n = 1 + draw(*this, 2, q, 2) % m; } else n = std::min(n, link.maxSeg * 45);
		std::string part = bytes.substr(o, n); o += n; uint64_t v;
		if (faultPoint(EV_FAULT0 + 10, faults.pReset, &v, 1)) { count("fault.net-reset"); note("network resets connection %d with %s", id, ipStr(ip).c_str()); sendToNode(self, [self] { rstNode(self); }); auto me = self; at(g_now + 1, [me] { if (!me->nodeClosed && !me->closed) { me->closed = true; if (me->onClose) me->onClose(true); } }); return; }
		sendToNode(self, [self, part] { auto s = self->sock.lock(); if (!s || s->rst) return; if (s->rdShut || !s->open) { return; } if (s->rxOff > 65536) { s->rx.erase(0, s->rxOff); s->rxOff = 0; } s->rx += part; changed(*s, EPOLLIN); }, delay);
	}
}
void Conn::close() { if (closed) return; closed = true; auto self = shared_from_this(); sendToNode(self, [self] { auto s = self->sock.lock(); if (s && !s->rst) { s->eof = true; changed(*s, EPOLLIN | EPOLLRDHUP | (s->wrShut ? EPOLLHUP : 0)); } }); }
void Conn::reset() { if (closed) return; closed = true; auto self = shared_from_this(); sendToNode(self, [self] { rstNode(self); }); }
static void deliver(const ConnPtr& c, const std::string& d) {
	auto s = c->sock.lock(); bool full = s && s->inFlight >= c->link.sndBuf * 2 / 3;
	if (s) { s->inFlight -= std::min(s->inFlight, d.size()); if (full && s->inFlight < c->link.sndBuf * 2 / 3) changed(*s, EPOLLOUT); }
	c->received += d.size();
	if (c->closed) { sendToNode(c, [c] { rstNode(c); }); return; } // data for a closed end is answered by a reset
	if (c->onData) c->onData(d);
}
void Conn::stall(bool on) { stalled = on; if (on) count("fault.net-stall"); auto self = shared_from_this(); while (!stalled && !held.empty()) { auto d = held.front(); held.pop_front(); if (d.empty()) { nodeClosed = true; if (!closed && onClose) onClose(false); } else deliver(self, d); } }
Host& host(uint32_t ip) { return (*hosts)[ip]; }
bool hasHost(uint32_t ip) { return hosts->count(ip) != 0; }
void dns(const std::vector<uint32_t>& v) { *dnsIps = v; }
bool listening(uint16_t port) { for (auto& s : *fds) if (s && s->kind == LISTEN && s->lport == port) return true; return false; }
int nodeSockets() { int n = 0; for (auto& s : *fds) if (s && s->kind == STREAM && s->st >= CONNECTING) n++; return n; }
int nodeSocketsFrom(uint32_t ip) { int n = 0; for (auto& s : *fds) if (s && s->kind == STREAM && s->st >= CONNECTING && s->rip == ip) n++; return n; }
int nodeFds() { int n = 0; for (auto& s : *fds) if (s) n++; return n; }
std::vector<ConnPtr> conns() { return *all; }
void partition(uint32_t ip, bool on) {
	auto& h = host(ip); if (h.partitioned == on) return; h.partitioned = on; count(on ? "fault.partition" : "fault.heal"); note("%s %s", on ? "partition" : "heal", ipStr(ip).c_str());
	if (!on) for (auto c : *all) if (c->ip == ip) for (auto* q : { &c->parkedIn, &c->parkedOut }) { auto x = std::move(*q); q->clear(); for (auto& f : x) f(); }
}
static ConnPtr newConn(uint32_t ip, bool to) { auto c = std::make_shared<Conn>(); c->id = (int)all->size() + 1; c->ip = ip; c->toNode = to; c->link = host(ip).link; c->openedAt = g_now; all->push_back(c); return c; }
void connect(uint32_t from, uint16_t port, std::function<void(ConnPtr)> up, std::function<void()> refused) {
	auto c = newConn(from, true); c->port = ephemeral++;
	sendToNode(c, [c, port, up, refused] {
		SockPtr l; for (auto& s : *fds) if (s && s->kind == LISTEN && s->lport == port) l = s;
		if (!l || (int)l->queue.size() > l->backlog) { c->closed = true; if (refused) at(g_now + c->link.latNs, refused); return; }
		auto s = std::make_shared<Sock>(); s->st = CONNECTED; s->lip = NODE_IP; s->lport = port; s->rip = c->ip; s->rport = c->port; s->conn = c; c->sock = s;
		l->queue.push_back(s); changed(*l, EPOLLIN);
		sendToPeer(c, [c, up] { if (c->closed) return; c->up = true; if (up) up(c); });
		// a listener's queue keeps the socket alive until accept
	});
}
// ---------------------------------------------------------------- node side
static int err(int e) { errno = e; return -1; }
static bool wait(const SockPtr& s, bool nonblock, uint64_t to, const char* what) { // false: would block / timed out
	if (nonblock) return false;
	return park(s.get(), to ? g_now + to : UINT64_MAX, what);
}
static ssize_t doRecv(int fd, void* p, size_t n, int flags) {
	ioPoint(); Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (s->kind == EVENT) { if (!s->counter) return err(EAGAIN); memcpy(p, &s->counter, 8); s->counter = 0; return 8; }
	uint64_t end = s->rcvTo ? g_now + s->rcvTo : 0;
	for (;;) {
		if (s->kind != STREAM || s->st == FRESH || s->st == BOUND || s->st == CONNECTING) return err(ENOTCONN);
		if (s->st == FAILED) { if (s->soErr) { int e = s->soErr; s->soErr = 0; return err(e); } return 0; }
		if (s->rdShut) return 0;
		if (s->avail()) {
			size_t m = std::min(n, s->avail()); uint64_t v;
			if (m > 1 && faultPoint(EV_FAULT0 + 11, faults.pShort, &v, 1u << 30)) { m = 1 + v % (m - 1); count("fault.short-read"); at(g_now + 100000, [s] { if (s->open) changed(*s, EPOLLIN); }); } // as if the rest arrived a little later
			memcpy(p, s->rx.data() + s->rxOff, m); if (!(flags & MSG_PEEK)) { s->rxOff += m; if (s->rxOff == s->rx.size()) { s->rx.clear(); s->rxOff = 0; } }
			h(m); if (nodeLog) vnote("NET recv fd %d %zu of %zu", fd, m, n); return m;
		}
		if (s->rst && !s->rstSeen) { s->rstSeen = true; return err(ECONNRESET); }
		if (s->eof || s->rst) return 0;
		if (n == 0) return 0;
		if (!wait(s, s->nonblock || (flags & MSG_DONTWAIT), end && end > g_now ? end - g_now : end ? 1 : 0, "recv")) return err(EAGAIN);
		if (end && g_now >= end && !s->avail() && !s->eof && !s->rst && !s->rdShut) return err(EAGAIN);
	}
}
static ssize_t doSend(int fd, const void* p, size_t n, int flags) {
	ioPoint(); Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (s->kind == EVENT) { uint64_t v; memcpy(&v, p, 8); s->counter += v; changed(*s, EPOLLIN); return 8; }
	size_t done = 0;
	for (;;) {
		if (s->kind != STREAM || s->st == FRESH || s->st == BOUND || s->st == CONNECTING) return err(ENOTCONN);
		if (s->st == FAILED || s->wrShut || s->rst) { if (s->rst && !s->rstSeen) { s->rstSeen = true; return err(ECONNRESET); } return done ? done : err(EPIPE); }
		size_t room = s->inFlight < s->conn->link.sndBuf ? s->conn->link.sndBuf - s->inFlight : 0;
		if (room) {
			size_t m = std::min(n - done, room); uint64_t v;
			if (m > 1 && faultPoint(EV_FAULT0 + 12, faults.pShort, &v, 1u << 30)) { m = 1 + v % (m - 1); count("fault.short-write"); at(g_now + 100000, [s] { if (s->open) changed(*s, EPOLLOUT); }); } // as if the buffer was full and drained a little later
			auto c = s->conn; std::string d((const char*)p + done, m); s->inFlight += m; done += m; uint64_t v2;
			if (faultPoint(EV_FAULT0 + 13, faults.pReset, &v2, 1)) { count("fault.net-reset"); note("network resets connection %d with %s", c->id, ipStr(c->ip).c_str()); sendToNode(c, [c] { rstNode(c); }); at(g_now + 1, [c] { if (!c->nodeClosed && !c->closed) { c->closed = true; if (c->onClose) c->onClose(true); } }); }
			else sendToPeer(c, [c, d] { if (c->nodeClosed) return; if (c->stalled) c->held.push_back(d); else deliver(c, d); });
			h(m); if (nodeLog) vnote("NET send fd %d %zu of %zu", fd, m, n);
			if (done == n || s->nonblock || (flags & MSG_DONTWAIT) || faultPoint(EV_FAULT0 + 12, 0, &v, 1)) return done;
			continue;
		}
		if (done) { if (s->nonblock) return done; }
		if (!wait(s, s->nonblock || (flags & MSG_DONTWAIT), s->sndTo, "send")) return done ? (ssize_t)done : err(EAGAIN);
	}
}
static void fin(const SockPtr& s, bool rst) { // the node stops sending
	if (s->conn && s->st == CONNECTED) { auto c = s->conn; sendToPeer(c, [c, rst] { if (c->nodeClosed) return; if (c->stalled && !rst) { c->held.push_back(""); return; } c->nodeClosed = true; if (!c->closed && c->onClose) c->onClose(rst); }); }
}
static int doClose(int fd) {
	ioPoint(); Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	(*fds)[fd - NETFD] = nullptr; s->open = false;
	for (auto& e : *fds) if (e && e->kind == EPOLL) { auto it = e->watch.find(fd); if (it != e->watch.end() && it->second.s.lock() == s) e->watch.erase(it); }
	if (s->kind == LISTEN) { for (auto& q : s->queue) fin(q, true); s->queue.clear(); }
	if (s->kind == STREAM) { if (!s->wrShut) fin(s, s->avail() > 0); s->wrShut = s->rdShut = true; wake(s.get(), true); wake(&g_poll, true); }
	h(0xc105e + fd); return 0;
}
static socklen_t putAddr(sockaddr* a, socklen_t* l, uint32_t ip, uint16_t port) { sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = htonl(ip); if (a && l) { memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; } return sizeof x; }
} // namespace net
using namespace net;
void netPhaseStart() { fds = new std::vector<SockPtr>(); hosts = new std::map<uint32_t, Host>(); all = new std::vector<ConnPtr>(); dnsIps = new std::vector<uint32_t>(); ephemeral = 40000; faults = Faults(); NODE_IP = ip4(10, 0, 0, 1); }
ssize_t netRead(int fd, void* p, size_t n) { return doRecv(fd, p, n, 0); }
ssize_t netWrite(int fd, const void* p, size_t n) { return doSend(fd, p, n, 0); }
int netClose(int fd) { return doClose(fd); }
int netIoctl(int fd, unsigned long rq, void* a) {
	ioPoint(); Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (rq == FIONBIO) { s->nonblock = *(int*)a != 0; return 0; }
	if (rq == FIONREAD) { if (s->kind == LISTEN) return err(EINVAL); *(int*)a = (int)s->avail(); return 0; }
	return err(ENOTTY);
}
int netFcntl(int fd, int cmd, long arg) {
	Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
	return 0;
}
} // namespace sim
using namespace sim; using namespace sim::net;
extern "C" {
int socket(int d, int t, int p) noexcept {
	if (!g_on) return (int)ret(raw(SYS_socket, d, t, p));
	ioPoint(); Kernel k; uint64_t v;
	if (d != AF_INET || (t & 0xf) != SOCK_STREAM) return err(EAFNOSUPPORT);
	if (faultPoint(EV_FAULT0 + 14, faults.pSocket, &v, 1)) { count("fault.no-descriptors"); return err(EMFILE); }
	auto s = make(STREAM); s->nonblock = t & SOCK_NONBLOCK; return s->fd;
}
int bind(int fd, const sockaddr* a, socklen_t l) noexcept {
	if (!isNet(fd)) return (int)ret(raw(SYS_bind, fd, (long)a, l));
	Kernel k; auto s = get(fd); if (!s) return err(EBADF); uint16_t port = ntohs(((const sockaddr_in*)a)->sin_port);
	if (listening(port)) return err(EADDRINUSE);
	s->lport = port; s->st = BOUND; return 0;
}
int listen(int fd, int b) noexcept { if (!isNet(fd)) return (int)ret(raw(SYS_listen, fd, b)); Kernel k; auto s = get(fd); if (!s) return err(EBADF); s->kind = LISTEN; s->backlog = std::min(b, 128); return 0; }
int accept4(int fd, sockaddr* a, socklen_t* l, int fl) {
	if (!isNet(fd)) return (int)ret(raw(SYS_accept4, fd, (long)a, (long)l, fl));
	ioPoint(); Kernel k; uint64_t v;
	for (;;) {
		auto s = get(fd); if (!s) return err(EBADF); if (s->kind != LISTEN) return err(EINVAL);
		if (!s->queue.empty()) {
			if (faultPoint(EV_FAULT0 + 15, faults.pAccept, &v, 2)) { count("fault.accept-error"); note("accept fails with %s", v ? "EMFILE" : "ECONNABORTED"); if (!v) { fin(s->queue.front(), true); s->queue.pop_front(); } return err(v ? EMFILE : ECONNABORTED); }
			auto q = s->queue.front(); s->queue.pop_front();
			size_t i = 0; while (i < fds->size() && (*fds)[i]) i++; if (i == fds->size()) fds->push_back(q); else (*fds)[i] = q; q->fd = NETFD + (int)i; q->nonblock = fl & SOCK_NONBLOCK;
			putAddr(a, l, q->rip, q->rport); h(q->fd); return q->fd;
		}
		if (s->nonblock) return err(EAGAIN);
		park(s.get(), UINT64_MAX, "accept");
	}
}
int accept(int fd, sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
int connect(int fd, const sockaddr* a, socklen_t l) {
	if (!isNet(fd)) return (int)ret(raw(SYS_connect, fd, (long)a, l));
	ioPoint(); Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (s->st == CONNECTED) return err(EISCONN); if (s->st == CONNECTING) return err(EALREADY);
	auto* in = (const sockaddr_in*)a; uint32_t ip = ntohl(in->sin_addr.s_addr); s->rip = ip; s->rport = ntohs(in->sin_port); s->lip = NODE_IP; s->lport = ephemeral++; s->st = CONNECTING;
	bool known = hasHost(ip); Host& ho = host(ip); if (!known) ho.mode = BLACKHOLE; ho.attempts++; ho.attemptTimes.push_back(g_now);
	auto c = newConn(ip, false); c->port = s->rport; s->conn = c; c->sock = s; h(ip);
	if (ho.mode != BLACKHOLE) sendToPeer(c, [c] {
		auto& ho = host(c->ip); auto s = c->sock.lock(); if (!s || !s->open) { c->closed = true; return; }
		if (ho.mode == REFUSE || !ho.onConnect) { c->closed = true; count("fault.connect-refused"); sendToNode(c, [c] { auto s = c->sock.lock(); if (s && s->st == CONNECTING) { s->st = FAILED; s->soErr = ECONNREFUSED; changed(*s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); } }); return; }
		c->up = true; sendToNode(c, [c] { auto s = c->sock.lock(); if (s && s->open && s->st == CONNECTING) { s->st = CONNECTED; changed(*s, EPOLLOUT); } else if (!s || !s->open) sendToPeer(c, [c] { if (c->nodeClosed) return; c->nodeClosed = true; if (!c->closed && c->onClose) c->onClose(true); }); });
		ho.onConnect(c);
	}); else { count("fault.connect-timeout"); at(g_now + 127000000000ull, [c] { auto s = c->sock.lock(); if (s && s->st == CONNECTING) { s->st = FAILED; s->soErr = ETIMEDOUT; changed(*s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); } }); }
	if (s->nonblock) return err(EINPROGRESS);
	while (s->st == CONNECTING) park(s.get(), UINT64_MAX, "connect");
	if (s->st == CONNECTED) return 0; int e = s->soErr; s->soErr = 0; return err(e);
}
int shutdown(int fd, int how) noexcept {
	if (!isNet(fd)) return (int)ret(raw(SYS_shutdown, fd, how));
	ioPoint(); Kernel k; auto s = get(fd); if (!s) return err(EBADF); if (s->kind == LISTEN) return 0; if (s->st != CONNECTED || s->rst) return err(ENOTCONN);
	if (how != SHUT_RD && !s->wrShut) { s->wrShut = true; fin(s, false); }
	if (how != SHUT_WR) s->rdShut = true;
	changed(*s, EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP); return 0;
}
int setsockopt(int fd, int lv, int o, const void* p, socklen_t n) noexcept {
	if (!isNet(fd)) return (int)ret(raw(SYS_setsockopt, fd, lv, o, (long)p, n));
	Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) { auto* t = (const timeval*)p; if (t->tv_usec >= 1000000) return err(EDOM); (o == SO_RCVTIMEO ? s->rcvTo : s->sndTo) = t->tv_sec * 1000000000ull + t->tv_usec * 1000ull; }
	return 0;
}
int getsockopt(int fd, int lv, int o, void* p, socklen_t* n) noexcept {
	if (!isNet(fd)) return (int)ret(raw(SYS_getsockopt, fd, lv, o, (long)p, (long)n));
	Kernel k; auto s = get(fd); if (!s) return err(EBADF);
	if (lv == SOL_SOCKET && o == SO_ERROR) { int e = s->soErr; s->soErr = 0; if (!e && s->rst && !s->rstSeen) { e = ECONNRESET; s->rstSeen = true; } *(int*)p = e; *n = 4; return 0; }
	memset(p, 0, *n); return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept { if (!isNet(fd)) return (int)ret(raw(SYS_getpeername, fd, (long)a, (long)l)); Kernel k; auto s = get(fd); if (!s) return err(EBADF); if (s->st != CONNECTED || s->rst) return err(ENOTCONN); putAddr(a, l, s->rip, s->rport); return 0; }
int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept { if (!isNet(fd)) return (int)ret(raw(SYS_getsockname, fd, (long)a, (long)l)); Kernel k; auto s = get(fd); if (!s) return err(EBADF); putAddr(a, l, s->lip, s->lport); return 0; }
ssize_t recv(int fd, void* p, size_t n, int fl) { if (!isNet(fd)) return ret(raw(SYS_recvfrom, fd, (long)p, n, fl, 0, 0)); return doRecv(fd, p, n, fl); }
ssize_t send(int fd, const void* p, size_t n, int fl) { if (!isNet(fd)) return ret(raw(SYS_sendto, fd, (long)p, n, fl, 0, 0)); return doSend(fd, p, n, fl); }
ssize_t recvmsg(int fd, msghdr* m, int fl) {
	if (!isNet(fd)) return ret(raw(SYS_recvmsg, fd, (long)m, fl));
	std::string b; size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
	b.resize(tot); ssize_t r = doRecv(fd, &b[0], tot, fl); if (r > 0) { size_t o = 0; for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) { size_t c = std::min(m->msg_iov[i].iov_len, (size_t)r - o); memcpy(m->msg_iov[i].iov_base, b.data() + o, c); o += c; } } return r;
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
	if (!isNet(fd)) return ret(raw(SYS_sendmsg, fd, (long)m, fl));
	std::string b; for (size_t i = 0; i < m->msg_iovlen; i++) b.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return doSend(fd, b.data(), b.size(), fl);
}
int poll(pollfd* f, nfds_t n, int to) {
	bool any = false; for (nfds_t i = 0; i < n; i++) if (isNet(f[i].fd)) any = true;
	if (!any) return (int)ret(raw(SYS_poll, (long)f, n, to));
	ioPoint(); Kernel k; uint64_t end = to < 0 ? UINT64_MAX : g_now + to * 1000000ull;
	std::vector<SockPtr> s(n); for (nfds_t i = 0; i < n; i++) s[i] = get(f[i].fd);
	for (;;) {
		int c = 0;
		for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; if (!s[i]) { f[i].revents = POLLNVAL; c++; continue; } uint32_t m = ready(*s[i]); short r = 0; if (m & EPOLLIN) r |= POLLIN; if (m & EPOLLOUT) r |= POLLOUT; r &= f[i].events; if (m & EPOLLERR) r |= POLLERR; if (m & EPOLLHUP) r |= POLLHUP; f[i].revents = r; if (r) c++; }
		if (c || g_now >= end) return c;
		park(n == 1 ? (const void*)s[0].get() : (const void*)&g_poll, end, "poll");
	}
}
int epoll_create1(int fl) noexcept { if (!g_on) return (int)ret(raw(SYS_epoll_create1, fl)); Kernel k; return make(EPOLL)->fd; }
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept {
	if (!isNet(ep)) return (int)ret(raw(SYS_epoll_ctl, ep, op, fd, (long)ev));
	Kernel k; auto e = get(ep), s = get(fd); if (!e || !s) return err(EBADF); auto it = e->watch.find(fd);
	if (op == EPOLL_CTL_DEL) { if (it == e->watch.end()) return err(ENOENT); e->watch.erase(it); return 0; }
	if (op == EPOLL_CTL_ADD && it != e->watch.end()) return err(EEXIST); if (op == EPOLL_CTL_MOD && it == e->watch.end()) return err(ENOENT);
	Epi x; x.events = ev->events; x.data = ev->data; x.s = s; x.pend = ready(*s) & (ev->events | EPOLLERR | EPOLLHUP); e->watch[fd] = x; if (nodeLog) vnote("NET epoll_ctl %d fd %d events %x ready %x", op, fd, ev->events, x.pend); if (x.pend) wake(e.get(), true); return 0;
}
int epoll_wait(int ep, epoll_event* ev, int max, int to) {
	if (!isNet(ep)) return (int)ret(raw(SYS_epoll_pwait, ep, (long)ev, max, to, 0, 8));
	ioPoint(); Kernel k; auto e = get(ep); if (!e) return err(EBADF); uint64_t end = to < 0 ? UINT64_MAX : g_now + to * 1000000ull;
	for (;;) {
		int c = 0;
		for (auto& w : e->watch) { auto s = w.second.s.lock(); if (!s || c >= max) continue; uint32_t m = (w.second.events & EPOLLET) ? w.second.pend : 0; m |= (w.second.events & EPOLLET) ? 0 : ready(*s) & (w.second.events | EPOLLERR | EPOLLHUP); if (m && (w.second.events & EPOLLET)) m = (m | ready(*s)) & (w.second.events | EPOLLERR | EPOLLHUP); if (!m) continue; w.second.pend = 0; ev[c].events = m; ev[c].data = w.second.data; c++; }
		if (nodeLog) for (int i = 0; i < c; i++) vnote("NET epoll event %x", ev[i].events);
		if (c || g_now >= end) return c;
		if (!park(e.get(), end, "epoll_wait") && to >= 0) return 0;
	}
}
int eventfd(unsigned v, int fl) noexcept { if (!g_on) return (int)ret(raw(SYS_eventfd2, v, fl)); Kernel k; auto s = make(EVENT); s->counter = v; return s->fd; }
int timerfd_create(clockid_t c, int fl) noexcept { if (!g_on) return (int)ret(raw(SYS_timerfd_create, c, fl)); return err(EINVAL); }
static int (*realGai)(const char*, const char*, const addrinfo*, addrinfo**) = nullptr;
int getaddrinfo(const char* node, const char* svc, const addrinfo* hints, addrinfo** out) {
	if (!g_on) { if (!realGai) realGai = (decltype(realGai))realSym("getaddrinfo"); return realGai(node, svc, hints, out); }
	ioPoint(); count("net.dns-lookup");
	if (dnsIps->empty()) return EAI_NONAME;
	addrinfo* first = nullptr; addrinfo** tail = &first;
	for (auto ip : *dnsIps) { auto* a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in)); auto* s = (sockaddr_in*)(a + 1); s->sin_family = AF_INET; s->sin_port = htons(53); s->sin_addr.s_addr = htonl(ip); a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP; a->ai_addr = (sockaddr*)s; a->ai_addrlen = sizeof *s; *tail = a; tail = &a->ai_next; }
	*out = first; return 0;
}
void freeaddrinfo(addrinfo* a) noexcept { while (a) { auto* n = a->ai_next; free(a); a = n; } }
}
