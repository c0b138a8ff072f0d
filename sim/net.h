// Simulated TCP network: the node under test uses ordinary sockets; remote hosts are scripted by the scenario.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <deque>
#include <vector>
#include <memory>
#include <functional>
#include <sys/types.h>
namespace sim {
constexpr int NETFD = 100000;
inline bool isNet(int fd) { return fd >= NETFD; }
ssize_t netRead(int fd, void* p, size_t n);
ssize_t netWrite(int fd, const void* p, size_t n);
int netClose(int fd);
int netIoctl(int fd, unsigned long req, void* arg);
int netFcntl(int fd, int cmd, long arg);

namespace net {
struct Sock;
struct Link {                        // characteristics of the path to one remote host
	uint64_t latNs = 5000000, jitNs = 2000000;
	double pSplit = 0.3;             // chance that a segment is cut at an arbitrary byte
	size_t maxSeg = 1460;            // largest segment towards the node when cutting
	size_t sndBuf = 200000;          // what the node may have in flight before writes stop being accepted
};
// Remote end of one connection. Callbacks run inside the simulator.
struct Conn : std::enable_shared_from_this<Conn> {
	int id = 0; uint32_t ip = 0; uint16_t port = 0; bool toNode = false; // toNode: opened by the remote host
	Link link;
	bool up = false;                 // established
	bool closed = false;             // the remote end closed or reset it
	bool nodeClosed = false;         // FIN or RST from the node arrived
	bool stalled = false;            // the remote end does not read
	uint64_t sent = 0, received = 0;
	std::function<void(const std::string&)> onData;
	std::function<void(bool reset)> onClose;   // the node closed the connection, or it was reset on the way
	void send(const std::string& bytes, uint64_t delayNs = 0);
	void close();                    // orderly
	void reset();                    // RST
	void stall(bool on);
	uint64_t openedAt = 0;
	// internal
	std::weak_ptr<Sock> sock; uint64_t lastToNode = 0, lastFromNode = 0; uint64_t seq = 0; std::deque<std::string> held; std::deque<std::function<void()>> parkedIn, parkedOut;
};
typedef std::shared_ptr<Conn> ConnPtr;
enum Mode { ACCEPT, REFUSE, BLACKHOLE };
struct Host { Mode mode = ACCEPT; Link link; std::function<void(ConnPtr)> onConnect; bool partitioned = false; uint64_t attempts = 0; std::vector<uint64_t> attemptTimes; };
Host& host(uint32_t ip);             // create or look up a remote host (any port)
bool hasHost(uint32_t ip);
void connect(uint32_t fromIp, uint16_t nodePort, std::function<void(ConnPtr)> onUp, std::function<void()> onRefused = nullptr); // the remote host dials the node
void partition(uint32_t ip, bool on); // while partitioned nothing crosses in either direction; traffic waits
void dns(const std::vector<uint32_t>& ips);
struct Faults { double pReset = 0, pDelay = 0, pShort = 0, pSocket = 0, pAccept = 0; uint64_t delayNs = 3000000000ull; };
extern Faults faults;
bool listening(uint16_t port);
int nodeSockets();                   // established or connecting stream sockets the node holds open
int nodeSocketsFrom(uint32_t ip);
int nodeFds();                       // all simulated descriptors
std::vector<ConnPtr> conns();        // every connection ever made
uint32_t ip4(int a, int b, int c, int d);
std::string ipStr(uint32_t ip);
}
}
