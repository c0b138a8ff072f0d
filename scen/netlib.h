// A real node on the simulated network, and the remote peers it talks to.
#pragma once
#include "chainlib.h"
#include "../sim/net.h"
#include <P2P/P2PServer.h>

struct Wire { // byte-level protocol helpers (independent of the node's message classes)
	static std::string magic;
	static std::string frame(uint8_t type, const std::string& body);
	static void u8(std::string& s, uint8_t v) { s += (char)v; }
	static void u16(std::string& s, uint16_t v) { for (int i = 1; i >= 0; i--) s += (char)(v >> (8 * i)); }
	static void u32(std::string& s, uint32_t v) { for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); }
	static void u64(std::string& s, uint64_t v) { for (int i = 7; i >= 0; i--) s += (char)(v >> (8 * i)); }
	static uint64_t get(const std::string& s, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (uint8_t)s.at(o + i); return v; }
	static void addr(std::string& s, uint32_t ip, uint16_t port) { u8(s, 0); u32(s, ip); u16(s, port); }
	static void str(std::string& s, const std::string& x) { u64(s, x.size()); s += x; }
	static std::string hash(const Hash& h) { return std::string((const char*)h.data(), 32); }
};
enum Msg { M_ERROR, M_HAND, M_SHAKE, M_PING, M_PONG, M_GETPEERS, M_PEERS, M_GETHEADERS, M_HEADER, M_HEADERS, M_GETBLOCK, M_BLOCK, M_GETCOMPACT, M_COMPACT, M_STEM, M_TX, M_TXHSREQ, M_TXHSARC, M_BAN, M_GETTX, M_KERNEL };
const char* msgName(int t);

struct Served { // serialised once, by block id
	const World* w; std::map<std::string, int> byHash; std::map<std::pair<int, int>, std::string> full, comp; std::map<int, std::string> hdr;
	std::map<std::string, TransactionPtr> txs; // by kernel hash
	explicit Served(const World& w);
	int id(const std::string& hash) const { auto i = byHash.find(hash); return i == byHash.end() ? -1 : i->second; }
	const std::string& header(int id); const std::string& block(int id, uint32_t ver); const std::string& compact(int id, uint32_t ver);
	std::string tx(const TransactionPtr& t, uint32_t ver);
	void addTx(const TransactionPtr& t);
};

struct NetPeer {
	int idx; uint32_t ip; Served& sv; sim::Rng r; bool honest = true; std::string kind = "honest";
	uint32_t version = 1000, caps = 6; std::string agent = "sim-peer";
	std::vector<int> chain;            // blocks of its best chain, by height
	uint64_t extraTd = 0, extraHeight = 0; // false claims
	sim::net::ConnPtr c; bool shaken = false, dialer = false; std::string in; uint64_t conns = 0, drops = 0; uint64_t shakenAt = 0, lastRx = 0;
	double pIgnore = 0, pVanish = 0, pDup = 0, pHalf = 0; uint64_t thinkNs = 2000000;
	bool redial = false; uint64_t redialNs = 5000000000ull; bool accepts = true; bool relayBlocks = true; bool muteHandshake = false;
	std::vector<uint32_t> known;       // addresses it gossips
	struct Got { uint64_t t; int type; std::string body; int conn; }; std::vector<Got> got; std::map<int, uint64_t> nGot, nSent;
	std::function<bool(int type, const std::string& body)> hook; // true: message handled
	std::function<void()> onUp, onDown;
	std::map<std::string, TransactionPtr> pool;
	uint64_t heardBlock = 0; std::map<std::string, uint64_t> announced; // block/kernel hashes this peer told the node about, or was told
	NetPeer(int i, uint32_t ip, Served& s);
	void host();                       // accept the node's connections
	void dial();                       // connect to the node
	void attach(sim::net::ConnPtr c, bool dialer);
	void feed(const std::string& d);
	void handle(int type, const std::string& body);
	void tell(int type, const std::string& body, uint64_t delay = 0);
	void raw(const std::string& bytes, uint64_t delay = 0);
	void ping();
	void hangup(bool rst);
	void newTip(const std::vector<int>& chain, bool announce);
	bool connected() const { return c && c->up && !c->closed && !c->nodeClosed && shaken; }
	uint64_t td() const; uint64_t height() const;
	std::string handBody(bool shake); std::string headersAfter(const std::string& locatorBody);
	int pingGen = 0; bool strictFeatures = false; bool isBlock(int id, const std::string& b); // b is the Block message of block id
};
typedef std::shared_ptr<NetPeer> NetPeerPtr;

struct NetNode : Node {
	std::shared_ptr<IP2PServer> p2p;
	void start();      // open chain and network
	void stop();       // orderly shutdown in the daemon's order
};
std::vector<int> chainTo(const World& w, int tip);
extern uint16_t P2PPORT;
