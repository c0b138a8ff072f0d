#include "netlib.h"

#include <BlockChain/BlockChain.h>
#include <Core/Serialization/Serializer.h>
#include <Core/Config.h>
using namespace sim;
std::string Wire::magic; uint16_t P2PPORT = 13414;
std::string Wire::frame(uint8_t type, const std::string& body) { std::string s = magic; u8(s, type); u64(s, body.size()); return s + body; }
const char* msgName(int t) { static const char* n[] = { "Error", "Hand", "Shake", "Ping", "Pong", "GetPeerAddrs", "PeerAddrs", "GetHeaders", "Header", "Headers", "GetBlock", "Block", "GetCompactBlock", "CompactBlock", "StemTransaction", "Transaction", "TxHashSetRequest", "TxHashSetArchive", "BanReason", "GetTransaction", "TransactionKernel" }; return t >= 0 && t <= 20 ? n[t] : "Segment"; }
template <typename T> static std::string ser(const T& x, EProtocolVersion v) { Serializer s(v); x.Serialize(s); return std::string(s.GetBytes().begin(), s.GetBytes().end()); }
Served::Served(const World& ww) : w(&ww) { for (auto& x : ww.b) byHash[Wire::hash(x.hash())] = x.id; }
const std::string& Served::header(int id) { auto& s = hdr[id]; if (s.empty()) s = ser(*w->b[id].header(), EProtocolVersion::V1000); return s; }
const std::string& Served::block(int id, uint32_t v) { auto& s = full[{ id, (int)v }]; if (s.empty()) s = ser(*w->b[id].full, ProtocolVersion::ToEnum(v)); return s; }
const std::string& Served::compact(int id, uint32_t v) { auto& s = comp[{ id, (int)v }]; if (s.empty()) s = ser(Node().compact(*w->b[id].full), ProtocolVersion::ToEnum(v)); return s; }
std::string Served::tx(const TransactionPtr& t, uint32_t v) { return ser(*t, ProtocolVersion::ToEnum(v)); }
void Served::addTx(const TransactionPtr& t) { for (auto& k : t->GetKernels()) txs[Wire::hash(k.GetHash())] = t; }
std::vector<int> chainTo(const World& w, int tip) { std::vector<int> v; for (int i = tip; i >= 0; i = w.b[i].parent) v.push_back(i); std::reverse(v.begin(), v.end()); return v; }

NetPeer::NetPeer(int i, uint32_t a, Served& s) : idx(i), ip(a), sv(s), r(sim::rng("peer", i)) { chain = { 0 }; }
uint64_t NetPeer::td() const { return sv.w->b[chain.back()].td + extraTd; }
uint64_t NetPeer::height() const { return sv.w->b[chain.back()].height + extraHeight; }
void NetPeer::host() { net::host(ip).onConnect = [this](net::ConnPtr x) { if (!accepts) { x->reset(); return; } attach(x, false); }; }
void NetPeer::dial() { net::connect(ip, P2PPORT, [this](net::ConnPtr x) { attach(x, true); if (c == x) tell(M_HAND, handBody(false)); }, [this] { if (redial) at(nowNs() + redialNs, [this] { if (redial && !(c && !c->closed && !c->nodeClosed)) dial(); }); }); }
void NetPeer::attach(net::ConnPtr x, bool d) {
	if (c && !c->closed && !c->nodeClosed) { if (d) { x->close(); return; } c->close(); }
	c = x; dialer = d; shaken = false; in.clear(); conns++; int gen = ++pingGen; (void)gen;
	if (!muteHandshake) at(nowNs() + 10000000000ull, [this, x] { if (c == x && !shaken && !x->closed && !x->nodeClosed) hangup(false); });
	x->onData = [this, x](const std::string& dd) { if (c == x) feed(dd); };
	x->onClose = [this, x](bool rst) { if (c != x) return; if (verbose) vnote("peer %d: connection %d %s by the node", idx, x->id, rst ? "reset" : "closed"); x->close(); drops++; shaken = false; pingGen++; if (onDown) onDown(); if (redial) at(nowNs() + redialNs, [this] { if (redial && !(c && !c->closed && !c->nodeClosed)) dial(); }); };
}
void NetPeer::hangup(bool rst) { if (!c || c->closed) return; if (rst) c->reset(); else c->close(); shaken = false; pingGen++; if (onDown) onDown(); if (redial) at(nowNs() + redialNs, [this] { if (redial && !(c && !c->closed && !c->nodeClosed)) dial(); }); }
void NetPeer::raw(const std::string& b, uint64_t delay) { if (c) c->send(b, delay); }
void NetPeer::tell(int type, const std::string& body, uint64_t delay) {
	if (!c || c->closed) return; nSent[type]++; if (verbose && type != M_PING && type != M_PONG) vnote("peer %d sends %s (%zu bytes)", idx, msgName(type), body.size());
	std::string f = Wire::frame(type, body);
	if (pHalf > 0 && r.chance(pHalf)) { count("peer.vanish_mid_message"); c->send(f.substr(0, r.below(f.size())), delay); hangup(r.chance(0.5)); return; }
	c->send(f, delay); if (pDup > 0 && shaken && r.chance(pDup)) { count("peer.duplicate"); c->send(f, delay); }
}
std::string NetPeer::handBody(bool shake) {
	std::string s; Wire::u32(s, version); Wire::u32(s, caps); if (!shake) Wire::u64(s, 1000 + idx); Wire::u64(s, td());
	if (!shake) { Wire::addr(s, ip, P2PPORT); Wire::addr(s, net::ip4(10, 0, 0, 1), P2PPORT); }
	Wire::str(s, agent); s += Wire::hash(sv.w->b[0].hash()); return s;
}
void NetPeer::ping() {
	int gen = pingGen; if (!shaken || !c || c->closed) return;
	std::string b; Wire::u64(b, td()); Wire::u64(b, height()); tell(M_PING, b);
	at(nowNs() + 10000000000ull, [this, gen] { if (gen == pingGen) ping(); });
}
void NetPeer::feed(const std::string& d) {
	in += d; lastRx = nowNs();
	while (in.size() >= 11) {
		if (in.compare(0, 2, Wire::magic) != 0) violation("N03", "peer %d receives bytes that are not a message header: %02x %02x (after %lu whole messages)", idx, (uint8_t)in[0], (uint8_t)in[1], (unsigned long)got.size());
		int type = (uint8_t)in[2]; uint64_t len = Wire::get(in, 3, 8);
		if (type > 28 || len > 20000000) violation("N03", "peer %d receives a damaged message header (type %d, length %lu)", idx, type, len);
		if (in.size() < 11 + len) return;
		std::string body = in.substr(11, len); in.erase(0, 11 + len); auto x = c;
		handle(type, body);
		if (c != x) return;
	}
}
// which known block a Block message is, or -1. Before version 3 inputs carry their features.
static int blockIn(NetPeer& p, const std::string& b, bool* flags) {
	*flags = false; for (auto& x : p.sv.w->b) { auto& f = p.sv.block(x.id, p.version); if (f.size() == b.size() && f == b) return x.id; }
	if (p.version >= 3) return -1;
	for (auto& x : p.sv.w->b) {
		auto& f = p.sv.block(x.id, p.version); if (f.size() != b.size()) continue;
		std::string a = f, c = b; // blank out the feature byte of every input
		for (auto& in : x.full->GetInputs()) { std::string k((const char*)in.GetCommitment().data(), 33); size_t i = a.find(k), j = c.find(k); if (i != j || i == std::string::npos || i == 0) break; if (a[i - 1] != 1) continue; a[i - 1] = c[i - 1] = 0; }
		if (a == c) { *flags = true; return x.id; }
	}
	return -1;
}
static bool sameBlock(NetPeer& p, const std::string& b) {
	bool flags; int id = blockIn(p, b, &flags); if (id >= 0 && flags) { count("reach.block_with_plain_coinbase_input"); if (p.strictFeatures) violation("N07", "peer %d, of protocol version %u, receives block %d with an input that spends a coinbase marked as spending a plain output", p.idx, p.version, id); }
	return id >= 0;
}
bool NetPeer::isBlock(int id, const std::string& b) { bool f; return blockIn(*this, b, &f) == id; }
static void wellFormed(NetPeer& p, int t, const std::string& b) { // does the body have the shape of its type
	size_t want = SIZE_MAX, n = b.size();
	switch (t) {
	case M_PING: case M_PONG: want = 16; break;
	case M_GETPEERS: want = 4; break;
	case M_PEERS: want = n < 4 ? 4 : SIZE_MAX; if (n >= 4) { uint32_t k = Wire::get(b, 0, 4); size_t o = 4; for (uint32_t i = 0; i < k && o < n; i++) o += b[o] == 0 ? 7 : 19; want = o; } break;
	case M_GETHEADERS: want = n < 1 ? 1 : 1 + 32 * (uint8_t)b[0]; break;
	case M_GETBLOCK: case M_GETCOMPACT: case M_GETTX: case M_KERNEL: want = 32; break;
	case M_TXHSREQ: want = 40; break;
	default: break;
	}
	if (want != SIZE_MAX && want != n) violation("N03", "peer %d receives a %s message of %zu bytes, expected %zu", p.idx, msgName(t), n, want);
	if (t == M_HEADER && p.sv.byHash.size()) { bool ok = false; for (auto& x : p.sv.w->b) if (p.sv.header(x.id) == b) { ok = true; break; } if (!ok) violation("N03|N08", "peer %d receives a Header message that is no header of any known block (%zu bytes)", p.idx, n); }
	if (t == M_BLOCK && !sameBlock(p, b)) violation("N03|N07", "peer %d receives a Block message that is no known block (%zu bytes)", p.idx, n);
}
std::string NetPeer::headersAfter(const std::string& b) {
	int n = (uint8_t)b[0], at = 0; std::set<int> mine(chain.begin(), chain.end());
	for (int i = 0; i < n; i++) { int id = sv.id(b.substr(1 + 32 * i, 32)); if (id >= 0 && mine.count(id)) { at = (int)sv.w->b[id].height; break; } }
	std::string s; uint16_t k = 0; for (size_t h = at + 1; h < chain.size() && k < 512; h++, k++) s += sv.header(chain[h]);
	std::string o; Wire::u16(o, k); return o + s;
}
void NetPeer::handle(int t, const std::string& b) {
	nGot[t]++; if (got.size() < 100000) got.push_back({ nowNs(), t, b, c->id });
	if (verbose && t != M_PING && t != M_PONG) vnote("peer %d gets %s (%zu bytes)", idx, msgName(t), b.size());
	wellFormed(*this, t, b);
	if (hook && hook(t, b)) return;
	if (muteHandshake) return;
	uint64_t th = thinkNs ? r.below(thinkNs * 2) : 0;
	if (t == M_HAND || t == M_SHAKE) {
		if (t == M_HAND) tell(M_SHAKE, handBody(true), th);
		version = std::min<uint32_t>(version, Wire::get(b, 0, 4)); shaken = true; shakenAt = nowNs(); int gen = ++pingGen; at(nowNs() + th + r.below(9000000000ull), [this, gen] { if (gen == pingGen) ping(); }); if (onUp) onUp(); return;
	}
	if (!shaken) return;
	if (t != M_PING && t != M_PONG && pIgnore > 0 && r.chance(pIgnore)) { count("peer.ignored_request"); return; }
	if (pVanish > 0 && t != M_PONG && r.chance(pVanish)) { count("peer.vanish"); hangup(r.chance(0.5)); return; }
	switch (t) {
	case M_PING: { std::string o; Wire::u64(o, td()); Wire::u64(o, height()); tell(M_PONG, o, th); break; }
	case M_GETPEERS: { std::string o; Wire::u32(o, known.size()); for (auto a : known) Wire::addr(o, a, P2PPORT); tell(M_PEERS, o, th); break; }
	case M_GETHEADERS: tell(M_HEADERS, headersAfter(b), th); break;
	case M_GETBLOCK: case M_GETCOMPACT: { int id = sv.id(b); bool have = id >= 0 && sv.w->b[id].height < chain.size() && chain[sv.w->b[id].height] == id; if (have) tell(t == M_GETBLOCK ? M_BLOCK : M_COMPACT, t == M_GETBLOCK ? sv.block(id, version) : sv.compact(id, version), th); break; }
	case M_GETTX: { auto it = pool.find(b); if (it != pool.end()) tell(M_TX, sv.tx(it->second, version), th); break; }
	case M_KERNEL: announced[b] = nowNs(); if (!pool.count(b)) tell(M_GETTX, b, th); break;
	default: break;
	}
}
void NetPeer::newTip(const std::vector<int>& ch, bool ann) { chain = ch; if (ann && connected() && relayBlocks) { announced[Wire::hash(sv.w->b[chain.back()].hash())] = nowNs(); tell(M_HEADER, sv.header(chain.back())); } }

void NetNode::start() {
	init(dir, true); { Kernel k; Wire::magic = std::string(Global::GetMagicBytes().begin(), Global::GetMagicBytes().end()); P2PPORT = ctx->GetConfig().GetP2PPort(); }
	open();
	p2p = P2PAPI::StartP2PServer(ctx, chain, txhs, db, pool);
}
void NetNode::stop() { Global::Shutdown(); p2p.reset(); chain.reset(); hmmr.reset(); pool.reset(); txhs.reset(); db.reset(); Global::SetCoinView(nullptr); ctx.reset(); }
