// Remote parties that send anything at any moment (N04).
#include "netcrowd.h"

namespace {
struct Corpus { // plausible messages of every type, and ways to spoil them
	NetWorld& nw; Served& sv; Rng g; std::vector<TransactionPtr> txs;
	Corpus(NetWorld& w, Served& s, Rng r) : nw(w), sv(s), g(r) { for (int i = 0; i < 4; i++) { auto& b = nw.w.b[nw.main[nw.tipIdx]]; if (auto t = nw.w.randomTx(*b.utxo, b.height + 1, 2, 3)) txs.push_back(t); } }
	int anyBlock() { return g.chance(0.7) ? nw.main[g.below(nw.main.size())] : (int)g.below(nw.w.b.size()); }
	std::string someHash() { std::string h; if (g.chance(0.8)) return Wire::hash(nw.w.b[anyBlock()].hash()); for (int i = 0; i < 32; i++) h += (char)g.next(); return h; }
	std::string body(int t, uint32_t ver) {
		std::string s; switch (t) {
		case M_ERROR: Wire::u32(s, g.below(20)); Wire::str(s, std::string(g.below(200), 'x')); break;
		case M_HAND: case M_SHAKE: Wire::u32(s, g.chance(0.7) ? 1000 : g.next()); Wire::u32(s, g.below(16)); if (t == M_HAND) Wire::u64(s, g.next()); Wire::u64(s, g.below(1000)); if (t == M_HAND) { Wire::addr(s, 0x7f000001, 1); if (g.chance(0.3)) { Wire::u8(s, 1); for (int i = 0; i < 18; i++) Wire::u8(s, g.next()); } else Wire::addr(s, 0x7f000001, 2); } Wire::str(s, std::string(g.below(g.chance(0.1) ? 12000 : 40), 'a')); s += Wire::hash(nw.w.b[0].hash()); break;
		case M_PING: case M_PONG: Wire::u64(s, g.chance(0.7) ? g.below(200) : g.next()); Wire::u64(s, g.chance(0.7) ? g.below(200) : g.next()); break;
		case M_GETPEERS: Wire::u32(s, g.next()); break;
		case M_PEERS: { int n = g.below(g.chance(0.2) ? 300 : 10); Wire::u32(s, n); for (int i = 0; i < n; i++) if (g.chance(0.2)) { Wire::u8(s, 1); for (int k = 0; k < 18; k++) Wire::u8(s, g.next()); } else Wire::addr(s, g.chance(0.1) ? g.next() : net::ip4(9, 1, g.below(4), g.below(250)), P2PPORT); break; }
		case M_GETHEADERS: { int n = g.below(24); Wire::u8(s, n); for (int i = 0; i < n; i++) s += someHash(); break; }
		case M_HEADER: s = sv.header(anyBlock()); break;
		case M_HEADERS: { int n = g.below(40); Wire::u16(s, n); int at = g.below(nw.main.size()); for (int i = 0; i < n; i++) s += sv.header(g.chance(0.95) ? nw.main[std::min<size_t>(at + i, nw.main.size() - 1)] : anyBlock()); break; }
		case M_GETBLOCK: case M_GETCOMPACT: case M_GETTX: case M_KERNEL: s = someHash(); break;
		case M_BLOCK: s = sv.block(anyBlock(), ver); break;
		case M_COMPACT: s = sv.compact(anyBlock(), ver); break;
		case M_STEM: case M_TX: if (!txs.empty()) s = sv.tx(g.pick(txs), ver); break;
		case M_TXHSREQ: s = someHash(); Wire::u64(s, g.below(100)); break;
		case M_TXHSARC: s = someHash(); Wire::u64(s, g.below(100)); Wire::u64(s, g.chance(0.7) ? g.below(3000) : g.next()); break;
		case M_BAN: Wire::u32(s, g.below(14)); break;
		default: for (int i = g.below(60); i > 0; i--) s += (char)g.next(); }
		return s;
	}
	// The code's automated-testing mode skips the proof of work, which in reality keeps anybody from changing a header and from
	// naming two headers by the same nonces, and makes finding other nonces cheap: headers are left alone.
	size_t loose(int t, const std::string& f) { size_t h = sv.header(0).size(); if (t == M_HEADER || t == M_BLOCK || t == M_COMPACT) return std::min(f.size(), 11 + h); if (t == M_HEADERS) return f.size() > 13 ? f.size() : 11; return 11; }
	std::string spoil(std::string f, size_t lo = 11) { // of a frame, from body offset lo on
		int n = 1 + g.below(3); for (int k = 0; k < n; k++) switch (g.below(9)) {
		case 0: if (f.size() > lo) f[lo + g.below(f.size() - lo)] ^= 1 << g.below(8); break;
		case 1: if (f.size() > 11) { f.resize(11 + g.below(f.size() - 11)); fixLen(f); } break; // shorter body, matching length
		case 2: { int m = 1 + g.below(50); for (int i = 0; i < m; i++) f += (char)g.next(); if (g.chance(0.7)) fixLen(f); break; }
		case 3: if (f.size() >= 11) { static const uint64_t L[] = { 0, 1, 10, 0xffff, 100000, 1 << 20, 1 << 24, 0x7fffffff, 0xffffffffull, 1ull << 40, ~0ull }; uint64_t v = L[g.below(11)]; for (int i = 0; i < 8; i++) f[3 + i] = (char)(v >> (56 - 8 * i)); } break;
		case 4: if (f.size() >= 11) f[2] = (char)(g.chance(0.7) ? g.below(32) : g.next()); break; // another type
		case 5: if (f.size() > lo) { size_t o = lo + g.below(f.size() - lo); for (size_t i = o; i < std::min(o + (1u << g.below(4)), f.size()); i++) f[i] = (char)(g.chance(0.7) ? 0xff : 0); } break; // extreme field
		case 6: if (f.size() > lo) { size_t o = lo + g.below(f.size() - lo), m = 1 + g.below(std::min<size_t>(40, f.size() - o)); if (g.chance(0.5)) f.erase(o, m); else f.insert(o, f.substr(o, m)); if (g.chance(0.8)) fixLen(f); } break;
		case 7: if (!f.empty()) f[g.below(std::min<size_t>(11, f.size()))] = (char)g.next(); break;
		case 8: f = f.substr(0, g.below(f.size() + 1)); break; } // cut off
		return f;
	}
	static void fixLen(std::string& f) { if (f.size() < 11) return; uint64_t v = f.size() - 11; for (int i = 0; i < 8; i++) f[3 + i] = (char)(v >> (56 - 8 * i)); }
};

struct Attacker { // one hostile party with a few addresses; everything it does is a chain of events
	Corpus& co; Rng g; int idx; bool* stop; bool full; std::vector<std::shared_ptr<NetPeer>> ids; net::ConnPtr c; int sent = 0;
	Attacker(Corpus& cc, int i, bool* s) : co(cc), g(rng("attacker", i)), idx(i), stop(s) { full = g.chance(0.6); for (int k = 0; k < 4; k++) { auto p = std::make_shared<NetPeer>(100 + i * 8 + k, net::ip4(7, 0, i, k + 1), co.sv); p->honest = false; p->kind = "hostile"; p->chain = { 0 }; p->muteHandshake = true; p->extraTd = g.chance(0.3) ? g.below(500) : 0; p->extraHeight = p->extraTd ? g.below(500) : 0; p->pIgnore = g.chance(0.5) ? 1 : 0; auto& h = net::host(p->ip); h.link.latNs = 1000000 * (1 + g.below(60)); h.link.pSplit = g.chance(0.5) ? 0.5 : 0; h.link.maxSeg = g.chance(0.3) ? 1 + g.below(20) : 1460; ids.push_back(p);
		auto q = p.get(); h.onConnect = [this, q](net::ConnPtr x) { if (*stop) { x->reset(); return; } count("peer.hostile_answers"); this->c = x; sent = 0; x->onData = [](const std::string&) {}; uint64_t d = g.below(3) * g.below(2 * SEC); at(nowNs() + d, [this, x, q] { if (x->closed || x->nodeClosed) return; std::string f = Wire::frame(M_SHAKE, q->handBody(true)); if (g.chance(0.4)) { x->send(f); burst(x, 1 + g.below(12)); } else if (g.chance(0.5)) { x->send(co.spoil(f)); leave(x); } else leave(x); }); }; } }
	void later(uint64_t ns, std::function<void()> f) { at(nowNs() + ns, [this, f] { if (!*stop) f(); }); }
	void leave(net::ConnPtr x) { int k = g.below(5); if (k == 4) { count("peer.left_hanging"); return; } uint64_t d = k == 0 ? 0 : g.below(20 * SEC); at(nowNs() + d, [x, k] { if (x->closed) return; count(k & 1 ? "peer.reset" : "peer.close"); if (k & 1) x->reset(); else x->close(); }); }
	void session() { if (*stop) return; auto q = g.pick(ids).get(); int mode = full ? (g.chance(0.75) ? 4 : g.below(4)) : g.below(4);
		net::connect(q->ip, P2PPORT, [this, q, mode](net::ConnPtr x) { c = x; sent = 0; x->onData = [](const std::string&) {}; x->onClose = [x](bool) { x->close(); }; if (*stop) { x->reset(); return; }
			count("peer.hostile_session"); std::string hand = Wire::frame(M_HAND, q->handBody(false));
			if (mode == 0) leave(x);
			else if (mode == 1) { std::string o; for (int n = g.below(60); n > 0; n--) o += (char)g.next(); x->send(o); count("peer.random_bytes"); leave(x); }
			else if (mode == 2) { size_t cut = g.below(hand.size()); count("peer.cut_handshake"); if (g.chance(0.6)) { x->send(hand.substr(0, cut)); leave(x); } else dribble(x, hand, 0, cut); }
			else if (mode == 3) { x->send(co.spoil(hand)); count("peer.spoiled_handshake"); if (g.chance(0.5)) leave(x); else burst(x, 1 + g.below(3)); }
			else { x->send(hand); count("peer.full_handshake"); if (g.chance(0.15)) { x->stall(true); count("peer.stops_reading"); } burst(x, 1 + g.below(25)); } }, [] {});
		later(g.below(g.chance(0.5) ? SEC : 15 * SEC), [this] { session(); }); }
	void dribble(net::ConnPtr x, std::string s, size_t o, size_t end) { if (x->closed || x->nodeClosed) return; if (o >= end) { leave(x); return; } x->send(s.substr(o, 1)); later(1 + g.below(3 * SEC), [this, x, s, o, end] { dribble(x, s, o + 1, end); }); }
	void burst(net::ConnPtr x, int left) { if (x->closed || x->nodeClosed) return; if (left == 0 || *stop) { leave(x); return; }
		int t = g.chance(0.03) ? g.below(256) : g.below(21); uint32_t ver = 1000; std::string f = Wire::frame(t, co.body(t, ver)); bool bad = g.chance(0.6); if (bad) f = co.spoil(f, co.loose(t, f)); if (g.chance(0.2)) { int t2 = g.below(21); f += Wire::frame(t2, co.body(t2, ver)); }
		count(bad ? "peer.spoiled_message" : "peer.unasked_message"); vnote("attacker %d sends %s%s (%zu bytes)", idx, bad ? "spoiled " : "", t < 21 ? msgName(t) : "?", f.size()); x->send(f);
		later(g.chance(0.6) ? 1000000 : g.below(6 * SEC), [this, x, left] { burst(x, left - 1); }); }
};
}

static void netHostile() {
	Rng g = rng("cfg"); NetWorld nw(g, 3, 30, 8); World& w = nw.w; defaultProp("N04");
	phase([&] {
		auto n = std::make_unique<NetNode>(); n->dir = root() + "/n"; n->cfg["P2P"]["MIN_PEERS"] = g.range(1, 6);
		bool fresh = g.chance(0.3); preload(*n, w, fresh ? nw.start : nw.main[nw.tipIdx]);
		Crowd c(nw, rng("crowd")); c.add("honest"); for (int i = g.below(2); i > 0; i--) c.add("honest");
		Corpus co(nw, c.sv, rng("corpus")); bool stop = false; std::vector<std::unique_ptr<Attacker>> as; int na = g.range(1, 6); for (int i = 0; i < na; i++) as.push_back(std::make_unique<Attacker>(co, i, &stop));
		for (auto& a : as) for (auto& q : a->ids) if (g.chance(0.4)) c.dead.push_back(q->ip); c.gossip(); std::vector<uint32_t> seeds; for (auto& p : c.peers) seeds.push_back(p->ip); for (auto d : c.dead) if (g.chance(0.5)) seeds.push_back(d); net::dns(seeds);
		c.dead.clear(); for (auto& p : c.peers) { auto q = p.get(); at(nowNs() + 100000000 + g.below(3 * SEC), [q] { q->dial(); }); }
		n->start(); sleepMs(500); if (g.chance(0.3)) { net::faults.pDelay = 0.02; net::faults.delayNs = g.below(3) * SEC; net::faults.pShort = 0.2; }
		for (auto& a : as) { auto q = a.get(); at(nowNs() + g.below(10 * SEC), [q] { q->session(); }); }
		uint64_t end = nowNs() + (10 + g.below(g.chance(0.3) ? 110 : 30)) * SEC, nextBlock = nowNs() + g.below(60) * SEC;
		auto announce = [&] { if (c.tip + 1 < (int)nw.main.size()) { c.tip++; count("op.new_block"); note("the honest peers find block %d", nw.main[c.tip]); Kernel k; auto ch = nw.upTo(c.tip); for (auto& p : c.peers) p->newTip(ch, true); } };
		auto check = [&] { c.watch(*n); int tip = tipOf(*n, w, EChainType::CONFIRMED); SIM_CHECK("N04|C05", tip >= 0 && w.ancestorsValid(tip), "the node's chain contains an invalid block"); state(mix(tip, net::nodeSockets())); return tip; };
		while (nowNs() < end) { sleepMs(250); check(); if (nowNs() >= nextBlock && c.tip + 2 < (int)nw.main.size()) { announce(); nextBlock = nowNs() + (10 + g.below(60)) * SEC; } }
		net::faults = {}; stop = true; bool leaveOpen = g.chance(0.6); note("the attackers stop%s", leaveOpen ? ", leaving their connections open" : "");
		{ Kernel k; if (!leaveOpen) for (auto& x : net::conns()) if (!x->closed) for (auto& a : as) for (auto& q : a->ids) if (x->ip == q->ip) x->reset(); }
		// an honest stranger is accepted and served, the chain keeps growing
		auto probe = std::make_shared<NetPeer>(50, net::ip4(6, 6, 6, 6), c.sv); probe->kind = "probe"; probe->chain = nw.upTo(c.tip); probe->redial = true; probe->redialNs = 3 * SEC; probe->relayBlocks = false; net::host(probe->ip).mode = net::ACCEPT; probe->host(); { Kernel k; probe->dial(); }
		uint64_t t0 = nowNs(); SIM_CHECK("N04", waitUntil([&] { return probe->connected(); }, 60 * SEC, 50000000), "%.0f s after the attackers stopped a new honest peer still cannot connect (%zu attempts)", (nowNs() - t0) / 1e9, (size_t)probe->conns);
		int asked = nw.main[g.below(nw.tipIdx + 1)]; int have = check();
		bool onMain = std::find(nw.main.begin(), nw.main.end(), have) != nw.main.end(); if (onMain) { auto cc = chainTo(w, have); asked = cc[g.below(cc.size())]; }
		size_t before = probe->got.size(); auto answered = [&](int type) { for (size_t i = before; i < probe->got.size(); i++) if (probe->got[i].type == type) return true; return false; };
		{ Kernel k; std::string b; Wire::u64(b, probe->td()); Wire::u64(b, probe->height()); probe->tell(M_PING, b); Wire::u32(b, 0); probe->tell(M_GETPEERS, std::string("\0\0\0\6", 4)); if (onMain) probe->tell(M_GETBLOCK, Wire::hash(w.b[asked].hash())); }
		SIM_CHECK("N04", waitUntil([&] { return answered(M_PONG) && answered(M_PEERS) && (!onMain || asked == 0 || answered(M_BLOCK)); }, 60 * SEC, 50000000), "the new honest peer's requests are not answered within 60 s (ping %d, peer addresses %d, block %d)", (int)answered(M_PONG), (int)answered(M_PEERS), (int)answered(M_BLOCK));
		count("checks.probe_served");
		announce(); uint64_t limit = nowNs() + (150 + 60 * (c.peers.size() + 4 * na)) * SEC; for (;;) { int t = check(); if (w.b[t].td >= w.b[nw.main[c.tip]].td) break; sleepMs(250); SIM_CHECK("N04|N01", nowNs() < limit, "the node does not reach the honest peers' block %d any more (it is at height %lu)", nw.main[c.tip], (unsigned long)w.b[std::max(0, tipOf(*n, w, EChainType::CONFIRMED))].height); }
		count("checks.synced"); count("nontrivial"); note("synced at %.1f s", nowNs() / 1e9);
		n->stop();
	}, swarmSched(rng("swarm"), true));
}
SCENARIO("net_hostile", "N04,N02", netHostile);
