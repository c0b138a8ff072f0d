// A node among well-behaved, slow, failing, lying and hostile peers (N01, N02, N03, N04, N05).
#include "netcrowd.h"

static void netSync() {
	Rng g = rng("cfg"); NetWorld nw(g, 3, g.chance(0.1) ? 150 : 40, 10); World& w = nw.w; defaultProp("N01");
	phase([&] {
		auto n = std::make_unique<NetNode>(); n->dir = root() + "/n";
		n->cfg["P2P"]["MIN_PEERS"] = g.range(1, 10);
		preload(*n, w, nw.start);
		Crowd c(nw, rng("crowd")); c.add("honest"); int extra = g.range(0, 5); for (int i = 0; i < extra; i++) c.add(pickKind(g, nw));
		for (int i = g.below(3); i > 0; i--) { uint32_t ip = net::ip4(9, 9, 9, i); c.dead.push_back(ip); net::host(ip).mode = g.chance(0.5) ? net::REFUSE : net::BLACKHOLE; }
		c.gossip(); std::vector<uint32_t> seeds; for (auto& p : c.peers) if (g.chance(0.6)) seeds.push_back(p->ip); for (auto d : c.dead) seeds.push_back(d); net::dns(seeds);
		for (auto& p : c.peers) if (p->redial) { auto q = p.get(); at(nowNs() + 100000000 + g.below(5 * SEC), [q] { q->dial(); }); }
		// faults for a while
		bool faulty = g.chance(0.6); uint64_t faultEnd = nowNs() + (faulty ? 5 + g.below(40) : 1) * SEC;
		if (faulty) { net::faults.pReset = g.chance(0.5) ? 0.002 * g.below(10) : 0; net::faults.pDelay = g.chance(0.5) ? 0.02 : 0; net::faults.delayNs = g.below(4) * SEC; net::faults.pShort = g.chance(0.5) ? 0.2 : 0; net::faults.pAccept = g.chance(0.3) ? 0.2 : 0; }
		note("%zu peers, main chain %d, node starts at block %d, faults %d", c.peers.size(), nw.tipIdx, nw.start, (int)faulty);
		for (auto& p : c.peers) note("peer %d: %s tip %d td %lu", p->idx, p->kind.c_str(), p->chain.back(), p->td());
		double pSocket = faulty && g.chance(0.2) ? 0.1 : 0;
		n->start(); sleepMs(500); net::faults.pSocket = pSocket; // the listening socket itself is opened once only
		uint64_t nextBlock = nowNs() + (5 + g.below(40)) * SEC, deadline = 0; bool done = false, cleared = false;
		auto announce = [&] { if (c.tip + 1 < (int)nw.main.size()) { c.tip++; count("op.new_block"); note("the honest peers find block %d", nw.main[c.tip]); Kernel k; auto ch = nw.upTo(c.tip); for (auto& p : c.peers) if (p->kind == "honest" || p->kind == "repeater") p->newTip(ch, true); } };
		while (!done) {
			sleepMs(200); c.watch(*n); uint64_t t = nowNs();
			if (!cleared && t >= faultEnd) { net::faults = {}; cleared = true; deadline = t + (90 + 60 * c.peers.size()) * SEC; note("faults stop"); }
			if (t >= nextBlock) { announce(); nextBlock = t + (20 + g.below(40)) * SEC; }
			int tip = tipOf(*n, w, EChainType::CONFIRMED); SIM_CHECK("N01|C05", tip >= 0 && w.ancestorsValid(tip), "the node's chain contains an invalid block"); state(mix(tip, c.tip));
			if (cleared && tip == nw.main[c.tip]) { done = true; break; }
			if (cleared && t > deadline) violation("N01", "%.0f s after faults stopped the node is at block %d (height %lu) while the honest peer, %s, has block %d (height %d)", (t - faultEnd) / 1e9, tip, tip >= 0 ? (unsigned long)w.b[tip].height : 0ul, c.peers[0]->connected() ? "connected" : "not connected", nw.main[c.tip], c.tip);
		}
		count("checks.synced"); count("synced_after_s", (nowNs() - faultEnd) / SEC); if (c.peers.size() > 1 || faulty) count("nontrivial");
		note("synced at %.1f s", nowNs() / 1e9);
		n->stop();
	}, swarmSched(rng("swarm"), true));
}
SCENARIO("net_sync", "N01,N02,N03", netSync);
