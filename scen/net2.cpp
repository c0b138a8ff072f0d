// A node serving the requests of its peers while its chain changes (N07, N03).
#include "netcrowd.h"
#include <BlockChain/BlockChain.h>
#include <Core/Models/CompactBlock.h>
#include <deque>

namespace {
struct Req { int want; std::string body; int id; uint64_t t; bool must; int candTip, confTip; };
struct Asker {
	NetPeer* p; Crowd* c; Rng r; std::deque<Req> pend; int conn = -1; bool disturbed = false; uint64_t asked = 0, answered = 0; std::vector<Req> doubtful;
	const World& w() { return c->nw.w; }
	uint64_t topTd() { uint64_t m = 0; for (auto& q : c->peers) m = std::max(m, q->td()); return m; }
	bool headersOk(const Req& q, const std::string& b) {
		for (auto& x : w().b) {
			if (x.td < w().b[q.candTip].td || x.td > topTd()) continue;
			auto ch = chainTo(w(), x.id); std::set<int> on(ch.begin(), ch.end()); int n = (uint8_t)q.body[0], at = -1;
			for (int i = 0; i < n && at < 0; i++) { int id = c->sv.id(q.body.substr(1 + 32 * i, 32)); if (id >= 0 && on.count(id)) at = (int)w().b[id].height; }
			std::string o; uint16_t k = 0; if (at >= 0) for (size_t h = at + 1; h < ch.size() && k < 512; h++, k++) o += c->sv.header(ch[h]);
			std::string e; Wire::u16(e, k); if (e + o == b) return true;
		}
		return false;
	}
	bool compactOk(int id, const std::string& b) { // same header, the coinbase outputs and kernels in full, a short id for every other kernel
		ByteBuffer bb(std::vector<uint8_t>(b.begin(), b.end()), ProtocolVersion::ToEnum(p->version)); CompactBlock cb = CompactBlock::Deserialize(bb); auto& f = *w().b[id].full; if (bb.GetRemainingSize() != 0) return false;
		if (cb.GetHash() != f.GetHash()) return false; Serializer s1(EProtocolVersion::V1000), s2(EProtocolVersion::V1000); cb.GetHeader()->Serialize(s1); f.GetHeader()->Serialize(s2); if (s1.GetBytes() != s2.GetBytes()) return false;
		std::multiset<std::string> a, e; for (auto& o : cb.GetOutputs()) a.insert(o.GetHash().ToHex()); for (auto& o : f.GetOutputs()) if (o.IsCoinbase()) e.insert(o.GetHash().ToHex());
		for (auto& o : cb.GetKernels()) a.insert(o.GetHash().ToHex()); for (auto& s : cb.GetShortIds()) a.insert(s.GetHash().ToHex());
		for (auto& o : f.GetKernels()) if (o.IsCoinbase()) e.insert(o.GetHash().ToHex()); else e.insert(ShortId::Create(o.GetHash(), f.GetHash(), cb.GetNonce()).GetHash().ToHex());
		return a == e;
	}
	bool matches(const Req& q, int t, const std::string& b, std::string* why) {
		if (q.want != t) return false;
		switch (t) {
		case M_PONG: { for (auto& x : w().b) if (x.td >= w().b[q.confTip].td && x.td <= topTd() && Wire::get(b, 0, 8) == x.td && Wire::get(b, 8, 8) == x.height) return true; *why = "is for no tip the node can have had"; return false; }
		case M_PEERS: { uint32_t n = Wire::get(b, 0, 4); if (n > 256) { *why = "has too many addresses"; return false; } size_t o = 4; std::set<uint32_t> seen, all; for (auto& q2 : c->peers) all.insert(q2->ip); for (auto d : c->dead) all.insert(d); for (uint32_t i = 0; i < n; i++) { if (b[o] != 0) { *why = "has an address of a kind nobody gave"; return false; } uint32_t a = Wire::get(b, o + 1, 4); if (!all.count(a)) { *why = "has an address nobody gave"; return false; } if (!seen.insert(a).second) { *why = "repeats an address"; return false; } o += 7; } return true; }
		case M_HEADERS: if (headersOk(q, b)) return true; *why = "does not follow the locator on any chain the node can have had"; return false;
		case M_BLOCK: return q.id >= 0 && p->isBlock(q.id, b);
		case M_COMPACT: return q.id >= 0 && compactOk(q.id, b);
		case M_TX: { auto it = c->sv.txs.find(q.body); return it != c->sv.txs.end() && c->sv.tx(it->second, p->version) == b; }
		}
		return false;
	}
	bool reply(int t, const std::string& b) {
		if (t != M_PONG && t != M_PEERS && t != M_HEADERS && t != M_BLOCK && t != M_COMPACT && t != M_TX) return false;
		std::string why; size_t i = 0; bool same = false;
		for (; i < pend.size(); i++) { if (matches(pend[i], t, b, &why)) break; same |= pend[i].want == t; if (pend[i].must) break; }
		if (i == pend.size()) violation("N07|N03", "peer %d receives a %s message (%zu bytes) that answers none of its open requests%s%s", p->idx, msgName(t), b.size(), why.empty() ? "" : ": it ", why.c_str());
		if (!matches(pend[i], t, b, &why)) violation("N07|N03", "peer %d asked for %s%s and receives a %s message (%zu bytes) which is not the answer%s%s", p->idx, msgName(pend[i].want), what(pend[i]).c_str(), msgName(t), b.size(), why.empty() ? "" : ": it ", why.c_str());
		for (size_t j = 0; j < i; j++) if (pend[j].want == M_TX && pend[j].id == 1) doubtful.push_back(pend[j]);
		answered++; count(("reach.answered_" + std::string(msgName(t))).c_str()); pend.erase(pend.begin(), pend.begin() + i + 1); (void)same; return true;
	}
	std::string what(const Req& q) { if (q.want == M_BLOCK || q.want == M_COMPACT) return " " + (q.id >= 0 ? std::to_string(q.id) : std::string("unknown")); return ""; }
	void send(int type, int want, const std::string& body, int id, bool must, int candTip, int confTip) { if (verbose) vnote("peer %d asks %s %d%s", p->idx, msgName(type), id, must ? " (must be answered)" : ""); p->tell(type, body); pend.push_back({ want, body, id, nowNs(), must, candTip, confTip }); asked++; count(("op.ask_" + std::string(msgName(type))).c_str()); }
	std::string someHash(const std::set<int>& confirmed, int* id) {
		int k = r.below(10); if (k == 0) { std::string s; for (int i = 0; i < 32; i++) s += (char)r.next(); *id = -1; return s; }
		if (k < 7 && !confirmed.empty()) { auto it = confirmed.begin(); std::advance(it, r.below(confirmed.size())); *id = *it; } else *id = (int)r.below(w().b.size());
		return Wire::hash(w().b[*id].hash());
	}
	void burst(const std::set<int>& confirmed, int candTip, int confTip, const std::set<std::string>& pooled, int n) {
		for (int i = 0; i < n; i++) {
			int k = r.below(12), id = -1; std::string h;
			if (k < 4) { h = someHash(confirmed, &id); send(M_GETBLOCK, M_BLOCK, h, id, id > 0 && confirmed.count(id), candTip, confTip); }
			else if (k < 6) { h = someHash(confirmed, &id); send(M_GETCOMPACT, M_COMPACT, h, id, id > 0 && confirmed.count(id), candTip, confTip); }
			else if (k < 9) { int m = r.chance(0.1) ? 0 : 1 + (int)r.below(r.chance(0.2) ? 40 : 4); std::string b; Wire::u8(b, m); int from = r.chance(0.6) ? candTip : (int)r.below(w().b.size()); for (int j = 0; j < m; j++) { if (r.chance(0.15)) b += someHash({}, &id); else { b += Wire::hash(w().b[from].hash()); for (int s = 1 << std::min(j, 6); s > 0 && from > 0; s--) from = w().b[from].parent; } } send(M_GETHEADERS, M_HEADERS, b, -1, true, candTip, confTip); }
			else if (k == 9) { if (c->sv.txs.empty()) continue; auto it = c->sv.txs.begin(); std::advance(it, r.below(c->sv.txs.size())); send(M_GETTX, M_TX, it->first, pooled.count(it->first) ? 1 : 0, false, candTip, confTip); }
			else if (k == 10) { std::string b; Wire::u32(b, r.chance(0.5) ? 6 : r.below(64)); send(M_GETPEERS, M_PEERS, b, -1, true, candTip, confTip); }
			else { std::string b; Wire::u64(b, p->td()); Wire::u64(b, p->height()); send(M_PING, M_PONG, b, -1, true, candTip, confTip); }
		}
		std::string b; Wire::u64(b, p->td()); Wire::u64(b, p->height()); send(M_PING, M_PONG, b, -1, true, candTip, confTip);
	}
};
}

static void netRequests() {
	Rng g = rng("cfg"); bool lng = g.chance(0.4); NetWorld nw(g, lng ? 28 : 5, g.chance(0.1) ? 120 : lng ? 60 : 40, 10); World& w = nw.w; defaultProp("N07");
	std::vector<TransactionPtr> txs; { CoinMap left = *w.b[nw.main[nw.tipIdx]].utxo; for (int i = g.below(5); i > 0; i--) { std::vector<Coin> used; auto t = w.randomTx(left, w.b[nw.main[nw.tipIdx]].height + 1, 2, 3, &used, nullptr, false); if (!t) break; for (auto& u : used) left.erase(u.c.ToHex()); txs.push_back(t); } }
	phase([&] {
		auto n = std::make_unique<NetNode>(); n->dir = root() + "/n"; n->cfg["P2P"]["MIN_PEERS"] = g.range(1, 6); bool atTip = g.chance(0.7);
		preload(*n, w, atTip ? nw.main[nw.tipIdx] : nw.start);
		Crowd c(nw, rng("crowd")); c.add("honest"); for (auto& t : txs) c.sv.addTx(t); int nAsk = g.range(1, 4); bool strict = g.chance(0.12); std::vector<std::shared_ptr<Asker>> ask;
		for (int i = 0; i < nAsk; i++) { auto& p = c.add(g.chance(0.5) ? "behind" : "honest"); if (g.chance(0.5)) { p.chain = { 0 }; p.relayBlocks = false; } p.version = g.pick(std::vector<uint32_t>{ 1, 2, 3, 1000 }); p.redial = true; p.redialNs = 2 * SEC; auto a = std::make_shared<Asker>(); a->p = &p; a->c = &c; a->r = rng("asker", i); ask.push_back(a); Asker* q = a.get();
			p.strictFeatures = strict; p.hook = [q](int t, const std::string& b) { if (t == M_KERNEL) return true; return q->p->shaken && q->reply(t, b); };
			p.onUp = [q] { q->p->pingGen++; q->pend.clear(); q->doubtful.clear(); q->conn = q->p->c->id; q->disturbed = false; }; p.onDown = [q] { if (verbose) vnote("peer %d loses its connection with %zu requests open", q->p->idx, q->pend.size()); SIM_CHECK("N07|N03", q->disturbed || net::faults.pReset > 0 || net::faults.pDelay > 0, "peer %d, which only asks, is disconnected by the node with %zu of its requests open", q->p->idx, q->pend.size()); q->pend.clear(); q->conn = -1; }; }
		if (g.chance(0.3)) c.add(pickKind(g, nw));
		c.gossip(); net::dns({ c.peers[0]->ip });
		for (auto& p : c.peers) if (p->redial) { auto q = p.get(); at(nowNs() + 100000000 + g.below(3 * SEC), [q] { if (!q->connected()) q->dial(); }); }
		bool faulty = g.chance(0.3); if (faulty) { net::faults.pReset = g.chance(0.4) ? 0.002 : 0; net::faults.pDelay = g.chance(0.5) ? 0.02 : 0; net::faults.delayNs = g.below(3) * SEC; } if (g.chance(0.5)) net::faults.pShort = 0.2;
		for (auto& p : c.peers) note("peer %d: %s tip %d td %lu version %u", p->idx, p->kind.c_str(), p->chain.back(), p->td(), p->version);
		n->start(); sleepMs(500);
		std::set<int> confirmed; std::set<std::string> pooled; uint64_t end = nowNs() + (40 + g.below(60)) * SEC, nextBlock = nowNs() + (5 + g.below(20)) * SEC, nextTx = nowNs() + (3 + g.below(15)) * SEC; std::vector<uint64_t> nextAsk(ask.size(), 0); size_t txSent = 0; int last = -1;
		while (nowNs() < end) {
			sleepMs(50 + g.below(150)); uint64_t t = nowNs(); c.watch(*n);
			int C = tipOf(*n, w, EChainType::CONFIRMED), H = tipOf(*n, w, EChainType::CANDIDATE); SIM_CHECK("N07", C >= 0 && H >= 0, "unknown tip"); if (C != last) { for (int id : chainTo(w, C)) confirmed.insert(id); last = C; state(mix(C, H)); }
			pooled.clear(); for (auto& x : c.sv.txs) if (n->pool->FindTransactionByKernelHash(w.b.empty() ? Hash() : Hash((const unsigned char*)x.first.data()))) pooled.insert(x.first);
			Kernel k;
			for (auto& a : ask) for (auto& d : a->doubtful) SIM_CHECK("N07", !pooled.count(d.body), "peer %d asked for a transaction of the pool by its kernel and got no answer", a->p->idx);
			for (auto& a : ask) a->doubtful.clear();
			if (t >= nextBlock) { nextBlock = t + (5 + g.below(20)) * SEC; if (c.tip + 1 < (int)nw.main.size()) { c.tip++; count("op.new_block"); auto ch = nw.upTo(c.tip); for (auto& p : c.peers) if (p->kind == "honest" && p->relayBlocks) p->newTip(ch, true); } }
			if (t >= nextTx && txSent < txs.size() && c.peers[0]->connected()) { nextTx = t + (1 + g.below(5)) * SEC; c.peers[0]->tell(M_TX, c.sv.tx(txs[txSent++], c.peers[0]->version)); count("op.public_tx"); }
			for (size_t i = 0; i < ask.size(); i++) { auto& a = *ask[i]; if (a.conn < 0 || !a.p->connected()) continue;
				for (auto& q : a.pend) if (q.must && t > q.t + 60 * SEC && !a.disturbed) violation("N07|N03", "peer %d asked for %s%s %.0f s ago and has no answer", a.p->idx, msgName(q.want), a.what(q).c_str(), (t - q.t) / 1e9);
				if (t >= nextAsk[i] && a.pend.size() < 40) { nextAsk[i] = t + (g.chance(0.3) ? g.below(2) : 4 + g.below(12)) * SEC; int room = 0; for (auto& x : a.p->got) if (x.t + 60 * SEC > t) room++; int m = 1 + g.below(g.chance(0.3) ? 40 : 6); if (room + m + 60 < 480) { if (g.chance(0.1)) { a.p->c->stall(true); auto cc = a.p->c; count("fault.peer_stops_reading"); uint64_t len = 1 + g.below((g.chance(0.7) ? 4 : 20) * SEC); if (len > 5 * SEC) { c.wellBehaved[a.p->idx] = false; a.disturbed = true; } at(t + len, [cc] { cc->stall(false); }); } a.burst(confirmed, H, C, pooled, m); } } }
		}
		uint64_t lim = nowNs() + 90 * SEC; for (bool open = true; open && nowNs() < lim;) { sleepMs(500); Kernel k; open = false; for (auto& a : ask) if (a->conn >= 0 && a->p->connected()) for (auto& q : a->pend) if (q.must && !a->disturbed) { open = true; if (nowNs() > q.t + 60 * SEC) violation("N07|N03", "peer %d asked for %s%s %.0f s ago and has no answer", a->p->idx, msgName(q.want), a->what(q).c_str(), (nowNs() - q.t) / 1e9); } }
		{ Kernel k; uint64_t all = 0; for (auto& a : ask) all += a->answered; count("checks.answers", all); if (all > 5) count("nontrivial"); for (auto& a : ask) a->p->onDown = nullptr; }
		n->stop();
	}, swarmSched(rng("swarm"), true));
}
SCENARIO("net_requests", "N07,N03,N02", netRequests);
