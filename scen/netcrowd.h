// A tree of blocks and a crowd of scripted peers of many kinds, shared by the network scenarios.
#pragma once
#include "netlib.h"
#include <algorithm>
using namespace sim;
static const uint64_t SEC = 1000000000ull;

struct NetWorld { // honest chain, lighter valid forks, branches with an invalid block
	World w; std::vector<int> main; std::vector<int> forks, bads; std::map<int, std::string> wrongBody; int start = 0; // start: block the node already has
	NetWorld(Rng& g, int lo, int hi, int future) {
		int n = g.range(lo, hi), tip = 0, maxTx = g.chance(0.3) ? 2 : 0; uint64_t maxDiff = g.chance(0.5) ? 1 : g.range(2, 5);
		for (int i = 0; i < n + future; i++) { tip = w.mineRandom(tip, 1 + g.below(maxDiff), maxTx); }
		main = chainTo(w, tip); uint64_t cap = w.b[main[n]].td;
		for (int k = g.range(0, 2); k > 0; k--) { int at = g.chance(0.3) ? 0 : n - g.below(std::min(n, 12)), t = main[at]; int len = g.range(1, 12); for (int i = 0; i < len && w.b[t].td + 1 + maxDiff < cap; i++) t = w.mineRandom(t, 1 + g.below(maxDiff), maxTx); if (t != main[at]) forks.push_back(t); }
		for (int k = g.range(0, 2); k > 0; k--) { int at = g.range(1, n); std::string why; auto f = w.mutant(main[at], g.below(w.mutantKinds()), &why); if (!f || why == "unsorted" /* sorted again on arrival */ || f->GetTotalDifficulty() >= cap || w.b[0].full->GetHash() == f->GetHash()) continue; bool dup = false; for (auto& x : w.b) dup |= x.hash() == f->GetHash(); if (dup) continue; if (f->GetHeight() != w.b[main[at]].height) continue; int t = w.addRaw(main[at - 1], f, false, why); for (int i = g.below(6); i > 0 && w.b[t].td + 1 + maxDiff < cap; i--) t = w.mineRandom(t, 1 + g.below(maxDiff), 0); bads.push_back(t); }
		for (int k = 0; k < 6; k++) { int id = main[g.range(1, n)]; std::string why; for (int j = 0; j < 6; j++) { auto f = w.mutant(id, g.below(w.mutantKinds()), &why); if (f && f->GetHash() == w.b[id].hash()) { Serializer s(EProtocolVersion::V1000); f->Serialize(s); wrongBody[id] = std::string(s.GetBytes().begin(), s.GetBytes().end()); break; } } }
		double x = g.below(1000) / 1000.0; start = x < 0.4 ? 0 : x < 0.8 ? main[g.below(n)] : forks.empty() ? main[n / 2] : forks[g.below(forks.size())];
		tipIdx = n;
	}
	int tipIdx; // index into main of the tip when the run starts
	std::vector<int> upTo(int k) const { return std::vector<int>(main.begin(), main.begin() + k + 1); }
};
inline bool isBanned(NetNode& n, uint32_t ip) { auto p = n.p2p->GetPeer(IPAddress::CreateV4({ uint8_t(ip >> 24), uint8_t(ip >> 16), uint8_t(ip >> 8), uint8_t(ip) })); return p.has_value() && p.value() && p.value()->IsBanned(); }

struct Crowd {
	NetWorld& nw; Served sv; Rng g; std::vector<NetPeerPtr> peers; std::vector<bool> wellBehaved, guilty; std::vector<uint64_t> guiltyAt, bannedAt; std::vector<uint32_t> dead; int tip;
	Crowd(NetWorld& w, Rng r) : nw(w), sv(w.w), g(r), tip(w.tipIdx) {}
	NetPeer& add(const std::string& kind) {
		int i = (int)peers.size(); auto p = std::make_shared<NetPeer>(i, net::ip4(8, 0, 1 + i / 200, 1 + i % 200), sv); p->kind = kind; p->chain = nw.upTo(tip); bool good = false;
		p->thinkNs = g.chance(0.3) ? g.below(1500) * 1000000 : 2000000; p->redial = g.chance(0.4); auto& h = net::host(p->ip); h.link.latNs = 1000000 * (1 + g.below(g.chance(0.2) ? 400 : 50)); h.link.jitNs = h.link.latNs * g.below(150) / 100; h.link.pSplit = g.chance(0.5) ? 0.3 : g.below(100) / 100.0; h.link.maxSeg = g.chance(0.3) ? 1 + g.below(60) : 1460; h.link.sndBuf = g.chance(0.2) ? 2000 + g.below(4000) : 200000;
		NetPeer* q = p.get(); auto rr = std::make_shared<Rng>(rng("actor", i)); auto me = this;
		if (kind == "honest") { good = true; p->redial = true; p->redialNs = 3 * SEC; }
		else if (kind == "behind") { good = true; p->chain = nw.upTo(g.below(tip + 1)); p->relayBlocks = false; }
		else if (kind == "fork") { good = true; p->chain = chainTo(nw.w, nw.forks[g.below(nw.forks.size())]); p->relayBlocks = false; }
		else if (kind == "repeater") { good = true; p->pDup = 0.5; }
		else if (kind == "flaky") { p->pVanish = 0.15; p->pHalf = 0.1; }
		else if (kind == "silent") p->pIgnore = 1;
		else if (kind == "forgetful") p->pIgnore = 0.4;
		else if (kind == "mute") p->muteHandshake = true;
		else if (kind == "liar") { p->extraTd = 1 + g.below(g.chance(0.5) ? 3 : 100000); p->extraHeight = g.below(g.chance(0.5) ? 8 : 5000); if (g.chance(0.4)) p->pIgnore = 1; else if (g.chance(0.3)) p->chain = nw.upTo(g.below(tip + 1)); }
		else if (kind == "invalid") p->chain = chainTo(nw.w, nw.bads[g.below(nw.bads.size())]);
		else if (kind == "wrongbody") p->hook = [q, rr, me, i](int t, const std::string& b) { if (t != M_GETBLOCK || !rr->chance(0.7)) return false; int id = me->sv.id(b); auto it = me->nw.wrongBody.find(id); if (it == me->nw.wrongBody.end()) return false; q->tell(M_BLOCK, it->second); count("peer.block_with_wrong_body"); return true; };
		else if (kind == "shuffler") p->hook = [q, rr, me](int t, const std::string& b) { if (t != M_GETBLOCK || !q->shaken || !rr->chance(0.4)) return false; int id = q->chain[rr->below(q->chain.size())]; q->tell(M_BLOCK, me->sv.block(id, q->version)); count("peer.useless_block"); return rr->chance(0.5); };
		else if (kind == "garbler") p->hook = [q, rr](int t, const std::string& b) { if (!q->shaken || !rr->chance(0.3)) return false; count("peer.malformed_message"); std::string o; for (int n = rr->below(80); n > 0; n--) o += (char)rr->next(); int k = rr->range(0, 3);
			if (k == 0) q->raw(o); else if (k == 1) q->tell(rr->below(30), o); else if (k == 2) { std::string f = Wire::frame(rr->below(30), ""); for (int j = 3; j < 11; j++) f[j] = (char)(rr->chance(0.5) ? 255 : rr->next()); q->raw(f + o); } else { std::string x = Wire::frame(t == M_GETBLOCK ? M_BLOCK : M_HEADERS, q->sv.block(q->chain[rr->below(q->chain.size())], 1000)); size_t lo = t == M_GETBLOCK ? 11 + q->sv.header(0).size() : 11; /* nobody finds other proofs of work for the same block */ if (x.size() > lo) x[lo + rr->below(x.size() - lo)] ^= 1 + rr->below(255); q->raw(x); } return rr->chance(0.7); };
		p->host(); peers.push_back(p); wellBehaved.push_back(good); guiltyAt.push_back(0); bannedAt.push_back(0);
		return *p;
	}
	void gossip() { std::vector<uint32_t> all; for (auto& p : peers) all.push_back(p->ip); for (auto d : dead) all.push_back(d); for (auto& p : peers) if (g.chance(0.7)) p->known = all; }
	void watch(NetNode& n) { // invariants that hold at every instant
		for (size_t i = 0; i < peers.size(); i++) {
			bool b = isBanned(n, peers[i]->ip);
			if (b && !bannedAt[i]) { bannedAt[i] = nowNs(); note("peer %zu (%s) is banned", i, peers[i]->kind.c_str()); count("reach.peer_banned"); SIM_CHECK("N02", !wellBehaved[i], "peer %zu (%s), which sent only valid messages and answered every request, is banned", i, peers[i]->kind.c_str()); }
			if (b && nowNs() > bannedAt[i] + 15 * SEC) { SIM_CHECK("N02", net::nodeSocketsFrom(peers[i]->ip) == 0 , "peer %zu was banned %.0f s ago and the node still holds a connection with it", i, (nowNs() - bannedAt[i]) / 1e9); auto& a = net::host(peers[i]->ip).attemptTimes; SIM_CHECK("N02", a.empty() || a.back() < bannedAt[i] + 2 * SEC, "the node connects to banned peer %zu", i); }
		}
	}
};
inline std::string pickKind(Rng& g, const NetWorld& nw) {
	static const std::vector<std::string> K{ "honest", "behind", "fork", "repeater", "flaky", "silent", "forgetful", "mute", "liar", "invalid", "wrongbody", "shuffler", "garbler" };
	for (;;) { auto k = g.pick(K); if (k == "fork" && nw.forks.empty()) continue; if (k == "invalid" && nw.bads.empty()) continue; if (k == "wrongbody" && nw.wrongBody.empty()) continue; return k; }
}
inline void preload(NetNode& n, World& w, int start) { if (!start) return; n.init(n.dir); n.open(); for (int id : chainTo(w, start)) if (id) { std::string e; auto s = addBlockSafe(n, *w.b[id].full, &e); SIM_CHECK("N01", s == EBlockChainStatus::SUCCESS, "preparing: block %d refused %s", id, e.c_str()); } n.close(); }
