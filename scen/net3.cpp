// Spreading of blocks and public transactions (N08) and of stem transactions (P03), among honest and cheating peers (N02).
#include "netcrowd.h"
#include <BlockChain/BlockChain.h>

namespace {
struct Tx { TransactionPtr tx; bool valid = true; std::vector<std::string> kern, excess; bool stem = false; int from = -1; uint64_t pushedAt = 0, pooledAt = 0, publicAt = 0, minedAt = 0, stemmedAt = 0, chosenAt = 0; std::map<int, uint64_t> told; int stems = 0; bool spied = false, offered = false, ambiguous = false; };
struct Seen { uint64_t up = 0, down = 0; std::set<std::string> knows; std::map<std::string, int> headers; };
}

static void netRelay() {
	Rng g = rng("cfg"); bool dand = wantProp == "P03" || (wantProp != "N08" && g.chance(0.5)); defaultProp(dand ? "P03" : "N08");
	World w; int n0 = g.range(26, 38), tip = 0; uint64_t maxDiff = g.chance(0.5) ? 1 : 4; for (int i = 0; i < n0; i++) tip = w.mineRandom(tip, 1 + g.below(maxDiff), g.chance(0.2) ? 1 : 0);
	std::vector<Tx> txs; CoinMap left = *w.b[tip].utxo; uint64_t next = w.b[tip].height + 1; bool manyKernels = g.chance(0.04);
	for (int i = 0, m = g.range(2, 8); i < m; i++) {
		std::vector<Coin> used; auto t = w.randomTx(left, next, 2, 3, &used, nullptr, false); if (!t) break; for (auto& u : used) left.erase(u.c.ToHex());
		Tx x; x.tx = t; uint64_t sum = 0; for (auto& c : used) sum += c.amount;
		if (g.chance(0.15)) { x.valid = false; TransactionOutput dummy(EOutputFeatures::DEFAULT, Commitment(), RangeProof(std::vector<uint8_t>())); x.tx = g.chance(0.5) ? w.makeTx(used, { sum + 5000000000ull, 1 }, txFee(used.size(), 2, 1)) : w.makeTx({ w.newCoin(sum, false, &dummy) }, { sum - txFee(1, 1, 1) }, txFee(1, 1, 1)); }
		else if (manyKernels && sum > txFee(used.size(), 1, 560) + 1000) { manyKernels = false; x.tx = w.makeTx(used, { sum - txFee(used.size(), 1, 560) }, txFee(used.size(), 1, 560), nullptr, 0, 560); }
		x.stem = dand ? g.chance(0.8) : g.chance(0.1); for (auto& k : x.tx->GetKernels()) { x.kern.push_back(Wire::hash(k.GetHash())); x.excess.push_back(std::string((const char*)k.GetCommitment().data(), 33)); } txs.push_back(x);
	}
	std::vector<int> fut; { int t = tip; std::vector<TransactionPtr> rest; for (auto& x : txs) if (x.valid && x.kern.size() < 10) rest.push_back(x.tx); for (int k = g.range(1, 5); k > 0; k--) { std::vector<TransactionPtr> in; for (size_t i = 0; i < rest.size();) if (g.chance(0.25)) { in.push_back(rest[i]); rest.erase(rest.begin() + i); } else i++; t = w.mine(t, in, 1 + g.below(maxDiff)); fut.push_back(t); } }
	std::map<std::string, int> byKern; for (size_t i = 0; i < txs.size(); i++) for (auto& k : txs[i].kern) byKern[k] = i;
	int badBlock = -1; { std::string why; for (int k = 0; k < 8 && badBlock < 0; k++) { auto f = w.mutant(fut[0], g.below(w.mutantKinds()), &why); if (f && why != "unsorted" && f->GetHash() != w.b[fut[0]].hash() && f->GetHeight() == w.b[fut[0]].height && f->GetTotalDifficulty() >= w.b[fut[0]].td) badBlock = w.addRaw(tip, f, false, why); } }
	uint64_t embargo = g.pick(std::vector<uint64_t>{ 20, 40, 60, 180 }), patience = g.range(1, 10);
	phase([&] {
		auto n = std::make_unique<NetNode>(); n->dir = root() + "/n"; n->cfg["P2P"]["MIN_PEERS"] = g.range(1, 8); n->cfg["DANDELION"]["EMBARGO_SECS"] = (int)embargo; n->cfg["DANDELION"]["PATIENCE_SECS"] = (int)patience; n->cfg["DANDELION"]["RELAY_SECS"] = g.range(10, 600); if (g.chance(0.5)) n->cfg["DANDELION"]["STEM_PROBABILITY"] = g.range(0, 100);
		preload(*n, w, tip);
		Served sv(w); for (auto& x : txs) if (x.valid) sv.addTx(x.tx);
		std::vector<NetPeerPtr> ps; std::vector<Seen> seen; std::vector<bool> cheat; int np = g.range(2, 6); bool resets = g.chance(0.2); auto ch0 = chainTo(w, tip); int cur = -1; // index into fut of the newest block handed out
		for (int i = 0; i < np; i++) { auto p = std::make_shared<NetPeer>(i, net::ip4(8, 0, 1, 1 + i), sv); p->chain = ch0; p->redial = true; p->redialNs = 3 * SEC; p->thinkNs = g.chance(0.2) ? g.below(1000) * 1000000 : 2000000; p->version = g.chance(0.7) ? 1000 : g.range(1, 3); auto& h = net::host(p->ip); h.link.latNs = 1000000 * (1 + g.below(g.chance(0.2) ? 400 : 50)); h.link.jitNs = h.link.latNs * g.below(150) / 100; h.link.pSplit = g.chance(0.5) ? 0.3 : 0; h.link.maxSeg = g.chance(0.2) ? 1 + g.below(60) : 1460; h.link.sndBuf = g.chance(0.2) ? 2000 + g.below(4000) : 200000; if (g.chance(0.2)) p->chain = { 0 }, p->relayBlocks = false; p->host(); ps.push_back(p); cheat.push_back(false); }
		seen.resize(np); auto syncReq = std::make_shared<uint64_t>(0); auto bannedAt = std::make_shared<std::vector<uint64_t>>(np, 0);
		auto carries = [&](const std::string& body) { std::vector<int> v; for (size_t i = 0; i < txs.size(); i++) { bool any = false; for (auto& e : txs[i].excess) { any = body.find(e) != std::string::npos; if (any || txs[i].excess.size() > 20) break; } if (any) v.push_back(i); } return v; };
		auto told = [&](int p, int i, const char* how) {
			Tx& x = txs[i]; uint64_t t = nowNs(); SIM_CHECK("N08|P03", x.valid, "peer %d is sent an invalid transaction (%s)", p, how);
			if (x.stem && !x.publicAt && !x.minedAt && !x.chosenAt && !x.ambiguous) {
				if (x.stems && t < x.pushedAt + embargo * SEC) violation("P03", "transaction %d was relayed along the stem %.1f s ago and is diffused (%s) %.1f s before its embargo of %lu s", i, (t - x.stemmedAt) / 1e9, how, (x.pushedAt + embargo * SEC - t) / 1e9, embargo);
				if (!x.stems) x.chosenAt = t;
			}
			if (!x.publicAt) x.publicAt = t;
			x.told[p] = t;
		};
		for (int i = 0; i < np; i++) { auto q = ps[i].get();
			q->onUp = [&, i] { seen[i].up = nowNs(); seen[i].down = 0; seen[i].knows.clear(); seen[i].headers.clear(); for (auto& x : txs) x.told.erase(i); };
			q->onDown = [&, i] { seen[i].up = 0; seen[i].down = nowNs(); };
			q->hook = [&, i, q](int t, const std::string& b) {
				if (!q->shaken) return false; if (t == M_GETHEADERS) *syncReq = nowNs();
				if (t == M_HEADER) { int id = -1; for (auto& x : w.b) if (sv.header(x.id) == b) id = x.id; SIM_CHECK("N08", id >= 0 && w.ancestorsValid(id), "peer %d is told of an invalid block", i); int m = ++seen[i].headers[Wire::hash(w.b[id].hash())]; SIM_CHECK("N08", m == 1, "peer %d is told of block %d twice", i, id); count("reach.header_relayed"); vnote("peer %d is told of block %d", i, id); return true; }
				if (t == M_KERNEL) { auto it = byKern.find(b); SIM_CHECK("N08", it != byKern.end(), "peer %d is told of a kernel of no transaction", i); Tx& x = txs[it->second]; SIM_CHECK("N08", !seen[i].knows.count("k" + b), "peer %d is told of the same kernel of transaction %d twice", i, it->second); seen[i].knows.insert("k" + b); told(i, it->second, "its kernel announced"); (void)x; count("reach.kernel_relayed"); if (q->r.chance(0.6)) q->tell(M_GETTX, b, 1 + q->r.below(1000000000)); return true; }
				if (t == M_TX) { auto v = carries(b); SIM_CHECK("N08|P03", !v.empty(), "peer %d receives a transaction nobody made", i); for (int k : v) { told(i, k, "sent in full"); q->pool[txs[k].kern[0]] = txs[k].tx; } if (verbose) for (int k : v) vnote("peer %d gets transaction %d", i, k); if (v.size() > 1) count("reach.aggregate_fluffed"); count("reach.tx_relayed"); return true; }
				if (t == M_STEM) { auto v = carries(b); SIM_CHECK("P03", !v.empty(), "peer %d receives a stem transaction nobody made", i); for (int k : v) { SIM_CHECK("P03", txs[k].valid, "peer %d is stemmed an invalid transaction", i); if (!txs[k].stems++) txs[k].stemmedAt = nowNs(); else if (!txs[k].ambiguous) violation("P03", "transaction %d is relayed along the stem twice", k); } if (verbose) for (int k : v) vnote("peer %d is stemmed transaction %d", i, k); if (v.size() > 1) count("reach.aggregate_stemmed"); count("reach.stem_relayed"); return true; }
				return false;
			};
			if (g.chance(0.6)) at(nowNs() + 100000000 + g.below(3 * SEC), [q] { if (!q->connected()) q->dial(); });
		}
		std::vector<uint32_t> seeds; for (auto& p : ps) seeds.push_back(p->ip); net::dns(seeds); for (auto& p : ps) p->known = seeds; bool shorts = g.chance(0.5);
		n->start(); sleepMs(500); if (resets) net::faults.pReset = 0.001; if (shorts) net::faults.pShort = 0.2;
		uint64_t start = nowNs(); while (nowNs() < start + 30 * SEC) { sleepMs(200); Kernel k; int up = 0; for (auto& p : ps) up += p->connected(); if (up == np) break; }
		sleepMs(2000 + g.below(12000));
		auto status = [&] { return n->p2p->GetSyncStatus()->GetStatus(); };
		// what happens, in order
		struct Ev { uint64_t t; int what, arg; }; std::vector<Ev> evs; uint64_t span = (20 + g.below(30)) * SEC, T0 = nowNs();
		for (size_t i = 0; i < txs.size(); i++) evs.push_back({ T0 + g.below(span), 0, (int)i });
		{ uint64_t t = T0; bool bunch = g.chance(0.3); for (size_t k = 0; k < fut.size(); k++) { t += bunch && k ? g.below(2) * SEC / 2 : g.below((dand ? 3 : 1) * span / fut.size()); evs.push_back({ t, 1, (int)k }); } }
		if (badBlock >= 0 && g.chance(0.3)) evs.push_back({ T0 + g.below(span), 2, 0 });
		for (int k = g.below(3); k > 0; k--) evs.push_back({ T0 + g.below(2 * span), 3, (int)g.below(txs.size()) });
		for (int k = g.below(3); k > 0; k--) evs.push_back({ T0 + g.below(2 * span), 4, (int)g.below(np) });
		std::stable_sort(evs.begin(), evs.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; }); size_t e = 0;
		std::map<int, uint64_t> adopted; int lastTip = tip; uint64_t notSyncingSince = 0; uint64_t drainFrom = 0; std::set<std::pair<int, int>> done;
		for (;;) {
			sleepMs(100 + g.below(200)); uint64_t t = nowNs(); bool quiet = status() == ESyncStatus::NOT_SYNCING; if (!quiet) notSyncingSince = 0; else if (!notSyncingSince) notSyncingSince = t;
			int C = tipOf(*n, w, EChainType::CONFIRMED); SIM_CHECK("N08|C05", C >= 0 && w.ancestorsValid(C), "the node is on an invalid block");
			for (int i = 0; i < np; i++) if (isBanned(*n, ps[i]->ip) && !(*bannedAt)[i]) { (*bannedAt)[i] = t; count("reach.peer_banned"); SIM_CHECK("N02", cheat[i], "peer %d, which only sent valid messages, is banned", i); }
			std::vector<char> inPool(txs.size()); for (size_t i = 0; i < txs.size(); i++) inPool[i] = txs[i].valid && !n->pool->FindTransactionsByKernel({ txs[i].tx->GetKernels()[0] }).empty();
			Kernel kk; state(mix(C, evs.size() - e)); if (C != lastTip) note("the node is now on block %d", C);
			if (C != lastTip) { for (int id : chainTo(w, C)) if (w.b[id].height > w.b[lastTip].height) { if (!adopted.count(id) && quiet && notSyncingSince && t > notSyncingSince + SEC && t > *syncReq + 25 * SEC) adopted[id] = t;  for (auto& k : w.b[id].full->GetKernels()) { auto it = byKern.find(Wire::hash(k.GetHash())); if (it != byKern.end() && !txs[it->second].minedAt) txs[it->second].minedAt = t; } } if (!w.isAncestor(lastTip, C)) adopted.clear(); lastTip = C; for (auto it = adopted.begin(); it != adopted.end();) it = it->first != C && it->second == t ? adopted.erase(it) : std::next(it); }
			for (size_t i = 0; i < txs.size(); i++) if (inPool[i] && !txs[i].pooledAt) { txs[i].pooledAt = t; count("reach.pooled"); }
			for (; e < evs.size() && evs[e].t <= t; e++) { auto& v = evs[e]; std::vector<int> up; for (int i = 0; i < np; i++) if (ps[i]->connected() && !(*bannedAt)[i] && !cheat[i]) up.push_back(i); if (up.empty()) continue;
				if (v.what == 0) { Tx& x = txs[v.arg]; int from = up[g.below(up.size())]; auto& p = *ps[from]; x.from = from; x.pushedAt = t; if (!x.valid) { if (up.size() < 3) continue; cheat[from] = true; } std::string body = sv.tx(x.tx, p.version); count(x.stem ? "op.stem_tx" : "op.public_tx"); if (!x.valid) count("op.invalid_tx"); note("peer %d pushes %s%s transaction %d (%zu kernels)", from, x.valid ? "" : "invalid ", x.stem ? "stem" : "public", v.arg, x.kern.size());
					if (!quiet) x.ambiguous = true; x.offered = true;
					if (x.stem) { p.tell(M_STEM, body); if (g.chance(0.1)) { x.ambiguous = true; p.tell(M_STEM, body, g.below(20 * SEC)); } } else if (g.chance(0.5) || !x.valid || x.kern.size() > 20) p.tell(M_TX, body); else { p.pool[x.kern[0]] = x.tx; p.tell(M_KERNEL, x.kern[0]); }
					for (auto& k : x.kern) seen[from].knows.insert(k); }
				else if (v.what == 1) { int k = v.arg; cur = k; auto ch = chainTo(w, fut[k]); bool first = true; count("op.new_block"); note("block %d is found", fut[k]);
					for (int i : up) if (ps[i]->relayBlocks && (first || g.chance(0.3))) { auto& p = *ps[i]; first = false; p.chain = ch; for (int j = 0; j <= k; j++) seen[i].knows.insert(Wire::hash(w.b[fut[j]].hash())); int how = g.below(3); if (how == 0) p.tell(M_HEADER, sv.header(fut[k])); else if (how == 1) p.tell(M_COMPACT, sv.compact(fut[k], p.version)); else p.tell(M_BLOCK, sv.block(fut[k], p.version)); } else if (ps[i]->relayBlocks) ps[i]->chain = ch; }
				else if (v.what == 2) { if (up.size() < 3) continue; int from = up[g.below(up.size())]; cheat[from] = true; count("op.invalid_block"); note("peer %d pushes invalid block %d (%s)", from, badBlock, w.b[badBlock].why.c_str()); if (g.chance(0.5)) ps[from]->tell(M_COMPACT, sv.compact(badBlock, ps[from]->version)); else ps[from]->tell(M_BLOCK, sv.block(badBlock, ps[from]->version)); }
				else if (v.what == 3) { Tx& x = txs[v.arg]; if (!x.valid || !x.offered) continue; int from = up[g.below(up.size())]; x.spied = true; count("op.ask_for_tx"); if (g.chance(0.5) && x.publicAt) { ps[from]->pool[x.kern[0]] = x.tx; seen[from].knows.insert(x.kern[0]); ps[from]->tell(M_KERNEL, x.kern[0]); } else ps[from]->tell(M_GETTX, x.kern[0]); }
				else if (v.what == 4) { count("op.peer_leaves"); note("peer %d leaves", v.arg); ps[v.arg]->hangup(g.chance(0.5)); } }
			// obligations
			for (auto& a : adopted) for (int i = 0; i < np; i++) { std::string h = Wire::hash(w.b[a.first].hash()); if (done.count({ a.first, i })) continue; if (!ps[i]->connected() || (*bannedAt)[i] || !seen[i].up || seen[i].up + 3 * SEC > a.second || seen[i].knows.count(h)) continue; if (seen[i].headers.count(h)) { done.insert({ a.first, i }); count("checks.block_spread"); continue; } if (t > a.second + 20 * SEC) violation("N08", "block %d became the best block of the node %.0f s ago and peer %d, connected and without it, has not been told", a.first, (t - a.second) / 1e9, i); }
			for (size_t k = 0; k < txs.size(); k++) { Tx& x = txs[k]; if (!x.valid) { continue; }
				if (x.pooledAt) for (int i = 0; i < np; i++) { if (done.count({ -1 - (int)k, i })) continue; if (!ps[i]->connected() || (*bannedAt)[i] || !seen[i].up || seen[i].up + 3 * SEC > x.pooledAt || i == x.from) continue; bool knew = seen[i].knows.count(x.kern[0]); if (x.told.count(i)) { done.insert({ -1 - (int)k, i }); count("checks.tx_spread"); continue; } if (!knew && t > x.pooledAt + 20 * SEC) violation("N08|P03", "transaction %zu entered the public pool %.0f s ago and peer %d, connected and without it, has not been told", k, (t - x.pooledAt) / 1e9, i); }
				if (x.stem && x.offered && !x.ambiguous && x.from >= 0 && !x.minedAt && !x.pooledAt && !x.publicAt && !resets) { bool anyUp = false; for (int i = 0; i < np; i++) anyUp |= ps[i]->connected() && i != x.from; if (anyUp && t > x.pushedAt + (embargo + 30 + 3 * patience + 30) * SEC && seen[x.from].up && seen[x.from].up < x.pushedAt) violation("P03", "transaction %zu entered the stem phase %.0f s ago (embargo %lu s) and was never diffused", k, (t - x.pushedAt) / 1e9, embargo); }
			}
			if (e == evs.size()) { if (!drainFrom) drainFrom = t; uint64_t need = 25; for (auto& x : txs) if (x.stem && x.valid && x.offered && !x.minedAt && !x.publicAt) need = std::max<uint64_t>(need, embargo + 30 + 3 * patience + 32); if (t > drainFrom + need * SEC) break; }
		}
		count("nontrivial"); note("done at %.0f s", nowNs() / 1e9);
		{ Kernel k; for (auto& p : ps) { p->onDown = nullptr; p->onUp = nullptr; p->hook = nullptr; p->redial = false; } }
		n->stop();
	}, swarmSched(rng("swarm"), true));
}
SCENARIO("net_relay", "N08,P03,N02", netRelay);
