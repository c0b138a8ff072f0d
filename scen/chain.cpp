// Chain scenarios: fork choice, UTXO replay, validity, no-trace rejection (C02, C03, C04, C05).
#include "chainlib.h"
#include <algorithm>
using namespace sim;

static std::string describe(const World& w, int id) { char b[160]; const Blk& x = w.b[id]; snprintf(b, 160, "%d(h%lu td%lu p%d%s%s)", id, x.height, x.td, x.parent, x.valid ? "" : " INVALID:", x.valid ? "" : x.why.c_str()); return b; }

// Grow a random tree of `n` blocks on top of block `from`.
void growTree(World& w, Rng& r, int from, int n, double pFork, double pInvalid, int maxTx, int maxDiff) {
	std::vector<TransactionPtr> recent; std::vector<int> mine{ from }; double pRecreate = r.chance(0.3) ? 0.5 : 0.1;
	for (int i = 0; i < n; i++) {
		int par = mine.back();
		if (r.chance(pFork)) { size_t span = std::min<size_t>(mine.size(), 2 + r.below(8)); par = mine[mine.size() - 1 - r.below(span)]; }
		else { int best = par; for (int x : mine) if (w.b[x].height > w.b[best].height && r.chance(0.5)) best = x; par = best; }
		std::vector<TransactionPtr> txs; std::vector<Coin> used; std::set<std::string> in;
		const CoinMap& u = *w.b[par].utxo;
		for (auto& t : recent) if (r.chance(0.35) && txs.size() < (size_t)maxTx) { // a transaction also mined on another branch
			bool ok = true; for (auto& x : t->GetInputs()) { auto it = u.find(x.GetCommitment().ToHex()); if (it == u.end() || in.count(it->first) || (it->second.coinbase && it->second.height + 25 > w.b[par].height + 1)) ok = false; }
			for (auto& o : t->GetOutputs()) if (u.count(o.GetCommitment().ToHex())) ok = false;
			for (auto& k : t->GetKernels()) if (k.GetLockHeight() > w.b[par].height + 1) ok = false;
			for (auto& q : txs) { if (q == t) ok = false; for (auto& o : q->GetOutputs()) for (auto& o2 : t->GetOutputs()) if (o.GetCommitment() == o2.GetCommitment()) ok = false; }
			if (!ok) continue;
			for (auto& x : t->GetInputs()) { in.insert(x.GetCommitment().ToHex()); used.push_back(u.at(x.GetCommitment().ToHex())); }
			txs.push_back(t); count("gen.shared_tx");
		}
		int nt = maxTx ? (int)r.below(maxTx + 1) : 0; CoinMap uu = u;
		for (int k = 0; k < nt; k++) { std::vector<Coin> outs; auto t = w.randomTx(uu, w.b[par].height + 1, 3, 4, &used, &outs); if (!t) break; txs.push_back(t); recent.push_back(t); if (recent.size() > 12) recent.erase(recent.begin());
			if (r.chance(0.15)) for (auto& o : outs) { Coin c = o; c.height = w.b[par].height + 1; uu[c.c.ToHex()] = c; } }
		if (maxTx && r.chance(pRecreate)) if (auto t = w.recreateTx(par, &used)) { bool ok = true; for (auto& q : txs) for (auto& o : q->GetOutputs()) for (auto& o2 : t->GetOutputs()) if (o.GetCommitment() == o2.GetCommitment()) ok = false; if (ok) { txs.push_back(t); recent.push_back(t); } }
		int id = w.mine(par, txs, 1 + r.below(maxDiff), 20 + r.below(90));
		mine.push_back(id);
		if (r.chance(pInvalid)) {
			std::string why; auto m = w.mutant(id, (int)r.below(World::mutantKinds()), &why);
			if (m && m->GetHash() != w.b[id].hash()) { bool hdrOk = m->GetHeight() == w.b[id].height; 
				int mid = w.addRaw(par, m, false, why);
				static const std::set<std::string> bodyOnly{ "inflate-coinbase", "inflate-output", "bad-kernel-sig", "bad-proof", "proof-swap", "double-spend", "immature", "dup-output", "locked-kernel", "drop-kernel", "coinbase-feature", "dup-input" };
				if (hdrOk && bodyOnly.count(why) && r.chance(0.6)) { int c = mid; for (int k = 0; k < 1 + (int)r.below(3); k++) { c = w.mine(c, {}, 1 + r.below(maxDiff * 2), 60); } } }
		}
	}
}

static void tree() {
	Rng g = rng("cfg");
	World w; int base = 0; int nb = 26 + g.below(6);
	for (int i = 0; i < nb; i++) base = w.mineRandom(base, 1, 0);
	int n = (int)g.range(6, thorough() ? 48 : 24);
	double pFork = 0.1 + 0.5 * (g.below(100) / 100.0), pInv = g.chance(0.7) ? 0.25 : 0; int maxTx = g.chance(0.15) ? 0 : g.range(1, 4), maxDiff = g.chance(0.3) ? 1 : g.range(2, 8);
	growTree(w, g, base, n, pFork, pInv, maxTx, maxDiff);
	double pDup = g.chance(0.5) ? 0.2 : 0, pMut = g.chance(0.7) ? 0.4 : 0, pHdr = g.chance(0.5) ? 0.3 : 0, pRestart = g.chance(0.4) ? 0.06 : 0, pShuffle = g.chance(0.7) ? g.below(100) / 100.0 : 0, pPump = g.chance(0.6) ? 0.2 : 0, pCompact = g.chance(0.4) ? 0.2 : 0; int window = 2 + g.below(12); bool hdrFirst = g.chance(0.2);
	int nBlk = (int)w.b.size();
	struct Op { int kind; int id; int arg; }; // 0 block 1 header 2 mutant 3 pump 4 restart 5 header range 6 compact block
	std::vector<Op> ops;
	std::vector<int> order; for (int i = nb + 1; i < nBlk; i++) order.push_back(i);
	for (size_t i = 0; i < order.size(); i++) if (g.chance(pShuffle)) std::swap(order[i], order[std::min(order.size() - 1, i + g.below(window))]);
	if (g.chance(0.1)) std::reverse(order.begin(), order.end());
	for (int id : order) {
		if (g.chance(pHdr)) ops.push_back({ g.chance(0.3) ? 5 : 1, g.chance(0.7) ? id : order[g.below(order.size())], 0 });
		bool mb = g.chance(0.5);
		if (mb && g.chance(pMut)) ops.push_back({ 2, id, (int)g.below(World::mutantKinds()) });
		ops.push_back({ g.chance(pCompact) ? 6 : 0, id, 0 });
		if (!mb && g.chance(pMut)) ops.push_back({ 2, id, (int)g.below(World::mutantKinds()) });
		if (g.chance(pDup)) ops.push_back({ 0, order[g.below(order.size())], 1 });
		if (g.chance(pPump)) ops.push_back({ 3, 0, 0 });
		if (g.chance(pRestart)) ops.push_back({ 4, 0, 0 });
	}
	if (hdrFirst) for (size_t i = 0; i < order.size(); i++) ops.insert(ops.begin() + i, Op{ 1, nb + 1 + (int)i, 0 });
	phase([&] {
		auto n = std::make_unique<Node>(); n->init(root() + "/n"); n->open();
		for (int i = 1; i <= nb; i++) { std::string e; auto s = addBlockSafe(*n, *w.b[i].full, &e); SIM_CHECK("C05|C03|C04", s == EBlockChainStatus::SUCCESS, "valid block %d extending the tip was refused: %s %s", i, statusName(s), e.c_str()); }
		uint64_t lastTd = w.b[base].td; std::set<int> accepted;
		CheckOpts co; co.full = true; co.prop = "C04"; co.when = "after a delivery";
		auto after = [&](const char* what) {
			int t = tipOf(*n, w, EChainType::CONFIRMED);
			SIM_CHECK("C05", t >= 0, "%s: the confirmed tip is a block that was never valid (a tampered block was accepted)", what);
			SIM_CHECK("C05", w.ancestorsValid(t), "%s: the confirmed chain contains an invalid block: %s", what, [&] { std::string s; for (int x = t; x >= 0; x = w.b[x].parent) if (!w.b[x].valid) s = describe(w, x); return s; }().c_str());
			SIM_CHECK("C03", w.b[t].td >= lastTd, "%s: confirmed total difficulty fell from %lu to %lu", what, lastTd, w.b[t].td);
			if (w.b[t].td > lastTd) count("reach.tip_advance");
			lastTd = w.b[t].td; state(mix(w.b[t].height * 131 + w.b[t].td, t)); return t;
		};
		auto pump = [&] { for (int k = 0; k < 200; k++) if (!n->chain->ProcessNextOrphanBlock()) break; };
		int prevTip = base; uint32_t idx = 0; int sinceCheck = 0;
		for (auto& op : ops) {
			uint32_t my = idx++; if (!opOn(my)) continue;
			const Blk& x = w.b[op.id]; std::string e;
			std::string before = (op.kind == 2 || !x.valid) ? observe(*n, w, true) : "";
			const char* kn[] = { "block", "header", "mutant", "orphan pump", "restart", "headers", "compact block" };
			switch (op.kind) {
			case 0: case 6: {
				EBlockChainStatus s;
				if (op.kind == 6) { try { s = n->chain->AddCompactBlock(CompactBlock(n->compact(*x.full))); } catch (const std::exception& ex) { e = ex.what(); s = EBlockChainStatus::UNKNOWN_ERROR; } if (s == EBlockChainStatus::TRANSACTIONS_MISSING) { count("reach.compact_missing"); s = addBlockSafe(*n, *x.full, &e); } else if (s == EBlockChainStatus::SUCCESS) count("reach.compact_ok"); }
				else s = addBlockSafe(*n, *x.full, &e);
				note("deliver %s %s -> %s %s", kn[op.kind], describe(w, op.id).c_str(), statusName(s), e.c_str()); count((std::string("status.") + (x.valid ? "valid." : "invalid.") + statusName(s)).c_str());
				if (w.ancestorsValid(op.id)) {
					SIM_CHECK("C03", s == EBlockChainStatus::SUCCESS || s == EBlockChainStatus::ALREADY_EXISTS || s == EBlockChainStatus::ORPHANED, "valid block %s was refused: %s %s", describe(w, op.id).c_str(), statusName(s), e.c_str());
					if (x.parent == prevTip) SIM_CHECK("C03", n->chain->GetTipBlockHeader(EChainType::CONFIRMED)->GetTotalDifficulty() >= x.td, "a valid child of the confirmed tip did not become the tip: %s -> %s", describe(w, op.id).c_str(), statusName(s));
					if (s == EBlockChainStatus::ORPHANED) count("reach.orphan");
				} else if (!x.valid && x.parent == prevTip) SIM_CHECK("C05", s != EBlockChainStatus::SUCCESS, "invalid block %s reported as accepted", describe(w, op.id).c_str());
				break; }
			case 1: { EBlockChainStatus s; try { s = n->chain->AddBlockHeader(x.header()); } catch (const std::exception& ex) { e = ex.what(); s = EBlockChainStatus::INVALID; } note("header %s -> %s %s", describe(w, op.id).c_str(), statusName(s), e.c_str());
				if (w.ancestorsValid(op.id)) SIM_CHECK("C03", s != EBlockChainStatus::INVALID && s != EBlockChainStatus::UNKNOWN_ERROR, "valid header %s was refused: %s", describe(w, op.id).c_str(), e.c_str()); break; }
			case 5: { std::vector<BlockHeaderPtr> hs; for (int y = op.id; y >= 0 && hs.size() < 20; y = w.b[y].parent) { if (n->chain->GetBlockHeaderByHash(w.b[y].hash())) break; hs.push_back(w.b[y].header()); } std::reverse(hs.begin(), hs.end());
				if (hs.empty()) break; EBlockChainStatus s; try { s = n->chain->AddBlockHeaders(hs); } catch (const std::exception& ex) { e = ex.what(); s = EBlockChainStatus::INVALID; } note("headers[%zu] to %s -> %s %s", hs.size(), describe(w, op.id).c_str(), statusName(s), e.c_str());
				if (w.ancestorsValid(op.id)) SIM_CHECK("C03", s != EBlockChainStatus::INVALID, "valid headers to %s were refused: %s", describe(w, op.id).c_str(), e.c_str()); break; }
			case 2: { std::string why; auto m = w.mutant(op.id, op.arg, &why); if (!m) { note("mutant %s of %d not applicable", why.c_str(), op.id); break; }
				bool known = !w.ancestorsValid(op.id);
				auto s = addBlockSafe(*n, *m, &e); note("mutant %s of %s -> %s %s", why.c_str(), describe(w, op.id).c_str(), statusName(s), e.c_str()); count(("mutant." + why).c_str());
				if (x.parent == prevTip && !known) SIM_CHECK("C05", s != EBlockChainStatus::SUCCESS, "tampered block (%s) of block %s was accepted as the new tip", why.c_str(), describe(w, op.id).c_str());
				break; }
			case 3: { pump(); break; }
			case 4: { bool had = true; (void)had; n->close(); n = std::make_unique<Node>(); n->init(root() + "/n"); n->open(); note("restart"); count("fault.restart_clean"); break; }
			}
			int t = after(kn[op.kind]);
			if (t != prevTip) { if (w.b[t].parent != prevTip) { count("reach.reorg"); count("nontrivial"); uint64_t d = 0; int y = prevTip; while (!w.isAncestor(y, t)) { y = w.b[y].parent; d++; } if (d > 1) count("reach.deep_reorg"); } }
			if (!before.empty() && t == prevTip && op.kind != 3) { std::string af = observe(*n, w, true); SIM_CHECK("C02", af == before, "refused %s %s changed what the node reports: before %.400s after %.400s", kn[op.kind], describe(w, op.id).c_str(), before.c_str(), af.c_str()); count("checks.no_trace"); }
			bool tipMoved = t != prevTip; prevTip = t;
			if (op.kind == 4 || op.kind == 2 || ++sinceCheck > 5 || (tipMoved && g.chance(0.5))) { sinceCheck = 0; co.when = kn[op.kind]; checkState(*n, w, t, co); }
		}
		// every valid block offered (again) with its ancestors: the heaviest valid chain must win
		pump();
		for (int pass = 0; pass < 2; pass++) for (int i = nb + 1; i < nBlk; i++) if (w.ancestorsValid(i)) { std::string e; auto s = addBlockSafe(*n, *w.b[i].full, &e); SIM_CHECK("C03", s == EBlockChainStatus::SUCCESS || s == EBlockChainStatus::ALREADY_EXISTS, "valid block %s offered with its ancestors was not processed: %s %s", describe(w, i).c_str(), statusName(s), e.c_str()); }
		int t = after("final"); uint64_t best = 0; for (int i = 0; i < nBlk; i++) if (w.ancestorsValid(i)) best = std::max(best, w.b[i].td);
		SIM_CHECK("C03", w.b[t].td == best, "after every valid block was offered the tip is %s but the heaviest valid chain has total difficulty %lu", describe(w, t).c_str(), best);
		co.when = "at the end"; checkState(*n, w, t, co);
		n->close(); n = std::make_unique<Node>(); n->init(root() + "/n"); n->open(); co.when = "after the final restart"; SIM_CHECK("C04", tipOf(*n, w, EChainType::CONFIRMED) == t, "a clean restart changed the confirmed tip"); checkState(*n, w, t, co); n->close();
		SIM_CHECK("N06|C04", true, " ");
	}, swarmSched(rng("swarm"), false));
}
SCENARIO("chain_tree", "C02,C03,C04,C05", tree);
