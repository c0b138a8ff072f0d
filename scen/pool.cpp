// The transaction pool of a node that follows forks and reorganisations (P01, P02).
#include "chainlib.h"
#include <algorithm>
#include <thread>
#include <atomic>
using namespace sim;
namespace {
struct PTx { TransactionPtr tx; bool sound = true; std::string what; bool added = false, stem = false; int tipAt = 0; };
struct Pool_ {
	World& w; std::vector<PTx> t; std::map<std::string, int> byKernel; std::set<TransactionKernel> kernels; Rng g;
	Pool_(World& w, Rng g) : w(w), g(g) {}
	int add(TransactionPtr tx, bool sound, const std::string& what) { PTx p; p.tx = tx; p.sound = sound; p.what = what; t.push_back(p); for (auto& k : tx->GetKernels()) { byKernel[k.GetHash().ToHex()] = (int)t.size() - 1; kernels.insert(k); } return (int)t.size() - 1; }
	// can `tx` alone be mined on block `tip`? (sound transactions only)
	bool minable(const Transaction& x, int tip, std::string* why = nullptr) {
		const CoinMap& u = *w.b[tip].utxo; uint64_t nh = w.b[tip].height + 1; auto no = [&](const char* s) { if (why) *why = s; return false; };
		for (auto& i : x.GetInputs()) { auto it = u.find(i.GetCommitment().ToHex()); if (it == u.end()) return no("spends an output that is not unspent on the confirmed chain"); if (it->second.coinbase && it->second.height + 25 > nh) return no("spends an immature coinbase"); }
		for (auto& o : x.GetOutputs()) if (u.count(o.GetCommitment().ToHex())) return no("creates an output that is already unspent on the confirmed chain");
		for (auto& k : x.GetKernels()) if (k.GetLockHeight() > nh) return no("is locked beyond the next block");
		return true;
	}
	std::vector<Coin> spendable(int tip, bool mature = true) { std::vector<Coin> v; for (auto& kv : *w.b[tip].utxo) if (kv.second.height > 0 && kv.second.amount > 100000000 && (!kv.second.coinbase || (kv.second.height + 25 <= w.b[tip].height + 1) == mature)) v.push_back(kv.second); return v; }
	TransactionPtr pay(const std::vector<Coin>& in, int nout, int lock = 0, int nk = 1, std::vector<Coin>* outs = nullptr, int64_t feeDelta = 0) {
		uint64_t sum = 0; for (auto& c : in) sum += c.amount; uint64_t fee = txFee(in.size(), nout, nk) + feeDelta; if (sum <= fee + nout) return nullptr;
		uint64_t rem = sum - fee; std::vector<uint64_t> am; for (int i = 0; i < nout; i++) { uint64_t a = i + 1 == nout ? rem : 1 + g.below(rem / 2); am.push_back(a); rem -= a; }
		return w.makeTx(in, am, fee, outs, lock, nk);
	}
	static TransactionPtr with(const Transaction& t, std::vector<TransactionInput> i, std::vector<TransactionOutput> o, std::vector<TransactionKernel> k) { BlindingFactor off = t.GetOffset(); return std::make_shared<Transaction>(std::move(off), TransactionBody(std::move(i), std::move(o), std::move(k))); }
	// a new transaction for the current tip; -1 if that kind is impossible now
	int make(int tip, int kind, const std::vector<int>& held) {
		auto sp = spendable(tip); uint64_t nh = w.b[tip].height + 1; auto one = [&](std::vector<Coin>& v) { size_t k = g.below(v.size()); Coin c = v[k]; v.erase(v.begin() + k); return c; };
		auto inputsOf = [&](const Transaction& x) { std::vector<Coin> r; for (auto& i : x.GetInputs()) { auto it = w.byCommit.find(i.GetCommitment().ToHex()); if (it != w.byCommit.end()) { Coin c = it->second; auto u = w.b[tip].utxo->find(it->first); if (u != w.b[tip].utxo->end()) c = u->second; r.push_back(c); } } return r; };
		if (sp.empty()) return -1;
		std::vector<Coin> in; int ni = g.range(1, 3); for (int i = 0; i < ni && !sp.empty(); i++) in.push_back(one(sp));
		TransactionPtr tx; std::string what; bool sound = true;
		switch (kind) {
		case 0: case 1: case 2: tx = pay(in, g.range(1, 4), 0, g.chance(0.2) ? 2 : 1); what = "plain"; break;
		case 3: { if (held.empty()) return -1; auto c = inputsOf(*t[held[g.below(held.size())]].tx); if (c.empty()) return -1; tx = pay({ c[g.below(c.size())] }, g.range(1, 3)); what = "conflicting"; break; }
		case 4: tx = pay(in, 2, (int)(nh + g.range(-3, 2))); what = "height locked"; break;
		case 5: { auto im = spendable(tip, false); if (im.empty()) return -1; tx = pay({ im[g.below(im.size())] }, 1); what = "spending a young coinbase"; break; }
		case 6: { if (held.empty()) return -1; auto& p = *t[held[g.below(held.size())]].tx; std::vector<Coin> c; for (auto& o : p.GetOutputs()) { auto it = w.byCommit.find(o.GetCommitment().ToHex()); if (it != w.byCommit.end()) c.push_back(it->second); } if (c.empty()) return -1; auto z = c[g.below(c.size())]; if (z.amount < 100000000) return -1; tx = pay({ z }, 1); what = "spending a pooled output"; break; }
		case 7: { std::vector<Coin> used; tx = w.recreateTx(tip, &used); what = "recreating a spent commitment"; break; }
		case 8: { if (held.size() < 2) return -1; std::vector<TransactionInput> i; std::vector<TransactionOutput> o; std::vector<TransactionKernel> k; std::vector<BlindingFactor> off; size_t a = g.below(held.size()), b = g.below(held.size()); if (a == b) return -1; for (size_t z : { a, b }) { auto& x = *t[held[z]].tx; for (auto& q : x.GetInputs()) i.push_back(q); for (auto& q : x.GetOutputs()) o.push_back(q); for (auto& q : x.GetKernels()) k.push_back(q); off.push_back(x.GetOffset()); }
			std::set<std::string> seen; for (auto& q : i) if (!seen.insert(q.GetCommitment().ToHex()).second) return -1; for (auto& q : o) if (!seen.insert(q.GetCommitment().ToHex()).second) return -1;
			BlindingFactor s = Crypto::AddBlindingFactors(off, {}); tx = std::make_shared<Transaction>(std::move(s), TransactionBody(std::move(i), std::move(o), std::move(k))); what = "aggregate of pooled ones";
			PTx p; p.tx = tx; p.what = what; t.push_back(p); return (int)t.size() - 1; } // shares kernels with its parts
		case 9: { if (t.empty()) return -1; return (int)g.below(t.size()); } // seen before
		default: {
			sound = false; auto base = pay(in, 2, 0, 1); if (!base) return -1; auto i = base->GetInputs(); auto o = base->GetOutputs(); auto k = base->GetKernels();
			switch (kind) {
			case 10: { uint64_t sum = 0; for (auto& c : in) sum += c.amount; tx = w.makeTx(in, { sum + 5000000000ull, 1 }, txFee(in.size(), 2, 1)); what = "inflating"; break; }
			case 11: { auto b = k[0].GetExcessSignature().GetSignatureBytes().GetData(); std::vector<uint8_t> s(b.begin(), b.end()); s[g.below(64)] ^= 1 << g.below(8); k[0] = TransactionKernel(k[0].GetFeatures(), Fee::From(k[0].GetFee()), k[0].GetLockHeight(), Commitment(k[0].GetExcessCommitment()), Signature(CBigInteger<64>(s))); tx = with(*base, i, o, k); what = "with a bad kernel signature"; break; }
			case 12: { auto a = o[0], c = o[1]; o[0] = TransactionOutput(a.GetFeatures(), Commitment(a.GetCommitment()), RangeProof(c.GetRangeProof())); o[1] = TransactionOutput(c.GetFeatures(), Commitment(c.GetCommitment()), RangeProof(a.GetRangeProof())); tx = with(*base, i, o, k); what = "with swapped range proofs"; break; }
			case 13: { auto pb = o[0].GetRangeProof().GetProofBytes(); pb[g.below(pb.size())] ^= 1 << g.below(8); o[0] = TransactionOutput(o[0].GetFeatures(), Commitment(o[0].GetCommitment()), RangeProof(std::move(pb))); tx = with(*base, i, o, k); what = "with a bad range proof"; break; }
			case 14: { o[0] = TransactionOutput(EOutputFeatures::COINBASE_OUTPUT, Commitment(o[0].GetCommitment()), RangeProof(o[0].GetRangeProof())); tx = with(*base, i, o, k); what = "creating a coinbase output"; break; }
			case 15: i.push_back(i[0]); tx = with(*base, i, o, k); what = "listing an input twice"; break;
			case 16: k[0] = TransactionKernel(k[0].GetFeatures(), Fee::From(k[0].GetFee() + 1000), k[0].GetLockHeight(), Commitment(k[0].GetExcessCommitment()), Signature(k[0].GetExcessSignature())); tx = with(*base, i, o, k); what = "with a raised fee"; break;
			case 17: { BlindingFactor off = Crypto::AddBlindingFactors({ base->GetOffset(), in[0].blind }, {}); tx = std::make_shared<Transaction>(std::move(off), TransactionBody(std::move(i), std::move(o), std::move(k))); what = "with a wrong offset"; break; }
			case 18: { o.pop_back(); tx = with(*base, i, o, k); what = "missing an output"; break; }
			default: return -1; } } }
		if (!tx) return -1; return add(tx, sound, what);
	}
	static const int KINDS = 19;
	// which of the transactions ever made does the node hold in public?
	std::vector<TransactionPtr> listed(Node& n) { return n.pool->FindTransactionsByKernel(kernels); }
	void checkJoint(Node& n, int tip, const char* when) {
		auto v = listed(n); std::map<std::string, int> in, out; count("checks.joint"); if (v.size() > 1) count("reach.pool_of_several");
		std::set<std::string> created; for (auto& x : v) for (auto& o : x->GetOutputs()) created.insert(o.GetCommitment().ToHex());
		for (size_t q = 0; q < v.size(); q++) { auto& x = v[q]; int id = idOf(*x); std::string why;
			SIM_CHECK("P01", id >= 0, "%s: the pool holds a transaction nobody offered", when);
			SIM_CHECK("P01", t[id].sound, "%s: the pool holds an invalid transaction (%s)", when, t[id].what.c_str());
			SIM_CHECK("P01", minable(*x, tip, &why), "%s: a pooled transaction (%s) %s (height %lu)", when, t[id].what.c_str(), why.c_str(), w.b[tip].height);
			for (auto& i : x->GetInputs()) { auto r = in.insert({ i.GetCommitment().ToHex(), id }); SIM_CHECK("P01", r.second, "%s: two pooled transactions (%s, %s) spend the same output", when, t[r.first->second].what.c_str(), t[id].what.c_str()); }
			for (auto& o : x->GetOutputs()) { auto r = out.insert({ o.GetCommitment().ToHex(), id }); SIM_CHECK("P01", r.second, "%s: two pooled transactions (%s, %s) create the same output", when, t[r.first->second].what.c_str(), t[id].what.c_str()); } }
	}
	int idOf(const Transaction& x) { for (size_t i = 0; i < t.size(); i++) if (*t[i].tx == x) return (int)i;
		// an aggregate the pool built itself from sound stem transactions
		std::map<std::string, int> want; for (auto& k : x.GetKernels()) { auto it = byKernel.find(k.GetHash().ToHex()); if (it == byKernel.end() || !t[it->second].sound) return -1; } PTx p; p.tx = std::make_shared<Transaction>(x); p.what = "aggregate built by the pool"; t.push_back(p); return (int)t.size() - 1; }
	bool isHeld(Node& n, int id, const char** how) {
		auto& x = *t[id].tx; auto& k = x.GetKernels();
		for (auto& q : k) { auto f = n.pool->FindTransactionByKernelHash(q.GetHash()); if (!f) { *how = "by kernel hash"; return false; } }
		auto v = n.pool->FindTransactionsByKernel({ k.begin(), k.end() }); if (v.empty()) { *how = "by kernel"; return false; }
		std::set<ShortId> ids; Hash bh = w.b[0].hash(); for (auto& q : k) ids.insert(ShortId::Create(q.GetHash(), bh, 7)); v = n.pool->GetTransactionsByShortId(bh, 7, ids); if (v.size() < 1) { *how = "by short id"; return false; }
		return true;
	}
};
}
static int commonAncestor(World& w, int a, int b) { while (!w.isAncestor(a, b)) a = w.b[a].parent; return a; }

static void poolScen() {
	Rng g = rng("cfg"); World w; defaultProp(wantProp == "P02" ? "P02" : "P01"); int tip = 0, nb = 26 + g.below(8);
	for (int i = 0; i < nb; i++) tip = w.mineRandom(tip, 1, i > 25 ? 2 : 0);
	int nops = g.range(12, thorough() ? 70 : 36); double pBlock = 0.15 + 0.3 * (g.below(100) / 100.0), pFork = g.chance(0.7) ? 0.4 : 0.1, pBad = g.chance(0.6) ? 0.2 : 0, pOdd = g.chance(0.7) ? 0.5 : 0.2; bool stem = g.chance(0.4), diskF = g.chance(0.25);
	phase([&] {
		auto n = std::make_unique<Node>(); n->init(root() + "/n"); n->open(); disk::track("/sim/r/n");
		for (int i = 1; i < (int)w.b.size(); i++) { std::string e; auto s = addBlockSafe(*n, *w.b[i].full, &e); SIM_CHECK("P01|P02", s == EBlockChainStatus::SUCCESS, "valid block %d refused: %s %s", i, statusName(s), e.c_str()); }
		Pool_ p(w, g); std::vector<int> held; int cur = tip; std::vector<int> later;
		auto settle = [&](const char* what) { // after anything that may have moved the tip
			int now = tipOf(*n, w, EChainType::CONFIRMED); SIM_CHECK("P01|P02", now >= 0, "%s: the confirmed tip is unknown", what);
			std::vector<int> fresh; if (now != cur) { int a = commonAncestor(w, cur, now); if (a != cur) { count("reach.reorg"); } for (int x = now; x != a; x = w.b[x].parent) fresh.push_back(x); }
			std::set<std::string> kern, spent; for (int x : fresh) { for (auto& k : w.b[x].full->GetKernels()) kern.insert(k.GetHash().ToHex()); for (auto& i : w.b[x].full->GetInputs()) spent.insert(i.GetCommitment().ToHex()); }
			cur = now; p.checkJoint(*n, cur, what);
			std::vector<int> keep; std::string names; for (int id : held) { auto& x = *p.t[id].tx; bool gone = !p.minable(x, cur); for (auto& k : x.GetKernels()) if (kern.count(k.GetHash().ToHex())) gone = true; for (auto& i : x.GetInputs()) if (spent.count(i.GetCommitment().ToHex())) gone = true;
				if (gone) { count("reach.tx_left_pool"); continue; }
				const char* how = ""; SIM_CHECK("P02", p.isHeld(*n, id, &how), "%s: a pooled transaction (%s) that is neither mined nor invalid is no longer found %s", what, p.t[id].what.c_str(), how); keep.push_back(id); }
			held = keep; state(mix(held.size(), w.b[cur].height * 64 + w.b[cur].td % 64)); count("checks.kept");
		};
		auto offer = [&](int blk, bool compact) { std::string e; EBlockChainStatus s; const char* how = "block";
			if (compact) { how = "compact block"; s = n->chain->AddCompactBlock(n->compact(*w.b[blk].full)); if (s == EBlockChainStatus::TRANSACTIONS_MISSING) { count("reach.compact_missing"); s = addBlockSafe(*n, *w.b[blk].full, &e); } else count("reach.compact_hydrated"); }
			else s = addBlockSafe(*n, *w.b[blk].full, &e);
			note("%s %d on %d td %lu%s -> %s %s", how, blk, w.b[blk].parent, w.b[blk].td, w.b[blk].valid ? "" : w.b[blk].why.c_str(), statusName(s), e.substr(0, 80).c_str());
			return s; };
		for (int i = 0; i < nops; i++) {
			Rng r = rng("op", i); bool on = opOn(i); p.g = r;
			if (r.chance(pBlock)) {
				int par = cur; int span = 0; if (r.chance(pFork)) { span = 1 + r.below(4); for (int k = 0; k < span && w.b[par].height > 27; k++) par = w.b[par].parent; }
				int len = par == cur ? 1 : 1 + r.below(4); uint64_t target = w.b[cur].td; bool heavier = r.chance(0.6);
				for (int k = 0; k < len; k++) {
					std::vector<TransactionPtr> txs; std::set<std::string> in, out; 
					auto fits = [&](const TransactionPtr& x) { if (!p.minable(*x, par)) return false; for (auto& q : x->GetInputs()) if (in.count(q.GetCommitment().ToHex())) return false; for (auto& q : x->GetOutputs()) if (out.count(q.GetCommitment().ToHex())) return false; for (auto& q : x->GetInputs()) in.insert(q.GetCommitment().ToHex()); for (auto& q : x->GetOutputs()) out.insert(q.GetCommitment().ToHex()); return true; };
					double pTake = r.chance(0.3) ? 1 : 0.4; bool all = k == 0 && par == cur && r.chance(0.4); std::vector<TransactionPtr> pooled = p.listed(*n); std::sort(pooled.begin(), pooled.end(), [](auto& a, auto& b) { return a->GetHash() < b->GetHash(); });
					if (all) txs = pooled; else for (auto& q : pooled) if (r.chance(pTake) && txs.size() < 6 && fits(q)) txs.push_back(q);
					if (!all) { for (auto& q : p.t) if (q.sound && r.chance(0.1) && txs.size() < 6 && q.what != "aggregate of pooled ones" && q.what != "aggregate built by the pool" && fits(q.tx)) txs.push_back(q.tx);
						if (r.chance(0.4)) { int id = p.make(par, r.chance(0.5) ? 3 : 0, held); if (id >= 0 && p.t[id].sound && fits(p.t[id].tx)) txs.push_back(p.t[id].tx); } }
					uint64_t d = 1 + r.below(3); if (k + 1 == len && par != cur && heavier && w.b[par].td + d <= target) d = target - w.b[par].td + r.below(3);
					{ std::set<std::string> ks; std::vector<TransactionPtr> u; for (auto& x : txs) { bool dup = false; for (auto& q : x->GetKernels()) if (ks.count(q.GetHash().ToHex())) dup = true; if (dup && !all) continue; for (auto& q : x->GetKernels()) ks.insert(q.GetHash().ToHex()); u.push_back(x); } txs = u; }
					int id = w.mine(par, txs, d, 40 + r.below(60)); int was = cur; int deliver = id;
					if (on && !all && r.chance(pBad)) { std::string why; auto m = w.mutant(id, (int)r.below(World::mutantKinds()), &why); if (m && m->GetHash() != w.b[id].hash()) { int mid = w.addRaw(par, m, false, why); offer(mid, false); count("reach.refused_block"); settle("after an invalid block"); } }
					if (!on) { par = id; continue; }
					if (diskF && r.chance(0.3)) { std::string before = observe(*n, w, true); DiskFault df; df.err = 28; df.match = "DB/"; df.kinds = 1; df.len = 1000; disk::setFault(df); std::string e; addBlockSafe(*n, *w.b[id].full, &e); disk::clearFault(); bool moved = tipOf(*n, w, EChainType::CONFIRMED) != cur; note("block %d with a full disk%s", id, moved ? " (accepted)" : ""); settle("after a block the disk refused"); n->close(); n = std::make_unique<Node>(); n->init(root() + "/n"); n->open(); cur = tipOf(*n, w, EChainType::CONFIRMED); SIM_CHECK("P02", p.listed(*n).empty(), "a new pool is not empty"); held.clear(); count("fault.restart_after_disk_error"); diskF = false; }
					if (all) count("reach.whole_pool_mined"); bool first = w.b[deliver].parent == cur; auto s = offer(deliver, r.chance(0.3));
					if (first) SIM_CHECK("P01", s == EBlockChainStatus::SUCCESS, "a block assembled %son the tip was not accepted: %s", all ? "from the whole pool " : "", statusName(s));
					settle("after a block"); if (cur != was && w.b[cur].parent != was) count("nontrivial"); if (w.b[id].td <= w.b[was].td && cur == was) count("reach.losing_fork_block"); par = id;
				}
			} else if (stem && r.chance(0.25)) {
				if (!on) continue;
				auto l = MultiLocker().LockShared(*n->db->GetBlockDB(), *n->txhs); auto ts = std::get<1>(l)->GetTxHashSet();
				bool fl = r.chance(0.6); auto tx = fl ? n->pool->GetTransactionToFluff(std::get<0>(l).GetShared(), ts) : n->pool->GetTransactionToStem(std::get<0>(l).GetShared(), ts);
				note("%s -> %s", fl ? "fluff" : "stem", tx ? "one" : "none");
				if (tx) { count(fl ? "reach.fluffed" : "reach.stemmed"); std::string why; SIM_CHECK("P01", p.minable(*tx, cur, &why), "a transaction handed out for %s %s", fl ? "fluffing" : "stemming", why.c_str()); if (fl) held.push_back(p.idOf(*tx)); }
			} else {
				int kind = r.chance(pOdd) ? r.below(Pool_::KINDS) : 0; int id = p.make(cur, kind, held); if (id < 0 || !on) continue; auto& x = p.t[id]; bool toStem = stem && r.chance(0.4);
				bool already = std::find(held.begin(), held.end(), id) != held.end(); bool joint = p.minable(*x.tx, cur); for (auto& q : p.listed(*n)) { std::set<std::string> ins; for (auto& z : q->GetInputs()) ins.insert(z.GetCommitment().ToHex()); for (auto& z : x.tx->GetInputs()) if (ins.count(z.GetCommitment().ToHex())) joint = false; std::set<std::string> outs; for (auto& z : q->GetOutputs()) outs.insert(z.GetCommitment().ToHex()); for (auto& z : x.tx->GetOutputs()) if (outs.count(z.GetCommitment().ToHex())) joint = false; }
				auto s = n->chain->AddTransaction(x.tx, toStem ? EPoolType::STEMPOOL : EPoolType::MEMPOOL); note("tx %d (%s)%s -> %s", id, x.what.c_str(), toStem ? " to the stem pool" : "", statusName(s)); bool ok = s == EBlockChainStatus::SUCCESS;
				count(ok ? "reach.tx_added" : "reach.tx_refused"); if (!x.sound) { count("reach.bad_tx"); SIM_CHECK("P01", !ok, "an invalid transaction (%s) was accepted into the pool", x.what.c_str()); }
				if (x.sound && joint && !toStem && !already) SIM_CHECK("P02", ok, "a valid transaction (%s) that fits the pool was refused: %s", x.what.c_str(), statusName(s));
				if (ok && !toStem && !already) held.push_back(id);
			}
			settle("after a pool operation");
		}
		p.g = rng("final"); n->close();
	}, swarmSched(rng("swarm"), false));
}
SCENARIO("pool", "P01,P02", poolScen);

// several threads offer transactions and read the pool while blocks and forks arrive
static void poolThreads() {
	Rng g = rng("cfg"); World w; defaultProp("P01"); int tip = 0, nb = 27 + g.below(6); for (int i = 0; i < nb; i++) tip = w.mineRandom(tip, 1, i > 25 ? 2 : 0);
	Pool_ p(w, g); std::vector<int> seed, mineable; int first = tip; 
	for (int i = 0; i < g.range(3, 10); i++) { int id = p.make(tip, g.chance(0.3) ? 3 : 0, seed); if (id >= 0) seed.push_back(id); }
	std::vector<int> order; int par = tip; for (int i = 0; i < g.range(2, thorough() ? 8 : 5); i++) { std::vector<TransactionPtr> txs; std::set<std::string> in; int from = g.chance(0.35) && par != first ? w.b[par].parent : par; for (int id : seed) if (g.chance(0.3) && p.minable(*p.t[id].tx, from)) { bool ok = true; for (auto& q : p.t[id].tx->GetInputs()) if (!in.insert(q.GetCommitment().ToHex()).second) ok = false; if (ok) txs.push_back(p.t[id].tx); } par = w.mine(from, txs, 1 + g.below(3), 60); order.push_back(par); }
	int nth = g.range(1, 3);
	phase([&] {
		auto n = std::make_unique<Node>(); n->init(root() + "/n"); n->open(); for (int i = 1; i <= first; i++) { std::string e; addBlockSafe(*n, *w.b[i].full, &e); }
		SIM_CHECK("P01", tipOf(*n, w, EChainType::CONFIRMED) == first, "the common part was not accepted");
		std::vector<int> added(p.t.size(), 0); std::vector<std::thread> th;
		th.emplace_back([&] { for (int id : order) if (opOn(1000 + id)) { std::string e; auto s = addBlockSafe(*n, *w.b[id].full, &e); { Kernel k; note("block %d -> %s", id, statusName(s)); } } });
		for (int a = 0; a < nth; a++) th.emplace_back([&, a] { Rng r = rng("feeder", a); auto list = seed; for (size_t i = 0; i < list.size(); i++) std::swap(list[i], list[r.below(list.size())]); int q = 0; for (int id : list) { if (!opOn(a * 50 + q++)) continue; auto s = n->chain->AddTransaction(p.t[id].tx, EPoolType::MEMPOOL); { Kernel k; note("thread %d tx %d (%s) -> %s", a, id, p.t[id].what.c_str(), statusName(s)); if (s == EBlockChainStatus::SUCCESS) added[id] = 1; } if (r.chance(0.3)) p.listed(*n); if (r.chance(0.3)) sleepMs(r.below(5)); } });
		for (auto& t : th) t.join();
		int now = tipOf(*n, w, EChainType::CONFIRMED); SIM_CHECK("P01", now >= 0, "unknown tip"); p.checkJoint(*n, now, "after concurrent additions and blocks"); count("nontrivial");
		std::set<std::string> kern, spent; std::set<int> seen; for (int id : order) { for (auto& k : w.b[id].full->GetKernels()) kern.insert(k.GetHash().ToHex()); for (auto& i : w.b[id].full->GetInputs()) spent.insert(i.GetCommitment().ToHex()); }
		for (size_t id = 0; id < added.size(); id++) if (added[id]) { bool gone = !p.minable(*p.t[id].tx, now); for (auto& k : p.t[id].tx->GetKernels()) if (kern.count(k.GetHash().ToHex())) gone = true; for (auto& i : p.t[id].tx->GetInputs()) if (spent.count(i.GetCommitment().ToHex())) gone = true; if (gone) continue; const char* how = ""; SIM_CHECK("P02", p.isHeld(*n, (int)id, &how), "a transaction (%s) added while blocks arrived is neither mined nor invalid but no longer found %s", p.t[id].what.c_str(), how); count("checks.kept"); }
		n->close();
	}, swarmSched(rng("swarm"), true));
}
SCENARIO("pool_threads", "P01,P02", poolThreads);
