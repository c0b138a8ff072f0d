// A node killed or hit by disk errors while it accepts blocks (C01, C02).
#include "chainlib.h"
#include <algorithm>
using namespace sim;
enum { LOG_TD = 1, LOG_POS = 2, LOG_KILL = 3 };
static const std::vector<std::string> FAM{ "candidate.chain", "confirmed.chain", "header_mmr", "TXHASHSET", ".log" };
static const char* KILLED_INSIDE = "[killed inside a multi-store commit] ";
static const char* ERROR_INSIDE = "[disk error inside a multi-store commit] ";

struct FOp { int kind; int id; }; // 0 block 1 header 2 clean restart 3 orphan pump
struct Story { World w; int base = 0, nb = 0; std::vector<FOp> ops; uint64_t bestTd = 0;
	Story(Rng& g, int maxN, double pInv) {
		nb = 26 + g.below(4); for (int i = 0; i < nb; i++) base = w.mineRandom(base, 1, 0);
		growTree(w, g, base, g.range(4, maxN), 0.15 + 0.45 * (g.below(100) / 100.0), pInv, g.chance(0.2) ? 0 : g.range(1, 3), g.chance(0.3) ? 1 : g.range(2, 6));
		std::vector<int> order; for (int i = nb + 1; i < (int)w.b.size(); i++) order.push_back(i);
		double sh = g.chance(0.5) ? 0.4 : 0; for (size_t i = 0; i < order.size(); i++) if (g.chance(sh)) std::swap(order[i], order[std::min(order.size() - 1, i + g.below(4))]);
		for (int id : order) { if (g.chance(0.25)) ops.push_back({ 1, order[g.below(order.size())] }); ops.push_back({ 0, id }); if (g.chance(0.08)) ops.push_back({ 2, 0 }); if (g.chance(0.15)) ops.push_back({ 3, 0 }); }
		for (int i = 0; i < (int)w.b.size(); i++) if (w.ancestorsValid(i)) bestTd = std::max(bestTd, w.b[i].td);
	}
};
static void doOp(Node& n, World& w, const FOp& o, std::string* what) {
	std::string e; EBlockChainStatus s = EBlockChainStatus::SUCCESS;
	if (o.kind == 0) s = addBlockSafe(n, *w.b[o.id].full, &e);
	else if (o.kind == 1) { try { s = n.chain->AddBlockHeader(w.b[o.id].header()); } catch (const std::exception& x) { e = x.what(); s = EBlockChainStatus::INVALID; } }
	else if (o.kind == 3) { for (int k = 0; k < 50; k++) if (!n.chain->ProcessNextOrphanBlock()) break; }
	*what = std::string(o.kind == 0 ? "block " : o.kind == 1 ? "header " : "pump ") + std::to_string(o.id) + (w.b[o.id].valid ? "" : " (" + w.b[o.id].why + ")") + " -> " + statusName(s) + " " + e.substr(0, 120);
}
static int goodTip(Node& n, World& w, const char* prop, const char* when, uint64_t atLeast) {
	int t = tipOf(n, w, EChainType::CONFIRMED);
	SIM_CHECK(prop, t >= 0, "%s: the confirmed tip is %s", when, t == -1 ? "missing" : "not a block that was ever valid");
	SIM_CHECK(prop, w.ancestorsValid(t), "%s: the confirmed chain contains an invalid block", when);
	SIM_CHECK(prop, w.b[t].td >= atLeast, "%s: the confirmed tip has total difficulty %lu, less than the reported %lu", when, w.b[t].td, atLeast);
	return t;
}
static void converge(Node& n, Story& st, const char* prop, const std::string& when) {
	World& w = st.w;
	for (int pass = 0; pass < 2; pass++) for (int i = 1; i < (int)w.b.size(); i++) if (w.ancestorsValid(i) && (i <= st.nb ? pass == 0 : true)) {
		std::string e; auto s = addBlockSafe(n, *w.b[i].full, &e);
		SIM_CHECK(prop, s == EBlockChainStatus::SUCCESS || s == EBlockChainStatus::ALREADY_EXISTS, "%s: valid block %d offered with its ancestors was not processed: %s %s", when.c_str(), i, statusName(s), e.c_str());
	}
	int t = goodTip(n, w, prop, when.c_str(), st.bestTd);
	CheckOpts co; co.prop = prop; co.when = when.c_str(); checkState(n, w, t, co);
}

// ------------------------------------------------------------------ C01
static void crash() {
	Rng g = rng("cfg"); Story st(g, thorough() ? 24 : 14, g.chance(0.5) ? 0.2 : 0); World& w = st.w;
	defaultProp("C01"); int maxCrash = g.range(1, thorough() ? 5 : 3); bool inside = g.chance(0.3);
	uint64_t reported = 0; int pos = -1; bool ended = false; int crashes = 0;
	std::vector<FOp> all; for (int i = 1; i <= st.nb; i++) all.push_back({ 0, i }); all.insert(all.end(), st.ops.begin(), st.ops.end());
	while (!ended) {
		Rng c = rng("crash", crashes); bool kill = crashes < maxCrash;
		// where this life ends: -1 while opening, otherwise inside or right after operation `at`
		int lo = std::max(pos, 0), at = kill ? (c.chance(crashes ? 0.3 : 0.05) ? -1 : crashes == 0 && c.chance(0.85) ? st.nb + (int)c.below(st.ops.size()) : lo + (int)c.below(std::max<size_t>(1, all.size() - lo))) : 1 << 30;
		int mode = c.range(0, 3); if (inside && c.chance(0.5)) mode = 4; uint64_t nth = mode == 4 ? 1 + c.below(c.chance(0.5) ? 12 : 60) : mode == 3 ? 1 + c.below(3) : 1; double torn = c.chance(0.3) ? c.below(1000) / 1000.0 : -1;
		auto end = phase([&] {
			disk::track("/sim/r/n"); disk::families(FAM); disk::mark();
			if (at == -1) disk::crashAt(1 + c.below(c.chance(0.5) ? 30 : 150), torn);
			auto n = std::make_unique<Node>(); std::string err;
			try { n->init(root() + "/n"); n->open(); } catch (const std::exception& e) { err = e.what(); }
			disk::crashOff();
			SIM_CHECK("C01", err.empty(), "the data directory cannot be reopened after a kill: %s", err.c_str());
			CheckOpts co; co.prop = "C01"; co.when = "after reopening";
			if (pos >= 0 || crashes) { int t = goodTip(*n, w, "C01", "after reopening", reported); checkState(*n, w, t, co); count("checks.reopened"); }
			for (int i = std::max(pos, 0); i < (int)all.size(); i++) {
				if (!opOn(i)) continue;
				logPut(LOG_POS, &i, sizeof i); std::string what;
				disk::mark();
				if (i == at) { if (mode == 0) { /* after */ } else if (mode == 4) disk::crashAt(nth, torn); else disk::crashAt(nth, -1); }
				if (all[i].kind == 2) { n->close(); n = std::make_unique<Node>(); n->init(root() + "/n"); n->open(); count("fault.restart_clean"); what = "clean restart"; }
				else doOp(*n, w, all[i], &what);
				disk::crashOff();
				if (i >= st.nb) note("%s", what.c_str());
				int t = goodTip(*n, w, "C01", what.c_str(), reported); reported = w.b[t].td; logPut(LOG_TD, &reported, 8); state(mix(t, reported));
				if (i == at) { disk::mark(); note("kill right after it"); crashNow(); }
			}
			converge(*n, st, "C01", "after everything was offered again"); n->close(); n = std::make_unique<Node>(); n->init(root() + "/n"); n->open();
			int t = goodTip(*n, w, "C01", "after a clean restart", st.bestTd); co.when = "after a clean restart"; checkState(*n, w, t, co); n->close();
		}, swarmSched(rng("swarm", crashes), false));
		if (end.kind == PH_OK) { ended = true; break; }
		crashes++; for (auto& r : logAll()) { if (r.tag == LOG_TD) memcpy(&reported, r.data.data(), 8); if (r.tag == LOG_POS) memcpy(&pos, r.data.data(), 4); }
		uint32_t f = disk::touched(); count("nontrivial");
		if (at == -1) count("reach.kill_while_opening"); else if (f) { count("reach.kill_inside_commit"); context(KILLED_INSIDE); } else count(mode == 0 ? "reach.kill_after_operation" : "reach.kill_before_commit");
	}
}
SCENARIO("chain_crash", "C01", crash);

// ------------------------------------------------------------------ C02, disk errors
static void diskErr() {
	Rng g = rng("cfg"); Story st(g, thorough() ? 20 : 12, g.chance(0.5) ? 0.2 : 0); World& w = st.w; defaultProp("C02"); bool inside = g.chance(0.3);
	phase([&] {
		disk::track("/sim/r/n"); disk::families(FAM);
		auto n = std::make_unique<Node>(); n->init(root() + "/n"); n->open();
		for (int i = 1; i <= st.nb; i++) { std::string e; auto s = addBlockSafe(*n, *w.b[i].full, &e); SIM_CHECK("C02", s == EBlockChainStatus::SUCCESS, "valid block %d refused: %s %s", i, statusName(s), e.c_str()); }
		auto reopen = [&](const char* why) { std::string err; n->close(); n = std::make_unique<Node>(); try { n->init(root() + "/n"); n->open(); } catch (const std::exception& e) { err = e.what(); } SIM_CHECK("C02", err.empty(), "cannot reopen %s: %s", why, err.c_str()); };
		Rng c = rng("faults"); double pFault = c.chance(0.5) ? 0.3 : 0.1; int idx = 0;
		for (auto& o : st.ops) {
			int my = idx++; if (!opOn(my)) continue; std::string what;
			if (o.kind == 2) { reopen("after a clean close"); continue; }
			bool f = c.chance(pFault) && o.kind != 3; int kindSel = c.range(0, 9); uint64_t from = c.below(c.chance(0.5) ? 4 : 24), len = c.chance(0.5) ? 1 : 1000; int err = c.chance(0.5) ? 28 : 5; bool alsoIn = inside && c.chance(0.6);
			std::string before = observe(*n, w, true); int t0 = tipOf(*n, w, EChainType::CONFIRMED);
			disk::mark();
			uint64_t h0 = disk::faultCount();
			if (f) { DiskFault df; df.err = err; df.from = from; df.len = len; df.p = 1;
				if (alsoIn) { df.kinds = 5; df.match = kindSel < 3 ? "TXHASHSET" : kindSel < 5 ? "CHAIN/" : kindSel < 6 ? "header_mmr" : ""; }
				else { df.kinds = kindSel < 3 ? 2 : 1; df.match = "DB/"; df.from = kindSel < 3 ? from : 0; df.len = 1000; }
				disk::setFault(df); }
			doOp(*n, w, o, &what);
			disk::clearFault(); bool hit = disk::faultCount() > h0;
			note("%s%s", what.c_str(), hit ? " (disk failed)" : "");
			if (!hit) { goodTip(*n, w, "C02", what.c_str(), w.b[t0].td); continue; }
			count("nontrivial"); bool failed = what.find("SUCCESS") == std::string::npos && what.find("EXISTS") == std::string::npos && what.find("ORPHANED") == std::string::npos && o.kind != 3;
			count(failed ? "reach.failed_by_disk" : "reach.succeeded_despite_disk");
			if (disk::touched() && failed) { count("reach.error_inside_commit"); context(ERROR_INSIDE); }
			else if (disk::touched() && (alsoIn || o.kind == 3)) { context(ERROR_INSIDE); count("reach.error_inside_commit"); }
			if (failed) { std::string after = observe(*n, w, true); SIM_CHECK("C02", before == after, "an operation that failed on a disk error (%s) changed what the node reports: before %.300s after %.300s", what.c_str(), before.c_str(), after.c_str()); count("checks.no_trace"); }
			int t1 = goodTip(*n, w, "C02", what.c_str(), w.b[t0].td);
			// RocksDB refuses writes (this debug build: asserts) after a failed one until it is reopened
			if (!alsoIn || c.chance(0.8)) { reopen("after a disk error"); int t2 = goodTip(*n, w, "C02", "restart after a disk error", w.b[t0].td); SIM_CHECK("C02", t2 == t1, "restart after %s (disk error): the tip was block %d and is now block %d", what.c_str(), t1, t2); CheckOpts co; co.prop = "C02"; co.when = "restart after a disk error"; checkState(*n, w, t2, co); }
		}
		reopen("at the end"); converge(*n, st, "C02", "after the faults"); reopen("finally"); goodTip(*n, w, "C02", "finally", st.bestTd); n->close();
	}, swarmSched(rng("swarm"), false));
}
SCENARIO("chain_diskerr", "C02", diskErr);
