// Wallets paying each other over a chain with forks (W03-W06).
#include "walletmodel.h"
#include "simweb.h"
#include <algorithm>
#include <API/Wallet/Owner/Models/SendCriteria.h>
using namespace sim;
namespace {
enum { P_SEND = 1, P_RECV, P_FIN, P_CANCEL, P_REFRESH, P_COINBASE, P_PASS, P_ADDR };
struct Pend { int kind = 0, u = 0, xi = -1; uint64_t amount = 0; bool entire = false; int outs = 0; bool bad = false; size_t pi = 0; uint32_t id = 0; std::string pw; };
struct Flow {
	std::function<void(const Pend&)> arm; std::function<bool()> disarm; bool hit = false, did = false, lost = false; // a kill or disk fault is set around the wallet call of an operation
	void pre(const Pend& p) { hit = false; if (arm) arm(p); } void post() { if (disarm) hit = disarm(); }
	World& w; std::shared_ptr<Ledger> L; Machine m; WModel md; Rng g; int nu;
	Flow(World& w, Rng g, int nu) : w(w), L(std::make_shared<Ledger>(w)), md(w, L, m), g(g), nu(nu) {}
	int common(int p, int q) { while (!w.isAncestor(p, q)) p = w.b[p].parent; return p; }
	WView view(int u) { return viewOf(m.db(u), m.users[u].seed, false); }
	void boot(int minConf) {
		m.init(root() + "/w", L, minConf); disk::track("/sim/r/w"); m.open();
		for (int u = 0; u < nu; u++) { auto e = m.create("user" + std::to_string(u), "pass" + std::to_string(u)); SIM_CHECK("W02", e.empty(), "wallet creation failed: %s", e.c_str()); md.addUser(); }
		int tip = 0; int own = g.range(3, 8); for (int i = 0; i < own; i++) tip = md.mineFor((int)g.below(nu), g, tip, {}); md.moveTip(tip);
		for (int i = 0, k = g.range(22, 30); i < k; i++) tip = md.mineFor(g.chance(0.15) ? (int)g.below(nu) : -1, g, tip, {}); md.moveTip(tip);
	}
	std::vector<TransactionPtr> someOf(int on, Rng& r, double p) { std::vector<TransactionPtr> v; for (auto& t : L->mem) if (r.chance(p) && L->fits(*t, on, v)) v.push_back(t); return v; }
	void mine(Rng& r, int n) { for (int i = 0; i < n; i++) { int u = r.chance(0.5) ? (int)r.below(nu) : -1; auto txs = someOf(L->tip, r, r.chance(0.5) ? 1 : 0.4); int id = md.mineFor(u, r, L->tip, txs); md.moveTip(id); note("block %d height %lu with %zu txs, coinbase %d", id, w.b[id].height, txs.size(), u); } }
	void reorg(Rng& r) {
		int p = L->tip, d = 1 + r.below(r.chance(0.2) ? 12 : 4); for (int i = 0; i < d && w.b[p].height > 28; i++) p = w.b[p].parent; if (p == L->tip) return;
		// transactions of the old branch return to the pool of the node, and some are mined again
		std::vector<TransactionPtr> back = L->mem; for (auto& s : md.x) if (s.e.tx && std::find_if(back.begin(), back.end(), [&](auto& b) { return *b == *s.e.tx; }) == back.end()) back.push_back(s.e.tx);
		int par = p; bool shorter = r.chance(0.15); int len = shorter ? 1 : (int)(w.b[L->tip].height - w.b[p].height + 1); double pt = r.chance(0.5) ? 0.9 : 0.3;
		for (int i = 0; i < len; i++) { std::vector<TransactionPtr> v; for (auto& t : back) if (r.chance(pt) && L->fits(*t, par, v)) v.push_back(t); int u = r.chance(0.3) ? (int)r.below(nu) : -1; par = md.mineFor(u, r, par, v, shorter ? 100 : 3); }
		L->mem = back; md.moveTip(par); note("reorganisation of %d blocks to %d, height %lu", d, par, w.b[par].height); count("nontrivial");
	}
};
SessionToken tokOf(Flow& f, int u, Rng& r) { return f.md.tok(u, r); }
void opSend(Flow& f, Rng& r, int u) {
	auto& md = f.md; auto& m = f.m; size_t n = 0; WView before = f.view(u); bool reach = f.L->height() >= before.refresh; uint64_t sum = md.usableSum(u, &n, before); bool entire = r.chance(0.1); int outs = entire ? 0 : r.range(r.chance(0.1) ? 0 : 1, r.chance(0.2) ? 5 : 2); int strat = r.below(4); uint64_t fb = r.chance(0.2) ? 1 + r.below(2000000) : 500000;
	uint64_t amount = 0; switch (r.below(5)) { case 0: amount = 1 + r.below(1000000); break; case 1: amount = sum ? sum - std::min<uint64_t>(sum, r.below(60000000)) : 5; break; case 2: amount = sum + r.below(100000000); break; default: amount = 1 + r.below(sum ? sum : 10); }
	if (amount == 0) amount = 1; if (r.chance(0.02)) amount = ~0ull - r.below(3000000);
	std::set<Commitment> custom; ESelectionStrategy st = strat == 0 ? ESelectionStrategy::ALL : strat == 1 ? ESelectionStrategy::SMALLEST : strat == 2 ? ESelectionStrategy::FEWEST_INPUTS : ESelectionStrategy::CUSTOM;
	if (st == ESelectionStrategy::CUSTOM) for (auto& kv : md.a[u].own) if (r.chance(0.4)) custom.insert(Commitment(CBigInteger<33>::FromHex(kv.first)));
	static const char* sn[] = { "all", "smallest", "fewest", "custom" };
	std::string err; std::optional<Slate> s; { Pend pd; pd.kind = P_SEND; pd.u = u; pd.amount = amount; pd.entire = entire; pd.outs = outs; f.pre(pd); } try { s = m.wm->Send(SendCriteria(tokOf(f, u, r), entire ? std::nullopt : std::make_optional(amount), fb, (uint8_t)outs, SelectionStrategyDTO(st, std::move(custom)), std::nullopt, std::nullopt)); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } f.post();
	note("user %d sends %lu%s (%s, %d change) of %lu in %zu coins -> %s", u, amount, entire ? " everything" : "", sn[strat], outs, sum, n, s ? "ok" : err.substr(0, 60).c_str());
	if (s) { count("reach.send"); WView after = f.view(u); md.notePaths(u, after, "after a send"); md.recordSend(u, *s, amount, entire, outs, after, "a send"); checkRecords(after, "W01", "after a send"); }
	else if (f.hit) return; else { count("reach.send_refused"); WView after = f.view(u); uint64_t fee = fb * Consensus::CalculateWeightV5((int64_t)n, 1 + outs, 1);
		if (reach && !f.L->offline && n > 0 && (entire ? sum > fee : amount <= sum && amount + fee <= sum) && st != ESelectionStrategy::CUSTOM) violation("W04", "a payment of %lu%s (%s) with %lu usable in %zu coins was refused: %s", amount, entire ? " (everything)" : "", sn[strat], sum, n, err.c_str());
		for (auto& kv : after.tx) SIM_CHECK("W01", before.tx.count(kv.first) || kv.second.type == RECEIVED, "a refused send left a transaction behind"); for (auto& kv : after.out) if (!before.out.count(kv.first)) SIM_CHECK("W01", kv.second.status != NO_CONFIRMATIONS, "a refused send left an output behind"); else; }
}
void opReceive(Flow& f, Rng& r, int u, int xi) {
	auto& md = f.md; auto& q = md.x[xi]; std::string how, th; Slate s = q.e.s1; try { s = transport(s, r, &how); } catch (const std::exception& e) { violation("W05", "a slate does not survive the %s encoding: %s", how.c_str(), e.what()); } bool bad = r.chance(0.12); if (bad) s = tamper(s, r, &th);
	bool had = q.e.received[u] > q.e.recvCancelled[u]; std::string err; std::optional<Slate> s2; bool foreign = r.chance(0.2) && f.m.users[u].port; SessionToken t = tokOf(f, u, r); { Pend pd; pd.kind = P_RECV; pd.u = u; pd.xi = xi; pd.bad = bad; f.pre(pd); }
	if (foreign) {
		Json::Value rq, p(Json::arrayValue); p.append(s.ToJSON()); p.append(Json::nullValue); p.append(Json::nullValue); rq["jsonrpc"] = "2.0"; rq["id"] = 1; rq["method"] = "receive_tx"; rq["params"] = p; auto rs = simweb::request(f.m.users[u].port, "POST", "/v2/foreign", "", JsonUtil::WriteCondensed(rq)); how += " over the listener";
		try { Json::Value j; JsonUtil::Parse(rs.body, j); if (j.isMember("result") && j["result"].isMember("Ok")) s2 = Slate::FromJSON(j["result"]["Ok"]); else err = rs.body.substr(0, 120); } catch (const std::exception& e) { err = "listener: " + std::string(e.what()) + " " + rs.body.substr(0, 80); }
	} else try { s2 = f.m.wm->Receive(ReceiveCriteria(std::move(t), std::nullopt, Slate(s), std::nullopt)); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
	f.post(); note("user %d receives payment %d (%s%s%s) -> %s", u, xi, how.c_str(), bad ? ", tampered: " : "", th.c_str(), s2 ? "ok" : err.substr(0, 60).c_str()); WView v = f.view(u);
	if (s2) { count("reach.receive"); if (bad) count("reach.receive_tampered"); SIM_CHECK("W05", !had, "user %d received a payment a second time", u); if (q.e.recvCancelled[u]) count("reach.receive_again_after_cancel"); if (bad) q.badS2.insert(q.e.s2.size()); md.recordReceive(u, xi, *s2, v); md.notePaths(u, v, "after a receive"); checkRecords(v, "W01", "after a receive"); }
	else if (f.hit) return; else { if (had) count("reach.second_receive_refused"); SIM_CHECK("W05", had || bad || q.e.received[u] || (u == q.e.from && (q.e.cancelled || q.e.finalised)), "the first delivery of a payment (%s) to user %d was refused: %s", how.c_str(), u, err.c_str()); }
}
void opFinalize(Flow& f, Rng& r, int xi) {
	auto& md = f.md; auto& q = md.x[xi]; if (q.e.s2.empty()) return; int u = q.e.from; size_t pi = r.below(q.e.s2.size()); auto& pick = q.e.s2[pi]; std::string how, th; Slate s = pick.second; try { s = transport(s, r, &how); } catch (const std::exception& e) { violation("W05", "an answered slate does not survive the %s encoding: %s", how.c_str(), e.what()); } bool bad = r.chance(0.12); if (bad) s = tamper(s, r, &th);
	bool post = r.chance(0.5); bool clean = !q.badS2.count(pi); std::string err; bool ok = false; WView before = f.view(u); bool cancelled = q.e.cancelled, done = q.e.finalised > 0; SessionToken tk = tokOf(f, u, r); { Pend pd; pd.kind = P_FIN; pd.u = u; pd.xi = xi; pd.bad = bad; pd.pi = pi; f.pre(pd); }
	try { f.m.wm->Finalize(FinalizeCriteria(SessionToken(tk), std::nullopt, Slate(s), post ? std::make_optional(PostMethodDTO(EPostMethod::FLUFF, std::nullopt)) : std::nullopt), nullptr); ok = true; } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
	f.post(); note("user %d finalises payment %d answered by %d (%s%s%s%s) -> %s", u, xi, pick.first, how.c_str(), bad ? ", tampered: " : "", th.c_str(), post ? ", post" : "", ok ? "ok" : err.substr(0, 60).c_str());
	if (ok) { count("reach.finalise"); if (bad) count("reach.finalise_tampered"); SIM_CHECK("W05", !cancelled, "a cancelled payment was finalised"); SIM_CHECK("W05", !done, "a payment was finalised a second time");
		WView v = f.view(u); const TxV* t = nullptr; for (auto& kv : v.tx) if (kv.second.slate == q.e.id && kv.second.type != RECEIVING_IN_PROGRESS && kv.second.type != RECEIVED && kv.second.type != RECEIVED_CANCELED) t = &kv.second; SIM_CHECK("W05", t && t->finalTx, "a finalised payment has no recorded transaction");
		auto p = f.m.db(u).Read()->GetTransactionById(f.m.users[u].seed, t->id); SIM_CHECK("W05", p && p->GetTransaction().has_value(), "a finalised payment has no transaction"); md.recordFinal(xi, s, p->GetTransaction().value(), "a finalised payment"); checkRecords(v, "W01", "after a finalisation"); }
	else if (f.hit) return; else { if (done || cancelled) count("reach.second_finalise_refused"); SIM_CHECK("W05", done || cancelled || bad || !clean || f.L->offline, "the first answer (%s) to a live payment was refused: %s", how.c_str(), err.c_str()); }
}
void opCancel(Flow& f, Rng& r, int u) {
	auto& md = f.md; f.m.wm->GetWallet(tokOf(f, u, r)); WView v = f.view(u); std::vector<const TxV*> c; for (auto& kv : v.tx) if (!kv.second.slate.empty()) c.push_back(&kv.second); if (c.empty()) return; const TxV* t = c[r.below(c.size())]; bool can = t->type == SENDING_STARTED || t->type == SENDING_FINALIZED || t->type == RECEIVING_IN_PROGRESS; std::string err; bool ok = false;
	if (!can && r.chance(0.8)) return;
	int xi = md.find(t->slate); if (xi < 0) return; auto& q = md.x[xi]; bool sendSide = t->type != RECEIVING_IN_PROGRESS && t->type != RECEIVED && t->type != RECEIVED_CANCELED;
	SessionToken tk = tokOf(f, u, r); { Pend pd; pd.kind = P_CANCEL; pd.u = u; pd.xi = xi; pd.id = t->id; f.pre(pd); }
	try { f.m.wm->GetWallet(tk).Write()->CancelTx(t->id); ok = true; } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
	f.post(); note("user %d cancels %s of payment %d -> %s", u, txName(t->type), xi, ok ? "ok" : err.substr(0, 60).c_str());
	if (ok) { SIM_CHECK("W05", can, "a %s transaction was cancelled", txName(t->type)); count("reach.cancel"); if (sendSide) q.e.cancelled = true; else q.e.recvCancelled[u]++; checkRecords(f.view(u), "W01", "after a cancel"); }
	else if (f.hit) return; else SIM_CHECK("W04", !can || f.L->height() < v.refresh, "a %s transaction could not be cancelled: %s", txName(t->type), err.c_str());
}
}
static void walletFlow() {
	Rng g = rng("cfg"); World w; defaultProp(wantProp.empty() ? "W04" : wantProp.c_str()); int nu = g.range(2, 3); Flow f(w, g, nu); int nops = g.range(10, thorough() ? 80 : 36); double pMine = 0.12 + 0.2 * (g.below(100) / 100.0), pReorg = g.chance(0.7) ? 0.06 : 0.01; f.md.strictRescan = g.chance(0.1); int mc = g.chance(0.5) ? 0 : g.range(1, 3); bool dup = g.chance(0.6); double pDown = g.chance(0.3) ? 0.06 : 0;
	phase([&] {
		f.g = rng("boot"); f.boot(mc); auto& md = f.md; for (int u = 0; u < nu; u++) { Rng r = rng("a0", u); md.audit(u, r, "at the start"); }
		for (int i = 0; i < nops; i++) { Rng r = rng("op", i); if (!opOn(i)) continue; int u = (int)r.below(nu);
			if (pDown > 0 && r.chance(pDown)) { f.L->offline = !f.L->offline; note(f.L->offline ? "the node goes away" : "the node is back"); count("fault.node_unreachable"); }
			double c = r.below(1000) / 1000.0;
			if (c < pMine) { f.mine(r, r.chance(0.2) ? r.range(2, 6) : 1); }
			else if (c < pMine + pReorg) { bool off = f.L->offline; f.L->offline = false; f.reorg(r); f.L->offline = off; }
			else switch (r.below(16)) {
			case 0: case 1: case 2: case 3: opSend(f, r, u); break;
			case 4: case 5: case 6: case 7: { if (md.x.empty()) { opSend(f, r, u); break; } int k = dup && r.chance(0.4) ? (int)r.below(md.x.size()) : (int)md.x.size() - 1 - (int)r.below(std::min<size_t>(3, md.x.size())); int v = r.chance(0.08) ? md.x[k].e.from : (md.x[k].e.from + 1 + (int)r.below(nu - 1)) % nu; opReceive(f, r, v, k); break; }
			case 8: case 9: case 10: { std::vector<int> c2; for (size_t k = 0; k < md.x.size(); k++) if (!md.x[k].e.s2.empty() && (dup || !md.x[k].e.finalised)) c2.push_back((int)k); if (c2.empty()) break; opFinalize(f, r, c2[r.chance(0.5) ? c2.size() - 1 : r.below(c2.size())]); break; }
			case 11: if (!f.L->offline) opCancel(f, r, u); break;
			case 12: { std::vector<int> c2; for (size_t k = 0; k < md.x.size(); k++) if (md.x[k].e.tx && md.x[k].e.txId) c2.push_back((int)k); if (c2.empty()) break; auto& q = md.x[c2[r.below(c2.size())]]; bool ok = false; try { ok = f.m.wm->RepostTx(RepostTxCriteria(q.e.txId, tokOf(f, q.e.from, r), EPostMethod::FLUFF, std::nullopt), nullptr); } catch (const std::exception&) {} note("repost -> %d", ok); count("reach.repost"); break; }
			case 13: { if (f.L->offline) break; if (r.chance(0.5)) { f.m.close(); f.m.open(); for (int k = 0; k < nu; k++) { auto e = f.m.login(k); SIM_CHECK("W02", e.empty(), "login after a restart failed: %s", e.c_str()); } note("restart"); count("reach.restart"); } else { if (r.chance(0.5) && f.m.users[u].tokens.size() < 3) { auto e = f.m.login(u); SIM_CHECK("W02", e.empty(), "a second login failed: %s", e.c_str()); note("user %d logs in again", u); count("reach.second_session"); } else { auto np = "pw" + std::to_string(i); std::string err; try { f.m.wm->ChangePassword(f.m.users[u].name, SecureString(f.m.users[u].pass), SecureString(np)); f.m.users[u].pass = np; } catch (const std::exception& e) { err = e.what(); } SIM_CHECK("W02", err.empty(), "changing the password failed: %s", err.c_str()); note("user %d changes the password", u); } } break; }
			default: if (!f.L->offline) { Rng r2 = rng("audit", i); md.audit(u, r2, "after a refresh", r.chance(0.1)); note("audit %d", u); } }
		}
		f.L->offline = false; for (int u = 0; u < nu; u++) { Rng r = rng("af", u); md.audit(u, r, "at the end"); md.audit(u, r, "after a full scan", true); } if (f.md.x.size() > 1) count("nontrivial"); f.m.close();
	}, swarmSched(rng("swarm"), false));
}
SCENARIO("wallet_flow", "W03,W04,W05,W06", walletFlow);

// ------------------------------------------------------------------ killed or hit by disk errors (W01, W02, W06)
namespace {
enum { LOG_STATE = 11, LOG_PEND = 12, LOG_VIEW = 13, LOG_POST = 14, LOG_LIFE = 15 };
std::string packPend(const Pend& p) { Pack k; k.u(p.kind); k.u(p.u); k.u(p.xi); k.u(p.amount); k.u(p.entire); k.u(p.outs); k.u(p.bad); k.u(p.pi); k.u(p.id); k.str(p.pw); return k.s; }
Pend unpackPend(const std::string& s) { Unpack k{ s }; Pend p; p.kind = (int)k.u(); p.u = (int)k.u(); p.xi = (int)k.u(); p.amount = k.u(); p.entire = k.u(); p.outs = (int)k.u(); p.bad = k.u(); p.pi = k.u(); p.id = (uint32_t)k.u(); p.pw = k.str(); return p; }
const char* pName(int k) { static const char* n[] = { "nothing", "a send", "a receive", "a finalisation", "a cancellation", "a refresh", "building a coinbase", "a password change", "an address change" }; return n[k]; }
std::string key(int k) { static const char* n[] = { "nothing", "send", "receive", "finalise", "cancel", "refresh", "coinbase", "password", "address" }; return n[k]; }
std::string outLine(const OutV& o) { WView v; v.out[o.commit] = o; return v.digest(); } std::string txLine(const TxV& t) { WView v; v.tx[t.id] = t; return v.digest(); }
// what differs apart from the outputs and transactions named
std::string otherDiff(const WView& a, const WView& b, const std::set<std::string>& outs, const std::set<uint32_t>& txs) {
	for (auto& kv : a.out) if (!outs.count(kv.first)) { auto i = b.out.find(kv.first); if (i == b.out.end()) return "an output is gone: " + outLine(kv.second); if (outLine(kv.second) != outLine(i->second)) return "an output changed: " + outLine(kv.second) + " -> " + outLine(i->second); }
	for (auto& kv : b.out) if (!outs.count(kv.first) && !a.out.count(kv.first)) return "an output appeared: " + outLine(kv.second);
	for (auto& kv : a.tx) if (!txs.count(kv.first)) { auto i = b.tx.find(kv.first); if (i == b.tx.end()) return "a transaction is gone: " + txLine(kv.second); if (txLine(kv.second) != txLine(i->second)) return "a transaction changed: " + txLine(kv.second) + " -> " + txLine(i->second); }
	for (auto& kv : b.tx) if (!txs.count(kv.first) && !a.tx.count(kv.first)) return "a transaction appeared: " + txLine(kv.second);
	if (a.refresh != b.refresh) return "refresh height " + std::to_string(a.refresh) + " -> " + std::to_string(b.refresh); if (b.nextChild < a.nextChild) return "the key counter went back"; if (b.nextTx < a.nextTx) return "the transaction counter went back"; if (b.addr < a.addr || b.addr > a.addr + 1) return "address index " + std::to_string(a.addr) + " -> " + std::to_string(b.addr);
	return "";
}
// the interrupted operation is done entirely or not at all; returns whether it is, and then the model learns of it
bool settle(Flow& f, const Pend& p, const WView& a, bool posted, const char* how) {
	auto& md = f.md; WView b = viewOf(f.m.db(p.u), f.m.users[p.u].seed); std::string when = std::string("after ") + pName(p.kind) + " cut short by " + how; const char* wn = when.c_str();
	std::set<std::string> outs; std::set<uint32_t> txs; std::vector<const TxV*> fresh; for (auto& kv : b.tx) if (!a.tx.count(kv.first)) fresh.push_back(&kv.second); bool done = false;
	checkRecords(b, "W01", when); md.notePaths(p.u, b, wn); const TxV* t = nullptr;
	switch (p.kind) {
	case P_SEND: case P_RECV: SIM_CHECK("W01", fresh.size() <= 1, "%s: %zu transactions appeared", wn, fresh.size()); if (fresh.empty()) break; t = fresh[0]; done = true; txs.insert(t->id); SIM_CHECK("W01", t->type == (p.kind == P_SEND ? SENDING_STARTED : RECEIVING_IN_PROGRESS), "%s: a %s transaction appeared", wn, txName(t->type));
		for (auto& kv : b.out) if (!a.out.count(kv.first) && kv.second.txId == (int64_t)t->id) outs.insert(kv.first);
		if (p.kind == P_SEND) for (auto& i : t->ins) { outs.insert(i); auto o = a.out.find(i); SIM_CHECK("W01", o != a.out.end() && o->second.status == SPENDABLE, "%s: an input of the new transaction was %s before", wn, o == a.out.end() ? "unknown" : stName(o->second.status)); }
		break;
	case P_FIN: for (auto& kv : b.tx) { auto o = a.tx.find(kv.first); if (o != a.tx.end() && kv.second.slate == md.x[p.xi].e.id && o->second.type == SENDING_STARTED && kv.second.type != SENDING_STARTED) { t = &kv.second; txs.insert(t->id); done = true; SIM_CHECK("W01", t->type == SENDING_FINALIZED && t->fin && t->finalTx, "%s: the payment is %s", wn, txName(t->type)); } } break;
	case P_CANCEL: { auto o = a.tx.find(p.id); t = &b.tx[p.id]; if (t->type != o->second.type) { done = true; txs.insert(p.id); SIM_CHECK("W01", t->type == SENT_CANCELED || t->type == RECEIVED_CANCELED, "%s: the transaction is %s", wn, txName(t->type));
		for (auto& kv : b.out) { auto& q = kv.second; bool in = t->type == SENT_CANCELED && std::find(t->ins.begin(), t->ins.end(), kv.first) != t->ins.end(); if (in) { outs.insert(kv.first); SIM_CHECK("W01", q.status != LOCKED, "%s: an input is still locked", wn); } else if (q.txId == (int64_t)p.id) { outs.insert(kv.first); SIM_CHECK("W01", q.status == CANCELED, "%s: an output of it is %s", wn, stName(q.status)); } } } break; }
	default: break; }
	if (p.kind != P_REFRESH) { std::string d = otherDiff(a, b, outs, txs); SIM_CHECK("W01", d.empty(), "%s (%s): %s", wn, done ? "done" : "not done", d.c_str()); }
	if (posted && p.kind == P_FIN) SIM_CHECK("W01", done, "%s: the payment was broadcast and is not recorded as finalised", wn);
	count(done ? "reach.cut_short_done" : "reach.cut_short_not_done");
	if (!done) return false;
	if (p.kind == P_SEND) { auto sl = f.m.db(p.u).Read()->LoadSlate(f.m.users[p.u].seed, uuids::uuid::from_string(t->slate).value(), SlateStage(ESlateStage::STANDARD_SENT)); SIM_CHECK("W01", sl != nullptr, "%s: the slate is missing", wn); Slate s = *sl; s.amount = s.GetAmount(); md.recordSend(p.u, s, p.amount, p.entire, p.outs, b, "a send cut short"); }
	if (p.kind == P_RECV) { auto sl = f.m.db(p.u).Read()->LoadSlate(f.m.users[p.u].seed, uuids::uuid::from_string(t->slate).value(), SlateStage(ESlateStage::STANDARD_RECEIVED)); SIM_CHECK("W01", sl != nullptr, "%s: the slate is missing", wn); if (p.bad) md.x[p.xi].badS2.insert(md.x[p.xi].e.s2.size()); md.recordReceive(p.u, p.xi, *sl, b); }
	if (p.kind == P_FIN) { auto w = f.m.db(p.u).Read()->GetTransactionById(f.m.users[p.u].seed, t->id); md.recordFinal(p.xi, md.x[p.xi].e.s2[p.pi].second, w->GetTransaction().value(), "a finalisation cut short"); }
	if (p.kind == P_CANCEL) { auto& e = md.x[p.xi].e; if (t->type == SENT_CANCELED) e.cancelled = true; else e.recvCancelled[p.u]++; }
	return true;
}
void cutOp(Flow& f, Rng& r, int i, int nu) { // one operation, chosen so that there is something to do
	auto& md = f.md; int u = (int)r.below(nu); int c = r.chance(0.3) ? 5 + r.below(6) : r.below(16); std::vector<int> open, ready;
	for (size_t k = 0; k < md.x.size(); k++) { if (!md.x[k].e.cancelled && md.x[k].e.s2.empty()) open.push_back((int)k); if (!md.x[k].e.s2.empty() && !md.x[k].e.cancelled && !md.x[k].e.finalised) ready.push_back((int)k); }
	if (c < 4) { opSend(f, r, u); return; }
	if (c < 7 && !md.x.empty()) { int k = !open.empty() && r.chance(0.8) ? open[r.below(open.size())] : (int)r.below(md.x.size()); opReceive(f, r, (md.x[k].e.from + 1 + (int)r.below(nu - 1)) % nu, k); return; }
	if (c < 11 && !ready.empty()) { opFinalize(f, r, ready[r.below(ready.size())]); return; }
	if (c < 12) { opCancel(f, r, u); return; }
	Pend p; p.u = u; SessionToken tk = tokOf(f, u, r); std::string err; f.did = false;
	if (c == 12) { p.kind = P_COINBASE; Rng r2 = rng("cb", i); f.pre(p); int id = -1; try { id = md.mineFor(u, r2, f.L->tip, f.someOf(f.L->tip, r2, 0.7)); } catch (const std::exception& e) { err = e.what(); } f.post(); f.did = id >= 0; if (id >= 0) md.moveTip(id); note("user %d builds a coinbase -> %s", u, err.empty() ? "ok" : err.substr(0, 60).c_str()); if (id < 0 && !f.hit) violation("W01", "building a coinbase failed: %s", err.c_str()); return; }
	if (c == 13) { p.kind = P_PASS; p.pw = "pw" + std::to_string(i); f.pre(p); try { f.m.wm->ChangePassword(f.m.users[u].name, SecureString(f.m.users[u].pass), SecureString(p.pw)); } catch (const std::exception& e) { err = e.what(); } f.post(); note("user %d changes the password -> %s", u, err.empty() ? "ok" : err.substr(0, 60).c_str()); if (err.empty()) f.m.users[u].pass = p.pw; else if (!f.hit) violation("W02", "a password change failed: %s", err.c_str()); return; }
	if (c == 14) { p.kind = P_ADDR; f.lost = false; int before = f.m.db(u).Read()->GetCurrentAddressIndex(KeyChainPath::FromString("m/0/0")); f.pre(p); try { f.m.wm->IncreaseAddressKeyChainPathIndex(tk); } catch (const std::exception& e) { err = e.what(); } f.post(); f.did = err.empty(); if (f.did && f.arm) f.lost = (int)f.m.db(u).Read()->GetCurrentAddressIndex(KeyChainPath::FromString("m/0/0")) != before + 1; note("user %d changes the address -> %s", u, err.empty() ? "ok" : err.substr(0, 60).c_str()); if (f.lost) violation("W01", "an address change was reported done (disk error: %d) and is not recorded", (int)f.hit); if (!err.empty() && !f.hit) violation("W01", "an address change failed: %s", err.c_str()); return; }
	auto arm = f.arm; if (r.chance(0.4) && f.L->height() > 30) f.reorg(r); else f.mine(r, r.range(1, 2)); p.kind = P_REFRESH; bool reach = f.L->height() >= f.view(u).refresh; f.pre(p); bool full = r.chance(0.2); try { f.m.wm->CheckForOutputs(tk, full); } catch (const std::exception& e) { err = e.what(); } f.post(); f.did = err.empty(); if (full && err.empty() && reach) for (auto& kv : md.a[u].own) kv.second.rescan = false; note("user %d refreshes -> %s", u, err.empty() ? "ok" : err.substr(0, 60).c_str()); if (!err.empty() && !f.hit) violation("W01", "a refresh failed: %s", err.c_str());
}
void seedCheck(Flow& f, int u, const char* prop, const char* when) { auto& q = f.m.users[u]; std::string got, err; try { got = std::string(f.m.wm->GetSeedWords(GetSeedPhraseCriteria(q.name, SecureString(q.pass))).c_str()); } catch (const std::exception& e) { err = e.what(); } SIM_CHECK(prop, err.empty(), "%s: the recovery words of %s cannot be shown: %s", when, q.name.c_str(), err.c_str()); SIM_CHECK(prop, got == std::string(q.words.c_str()), "%s: the recovery words of %s are others than at its creation", when, q.name.c_str()); }
}
static void walletCrash() {
	Rng g = rng("cfg"); defaultProp("W01"); int nu = 2, kills = g.range(1, thorough() ? 5 : 3), perLife = g.range(2, thorough() ? 24 : 12), mc = g.chance(0.5) ? 0 : g.range(1, 2); double pArm = g.chance(0.5) ? 0.5 : 0.25; std::string state, pend; std::vector<std::string> views; bool posted = false;
	for (int life = 0; life <= kills; life++) {
		bool last = life == kills; size_t logged = logAll().size();
		auto end = phase([&] {
			World w(life + 1); Flow f(w, rng("boot", life), nu); f.w.b[0].id = 0; disk::track("/sim/r/w"); auto& md = f.md;
			if (life == 0) f.boot(mc);
			else {
				f.m.init(root() + "/w", f.L, mc); md.load(state); f.m.open(); bool pw = false; Pend p; if (!pend.empty()) p = unpackPend(pend);
				for (int u = 0; u < nu; u++) { auto e = f.m.login(u); if (!e.empty() && p.kind == P_PASS && p.u == u) { auto old = f.m.users[u].pass; f.m.users[u].pass = p.pw; auto e2 = f.m.login(u); SIM_CHECK("W02", e2.empty(), "after a kill during a password change neither password opens the wallet: %s / %s", e.c_str(), e2.c_str()); pw = true; } else SIM_CHECK(p.kind == P_PASS ? "W02" : "W01", e.empty(), "after a kill during %s the wallet of %s cannot be opened: %s", pName(p.kind), f.m.users[u].name.c_str(), e.c_str()); seedCheck(f, u, "W02", "after a kill"); }
				(void)pw; count("checks.reopened");
				if (p.kind) { for (int u = 0; u < nu; u++) { WView a = unpackView(views[u]); if (u == p.u) { settle(f, p, a, posted, "a kill"); } else { std::string d = p.kind == P_REFRESH ? "" : otherDiff(a, viewOf(f.m.db(u), f.m.users[u].seed), {}, {}); SIM_CHECK("W01", d.empty(), "after a kill during an operation of another wallet: %s", d.c_str()); } } }
				for (int u = 0; u < nu; u++) { Rng r = rng("ar", life * 10 + u); md.audit(u, r, "after a kill"); }
			}
			Rng kr = rng("kill", life); bool killAfter = false;
			bool atPost = false; f.L->onPost = [&] { int one = 1; logPut(LOG_POST, &one, 4); if (atPost) { count("reach.kill_at_post"); crashNow(); } };
			f.disarm = [] { disk::crashOff(); return false; };
			for (int i = 0; i < perLife * 3; i++) { int id = life * 100 + i; Rng r = rng("op", id); bool want = !last && (kr.chance(pArm) || i > perLife); uint64_t nth = 1 + kr.below(kr.chance(0.3) ? 60 : 22); double torn = kr.chance(0.3) ? kr.below(1000) / 1000.0 : -1; bool after = kr.chance(0.15), atP = kr.chance(0.4); if (!opOn(id)) continue; if (last && i > perLife) break;
				f.arm = nullptr; if (want) f.arm = [&](const Pend& p) { if (p.kind != P_REFRESH) for (int u = 0; u < nu; u++) f.m.wm->CheckForOutputs(f.m.users[u].tokens.back(), false); Pack k; k.u(nu); for (int u = 0; u < nu; u++) k.str(packView(viewOf(f.m.db(u), f.m.users[u].seed))); logPut(LOG_STATE, md.save()); logPut(LOG_VIEW, k.s); logPut(LOG_PEND, packPend(p)); if (!after && !atP) disk::crashAt(nth, torn); count("reach.armed"); atPost = atP; };
				cutOp(f, r, i, nu); f.arm = nullptr; atPost = false;
				if (want && after) { logPut(LOG_STATE, md.save()); logPut(LOG_PEND, ""); note("kill right after it"); count("reach.kill_after_operation"); crashNow(); }
				if (r.chance(0.2)) { Rng r2 = rng("au", id); int u = (int)r.below(nu); md.audit(u, r2, "between operations"); }
			} (void)killAfter;
			for (int u = 0; u < nu; u++) { Rng r = rng("af", u); md.audit(u, r, "at the end"); seedCheck(f, u, "W02", "at the end"); } f.m.close();
		}, swarmSched(rng("swarm", life), false));
		if (end.kind == PH_OK) break;
		count("nontrivial"); auto l = logAll(); posted = false; for (size_t i = logged; i < l.size(); i++) { auto& q = l[i]; if (q.tag == LOG_STATE) { state = q.data; posted = false; } if (q.tag == LOG_PEND) { pend = q.data; posted = false; } if (q.tag == LOG_POST) posted = true; if (q.tag == LOG_VIEW) { views.clear(); Unpack k{ q.data }; for (auto n = k.u(); n; n--) views.push_back(k.str()); } }
		if (!pend.empty()) { count(("reach.kill_in_" + key(unpackPend(pend).kind)).c_str()); note("killed during %s", pName(unpackPend(pend).kind)); }
		if (state.empty()) break;
	}
}
SCENARIO("wallet_crash", "W01,W02,W06", walletCrash);
static void walletDisk() {
	Rng g = rng("cfg"); defaultProp("W01"); int nu = 2, nops = g.range(6, thorough() ? 50 : 24), mc = g.chance(0.5) ? 0 : g.range(1, 2); double pF = g.chance(0.5) ? 0.5 : 0.2;
	phase([&] {
		World w(1); Flow f(w, rng("boot"), nu); disk::track("/sim/r/w"); auto& md = f.md; f.boot(mc); Rng kr = rng("fault"); DiskFault df; Pend cur; WView before; bool posted = false; uint64_t h0 = 0;
		auto reopen = [&](const char* why) { f.m.close(); f.m.open(); for (int u = 0; u < nu; u++) { auto e = f.m.login(u); if (!e.empty() && cur.kind == P_PASS && cur.u == u && f.hit) { f.m.users[u].pass = cur.pw; auto e2 = f.m.login(u); SIM_CHECK("W02", e2.empty(), "after a disk error during a password change neither password opens the wallet: %s / %s", e.c_str(), e2.c_str()); } else SIM_CHECK(cur.kind == P_PASS ? "W02" : "W01", e.empty(), "%s the wallet of %s cannot be opened: %s", why, f.m.users[u].name.c_str(), e.c_str()); seedCheck(f, u, "W02", why); } };
		f.L->onPost = [&] { posted = true; };
		f.disarm = [&] { bool hit = cur.kind && disk::faultCount() > h0; disk::clearFault(); return hit; };
		for (int i = 0; i < nops; i++) { Rng r = rng("op", i); bool want = kr.chance(pF); int ks = kr.below(10); df = DiskFault(); df.err = kr.chance(0.5) ? 28 : 5; df.kinds = ks < 2 ? 2 : ks < 4 ? 5 : ks < 5 ? 7 : 1; df.from = kr.below(kr.chance(0.5) ? 5 : 25); df.len = kr.chance(0.5) ? 1 : kr.chance(0.5) ? 1 + kr.below(6) : 100000; df.p = 1; df.match = kr.chance(0.2) ? "-journal" : ""; bool re = kr.chance(0.3); if (!opOn(i)) continue;
			cur = Pend(); f.hit = false; size_t nx = md.x.size(); bool armed = false; std::string oldPass; f.arm = nullptr; if (want) f.arm = [&](const Pend& p) { if (p.kind != P_REFRESH) for (int u = 0; u < nu; u++) f.m.wm->CheckForOutputs(f.m.users[u].tokens.back(), false); before = viewOf(f.m.db(p.u), f.m.users[p.u].seed); cur = p; posted = false; h0 = disk::faultCount(); armed = true; oldPass = f.m.users[p.u].pass; disk::setFault(df); };
			std::vector<int> fin; std::vector<std::map<int, int>> rc, cc; std::vector<bool> ca; for (auto& q : md.x) { fin.push_back(q.e.finalised); rc.push_back(q.e.received); cc.push_back(q.e.recvCancelled); ca.push_back(q.e.cancelled); }
			cutOp(f, r, i, nu); f.arm = nullptr; if (!armed) continue; if (!f.hit) continue; count("nontrivial"); count(("reach.disk_failed_in_" + key(cur.kind)).c_str());
			bool ok = cur.kind == P_SEND ? md.x.size() > nx : cur.kind == P_FIN ? md.x[cur.xi].e.finalised > fin[cur.xi] : cur.kind == P_RECV ? md.x[cur.xi].e.received[cur.u] > rc[cur.xi][cur.u] : cur.kind == P_CANCEL ? md.x[cur.xi].e.cancelled != ca[cur.xi] || md.x[cur.xi].e.recvCancelled[cur.u] > cc[cur.xi][cur.u] : cur.kind == P_PASS ? f.m.users[cur.u].pass != oldPass : f.did;
			note("the disk failed, the operation %s", ok ? "succeeded all the same" : "failed"); count(ok ? "reach.succeeded_despite_disk" : "reach.failed_by_disk");
			if (re) reopen("after a disk error"); else if (cur.kind == P_PASS && !ok) { bool o = true; try { f.m.wm->GetSeedWords(GetSeedPhraseCriteria(f.m.users[cur.u].name, SecureString(oldPass))); } catch (const std::exception&) { o = false; } if (!o) { f.m.users[cur.u].pass = cur.pw; seedCheck(f, cur.u, "W02", "after a disk error during a password change"); } }
			if (!ok) { if (cur.kind == P_REFRESH) f.m.wm->CheckForOutputs(f.m.users[cur.u].tokens.back(), false); settle(f, cur, before, posted, "a disk error"); }
			for (int u = 0; u < nu; u++) { Rng r2 = rng("au", i * 10 + u); md.audit(u, r2, "after a disk error"); }
		}
		cur = Pend(); f.hit = false; reopen("after a restart"); for (int u = 0; u < nu; u++) { Rng r = rng("af", u); md.audit(u, r, "at the end"); } f.m.close();
	}, swarmSched(rng("swarm"), false));
}
SCENARIO("wallet_disk", "W01,W02,W06", walletDisk);

// ------------------------------------------------------------------ restored from its words (W08)
#include <Server/Node/NodeClients/DefaultNodeClient.h>
namespace {
// the node's own client over a real node, with batches of a chosen size, outages, and the tip moving between its calls
struct RealNode : public INodeClient {
	DefaultNodeClient d; Node& n; uint64_t cap; double pFail = 0; mutable Rng r; mutable uint64_t batches = 0, fails = 0;
	RealNode(Node& n, uint64_t cap) : d(n.db, n.txhs->Write().GetShared(), n.pool, n.chain, nullptr), n(n), cap(cap), r(rng("outage")) {}
	bool draw(double p) const { if (p <= 0) return false; Kernel k; bool f = r.chance(p); if (f) fails++; return f; }
	void call() const { if (draw(pFail)) { { Kernel k; count("fault.node_unreachable"); } throw std::runtime_error("node unreachable"); } }
	uint64_t GetChainHeight() const override { return d.GetChainHeight(); }
	BlockHeaderPtr GetTipHeader() const override { return d.GetTipHeader(); }
	BlockHeaderPtr GetBlockHeader(const uint64_t h) const override { call(); return d.GetBlockHeader(h); }
	std::map<Commitment, OutputLocation> GetOutputsByCommitment(const std::vector<Commitment>& c) const override { call(); return d.GetOutputsByCommitment(c); }
	std::vector<BlockWithOutputs> GetBlockOutputs(const uint64_t a, const uint64_t b) const override { call(); return d.GetBlockOutputs(a, b); }
	std::unique_ptr<OutputRange> GetOutputsByLeafIndex(const uint64_t s, const uint64_t m) const override { call(); if (draw(pFail / 3)) { { Kernel k; count("fault.node_not_ready"); } return nullptr; } { Kernel k; batches++; } return d.GetOutputsByLeafIndex(s, std::min(m, cap)); }
	bool PostTransaction(TransactionPtr t, const EPoolType) override { return d.PostTransaction(t, EPoolType::STEMPOOL); }
};
}
static void walletRestore() {
	Rng g = rng("cfg"); World w; defaultProp("W08"); int nu = 2; Flow f(w, g, nu); int nops = g.range(4, thorough() ? 60 : 24), mc = g.chance(0.5) ? 0 : g.range(1, 3); double pReorg = g.chance(0.6) ? 0.12 : 0; uint64_t cap = g.chance(0.3) ? 1000 : 1 + g.below(g.chance(0.5) ? 8 : 40); double pFail = g.chance(0.4) ? 0.25 : 0; int mode = g.below(4); int split = g.below(3); bool over = g.chance(0.3);
	phase([&] {
		f.g = rng("boot"); f.boot(mc); auto& md = f.md; int victim = (int)g.below(nu), other = 1 - victim;
		for (int i = 0; i < nops; i++) { Rng r = rng("op", i); if (!opOn(i)) continue; int u = r.chance(0.65) ? victim : other; double c = r.below(1000) / 1000.0;
			if (c < 0.25) f.mine(r, r.chance(0.2) ? r.range(2, 6) : 1); else if (c < 0.25 + pReorg) f.reorg(r);
			else switch (r.below(10)) { case 0: case 1: case 2: opSend(f, r, u); break;
				case 3: case 4: case 5: { if (md.x.empty()) { opSend(f, r, u); break; } int k = (int)md.x.size() - 1 - (int)r.below(std::min<size_t>(3, md.x.size())); opReceive(f, r, 1 - md.x[k].e.from, k); break; }
				case 6: case 7: case 8: { std::vector<int> c2; for (size_t k = 0; k < md.x.size(); k++) if (!md.x[k].e.s2.empty() && !md.x[k].e.finalised) c2.push_back((int)k); if (!c2.empty()) opFinalize(f, r, c2.back()); break; } default: opCancel(f, r, u); } }
		{ Rng r = rng("last"); f.mine(r, r.range(1, 3)); }
		for (int u = 0; u < nu; u++) f.m.wm->CheckForOutputs(f.m.users[u].tokens.back(), false);
		Acct was = md.a[victim]; { WView v = f.view(victim); for (auto& kv : v.out) { was.paths.insert({ kv.second.path, kv.first }); SIM_CHECK("W06", was.own.count(kv.first), "the wallet lists an output that it never made"); } } SecureString words(f.m.users[victim].words); f.m.close();
		// blocks that arrive once the restoration has begun, perhaps on another branch
		int at = f.L->tip; std::vector<int> rest; { Rng r = rng("later"); int par = at; if (mode == 2) for (int i = r.range(1, 4); i && w.b[par].height > 28; i--) par = w.b[par].parent; int from = par, len = mode == 0 ? 0 : (int)(w.b[at].height - w.b[par].height) + r.range(1, 5); std::vector<TransactionPtr> back = f.L->mem; for (auto& s : md.x) if (s.e.tx && std::find_if(back.begin(), back.end(), [&](auto& b) { return *b == *s.e.tx; }) == back.end()) back.push_back(s.e.tx);
			for (int i = 0; i < len; i++) { std::vector<TransactionPtr> v; for (auto& t : back) if (r.chance(0.7) && f.L->fits(*t, par, v)) v.push_back(t); par = w.mine(par, v, from == at ? 1 : 3); rest.push_back(par); } }
		Node n; n.cfg["WALLET"]["MIN_CONFIRMATIONS"] = mc; n.init(root() + "/w"); n.open(); std::string exc; auto feed = [&](int id) { auto st = addBlockSafe(n, *w.b[id].full, &exc); (void)st; };
		std::set<int> tail(rest.begin(), rest.end()); for (size_t i = 1; i < w.b.size(); i++) if (!tail.count((int)i)) feed((int)i); int T = tipOf(n, w, EChainType::CONFIRMED); if (T < 0 || w.b[T].td != w.b[at].td) { note("the node is at %d instead of %d", T, at); n.close(); return; }
		auto rn = std::make_shared<RealNode>(n, cap); rn->pFail = pFail; f.m.ctx = n.ctx; f.m.wm = WalletAPI::CreateWalletManager(n.ctx->GetConfig(), rn); auto old = f.m.users; WUser me; me.name = "restored"; me.pass = "new pass"; me.words = words; std::string rerr; try { auto lr = f.m.wm->RestoreFromSeed(RestoreWalletCriteria(me.name, SecureString(me.pass), SecureString(words)), nullptr); me.tokens.push_back(lr.GetToken()); me.port = lr.GetPort(); } catch (const std::exception& e) { rerr = e.what(); if (rerr.empty()) rerr = "?"; } SIM_CHECK("W08", rerr.empty(), "the wallet could not be restored from its words: %s", rerr.c_str());
		auto token = me.tokens.back(); int tries = 0, bad = 0; bool overlap = false;
		auto scan = [&](bool full) { try { f.m.wm->CheckForOutputs(token, full); return true; } catch (const std::exception& e) { bad++; note("a scan fails: %s", e.what()); count("reach.scan_failed"); return false; } };
		if (split == 1 || mode == 0) { while (!scan(tries > 0 && g.chance(0.3)) && tries++ < 4); }
		if (!rest.empty()) { count("reach.tip_moves"); std::thread th([&] { for (int id : rest) { feed(id); if (over) sim::yield(); } }); for (int i = 0; i < 1 + split; i++) { scan(false); overlap = true; } th.join(); }
		int T2 = tipOf(n, w, EChainType::CONFIRMED); bool moved = !w.isAncestor(T, T2); note("node at %d (height %lu), %lu batches, %lu outages%s%s", T2, w.b[T2].height, rn->batches, rn->fails, moved ? ", reorganised during the scan" : "", overlap ? ", tip moving" : "");
		// everything has calmed down: one more scan, a full one where a reorganisation crossed an earlier scan
		rn->pFail = 0; f.L->mem.clear(); f.L->setTip(T2); { bool ok = scan(moved); SIM_CHECK("W08", ok, "a scan of an unchanging chain failed"); f.m.attach(me); SIM_CHECK("W08", me.seed == old[victim].seed, "the restored wallet has another seed"); } if (rn->batches > 3) count("reach.many_batches"); if (rn->fails || overlap) count("nontrivial");
		// the restored wallet is the victim from here on, with nothing pending
		for (auto& s : md.x) if (s.e.from == victim) s.e.cancelled = true; Acct now; now.u = victim; now.paths = was.paths; size_t kinds[3] = { 0, 0, 0 };
		for (auto& kv : was.own) if (auto* c = md.onChain(kv.first)) { (void)c; Own o = kv.second; o.rescan = false; o.ex = -1; o.seen = true; now.own[kv.first] = o; kinds[o.kind == 'm' ? 0 : o.kind == 'c' ? 1 : 2]++; }
		md.a[victim] = now; f.m.users = old; f.m.users[victim] = me; md.P4 = "W08"; md.strictRescan = true; { WView v = f.view(victim); for (auto& kv : v.out) if (!now.own.count(kv.first)) { auto it = was.own.find(kv.first); SIM_CHECK("W08", it != was.own.end(), "the restored wallet lists an output that never was its own"); Own o = it->second; o.rescan = false; o.ex = -1; o.seen = true; md.a[victim].own[kv.first] = o; } note("restored %zu of %zu outputs", v.out.size(), now.own.size()); }
		{ Rng r = rng("ar"); md.audit(victim, r, moved ? "after the full scan" : "after the scan"); } if (kinds[0]) count("reach.coinbases"); if (kinds[1]) count("reach.change"); if (kinds[2]) count("reach.received"); count("checks.restored_outputs", now.own.size());
		// it can be used
		{ auto e = f.m.login(other); SIM_CHECK("W02", e.empty(), "login failed: %s", e.c_str()); }
		for (int i = 0; i < 6; i++) { Rng r = rng("use", i); if (!opOn(1000 + i)) continue; size_t before = md.x.size(); opSend(f, r, victim); if (md.x.size() > before) { int k = (int)md.x.size() - 1; if (r.chance(0.9)) { opReceive(f, r, other, k); if (r.chance(0.9) && !md.x[k].e.s2.empty()) opFinalize(f, r, k); } } else opSend(f, r, other);
			if (r.chance(0.6)) { size_t nb = w.b.size(); f.mine(r, 1); for (size_t b = nb; b < w.b.size(); b++) feed((int)b); int t = tipOf(n, w, EChainType::CONFIRMED); if (t != f.L->tip) { note("the node did not take block: %s", exc.c_str()); break; } }
			WView v = f.view(victim); md.notePaths(victim, v, "after the restored wallet was used"); md.audit(victim, r, "after the restored wallet was used"); count("reach.restored_used"); }
		for (auto& u : f.m.users) { u.tokens.clear(); u.db.reset(); } me.db.reset(); for (auto& u : old) u.db.reset(); f.m.wm.reset(); f.m.ctx.reset(); rn.reset(); n.close();
	}, swarmSched(rng("swarm"), true));
}
SCENARIO("wallet_restore", "W08,W06,W04", walletRestore);
