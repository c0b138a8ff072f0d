// Several sessions of several users acting on their wallets at once (W03, W05, W06, W07).
#include "walletmodel.h"
#include "simweb.h"
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <algorithm>
#include <thread>
using namespace sim;
namespace {
struct Ses { int u; SessionToken t; uint16_t port; long b, e, lob = -1, loe = -1; };
struct Xc { int from; Slate s1; std::vector<std::pair<int, Slate>> s2; int ev = -1; };
enum { K_SEND = 1, K_RECV, K_FIN, K_CANCEL, K_REFRESH, K_COINBASE, K_LOGIN, K_LOGOUT, K_BAD, K_PASS, K_SEED, K_TMP, K_MINE, K_ADDR };
struct E { int kind, u, s = -1, xi = -1, si = -1; long b = 0, e = 0; bool ok = false; uint64_t amount = 0; int outs = 0; std::optional<Slate> slate; std::string err, path, commit; uint32_t txId = 0; bool recvSide = false, must = false; };
struct Pw { int u; long b, e; std::string from, to; bool ok; };
struct Threads {
	World& w; std::shared_ptr<Ledger> L; Machine m; WModel md; int nu; long tick = 0; std::vector<std::shared_ptr<Ses>> ses; std::vector<std::shared_ptr<Xc>> xc; std::vector<E> ev; std::vector<Pw> pws; std::vector<int> incs; std::map<std::string, std::pair<long, long>> tmpGone;
	Threads(World& w, int nu) : w(w), L(std::make_shared<Ledger>(w)), md(w, L, m), nu(nu), incs(nu) {}
	long now() { return ++tick; }
	std::shared_ptr<Ses> some(Rng& r, int u = -1) { std::vector<std::shared_ptr<Ses>> v; for (auto& s : ses) if (u < 0 || s->u == u) v.push_back(s); if (v.empty()) return nullptr; if (r.chance(0.8)) { std::vector<std::shared_ptr<Ses>> l; for (auto& s : v) if (s->lob < 0) l.push_back(s); if (!l.empty()) return l[r.below(l.size())]; } return v[r.below(v.size())]; }
	std::multimap<std::shared_ptr<Ses>, long> infl;
	// may the user's password be another than the one last seen set? (a change overlaps the time since b, or two changes overlapped each other and either may have been written last)
	bool changing(int u, long b, size_t skip = ~(size_t)0) { for (size_t i = 0; i < pws.size(); i++) { auto& p = pws[i]; if (p.u != u || i == skip) continue; if (p.e < 0 || p.e >= b) return true; for (size_t j = 0; j < i; j++) if (pws[j].u == u && pws[j].ok && p.ok && (pws[j].e < 0 || pws[j].e >= p.b)) return true; } return false; }
	// is an operation of a session that was ended meanwhile still using the user's database? (SQLite then may find it busy)
	bool leftover(int u, long b) { for (auto& s : ses) if (s->u == u && s->lob >= 0 && (s->loe < 0 || s->loe >= b)) return true; for (auto& i : infl) if (i.first->u == u && i.first->lob >= 0) return true; for (auto& e : ev) if (e.u == u && e.s >= 0 && e.e >= b && ses[e.s]->lob >= 0) return true; return false; }
	void add(E e) { Kernel k; e.e = now(); ev.push_back(e); }
	// a request with a session: judged by whether the session was there
	template<class F> E act(int kind, std::shared_ptr<Ses> s, const F& f, E e = E()) {
		{ Kernel k; e.kind = kind; e.u = s->u; e.b = now(); for (size_t i = 0; i < ses.size(); i++) if (ses[i] == s) e.s = (int)i; infl.insert({ s, e.b }); }
		try { f(e); e.ok = true; } catch (const std::exception& x) { Kernel k; e.err = x.what(); if (e.err.empty()) e.err = "?"; }
		Kernel k; e.e = now(); infl.erase(infl.find(s)); SIM_CHECK("W07", !(e.ok && s->loe >= 0 && s->loe <= e.b), "a request with the token of a session that had logged out was served");
		if (!e.ok && kind == K_REFRESH && s->lob < 0 && !leftover(s->u, e.b)) violation("W07", "a refresh in a live session failed: %s", e.err.c_str());
		if (!e.ok && kind == K_COINBASE && s->lob < 0 && !leftover(s->u, e.b)) violation("W07", "building a coinbase in a live session failed: %s", e.err.c_str());
		note("%s u%d s%d x%d -> %s", kind == K_SEND ? "send" : kind == K_RECV ? "receive" : kind == K_FIN ? "finalise" : kind == K_CANCEL ? "cancel" : kind == K_REFRESH ? "refresh" : kind == K_COINBASE ? "coinbase" : kind == K_ADDR ? "address" : "?", e.u, e.s, e.xi, e.ok ? "ok" : e.err.substr(0, 70).c_str());
		ev.push_back(e); return e;
	}
};
std::string rpc(const char* method, const Slate& s) { Json::Value rq, p(Json::arrayValue); p.append(s.ToJSON()); if (!strcmp(method, "receive_tx")) { p.append(Json::nullValue); p.append(Json::nullValue); } rq["jsonrpc"] = "2.0"; rq["id"] = 1; rq["method"] = method; rq["params"] = p; return JsonUtil::WriteCondensed(rq); }
Slate rpcResult(const simweb::Resp& rs) { if (rs.refused) throw std::runtime_error("connection refused"); Json::Value j; JsonUtil::Parse(rs.body, j); if (j.isMember("result") && j["result"].isMember("Ok")) return Slate::FromJSON(j["result"]["Ok"]); throw std::runtime_error(rs.body.substr(0, 200)); }
void oneOp(Threads& T, Rng r, int th, int i, const std::vector<int>& menu) {
	auto& m = T.m; int kind = menu[r.below(menu.size())]; std::shared_ptr<Ses> s; std::shared_ptr<Xc> x; int xi = -1;
	{ Kernel k; s = T.some(r); if (!T.xc.empty()) { xi = (int)(r.chance(0.5) ? r.below(T.xc.size()) : T.xc.size() - 1 - r.below(std::min<size_t>(3, T.xc.size()))); x = T.xc[xi]; } } if (!s) return;
	switch (kind) {
	case K_SEND: { uint64_t amount = 1 + r.below(r.chance(0.7) ? 20000000000ull : 120000000000ull); int outs = r.range(1, 2); auto st = r.chance(0.5) ? ESelectionStrategy::SMALLEST : r.chance(0.3) ? ESelectionStrategy::ALL : ESelectionStrategy::FEWEST_INPUTS; E e; e.amount = amount; e.outs = outs;
		e = T.act(K_SEND, s, [&](E& q) { q.slate = m.wm->Send(SendCriteria(SessionToken(s->t), std::make_optional(amount), 500000, (uint8_t)outs, SelectionStrategyDTO(st, {}), std::nullopt, std::nullopt)); }, e);
		if (e.ok) { Kernel k; auto n = std::make_shared<Xc>(); n->from = s->u; n->s1 = *e.slate; T.xc.push_back(n); T.ev.back().xi = (int)T.xc.size() - 1; count("reach.send"); } else count("reach.send_refused"); break; }
	case K_RECV: { if (!x) break; { Kernel k; auto o = T.some(r, (x->from + 1) % T.nu); if (o) s = o; } if (s->u == x->from) break; bool foreign = r.chance(0.4); E e; e.xi = xi; std::shared_ptr<Ses> firm; long b; { Kernel k; b = T.tick; for (auto& q : T.ses) if (q->u == s->u && q->lob < 0) firm = q; } (void)b;
		if (foreign) { bool refused = false; { Kernel k; e.kind = K_RECV; e.u = s->u; e.b = T.now(); }
			try { auto rs = simweb::request(s->port, "POST", "/v2/foreign", "", rpc("receive_tx", x->s1)); refused = rs.refused; e.slate = rpcResult(rs); e.ok = true; } catch (const std::exception& q) { Kernel k; e.err = q.what(); }
			Kernel k; e.e = T.now(); bool live = firm && firm->lob < 0 && firm->port == s->port; SIM_CHECK("W07", !(refused && live), "the listener of a user with a live session refused a request"); note("receive over the listener of u%d x%d -> %s", e.u, xi, e.ok ? "ok" : e.err.substr(0, 70).c_str()); T.ev.push_back(e); count("reach.receive_listener"); }
		else e = T.act(K_RECV, s, [&](E& q) { q.slate = m.wm->Receive(ReceiveCriteria(SessionToken(s->t), std::nullopt, Slate(x->s1), std::nullopt)); }, e);
		if (e.ok) { Kernel k; x->s2.push_back({ e.u, *e.slate }); count("reach.receive"); } break; }
	case K_FIN: { { Kernel k; std::vector<int> v; for (size_t q = 0; q < T.xc.size(); q++) if (!T.xc[q]->s2.empty()) v.push_back((int)q); if (v.empty()) break; xi = v[r.below(v.size())]; x = T.xc[xi]; auto o = T.some(r, x->from); if (o) s = o; } if (s->u != x->from) break;
		E e; e.xi = xi; Slate s2; { Kernel k; e.si = (int)r.below(x->s2.size()); s2 = x->s2[e.si].second; } bool post = r.chance(0.6);
		if (r.chance(0.2)) { { Kernel k; e.kind = K_FIN; e.u = s->u; e.b = T.now(); } try { rpcResult(simweb::request(s->port, "POST", "/v2/foreign", "", rpc("finalize_tx", s2))); e.ok = true; } catch (const std::exception& q) { Kernel k; e.err = q.what(); } Kernel k; e.e = T.now(); note("finalise over the listener of u%d x%d -> %s", e.u, xi, e.ok ? "ok" : e.err.substr(0, 70).c_str()); T.ev.push_back(e); }
		else e = T.act(K_FIN, s, [&](E&) { m.wm->Finalize(FinalizeCriteria(SessionToken(s->t), std::nullopt, Slate(s2), post ? std::make_optional(PostMethodDTO(EPostMethod::FLUFF, std::nullopt)) : std::nullopt), nullptr); }, e);
		count(e.ok ? "reach.finalise" : "reach.finalise_refused"); break; }
	case K_CANCEL: { if (!x) break; E e; e.xi = xi; int u = s->u; bool mine = u == x->from; bool there = mine; { Kernel k; for (auto& q : x->s2) there |= q.first == u; } if (!there) break; e.recvSide = !mine;
		e = T.act(K_CANCEL, s, [&](E& q) { auto wl = m.wm->GetWallet(s->t); auto tx = mine ? wl.Read()->GetTransactionBySlateId(x->s1.GetId()) : wl.Read()->GetTransactionBySlateId(x->s1.GetId(), EWalletTxType::RECEIVING_IN_PROGRESS); q.txId = tx.GetId(); wl.Write()->CancelTx(q.txId); }, e);
		if (e.ok) count("reach.cancel"); break; }
	case K_REFRESH: T.act(K_REFRESH, s, [&](E&) { if (r.chance(0.5)) m.wm->CheckForOutputs(s->t, r.chance(0.2)); else m.wm->GetWallet(s->t).Read()->GetBalance(); }); break;
	case K_COINBASE: T.act(K_COINBASE, s, [&](E& q) { auto cb = m.wm->GetWallet(s->t).Write()->BuildCoinbase(BuildCoinbaseCriteria(s->t, 0, std::nullopt)); q.path = cb.GetPath().Format(); q.commit = cb.GetOutput().GetCommitment().ToHex(); }); count("reach.coinbase"); break;
	case K_ADDR: { auto e = T.act(K_ADDR, s, [&](E&) { m.wm->IncreaseAddressKeyChainPathIndex(s->t); }); if (e.ok) { Kernel k; T.incs[s->u]++; } break; }
	case K_LOGIN: { int u = (int)r.below(T.nu); std::string pw; long b; { Kernel k; pw = m.users[u].pass; b = T.now(); } bool wrong = r.chance(0.15); std::string err; std::shared_ptr<Ses> n;
		try { auto rs = m.wm->Login(LoginCriteria(m.users[u].name, SecureString(wrong ? pw + "x" : pw)), nullptr); Kernel k; n = std::make_shared<Ses>(Ses{ u, rs.GetToken(), rs.GetPort(), b, T.now() }); } catch (const std::exception& x) { Kernel k; err = x.what(); if (err.empty()) err = "?"; }
		Kernel k; note("login u%d%s -> %s", u, wrong ? " (wrong password)" : "", n ? "ok" : err.substr(0, 60).c_str()); if (wrong) { SIM_CHECK("W07", !n, "a login with a wrong password succeeded"); count("reach.wrong_password"); break; }
		if (!n) { bool why = T.changing(u, b); if (!why && T.leftover(u, b)) { why = true; count("reach.login_busy"); } SIM_CHECK("W07", why, "a login with the right password failed: %s", err.c_str()); } else { T.ses.push_back(n); count("reach.login"); } break; }
	case K_LOGOUT: { { Kernel k; if (s->lob < 0) s->lob = T.now(); } std::string err; try { m.wm->Logout(s->t); } catch (const std::exception& x) { Kernel k; err = x.what(); } Kernel k; note("logout u%d -> %s", s->u, err.empty() ? "ok" : err.c_str()); if (s->loe < 0) s->loe = T.now(); count("reach.logout"); break; }
	case K_BAD: { SessionToken bad = s->t; std::string how; std::shared_ptr<Ses> victim = s; { Kernel k; auto key = s->t.GetTokenKey(); uint64_t id = s->t.GetSessionId(); auto o = T.some(r);
		switch (r.below(5)) { case 0: key[r.below(key.size())] ^= 1 << r.below(8); how = "altered key"; break; case 1: key.resize(r.below(key.size())); how = "shortened key"; break; case 2: if (o == s) { key.assign(key.size(), 0); how = "zero key"; } else { id = o->t.GetSessionId(); victim = o; how = "other session's number"; } break; case 3: key.push_back(1); how = "longer key"; break; default: key.clear(); how = "empty key"; } bad = SessionToken(id, key); }
		bool ok = false; std::string what; int a = r.below(6); try { switch (a) { case 0: what = "logout"; m.wm->Logout(bad); break; case 1: what = "refresh"; m.wm->CheckForOutputs(bad, false); break; case 2: what = "wallet access"; m.wm->GetWallet(bad); break; case 3: what = "address change"; m.wm->IncreaseAddressKeyChainPathIndex(bad); break; case 4: what = "finalise"; if (x && !x->s2.empty()) { m.wm->Finalize(FinalizeCriteria(SessionToken(bad), std::nullopt, Slate(x->s2[0].second), std::nullopt), nullptr); } else throw std::runtime_error("nothing"); break; default: what = "send"; m.wm->Send(SendCriteria(SessionToken(bad), std::make_optional<uint64_t>(1), 500000, (uint8_t)1, SelectionStrategyDTO(ESelectionStrategy::SMALLEST, {}), std::nullopt, std::nullopt)); } ok = true; } catch (const std::exception&) { }
		Kernel k; note("%s with an %s token -> %s", what.c_str(), how.c_str(), ok ? "ok" : "refused"); count("fault.bad_token"); if (ok && a == 0) ok = false; SIM_CHECK("W07", !ok, "a %s with an %s of a session token was served", what.c_str(), how.c_str()); break; }
	case K_PASS: { int u = (int)r.below(T.nu); std::string to = "pw" + std::to_string(th) + "_" + std::to_string(i), from; size_t pi; { Kernel k; from = m.users[u].pass; pi = T.pws.size(); T.pws.push_back({ u, T.now(), -1, from, to, false }); } bool ok = false; try { m.wm->ChangePassword(m.users[u].name, SecureString(from), SecureString(to)); ok = true; } catch (const std::exception&) { }
		Kernel k; T.pws[pi].e = T.now(); T.pws[pi].ok = ok; if (ok) m.users[u].pass = to; else { SIM_CHECK("W07", T.changing(u, T.pws[pi].b, pi), "a password change with the right password failed"); } note("password u%d -> %d", u, ok); count("reach.password"); break; }
	case K_SEED: { int u = (int)r.below(T.nu); std::string pw, got, err; long b; { Kernel k; pw = m.users[u].pass; b = T.now(); } try { auto x_ = m.wm->GetSeedWords(GetSeedPhraseCriteria(m.users[u].name, SecureString(pw))); Kernel k; got = x_.c_str(); } catch (const std::exception& e) { Kernel k; err = e.what(); }
		Kernel k; bool changing = T.changing(u, b); if (err.empty()) SIM_CHECK("W07", got == std::string(m.users[u].words.c_str()), "the recovery words of another wallet were shown"); else SIM_CHECK("W07", changing, "the recovery words were refused: %s", err.c_str()); break; }
	case K_TMP: { std::string name = "tmp" + std::to_string(r.below(2)), pw = "t" + std::to_string(th) + "_" + std::to_string(i), words; std::shared_ptr<Ses> n; SessionToken tk(0, std::vector<unsigned char>()); bool ok = false; try { auto rs = m.wm->InitializeNewWallet(CreateWalletCriteria(GrinStr(name), SecureString(pw), 12), nullptr); Kernel k; ok = true; tk = rs.GetToken(); words = std::string(rs.GetSeed().c_str()); } catch (const std::exception&) { } { Kernel k; note("create %s -> %d", name.c_str(), ok); } if (!ok) break; count("reach.create");
		auto seeds = [&](const char* when) { std::string got, err; try { auto q = m.wm->GetSeedWords(GetSeedPhraseCriteria(GrinStr(name), SecureString(pw))); Kernel k; got = q.c_str(); } catch (const std::exception& e) { Kernel k; err = e.what(); } Kernel k; SIM_CHECK("W07", err.empty() && got == words, "%s the wallet that was just created has other words or another password (%s)", when, err.c_str()); };
		seeds("while others act,"); if (r.chance(0.5)) { bool d = false; try { m.wm->DeleteWallet(GrinStr(name), SecureString(pw)); d = true; } catch (const std::exception&) { } Kernel k; SIM_CHECK("W07", !d, "a wallet with a session was deleted"); }
		{ std::string err; try { m.wm->CheckForOutputs(tk, false); } catch (const std::exception& e) { Kernel k; err = e.what(); } Kernel k; SIM_CHECK("W07", err.empty(), "a new wallet cannot be used: %s", err.c_str()); }
		m.wm->Logout(tk); seeds("after its logout,"); bool d = false; std::string err; try { m.wm->DeleteWallet(GrinStr(name), SecureString(pw)); d = true; } catch (const std::exception& e) { Kernel k; err = e.what(); } Kernel k; SIM_CHECK("W07", d, "a wallet without a session cannot be deleted: %s", err.c_str()); note("deleted %s", name.c_str()); break; }
	case K_MINE: { Kernel k; int id = T.w.mine(T.L->tip, {}, 1); T.L->setTip(id); note("block %d", id); break; }
	}
}
}
static void walletThreads() {
	Rng g = rng("cfg"); World w; defaultProp("W07"); int nu = 2; Threads T(w, nu); int nth = g.range(2, 4), nops = g.range(2, thorough() ? 12 : 7), flavour = g.below(4), extra = g.range(0, 2), exch = g.range(0, 3); bool tight = g.chance(0.5), bye = g.chance(0.3);
	std::vector<int> menu; switch (flavour) { case 0: menu = { K_SEND, K_SEND, K_SEND, K_REFRESH, K_CANCEL, K_COINBASE, K_MINE }; break; case 1: menu = { K_RECV, K_RECV, K_FIN, K_FIN, K_CANCEL, K_SEND, K_REFRESH, K_COINBASE }; break; case 2: menu = { K_LOGIN, K_LOGIN, K_LOGOUT, K_LOGOUT, K_RECV, K_REFRESH, K_BAD, K_PASS, K_SEED, K_TMP, K_ADDR }; break; default: menu = { K_SEND, K_RECV, K_FIN, K_CANCEL, K_REFRESH, K_COINBASE, K_LOGIN, K_LOGOUT, K_BAD, K_PASS, K_SEED, K_TMP, K_MINE, K_ADDR }; }
	SchedCfg sc = swarmSched(rng("swarm"), true); if (tight && sc.mode == 1) sc.pYield = 0.3;
	phase([&] {
		auto& m = T.m; auto& md = T.md; m.init(root() + "/w", T.L, 0); m.open(); Rng b = rng("boot");
		{ for (int u = 0; u < nu; u++) { auto e = m.create("user" + std::to_string(u), "pass" + std::to_string(u)); SIM_CHECK("W07", e.empty(), "wallet creation failed: %s", e.c_str()); md.addUser(); }
		int tip = 0; int own = b.range(3, 8); for (int i = 0; i < own; i++) tip = md.mineFor(i % nu, b, tip, {}); for (int i = 0; i < 27; i++) tip = md.mineFor(-1, b, tip, {}); md.moveTip(tip);
		for (int i = 0; i < extra; i++) { auto e = m.login((int)b.below(nu)); SIM_CHECK("W07", e.empty(), "a second login failed: %s", e.c_str()); } }
		for (int u = 0; u < nu; u++) for (auto& t : m.users[u].tokens) T.ses.push_back(std::make_shared<Ses>(Ses{ u, t, m.users[u].port, 0, 0 }));
		for (int i = 0; i < exch; i++) { int u = (int)b.below(nu); std::shared_ptr<Ses> s = T.some(b, u); auto e = T.act(K_SEND, s, [&](E& q) { q.amount = 1 + b.below(5000000000); q.outs = 1; q.slate = m.wm->Send(SendCriteria(SessionToken(s->t), std::make_optional(q.amount), 500000, (uint8_t)1, SelectionStrategyDTO(ESelectionStrategy::SMALLEST, {}), std::nullopt, std::nullopt)); }); if (!e.ok) continue; auto n = std::make_shared<Xc>(); n->from = u; n->s1 = *e.slate; T.xc.push_back(n); T.ev.back().xi = (int)T.xc.size() - 1;
			if (b.chance(0.6)) { auto o = T.some(b, 1 - u); E re; re.xi = (int)T.xc.size() - 1; re = T.act(K_RECV, o, [&](E& q) { q.slate = m.wm->Receive(ReceiveCriteria(SessionToken(o->t), std::nullopt, Slate(n->s1), std::nullopt)); }, re); if (re.ok) n->s2.push_back({ 1 - u, *re.slate }); } }
		note("---- %d threads", nth); std::vector<std::thread> th; for (int t = 0; t < nth; t++) th.emplace_back([&, t] { for (int i = 0; i < nops; i++) { if (!opOn(t * 32 + i)) continue; oneOp(T, rng("op", t, i), t, i, menu); } });
		for (auto& t : th) t.join(); note("---- joined"); count("nontrivial");
		// sessions
		for (auto& s : T.ses) { std::string err; try { m.wm->CheckForOutputs(s->t, false); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } if (s->lob >= 0) SIM_CHECK("W07", !err.empty(), "the token of a session that has logged out still works"); else SIM_CHECK("W07", err.empty(), "a session that nobody ended no longer works: %s", err.c_str()); }
		// what was done
		std::map<int, int> xmap; std::vector<WView> v; std::vector<std::string> now; for (int u = 0; u < nu; u++) v.push_back(viewOf(m.db(u), m.users[u].seed, false)); count("checks.joined");
		std::map<std::pair<int, uint32_t>, int> cancels; std::map<int, std::vector<const E*>> fin, can; for (auto& e : T.ev) if (e.ok) { if (e.kind == K_CANCEL) { int n = ++cancels[std::make_pair(e.u, e.txId)]; SIM_CHECK("W05", n == 1, "one transaction was cancelled twice"); if (!e.recvSide) can[e.xi].push_back(&e); } if (e.kind == K_FIN) fin[e.xi].push_back(&e); }
		auto cancelled = [&](int xi) { return can.count(xi) > 0; };
		for (int pass = 0; pass < 2; pass++) for (auto& e : T.ev) if (e.ok && e.kind == K_SEND && cancelled(e.xi) == (pass == 0)) { bool strange = false; for (auto& t : v[1 - e.u].tx) if (t.second.slate == uuids::to_string(e.slate->GetId()) && t.second.type != RECEIVING_IN_PROGRESS && t.second.type != RECEIVED && t.second.type != RECEIVED_CANCELED) strange = true; SIM_CHECK("W07", !strange, "a send was recorded in another user's wallet"); int id = md.recordSend(e.u, *e.slate, e.amount, false, e.outs, v[e.u], "a concurrent send"); xmap[e.xi] = id; if (cancelled(e.xi)) md.x[id].e.cancelled = true; }
		std::map<std::pair<int, int>, int> rc, rx; for (auto& e : T.ev) if (e.ok && e.kind == K_CANCEL && e.recvSide) rx[{ e.xi, e.u }]++; for (auto& e : T.ev) if (e.ok && e.kind == K_RECV) { int n = ++rc[{ e.xi, e.u }], lim = 1 + rx[{ e.xi, e.u }]; SIM_CHECK("W05", n <= lim, "one payment was received %d times by the same wallet", n); md.recordReceive(e.u, xmap[e.xi], *e.slate, v[e.u]); }
		for (auto& q : rx) md.x[xmap[q.first.first]].e.recvCancelled[q.first.second] += q.second;
		for (auto& f : fin) { auto& q = md.x[xmap[f.first]]; SIM_CHECK("W05", f.second.size() == 1, "one payment was finalised %zu times", f.second.size()); const TxV* t = nullptr; for (auto& k : v[q.e.from].tx) if (k.second.slate == q.e.id) t = &k.second; SIM_CHECK("W05", t, "a finalised payment is not recorded"); if (cancelled(f.first)) { SIM_CHECK("W05", f.second[0]->b < can[f.first][0]->e, "a payment was finalised after it was cancelled"); SIM_CHECK("W05", t->type == SENT_CANCELED, "a payment finalised and cancelled is recorded as %s", txName(t->type)); count("reach.finalised_and_cancelled"); } else SIM_CHECK("W05", t->type == SENDING_FINALIZED, "a finalised payment is recorded as %s", txName(t->type));
			auto wt = m.db(q.e.from).Read()->GetTransactionById(m.users[q.e.from].seed, t->id); md.recordFinal(xmap[f.first], T.xc[f.first]->s2[f.second[0]->si].second, wt->GetTransaction().value(), "a concurrent finalisation"); }
		for (auto& e : T.ev) if (e.ok && e.kind == K_COINBASE) { auto pr = md.a[e.u].paths.insert({ e.path, e.commit }); SIM_CHECK("W06", pr.second || pr.first->second == e.commit, "a coinbase was built with the key %s of an earlier output", e.path.c_str()); if (!pr.second) violation("W06", "two coinbases were built with the key %s", e.path.c_str()); }
		for (int u = 0; u < nu; u++) { SIM_CHECK("W07", v[u].addr == T.incs[u], "%d address changes were asked for by the user, %d are recorded", T.incs[u], v[u].addr); md.notePaths(u, v[u], "after concurrent requests"); checkRecords(v[u], wantProp.empty() ? "W05" : wantProp.c_str(), "after concurrent requests"); }
		// listeners of users who are still logged in take payments
		for (int u = 0; u < nu; u++) { std::shared_ptr<Ses> live; for (auto& s : T.ses) if (s->u == u && s->lob < 0) live = s; if (!live) continue; for (size_t k = 0; k < T.xc.size(); k++) { auto& x = *T.xc[k]; if (x.from == u || rc.count({ (int)k, u }) || !xmap.count((int)k)) continue; std::string err; std::optional<Slate> s2; try { s2 = rpcResult(simweb::request(live->port, "POST", "/v2/foreign", "", rpc("receive_tx", x.s1))); } catch (const std::exception& e) { err = e.what(); } SIM_CHECK("W07", s2, "the listener of a user with a live session does not take a payment: %s", err.c_str()); md.recordReceive(u, xmap[(int)k], *s2, viewOf(m.db(u), m.users[u].seed, false)); count("reach.listener_after_join"); break; } }
		// passwords: one of those set last opens the wallet
		for (int u = 0; u < nu; u++) { m.users[u].tokens.clear(); std::set<std::string> c = { m.users[u].pass }; for (auto& p : T.pws) if (p.u == u && p.ok) c.insert(p.to); std::string err; bool in = false; for (auto& p : c) { m.users[u].pass = p; err = m.login(u); if (err.empty()) { in = true; break; } } SIM_CHECK("W07", in, "none of the passwords opens the wallet: %s", err.c_str()); }
		for (int u = 0; u < nu; u++) { Rng r = rng("a1", u); md.audit(u, r, "after concurrent requests"); }
		{ Rng r = rng("mine"); std::vector<TransactionPtr> txs; for (auto& t : T.L->mem) if (T.L->fits(*t, T.L->tip, txs)) txs.push_back(t); int id = md.mineFor(-1, r, T.L->tip, txs); md.moveTip(id); note("mined %zu transactions", txs.size()); if (!txs.empty()) count("reach.mined"); }
		for (int u = 0; u < nu; u++) { Rng r = rng("a2", u); md.audit(u, r, "once mined"); }
		if (bye) { std::vector<std::thread> v2; uint16_t port = m.users[0].port; for (int t = 0; t < 2; t++) v2.emplace_back([&, t] { Rng r = rng("bye", t); for (int i = 0; i < 3; i++) { simweb::request(port, "POST", "/v2/foreign", "", rpc("receive_tx", T.xc.empty() ? Slate() : T.xc[r.below(T.xc.size())]->s1)); } }); yield(); m.wm.reset(); for (auto& t : v2) t.join(); count("reach.shutdown_with_requests"); m.close(); }
		else m.close();
		m.open(); for (int u = 0; u < nu; u++) { auto e = m.login(u); SIM_CHECK("W07", e.empty(), "login after a restart failed: %s", e.c_str()); } m.close();
	}, sc);
}
SCENARIO("wallet_threads", "W03,W05,W06,W07", walletThreads);
