// Creating, restoring, re-keying and deleting wallets while the process is killed or the disk fails (W02).
#include "walletmodel.h"
#include <set>
using namespace sim;
namespace {
enum { LOG_STATE = 21, LOG_PEND = 22 };
struct Rec { bool there = false; std::string pass, words; };
struct SPend { int kind = 0; std::string name, pass, npass, words; };
enum { S_CREATE = 1, S_RESTORE, S_RECREATE, S_PASS, S_BADPASS, S_DELETE, S_BADDELETE, S_LOGIN, S_BADLOGIN };
const char* sName(int k) { static const char* n[] = { "nothing", "a creation", "a restoration", "a creation under an existing name", "a password change", "a password change with a wrong password", "a deletion", "a deletion with a wrong password", "a login", "a login with a wrong password" }; return n[k]; }
const char* sKey(int k) { static const char* n[] = { "nothing", "create", "restore", "recreate", "password", "bad_password", "delete", "bad_delete", "login", "bad_login" }; return n[k]; }
struct Seeds {
	World w; std::shared_ptr<Ledger> L; Machine m; std::map<std::string, Rec> r; std::map<std::string, std::vector<SessionToken>> tok; std::vector<std::string> allWords; bool failed = false, retry = false; // failed: a disk error since the last restart. retry: after a disk error a database may have been opened read-only
	Seeds() : w(0), L(std::make_shared<Ledger>(w)) {}
	void open(bool first) { if (first) m.init(root() + "/w", L, 0); m.open(); }
	void restart() { failed = false; tok.clear(); m.close(); m.open(); }
	std::string words(const std::string& n, const std::string& p, std::string* err = nullptr) { try { return std::string(m.wm->GetSeedWords(GetSeedPhraseCriteria(n, SecureString(p))).c_str()); } catch (const std::exception& e) { if (err) *err = e.what(); return ""; } }
	bool login(const std::string& n, const std::string& p, std::string* err = nullptr) { try { auto x = m.wm->Login(LoginCriteria(n, SecureString(p)), nullptr); tok[n].push_back(x.GetToken()); return true; } catch (const std::exception& e) { if (err) *err = e.what(); return false; } }
	bool create(const std::string& n, const std::string& p, std::string* words, std::string* err, int cnt = 24) { try { auto x = m.wm->InitializeNewWallet(CreateWalletCriteria(GrinStr(n), SecureString(p), cnt), nullptr); *words = std::string(x.GetSeed().c_str()); tok[n].push_back(x.GetToken()); return true; } catch (const std::exception& e) { *err = e.what(); return false; } }
	void logout(const std::string& n) { for (auto& t : tok[n]) m.wm->Logout(t); tok.erase(n); }
	void intact(const std::string& n, const char* when, bool alsoLogin) {
		auto& x = r[n]; if (!x.there) return; std::string e, g = words(n, x.pass, &e); SIM_CHECK("W02", !g.empty(), "%s: the seed of an existing wallet cannot be read with its password: %s", when, e.c_str()); SIM_CHECK("W02", g == x.words, "%s: the seed of an existing wallet is another one", when);
		std::string bad; SIM_CHECK("W02", words(n, x.pass + "x", &bad).empty(), "%s: a wrong password shows the seed", when);
		if (alsoLogin) { bool in = login(n, x.pass, &e); if (!in && retry) { restart(); in = login(n, x.pass, &e); } SIM_CHECK("W02", in, "%s: an existing wallet cannot be opened with its password: %s", when, e.c_str()); } count("checks.seed_intact"); }
	std::string save() { Pack k; k.u(r.size()); for (auto& q : r) { k.str(q.first); k.u(q.second.there); k.str(q.second.pass); k.str(q.second.words); } k.u(allWords.size()); for (auto& q : allWords) k.str(q); return k.s; }
	void load(const std::string& s) { Unpack k{ s }; for (auto n = k.u(); n; n--) { auto h = k.str(); auto& q = r[h]; q.there = k.u(); q.pass = k.str(); q.words = k.str(); } for (auto n = k.u(); n; n--) allWords.push_back(k.str()); }
	// what an interrupted or failed operation may have left
	void resolve(const SPend& p, const char* how) {
		struct On { bool& b; On(bool& b) : b(b) { b = true; } ~On() { b = false; } } on(retry);
		auto& x = r[p.name]; std::string when = std::string("after ") + sName(p.kind) + " cut short by " + how, e, e2, e3; const char* wn = when.c_str();
		if (p.kind == S_PASS) { std::string a = words(p.name, p.pass, &e), b = words(p.name, p.npass, &e2); SIM_CHECK("W02", !a.empty() || !b.empty(), "%s: neither password gives the seed: %s / %s", wn, e.c_str(), e2.c_str()); SIM_CHECK("W02", a.empty() || b.empty(), "%s: both passwords give a seed", wn); SIM_CHECK("W02", (a.empty() ? b : a) == x.words, "%s: the seed is another one", wn); x.pass = a.empty() ? p.npass : p.pass; count(a.empty() ? "reach.cut_short_done" : "reach.cut_short_not_done"); intact(p.name, wn, true); return; }
		if (p.kind == S_CREATE || p.kind == S_RESTORE || p.kind == S_DELETE) {
			std::string g = words(p.name, p.pass, &e); bool usable = !g.empty() && login(p.name, p.pass, &e); if (!g.empty() && !usable) { restart(); usable = login(p.name, p.pass, &e); }
			if (usable) { if (!p.words.empty()) SIM_CHECK("W02", g == p.words, "%s: the wallet can be opened and has another seed", wn); x.there = true; x.pass = p.pass; x.words = g; allWords.push_back(g); count(p.kind == S_DELETE ? "reach.cut_short_not_done" : "reach.cut_short_done"); return; }
			std::string wd; if (!create(p.name, p.pass + "n", &wd, &e2)) {
				bool again = false; if (p.kind == S_DELETE) { try { m.wm->DeleteWallet(p.name, SecureString(p.pass)); again = true; } catch (const std::exception& ex) { e3 = ex.what(); } if (again) again = create(p.name, p.pass + "n", &wd, &e3); }
				SIM_CHECK("W02", again, "%s: the name can neither be opened (%s) nor created again (%s) %s", wn, e.c_str(), e2.c_str(), e3.c_str()); }
			x.there = true; x.pass = p.pass + "n"; x.words = wd; allWords.push_back(wd); count(p.kind == S_DELETE ? "reach.cut_short_done" : "reach.cut_short_not_done"); intact(p.name, "after creating the name again", true); return; }
		intact(p.name, wn, true);
	}
};
// one operation; before(p) is called right before the wallet call, after() right after it and says whether a fault struck. returns the pending record if the outcome must be resolved
void seedOp(Seeds& s, Rng& r, int i, const std::vector<std::string>& names, const std::function<void(const SPend&)>& before, const std::function<bool()>& after) {
	SPend p; p.name = names[r.below(names.size())]; auto& x = s.r[p.name]; int c = r.below(12); std::string err, wd; bool ok = false; bool expect = true;
	if (!x.there) p.kind = c < 8 || s.allWords.empty() ? S_CREATE : S_RESTORE; else p.kind = c < 2 ? S_RECREATE : c < 6 ? S_PASS : c < 7 ? S_BADPASS : c < 9 ? S_DELETE : c < 10 ? S_BADDELETE : c < 11 ? S_LOGIN : S_BADLOGIN;
	p.pass = x.there ? x.pass : "p" + std::to_string(i); if (x.there) p.words = x.words; if (p.kind == S_RESTORE) p.words = s.allWords[r.below(s.allWords.size())]; p.npass = "n" + std::to_string(i); std::string use = p.pass; if (p.kind == S_BADPASS || p.kind == S_BADDELETE || p.kind == S_BADLOGIN) { use = r.chance(0.5) ? p.pass + " " : r.chance(0.5) ? p.pass.substr(0, p.pass.size() - 1) : "other"; expect = false; } if (p.kind == S_RECREATE) expect = false;
	if ((p.kind == S_DELETE || p.kind == S_BADDELETE) && r.chance(0.9)) s.logout(p.name); bool in = s.tok.count(p.name); if (p.kind == S_DELETE && in) expect = false; int words = (const int[]){ 12, 15, 18, 21, 24 }[r.below(5)];
	if (before) before(p);
	switch (p.kind) {
	case S_CREATE: ok = s.create(p.name, p.pass, &wd, &err, words); break; case S_RECREATE: if (r.chance(0.5)) ok = s.create(p.name, "again", &wd, &err); else try { s.m.wm->RestoreFromSeed(RestoreWalletCriteria(p.name, SecureString("again"), SecureString(s.allWords[r.below(s.allWords.size())])), nullptr); ok = true; } catch (const std::exception& e) { err = e.what(); } break;
	case S_RESTORE: try { auto q = s.m.wm->RestoreFromSeed(RestoreWalletCriteria(p.name, SecureString(p.pass), SecureString(p.words)), nullptr); s.tok[p.name].push_back(q.GetToken()); ok = true; } catch (const std::exception& e) { err = e.what(); } break;
	case S_PASS: case S_BADPASS: try { s.m.wm->ChangePassword(p.name, SecureString(use), SecureString(p.npass)); ok = true; } catch (const std::exception& e) { err = e.what(); } break;
	case S_DELETE: case S_BADDELETE: try { s.m.wm->DeleteWallet(p.name, SecureString(use)); ok = true; } catch (const std::exception& e) { err = e.what(); } break;
	default: ok = s.login(p.name, use, &err); break; }
	bool hit = after && after(); if (hit) s.failed = true; note("%s of %s -> %s%s", sName(p.kind), p.name.c_str(), ok ? "ok" : err.substr(0, 60).c_str(), hit ? " (the disk failed)" : ""); count((std::string("op.") + sKey(p.kind)).c_str());
	if (hit) { count((std::string("reach.disk_failed_in_") + sKey(p.kind)).c_str()); count("nontrivial"); if (!ok) { s.resolve(p, "a disk error"); return; } }
	if (!ok && p.kind == S_DELETE && s.failed && err.find("logged in") != std::string::npos) { count("reach.delete_refused_after_failed_login"); return; }
	SIM_CHECK("W02", ok == expect || hit, "%s %s: %s", sName(p.kind), ok ? "succeeded" : "failed", err.c_str()); if (!expect) SIM_CHECK("W02", !ok, "%s succeeded", sName(p.kind));
	if (p.kind == S_CREATE) { x.there = true; x.pass = p.pass; x.words = wd; s.allWords.push_back(wd); } if (p.kind == S_RESTORE) { x.there = true; x.pass = p.pass; x.words = p.words; } if (p.kind == S_PASS) { x.pass = p.npass; std::string e; SIM_CHECK("W02", s.words(p.name, p.pass, &e).empty(), "the old password still shows the seed after a reported password change"); } if (p.kind == S_DELETE && ok) x = Rec();
	for (auto& n : names) s.intact(n, sName(p.kind), n == p.name && x.there && r.chance(0.5));
	state(mix(p.kind * 4 + ok * 2 + hit, s.r.size()));
}
}
static void walletSeed() {
	Rng g = rng("cfg"); defaultProp("W02"); int kills = g.range(0, thorough() ? 6 : 4), per = g.range(2, thorough() ? 16 : 8); double pErr = g.chance(0.5) ? 0.4 : 0; double pArm = g.chance(0.5) ? 0.6 : 0.25; std::vector<std::string> names{ "alice", "bob", "carol" }; names.resize(g.range(1, 3)); std::string saved, pend;
	for (int life = 0; life <= kills; life++) {
		bool last = life == kills; size_t logged = logAll().size();
		auto end = phase([&] {
			Seeds s; disk::track("/sim/r/w"); if (!saved.empty()) s.load(saved); s.open(true);
			if (!pend.empty()) { Unpack k{ pend }; SPend p; p.kind = (int)k.u(); p.name = k.str(); p.pass = k.str(); p.npass = k.str(); p.words = k.str(); s.resolve(p, "a kill"); count("checks.reopened"); }
			for (auto& n : names) s.intact(n, "after a restart", true);
			Rng kr = rng("kill", life);
			for (int i = 0; i < per * 2; i++) { int id = life * 100 + i; Rng r = rng("op", id); bool kill = !last && (kr.chance(pArm) || i >= per), err = !kill && kr.chance(pErr), aft = kr.chance(0.15); uint64_t nth = 1 + kr.below(kr.chance(0.3) ? 80 : 20); double torn = kr.chance(0.4) ? kr.below(1000) / 1000.0 : -1;
				DiskFault df; int ks = kr.below(10); df.err = kr.chance(0.5) ? 28 : 5; df.kinds = ks < 2 ? 2 : ks < 4 ? 5 : ks < 5 ? 7 : 1; df.from = kr.below(kr.chance(0.5) ? 6 : 30); df.len = kr.chance(0.5) ? 1 : kr.chance(0.5) ? 1 + kr.below(6) : 100000; df.p = 1; df.match = kr.chance(0.3) ? "seed" : kr.chance(0.2) ? "wallet.db" : ""; bool re = kr.chance(0.2);
				if (last && i >= per) break; if (!opOn(id)) continue; if (r.chance(0.1)) { s.restart(); note("restart"); count("reach.restart"); }
				uint64_t h0 = disk::faultCount();
				seedOp(s, r, id, names, [&](const SPend& p) { if (kill) { logPut(LOG_STATE, s.save()); Pack k; k.u(p.kind); k.str(p.name); k.str(p.pass); k.str(p.npass); k.str(p.words); logPut(LOG_PEND, k.s); if (!aft) disk::crashAt(nth, torn); } else if (err) disk::setFault(df); }, [&] { disk::crashOff(); bool hit = err && disk::faultCount() > h0; disk::clearFault(); return hit; });
				if (kill && aft) { logPut(LOG_STATE, s.save()); logPut(LOG_PEND, ""); note("kill right after it"); count("reach.kill_after_operation"); crashNow(); }
				if (err && re) { s.restart(); for (auto& n : names) s.intact(n, "after a disk error and a restart", true); }
			}
			s.restart(); for (auto& n : names) s.intact(n, "at the end", true); s.m.close();
		}, swarmSched(rng("swarm", life), false));
		if (end.kind == PH_OK) break;
		count("nontrivial"); auto l = logAll(); for (size_t i = logged; i < l.size(); i++) { if (l[i].tag == LOG_STATE) saved = l[i].data; if (l[i].tag == LOG_PEND) pend = l[i].data; }
		if (!pend.empty()) { Unpack k{ pend }; int kd = (int)k.u(); count((std::string("reach.kill_in_") + sKey(kd)).c_str()); note("killed during %s", sName(kd)); }
	}
}
SCENARIO("wallet_seed", "W02", walletSeed);
