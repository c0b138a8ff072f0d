// What the wallets' users did and what the chain says, and the checks that compare the wallets with it.
#pragma once
#include "walletlib.h"
#include <cstring>
struct Own { uint64_t amount = 0; bool coinbase = false; char kind = '?'; int ex = -1; bool seen = false; bool rescan = false; }; // rescan: put on the chain at a leaf index the wallet has looked at already
struct Acct { int u = 0; std::map<std::string, Own> own; std::map<std::string, std::string> paths; bool lost = false; };
struct XState { Exch e; std::set<std::string> change, rcvd; uint64_t inSum = 0, changeSum = 0; std::set<size_t> badS2; };
struct WModel {
	World& w; std::shared_ptr<Ledger> L; Machine& m; std::vector<Acct> a; std::vector<XState> x; bool strictRescan = false; bool reorged = false; const char* P4 = "W04"; // what the audit is about
	WModel(World& w, std::shared_ptr<Ledger> L, Machine& m) : w(w), L(L), m(m) {}
	SessionToken tok(int u, sim::Rng& r) { auto& t = m.users[u].tokens; return t[r.below(t.size())]; }
	void addUser() { Acct q; q.u = (int)a.size(); a.push_back(q); }
	// facts
	bool live(const XState& s) const { return !s.e.cancelled; }
	const XState* lockedBy(int u, const std::string& c) const { for (auto& s : x) if (s.e.from == u && live(s)) for (auto& i : s.e.ins) if (i == c) return &s; return nullptr; }
	const Coin* onChain(const std::string& c) const { auto it = L->t().utxo->find(c); return it == L->t().utxo->end() ? nullptr : &it->second; }
	bool coinUsable(const Coin& c, bool generous) const { uint64_t t = L->height(); int mc = m.cfg["WALLET"]["MIN_CONFIRMATIONS"].asInt(); if (c.coinbase) return generous ? t + 1 >= c.height + 25 : t > c.height + 25; return generous ? t + 1 >= c.height + mc : t >= c.height + mc; }
	uint64_t usableSum(int u, size_t* n, const WView& v) const;
	// steps
	int recordSend(int u, const Slate& s, uint64_t asked, bool entire, int numOut, const WView& after, const char* what);
	void recordReceive(int u, int xi, const Slate& s2, const WView& after);
	void recordFinal(int xi, const Slate& s2, const Transaction& tx, const char* what);
	int mineFor(int u, sim::Rng& r, int parent, const std::vector<TransactionPtr>& txs, uint64_t diff = 1); // the coinbase goes to wallet u (-1: nobody's)
	void moveTip(int id);
	void audit(int u, sim::Rng& r, const char* when, bool full = false);
	void notePaths(int u, const WView& v, const char* when);
	std::string save() const; void load(const std::string& s); // everything but the sessions: blocks, users, exchanges
	int find(const std::string& slate) const { for (size_t i = 0; i < x.size(); i++) if (x[i].e.id == slate) return (int)i; return -1; }
};
Slate transport(const Slate& s, sim::Rng& r, std::string* how); // the same slate after some encoding
Slate tamper(const Slate& s, sim::Rng& r, std::string* how);
struct Pack { std::string s; void u(uint64_t v) { s.append((char*)&v, 8); } void str(const std::string& x) { u(x.size()); s += x; } };
struct Unpack { const std::string& s; size_t p = 0; uint64_t u() { uint64_t v; memcpy(&v, s.data() + p, 8); p += 8; return v; } std::string str() { size_t n = u(); std::string r = s.substr(p, n); p += n; return r; } };
std::string packView(const WView& v); WView unpackView(const std::string& s);
