#include "walletmodel.h"
#include <Wallet/Models/Slatepack/Armor.h>
#include <Core/Validation/TransactionValidator.h>
using namespace sim;

uint64_t WModel::usableSum(int u, size_t* n, const WView& v) const {
	uint64_t s = 0; *n = 0; for (auto& kv : a[u].own) { auto* c = onChain(kv.first); if (!c || lockedBy(u, kv.first) || !coinUsable(*c, false)) continue; if (kv.second.coinbase && kv.second.rescan && !v.out.count(kv.first)) continue; s += c->amount ? kv.second.amount : kv.second.amount; (*n)++; } return s;
}
int WModel::recordSend(int u, const Slate& s, uint64_t asked, bool entire, int numOut, const WView& after, const char* what) {
	XState q; auto& e = q.e; e.id = uuids::to_string(s.GetId()); e.from = u; e.s1 = s; e.amount = s.GetAmount(); e.fee = s.fee.GetFee();
	if (!entire) SIM_CHECK("W05", e.amount == asked, "%s: asked to send %lu, the slate says %lu", what, asked, e.amount);
	std::set<std::string> dup; for (auto& i : s.GetInputs()) { auto c = i.GetCommitment().ToHex(); e.ins.push_back(c); SIM_CHECK("W03", dup.insert(c).second, "%s: one coin is listed twice", what);
		auto* o = lockedBy(u, c); SIM_CHECK("W03", !o, "%s: a coin committed to a payment that is %s was selected again", what, o && o->e.finalised ? "finalised" : "pending");
		auto own = a[u].own.find(c); SIM_CHECK("W03", own != a[u].own.end(), "%s: a coin of somebody else was selected", what);
		auto* oc = onChain(c); SIM_CHECK("W03", oc, "%s: a coin that is not on the chain was selected", what); SIM_CHECK("W03", coinUsable(*oc, true), "%s: an immature coin was selected (its height %lu, chain height %lu%s)", what, oc->height, L->height(), oc->coinbase ? ", coinbase" : "");
		q.inSum += own->second.amount; }
	SIM_CHECK("W03", !e.ins.empty(), "%s: a payment without inputs was started", what);
	for (auto& o : s.GetOutputs()) { auto c = o.GetCommitment().ToHex(); q.change.insert(c); auto it = after.out.find(c); SIM_CHECK("W01", it != after.out.end(), "%s: change is not recorded", what); q.changeSum += it->second.amount; auto r = a[u].own.insert({ c, Own() }); SIM_CHECK("W06", r.second, "%s: change re-uses an existing output", what); r.first->second.amount = it->second.amount; r.first->second.kind = 'c'; r.first->second.ex = (int)x.size(); }
	SIM_CHECK("W05", e.amount <= q.inSum && e.fee <= q.inSum && q.changeSum <= q.inSum && q.inSum == e.amount + e.fee + q.changeSum, "%s: inputs %lu are not amount %lu + fee %lu + change %lu", what, q.inSum, e.amount, e.fee, q.changeSum);
	SIM_CHECK("W05", (int)q.change.size() <= std::max(1, numOut), "%s: %zu change outputs instead of %d", what, q.change.size(), numOut);
	for (auto& kv : after.tx) if (kv.second.slate == e.id && (kv.second.type == SENDING_STARTED || kv.second.type == SENDING_FINALIZED || kv.second.type == SENT_CANCELED)) e.txId = kv.first;
	x.push_back(q); return (int)x.size() - 1;
}
void WModel::recordReceive(int u, int xi, const Slate& s2, const WView& after) {
	auto& q = x[xi]; q.e.received[u]++; q.e.s2.push_back({ u, s2 }); int n = 0;
	for (auto& o : s2.GetOutputs()) { auto c = o.GetCommitment().ToHex(); if (q.change.count(c)) continue; bool mine = after.out.count(c) && after.out.at(c).txId >= 0 && after.tx.count((uint32_t)after.out.at(c).txId) && after.tx.at((uint32_t)after.out.at(c).txId).slate == q.e.id; if (!mine) continue; if (a[u].own.count(c)) continue; n++; auto& w_ = a[u].own[c]; w_.amount = after.out.at(c).amount; w_.kind = 'r'; w_.ex = xi; q.rcvd.insert(c); SIM_CHECK("W05", w_.amount == s2.GetAmount(), "the receiver records %lu instead of the %lu of the slate", w_.amount, s2.GetAmount()); }
	SIM_CHECK("W05", n == 1, "a receive recorded %d outputs", n);
}
void WModel::recordFinal(int xi, const Slate& s2, const Transaction& tx, const char* what) {
	auto& q = x[xi]; (void)s2; std::set<std::string> in, want(q.e.ins.begin(), q.e.ins.end()); for (auto& i : tx.GetInputs()) in.insert(i.GetCommitment().ToHex());
	SIM_CHECK("W05", in == want && tx.GetInputs().size() == want.size(), "%s: the finalised transaction spends other coins than the payment committed to", what);
	size_t found = 0; for (auto& o : tx.GetOutputs()) if (q.change.count(o.GetCommitment().ToHex())) found++;
	SIM_CHECK("W05", found == q.change.size(), "%s: the sender's change is missing from the finalised transaction", what);
	uint64_t fee = 0; for (auto& k : tx.GetKernels()) fee += k.GetFee(); SIM_CHECK("W05", fee == q.e.fee, "%s: the finalised transaction pays a fee of %lu instead of %lu", what, fee, q.e.fee);
	try { TransactionValidator().Validate(tx, L->height() + 1); } catch (const std::exception& ex) { violation("W05", "%s: the finalised transaction is not valid (%s)", what, ex.what()); }
	q.e.finalised++; q.e.tx = std::make_shared<Transaction>(tx);
}
int WModel::mineFor(int u, Rng& r, int parent, const std::vector<TransactionPtr>& txs, uint64_t diff) {
	if (u < 0 || L->offline) return w.mine(parent, txs, diff);
	uint64_t fees = 0; for (auto& t : txs) for (auto& k : t->GetKernels()) fees += k.GetFee();
	auto tk = tok(u, r); auto cb = m.wm->GetWallet(tk).Write()->BuildCoinbase(BuildCoinbaseCriteria(tk, fees, std::nullopt)); int id = w.mineCb(parent, txs, cb.GetOutput(), cb.GetKernel(), diff);
	auto c = cb.GetOutput().GetCommitment().ToHex(); auto rr = a[u].own.insert({ c, Own() }); SIM_CHECK("W06", rr.second, "a coinbase re-uses an existing output"); auto& o = rr.first->second; o.amount = Consensus::REWARD + fees; o.coinbase = true; o.kind = 'm';
	auto pr = a[u].paths.insert({ cb.GetPath().Format(), c }); SIM_CHECK("W06", pr.second || pr.first->second == c, "a coinbase was built with the key %s of an earlier output", cb.GetPath().Format().c_str());
	return id;
}
void WModel::moveTip(int id) {
	int old = L->tip; L->setTip(id); if (!w.isAncestor(old, id)) { reorged = true; count("reach.reorg"); }
	for (auto& q : a) { int64_t mark = -1; for (auto& kv : q.own) if (onChain(kv.first)) kv.second.seen = true; for (auto& kv : q.own) if (kv.second.coinbase) { auto* c = onChain(kv.first); if (!c) { kv.second.rescan = false; continue; } auto o = w.b[old].utxo->find(kv.first); if (o != w.b[old].utxo->end() && o->second.leaf == c->leaf) continue; if (mark < 0) mark = (int64_t)viewOf(m.db(q.u), m.users[q.u].seed, false).leaf; kv.second.rescan = (int64_t)c->leaf <= mark; } }
}
void WModel::notePaths(int u, const WView& v, const char* when) { for (auto& kv : v.out) { auto r = a[u].paths.insert({ kv.second.path, kv.first }); SIM_CHECK(wantProp == "W08" ? "W08" : "W06", r.second || r.first->second == kv.first, "%s: the key %s is used for two different outputs", when, kv.second.path.c_str()); } }
void WModel::audit(int u, Rng& r, const char* when, bool full) {
	auto& us = m.users[u]; auto& ac = a[u]; auto tk = tok(u, r); WView v0 = viewOf(m.db(u), us.seed, false); bool reach = L->height() >= v0.refresh;
	if (full) { m.wm->CheckForOutputs(tk, true); if (reach) for (auto& kv : ac.own) kv.second.rescan = false; }
	WalletBalanceDTO bal = m.wm->GetWallet(tk).Read()->GetBalance(); WView v = viewOf(m.db(u), us.seed, false); notePaths(u, v, when); checkRecords(v, P4, when); count("checks.audit");
	uint64_t sp = 0, im = 0, lo = 0, un = 0, flex = 0;
	for (auto& kv : v.out) { auto& o = kv.second; auto it = ac.own.find(kv.first); SIM_CHECK(P4, it != ac.own.end(), "%s: the wallet lists an output that is not its own (%s)", when, stName(o.status)); SIM_CHECK(P4, it->second.amount == o.amount, "%s: an output of %lu is recorded as %lu", when, it->second.amount, o.amount); }
	if (!reach) { count("reach.behind_refresh"); return; }
	for (auto& kv : ac.own) { auto& o = kv.second; auto* c = onChain(kv.first); auto it = v.out.find(kv.first); const char* kind = o.kind == 'm' ? "coinbase" : o.kind == 'c' ? "change output" : "received output";
		if (c) { o.seen = true;
			if (it == v.out.end() && o.coinbase && o.rescan) { count("reach.coinbase_below_watermark"); if (strictRescan) violation(P4, "[coinbase re-mined below the scan position] %s: a confirmed coinbase of the wallet is not recorded", when); continue; }
			SIM_CHECK(P4, it != v.out.end(), "%s: a confirmed %s of the wallet is not recorded", when, kind); auto* lk = lockedBy(u, kv.first); int s = it->second.status;
			if (lk) SIM_CHECK("W03", s == LOCKED, "%s: a confirmed %s that a %s payment spends is %s", when, kind, lk->e.finalised ? "finalised" : "pending", stName(s));
			else SIM_CHECK(P4, s == SPENDABLE, "%s: a confirmed %s that no pending payment spends is %s", when, kind, stName(s));
			SIM_CHECK(P4, it->second.height == c->height, "%s: a confirmed %s at height %lu is recorded at height %lu", when, kind, c->height, it->second.height);
			if (lk) lo += o.amount; else if (coinUsable(*c, false)) sp += o.amount; else if (!coinUsable(*c, true)) im += o.amount; else { flex += o.amount; }
		} else if (it != v.out.end()) { int s = it->second.status; SIM_CHECK(P4, s != SPENDABLE && s != LOCKED, "%s: a %s that is not on the chain is %s", when, kind, stName(s));
			if (o.ex >= 0 && !o.seen && !o.coinbase) { auto& q = x[o.ex]; bool pend = o.kind == 'c' ? live(q) : q.e.received[u] > q.e.recvCancelled[u]; bool one = q.e.received[u] <= 1 || o.kind == 'c'; if (one) SIM_CHECK(P4, (s == NO_CONFIRMATIONS) == pend, "%s: a %s of a %s exchange is %s", when, kind, pend ? "live" : "cancelled", stName(s)); }
			if (s == NO_CONFIRMATIONS) un += o.amount; }
		else SIM_CHECK("W01", o.coinbase, "%s: a %s of the wallet is no longer recorded", when, kind); }
	SIM_CHECK(P4, bal.GetLocked() == lo, "%s: reported %lu locked, the chain and the exchanges say %lu", when, bal.GetLocked(), lo);
	SIM_CHECK(P4, bal.GetUnconfirmed() == un, "%s: reported %lu unconfirmed, the exchanges say %lu", when, bal.GetUnconfirmed(), un);
	SIM_CHECK(P4, bal.GetSpendable() >= sp && bal.GetImmature() >= im && bal.GetSpendable() + bal.GetImmature() == sp + im + flex, "%s: reported %lu spendable and %lu immature, the chain says %lu and %lu (%lu in between)", when, bal.GetSpendable(), bal.GetImmature(), sp, im, flex);
	state(mix(mix(ac.own.size(), lo), mix(sp, un)));
}
Slate transport(const Slate& s, Rng& r, std::string* how) {
	switch (r.below(4)) { case 0: *how = "direct"; return s; case 1: *how = "json"; return Slate::FromJSON(s.ToJSON());
	case 2: { *how = "binary"; Serializer z; s.Serialize(z); ByteBuffer b(z.GetBytes()); return Slate::Deserialize(b); }
	default: { *how = "json text"; Json::Value j; JsonUtil::Parse(JsonUtil::WriteCondensed(s.ToJSON()), j); return Slate::FromJSON(j); } }
}
Slate tamper(const Slate& s, Rng& r, std::string* how) {
	Slate t = s; switch (r.below(9)) {
	case 0: t.amount += 1 + r.below(1000000); *how = "raised amount"; break;
	case 1: if (t.amount > 10) t.amount -= 1 + r.below(t.amount / 2); *how = "lowered amount"; break;
	case 2: t.fee = Fee::From(t.fee.GetFee() + 1000000); *how = "raised fee"; break;
	case 3: t.fee = Fee::From(1 + t.fee.GetFee() / 2); *how = "lowered fee"; break;
	case 4: { auto b = t.offset.GetBytes().GetData(); std::vector<uint8_t> v(b.begin(), b.end()); v[5] ^= 1 << r.below(8); t.offset = BlindingFactor(CBigInteger<32>(v)); *how = "other offset"; break; }
	case 5: if (!t.commitments.empty()) t.commitments.erase(t.commitments.begin() + r.below(t.commitments.size())); *how = "dropped a commitment"; break;
	case 6: if (!t.commitments.empty()) t.commitments.push_back(t.commitments[r.below(t.commitments.size())]); *how = "repeated a commitment"; break;
	case 7: if (!t.sigs.empty()) t.sigs.push_back(t.sigs[r.below(t.sigs.size())]); *how = "repeated a signature"; break;
	default: if (!t.sigs.empty()) t.sigs.pop_back(); *how = "dropped a signature"; break; }
	return t;
}

// ------------------------------------------------------------- carried over a kill
template<class T> static std::string ser(const T& x) { Serializer z; x.Serialize(z); auto& b = z.GetBytes(); return std::string(b.begin(), b.end()); }
template<class T> static T des(const std::string& s) { ByteBuffer b(std::vector<uint8_t>(s.begin(), s.end())); return T::Deserialize(b); }
static void put(Pack& k, const std::set<std::string>& s) { k.u(s.size()); for (auto& x : s) k.str(x); }
static std::set<std::string> getSet(Unpack& k) { std::set<std::string> s; for (auto n = k.u(); n; n--) s.insert(k.str()); return s; }
std::string WModel::save() const {
	Pack k; k.u(w.b.size()); for (size_t i = 1; i < w.b.size(); i++) { k.u(w.b[i].parent); k.str(ser(*w.b[i].full)); } k.u(L->tip); k.u(L->mem.size()); for (auto& t : L->mem) k.str(ser(*t)); k.u(reorged);
	k.u(m.users.size()); for (auto& q : m.users) { k.str(q.name); k.str(q.pass); k.str(std::string(q.words.c_str())); k.str(std::string(q.seed.begin(), q.seed.end())); }
	k.u(a.size()); for (auto& q : a) { k.u(q.u); k.u(q.own.size()); for (auto& o : q.own) { k.str(o.first); k.u(o.second.amount); k.u(o.second.coinbase); k.u(o.second.kind); k.u(o.second.ex + 1); k.u(o.second.seen); k.u(o.second.rescan); } k.u(q.paths.size()); for (auto& o : q.paths) { k.str(o.first); k.str(o.second); } }
	k.u(x.size()); for (auto& q : x) { auto& e = q.e; k.str(e.id); k.u(e.from); k.str(ser(e.s1)); k.u(e.s2.size()); for (auto& o : e.s2) { k.u(o.first); k.str(ser(o.second)); } k.u(e.ins.size()); for (auto& i : e.ins) k.str(i); k.u(e.amount); k.u(e.fee); k.u(e.cancelled); k.u(e.finalised); k.str(e.tx ? ser(*e.tx) : ""); k.u(e.txId);
		for (auto* mp : { &e.received, &e.recvCancelled }) { k.u(mp->size()); for (auto& o : *mp) { k.u(o.first); k.u(o.second); } } put(k, q.change); put(k, q.rcvd); k.u(q.inSum); k.u(q.changeSum); k.u(q.badS2.size()); for (auto b : q.badS2) k.u(b); }
	return k.s;
}
void WModel::load(const std::string& s) {
	Unpack k{ s }; size_t nb = k.u(); for (size_t i = 1; i < nb; i++) { int p = (int)k.u(); auto f = std::make_shared<FullBlock>(des<FullBlock>(k.str())); w.addRaw(p, f, true, ""); } L->tip = (int)k.u(); for (auto n = k.u(); n; n--) L->mem.push_back(std::make_shared<Transaction>(des<Transaction>(k.str()))); reorged = k.u();
	for (auto n = k.u(); n; n--) { WUser q; q.name = k.str(); q.pass = k.str(); q.words = SecureString(k.str()); auto sd = k.str(); q.seed = SecureVector(sd.begin(), sd.end()); m.users.push_back(q); }
	for (auto n = k.u(); n; n--) { Acct q; q.u = (int)k.u(); for (auto j = k.u(); j; j--) { auto h = k.str(); Own o; o.amount = k.u(); o.coinbase = k.u(); o.kind = (char)k.u(); o.ex = (int)k.u() - 1; o.seen = k.u(); o.rescan = k.u(); q.own[h] = o; } for (auto j = k.u(); j; j--) { auto h = k.str(); q.paths[h] = k.str(); } a.push_back(q); }
	for (auto n = k.u(); n; n--) { XState q; auto& e = q.e; e.id = k.str(); e.from = (int)k.u(); e.s1 = des<Slate>(k.str()); for (auto j = k.u(); j; j--) { int u = (int)k.u(); e.s2.push_back({ u, des<Slate>(k.str()) }); } for (auto j = k.u(); j; j--) e.ins.push_back(k.str()); e.amount = k.u(); e.fee = k.u(); e.cancelled = k.u(); e.finalised = (int)k.u(); auto t = k.str(); if (!t.empty()) e.tx = std::make_shared<Transaction>(des<Transaction>(t)); e.txId = (uint32_t)k.u();
		for (auto* mp : { &e.received, &e.recvCancelled }) for (auto j = k.u(); j; j--) { int u = (int)k.u(); (*mp)[u] = (int)k.u(); } q.change = getSet(k); q.rcvd = getSet(k); q.inSum = k.u(); q.changeSum = k.u(); for (auto j = k.u(); j; j--) q.badS2.insert(k.u()); x.push_back(q); }
}
std::string packView(const WView& v) {
	Pack k; k.u(v.out.size()); for (auto& q : v.out) { auto& o = q.second; k.str(o.path); k.str(o.commit); k.u(o.amount); k.u(o.height); k.u(o.status); k.u(o.txId); k.u(o.coinbase); }
	k.u(v.tx.size()); for (auto& q : v.tx) { auto& t = q.second; k.u(t.id); k.u(t.type); k.str(t.slate); k.u(t.hasTx); k.u(t.finalTx); k.u(t.ins.size()); for (auto& i : t.ins) k.str(i); k.u(t.outs.size()); for (auto& i : t.outs) k.str(i); k.u(t.credited); k.u(t.debited); k.u(t.sent); k.u(t.recv); k.u(t.fin); k.u(t.ctx); }
	k.u(v.refresh); k.u(v.leaf); k.u(v.nextChild); k.u(v.nextTx); k.u(v.addr); return k.s;
}
WView unpackView(const std::string& s) {
	WView v; Unpack k{ s }; for (auto n = k.u(); n; n--) { OutV o; o.path = k.str(); o.commit = k.str(); o.amount = k.u(); o.height = k.u(); o.status = (int)k.u(); o.txId = (int64_t)k.u(); o.coinbase = k.u(); v.out[o.commit] = o; }
	for (auto n = k.u(); n; n--) { TxV t; t.id = (uint32_t)k.u(); t.type = (int)k.u(); t.slate = k.str(); t.hasTx = k.u(); t.finalTx = k.u(); for (auto j = k.u(); j; j--) t.ins.push_back(k.str()); for (auto j = k.u(); j; j--) t.outs.push_back(k.str()); t.credited = k.u(); t.debited = k.u(); t.sent = k.u(); t.recv = k.u(); t.fin = k.u(); t.ctx = k.u(); v.tx[t.id] = t; }
	v.refresh = k.u(); v.leaf = k.u(); v.nextChild = (uint32_t)k.u(); v.nextTx = (uint32_t)k.u(); v.addr = (int)k.u(); return v;
}
