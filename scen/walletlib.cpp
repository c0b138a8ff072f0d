#include "walletlib.h"
#include <Core/Models/OutputIdentifier.h>
#include <Core/Validation/TransactionValidator.h>
#include <Wallet/Exceptions/InsufficientFundsException.h>
#include <algorithm>
using namespace sim;

// ------------------------------------------------------------- the chain as the wallets see it
static void down(bool off) { if (off) throw std::runtime_error("node is not reachable"); }
uint64_t Ledger::GetChainHeight() const { return height(); }
BlockHeaderPtr Ledger::GetTipHeader() const { return w.b[tip].header(); }
BlockHeaderPtr Ledger::GetBlockHeader(const uint64_t h) const { for (int x = tip; x >= 0; x = w.b[x].parent) if (w.b[x].height == h) return w.b[x].header(); return nullptr; }
std::map<Commitment, OutputLocation> Ledger::GetOutputsByCommitment(const std::vector<Commitment>& c) const {
	Kernel k; down(offline); std::map<Commitment, OutputLocation> r;
	for (auto& x : c) { auto it = t().utxo->find(x.ToHex()); if (it != t().utxo->end()) r.insert({ x, OutputLocation(LeafIndex::At(it->second.leaf), it->second.height) }); }
	return r;
}
const std::vector<Ledger::LeafRec>& Ledger::leaves() const {
	if (cacheTip == tip) return cache;
	cache.clear(); std::vector<int> path; for (int x = tip; x >= 0; x = w.b[x].parent) path.push_back(x); std::reverse(path.begin(), path.end());
	for (int x : path) for (auto& o : w.b[x].full->GetOutputs()) cache.push_back({ x, &o });
	cacheTip = tip; return cache;
}
const TransactionOutput* Ledger::output(const std::string& c, int at) const { for (int x = at; x >= 0; x = w.b[x].parent) for (auto& o : w.b[x].full->GetOutputs()) if (o.GetCommitment().ToHex() == c) return &o; return nullptr; }
std::unique_ptr<OutputRange> Ledger::GetOutputsByLeafIndex(const uint64_t start, const uint64_t max) const {
	Kernel k; down(offline); auto& l = leaves(); std::vector<OutputDTO> v; const CoinMap& u = *t().utxo;
	for (uint64_t i = start; i < l.size() && v.size() < max; i++) { auto it = u.find(l[i].o->GetCommitment().ToHex()); if (it == u.end() || it->second.leaf != i) continue; v.emplace_back(OutputDTO(false, OutputIdentifier::FromOutput(*l[i].o), OutputLocation(LeafIndex::At(i), it->second.height), l[i].o->GetRangeProof())); }
	uint64_t last = v.empty() ? 0 : v.back().GetLeafIndex().Get();
	return std::make_unique<OutputRange>(l.empty() ? 0 : l.size() - 1, last, std::move(v));
}
bool Ledger::fits(const Transaction& x, int on, const std::vector<TransactionPtr>& beside) const {
	const CoinMap& u = *w.b[on].utxo; uint64_t nh = w.b[on].height + 1; std::set<std::string> in, made, kn;
	for (auto& q : beside) { for (auto& i : q->GetInputs()) in.insert(i.GetCommitment().ToHex()); for (auto& o : q->GetOutputs()) made.insert(o.GetCommitment().ToHex()); for (auto& z : q->GetKernels()) kn.insert(z.GetHash().ToHex()); }
	for (auto& z : x.GetKernels()) { if (kn.count(z.GetHash().ToHex()) || z.GetLockHeight() > nh) return false; }
	for (auto& i : x.GetInputs()) { auto hx = i.GetCommitment().ToHex(); auto it = u.find(hx); if (it == u.end() || in.count(hx)) return false; if (it->second.coinbase != (i.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT)) return false; if (it->second.coinbase && it->second.height + 25 > nh) return false; }
	for (auto& o : x.GetOutputs()) { auto hx = o.GetCommitment().ToHex(); if (u.count(hx) || made.count(hx)) return false; }
	return true;
}
bool Ledger::PostTransaction(TransactionPtr tx, const EPoolType) {
	Kernel k; if (offline) return false; posts++; if (onPost) onPost();
	try { TransactionValidator().Validate(*tx, height() + 1); } catch (const std::exception&) { return false; }
	for (auto& m : mem) if (*m == *tx) return false;
	if (!fits(*tx, tip, mem)) return false;
	mem.push_back(tx); return true;
}
void Ledger::setTip(int id) {
	int a = tip; while (!w.isAncestor(a, id)) a = w.b[a].parent;
	std::vector<TransactionPtr> keep, cand = mem;
	tip = id; for (auto& m : cand) if (fits(*m, tip, keep)) keep.push_back(m); mem = keep; (void)a;
}

// ------------------------------------------------------------- views
const char* stName(int s) { static const char* n[] = { "spendable", "immature", "unconfirmed", "spent", "locked", "cancelled" }; return s >= 0 && s < 6 ? n[s] : "?"; }
const char* txName(int t) { static const char* n[] = { "coinbase", "sent", "received", "send cancelled", "receive cancelled", "send started", "receive in progress", "send finalised" }; return t >= 0 && t < 8 ? n[t] : "?"; }
WView viewOf(Locked<IWalletDB> db, const SecureVector& seed, bool counters) {
	WView v;
	{ auto r = db.Read();
	for (auto& o : r->GetOutputs(seed)) { OutV x; x.path = o.GetKeyChainPath().Format(); x.commit = o.GetCommitment().ToHex(); x.amount = o.GetAmount(); x.height = o.GetBlockHeight().value_or(0); x.status = (int)o.GetStatus(); x.txId = o.GetWalletTxId().has_value() ? (int64_t)o.GetWalletTxId().value() : -1; x.coinbase = o.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT; v.out[x.commit] = x; }
	for (auto& t : r->GetTransactions(seed)) { TxV x; x.id = t.GetId(); x.type = (int)t.GetType(); x.credited = t.GetAmountCredited(); x.debited = t.GetAmountDebited();
		if (t.GetTransaction().has_value()) { x.hasTx = true; for (auto& i : t.GetTransaction()->GetInputs()) x.ins.push_back(i.GetCommitment().ToHex()); for (auto& o : t.GetTransaction()->GetOutputs()) x.outs.push_back(o.GetCommitment().ToHex()); x.finalTx = t.GetTransaction()->GetKernels().size() == 1 && !(t.GetTransaction()->GetKernels()[0].GetExcessCommitment() == Commitment()); }
		if (t.GetSlateId().has_value()) { auto id = t.GetSlateId().value(); x.slate = uuids::to_string(id); auto has = [&](const char* n, ESlateStage s) { (void)n; return r->LoadSlate(seed, id, SlateStage(s)) != nullptr; }; x.sent = has("s", ESlateStage::STANDARD_SENT); x.recv = has("r", ESlateStage::STANDARD_RECEIVED); x.fin = has("f", ESlateStage::STANDARD_FINALIZED); x.ctx = r->LoadSlateContext(seed, id) != nullptr; }
		v.tx[x.id] = x; }
	v.refresh = r->GetRefreshBlockHeight(); v.leaf = r->GetRestoreLeafIndex(); v.addr = r->GetCurrentAddressIndex(KeyChainPath::FromString("m/0/0")); }
	if (counters) { auto b = db.BatchWrite(); v.nextChild = b->GetNextChildPath(KeyChainPath::FromString("m/0/0")).GetKeyIndices().back(); v.nextTx = b->GetNextTransactionId(); }
	return v;
}
std::string WView::digest(bool counters) const {
	std::string s; char b[400];
	for (auto& kv : out) { auto& o = kv.second; snprintf(b, sizeof b, "%.16s %s %lu %s h%lu tx%ld;", o.commit.c_str(), o.path.c_str(), o.amount, stName(o.status), o.height, o.txId); s += b; }
	for (auto& kv : tx) { auto& t = kv.second; snprintf(b, sizeof b, "[%u %s %.8s%s%s%s%s %lu/%lu in%zu out%zu%s]", t.id, txName(t.type), t.slate.c_str(), t.sent ? " S" : "", t.recv ? " R" : "", t.fin ? " F" : "", t.ctx ? " C" : "", t.credited, t.debited, t.ins.size(), t.outs.size(), t.finalTx ? " final" : ""); s += b; }
	snprintf(b, sizeof b, "refresh %lu leaf %lu addr %d", refresh, leaf, addr); s += b; if (counters) { snprintf(b, sizeof b, " child %u tx %u", nextChild, nextTx); s += b; }
	return s;
}
WView coldView(const Config& c, const std::string& user, const SecureVector& seed) { auto st = WalletDBAPI::OpenWalletDB(c); auto v = viewOf(st->OpenWallet(user, seed), seed); return v; }

void checkRecords(const WView& v, const char* prop, const std::string& when) {
	const char* w = when.c_str(); std::map<std::string, std::string> paths; std::map<std::string, int> liveIn; std::map<int64_t, std::vector<const OutV*>> byTx;
	for (auto& kv : v.out) { auto& o = kv.second; auto r = paths.insert({ o.path, o.commit }); SIM_CHECK(wantProp == "W01" ? "W01" : "W06", r.second, "%s: two recorded outputs have the key %s", w, o.path.c_str()); if (o.txId >= 0) byTx[o.txId].push_back(&o); }
	for (auto& kv : v.tx) { auto& t = kv.second; bool live = t.type == SENDING_STARTED || t.type == SENDING_FINALIZED || t.type == SENT;
		SIM_CHECK(prop, t.id < v.nextTx || !v.nextTx, "%s: transaction id %u is not below the next id %u", w, t.id, v.nextTx);
		if (live && !t.slate.empty()) {
			SIM_CHECK(prop, t.sent && t.ctx, "%s: the secret context or the slate of a started send (%s) is missing", w, txName(t.type)); SIM_CHECK(prop, t.hasTx && !t.ins.empty(), "%s: a started send records no inputs", w);
			if (t.type != SENDING_STARTED) SIM_CHECK(prop, t.fin && t.finalTx, "%s: a %s transaction has no finalised slate or transaction", w, txName(t.type));
			uint64_t in = 0; for (auto& i : t.ins) { auto it = v.out.find(i); SIM_CHECK(prop, it != v.out.end(), "%s: an input of a %s transaction is not recorded", w, txName(t.type)); in += it->second.amount; int s = it->second.status;
				SIM_CHECK(prop, s == LOCKED || s == SPENT, "%s: an input of a %s transaction is %s", w, txName(t.type), stName(s)); if (t.type != SENT) liveIn[i]++; else liveIn[i] += 0; }
			uint64_t ch = 0; for (auto* o : byTx[t.id]) ch += o->amount;
			SIM_CHECK(prop, ch == t.credited && in == t.debited, "%s: a %s transaction says it debits %lu and credits %lu, its recorded inputs and change are %lu and %lu", w, txName(t.type), t.debited, t.credited, in, ch);
			if (t.type == SENDING_STARTED) for (auto* o : byTx[t.id]) SIM_CHECK(prop, o->status == NO_CONFIRMATIONS, "%s: change of an unfinished send is %s", w, stName(o->status));
		}
		if (t.type == RECEIVING_IN_PROGRESS) { auto& o = byTx[t.id]; SIM_CHECK(prop, t.recv, "%s: the slate of a receive in progress is missing", w); SIM_CHECK(prop, o.size() == 1 && o[0]->amount == t.credited, "%s: a receive in progress has %zu recorded outputs", w, o.size()); SIM_CHECK(prop, o[0]->status == NO_CONFIRMATIONS, "%s: the output of a receive in progress is %s", w, stName(o[0]->status)); }
	}
	for (auto& kv : v.out) { auto& o = kv.second;
		if (o.status == LOCKED) SIM_CHECK(prop, liveIn.count(o.commit), "%s: an output is locked by no pending send", w);
		if (o.status == NO_CONFIRMATIONS) { auto t = v.tx.find((uint32_t)o.txId); SIM_CHECK(prop, o.txId >= 0 && t != v.tx.end(), "%s: an unconfirmed output belongs to no transaction", w); int ty = t->second.type; SIM_CHECK(prop, ty == SENDING_STARTED || ty == SENDING_FINALIZED || ty == SENT || ty == RECEIVING_IN_PROGRESS, "%s: an unconfirmed output belongs to a %s transaction", w, txName(ty)); }
		if (o.txId >= 0) SIM_CHECK(prop, v.tx.count((uint32_t)o.txId), "%s: an output belongs to a transaction that is not recorded", w); }
}

// ------------------------------------------------------------- machine
void Machine::init(const std::string& d, INodeClientPtr n, int minConf) { dir = d; node = n; cfg["DATA_PATH"] = d; cfg["WALLET"]["MIN_CONFIRMATIONS"] = minConf; }
void Machine::open() {
	auto pc = Config::Load(cfg, Environment::AUTOMATED_TESTING); ctx = std::make_shared<Context>(Environment::AUTOMATED_TESTING, pc, std::shared_ptr<Bosma::Scheduler>()); Global::Init(ctx);
	wm = WalletAPI::CreateWalletManager(ctx->GetConfig(), node);
}
void Machine::close() { for (auto& u : users) { u.tokens.clear(); u.db.reset(); } wm.reset(); Global::Shutdown(); ctx.reset(); }
std::string Machine::create(const std::string& name, const std::string& pass, int words) {
	try { auto r = wm->InitializeNewWallet(CreateWalletCriteria(GrinStr(name), SecureString(pass), words), nullptr); WUser u; u.name = name; u.pass = pass; u.words = r.GetSeed(); u.tokens.push_back(r.GetToken()); u.port = r.GetListenerPort(); attach(u); users.push_back(u); return ""; }
	catch (const std::exception& e) { return std::string("error: ") + e.what(); }
}
std::string Machine::restore(const std::string& name, const std::string& pass, const SecureString& words) {
	try { auto r = wm->RestoreFromSeed(RestoreWalletCriteria(name, SecureString(pass), SecureString(words)), nullptr); WUser u; u.name = name; u.pass = pass; u.words = words; u.tokens.push_back(r.GetToken()); u.port = r.GetPort(); attach(u); users.push_back(u); return ""; }
	catch (const std::exception& e) { return std::string("error: ") + e.what(); }
}
std::string Machine::login(int i) {
	auto& u = users[i]; try { auto r = wm->Login(LoginCriteria(u.name, SecureString(u.pass)), nullptr); u.tokens.push_back(r.GetToken()); u.port = r.GetPort(); attach(u); return ""; } catch (const std::exception& e) { return std::string("error: ") + e.what(); }
}
