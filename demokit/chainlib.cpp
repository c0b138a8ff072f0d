#include "chainlib.h"
#include <Core/Models/OutputIdentifier.h>
#include <Core/Models/BlockHeader.h>
#include <Core/Serialization/Serializer.h>
#include <Crypto/Hasher.h>
#include <Consensus.h>
#include <PMMR/TxHashSet.h>
#include <algorithm>
using namespace sim;

// ------------------------------------------------------------- MMR model
static Hash blake(const std::vector<uint8_t>& v) { return Hasher::Blake2b(v); }
static void be64(std::vector<uint8_t>& v, uint64_t x) { for (int i = 7; i >= 0; i--) v.push_back((uint8_t)(x >> (8 * i))); }
static Hash nodeHash(const Hash& l, const Hash& r, uint64_t pos) { std::vector<uint8_t> v; be64(v, pos); v.insert(v.end(), l.GetData().begin(), l.GetData().end()); v.insert(v.end(), r.GetData().begin(), r.GetData().end()); return blake(v); }
void MMRAcc::append(const std::vector<uint8_t>& leaf) {
	std::vector<uint8_t> v; be64(v, size); v.insert(v.end(), leaf.begin(), leaf.end());
	Hash hsh = blake(v); int ht = 0; size++; leaves++;
	while (!peaks.empty() && peaks.back().first == ht) { hsh = nodeHash(peaks.back().second, hsh, size); size++; peaks.pop_back(); ht++; }
	peaks.push_back({ ht, hsh });
}
Hash MMRAcc::root() const {
	if (!size) return ZERO_HASH;
	Hash a = peaks.back().second;
	for (size_t i = peaks.size() - 1; i-- > 0;) a = nodeHash(peaks[i].second, a, size);
	return a;
}
template <class X> static std::vector<uint8_t> bytesOf(const X& x) { Serializer s; x.Serialize(s); return s.GetBytes(); }
static std::vector<uint8_t> cycleOf(const BlockHeader& h) { Serializer s; h.GetProofOfWork().SerializeCycle(s); return s.GetBytes(); }

static BlindingFactor rndBlind(Rng& r) { std::vector<uint8_t> b(32); for (auto& x : b) x = (uint8_t)r.next(); b[0] = 0; b[1] |= 1; return BlindingFactor(CBigInteger<32>(b)); }

TransactionKernel makeKernel(EKernelFeatures f, uint64_t fee, uint64_t lock, const BlindingFactor& blind, const Commitment& excess) {
	Serializer s; s.Append<uint8_t>((uint8_t)f);
	if (f != EKernelFeatures::COINBASE_KERNEL) Fee::From(fee).Serialize(s);
	if (f == EKernelFeatures::HEIGHT_LOCKED) s.Append<uint64_t>(lock);
	auto sig = Crypto::BuildCoinbaseSignature(BlindingFactor(blind).ToSecretKey(), excess, Hasher::Blake2b(s.GetBytes()));
	return TransactionKernel(f, f == EKernelFeatures::COINBASE_KERNEL ? Fee() : Fee::From(fee), lock, Commitment(excess), Signature(*sig));
}
uint64_t txFee(size_t in, size_t out, size_t ker) { return 500000ull * Consensus::CalculateWeightV5(in, out, ker); }

World::World(uint64_t salt) : r(stream("world", salt)) {
	Blk g; g.id = 0; g.full = std::make_shared<FullBlock>(Genesis::FLOONET_GENESIS); g.height = 0; g.td = g.full->GetTotalDifficulty();
	g.utxo = std::make_shared<CoinMap>();
	for (auto& o : g.full->GetOutputs()) { g.out.append(bytesOf(OutputIdentifier::FromOutput(o))); g.rp.append(bytesOf(o.GetRangeProof())); (*g.utxo)[o.GetCommitment().ToHex()] = Coin{ o.GetCommitment(), Consensus::REWARD, BlindingFactor(Hash::ValueOf(0)), true, 0, 0 }; g.created.push_back(o.GetCommitment().ToHex()); }
	for (auto& k : g.full->GetKernels()) g.ker.append(bytesOf(k));
	g.hdr.append(cycleOf(*g.full->GetHeader()));
	g.offset = g.full->GetHeader()->GetTotalKernelOffset();
	b.push_back(g);
}
Coin World::newCoin(uint64_t amount, bool coinbase, TransactionOutput* out) {
	Coin c; c.amount = amount; c.coinbase = coinbase; c.height = 0; c.leaf = 0; c.blind = rndBlind(r); c.c = Crypto::CommitBlinded(amount, c.blind);
	ProofMessage pm = ProofMessage(CBigInteger<20>(std::vector<uint8_t>(20, 7)));
	RangeProof p = Crypto::GenerateRangeProof(amount, BlindingFactor(c.blind).ToSecretKey(), BlindingFactor(rndBlind(r)).ToSecretKey(), BlindingFactor(rndBlind(r)).ToSecretKey(), pm);
	*out = TransactionOutput(coinbase ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(c.c), std::move(p));
	byCommit[c.c.ToHex()] = c;
	return c;
}
TransactionPtr World::makeTx(const std::vector<Coin>& in, const std::vector<uint64_t>& amounts, uint64_t fee, std::vector<Coin>* outs, int lockHeight, int nk) {
	std::vector<TransactionInput> ins; std::vector<TransactionOutput> os; std::vector<BlindingFactor> pos, neg; std::vector<TransactionKernel> ks;
	for (auto& c : in) { ins.push_back(TransactionInput(c.coinbase ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(c.c))); neg.push_back(c.blind); }
	for (auto a : amounts) { TransactionOutput o(EOutputFeatures::DEFAULT, Commitment(), RangeProof(std::vector<uint8_t>())); Coin c = newCoin(a, false, &o); os.push_back(o); pos.push_back(c.blind); if (outs) outs->push_back(c); }
	BlindingFactor off = rndBlind(r); neg.push_back(off);
	BlindingFactor tot = Crypto::AddBlindingFactors(pos, neg);
	uint64_t remaining = fee;
	for (int i = 0; i < nk; i++) {
		BlindingFactor kb = tot; uint64_t f = remaining;
		if (i + 1 < nk) { kb = rndBlind(r); tot = Crypto::AddBlindingFactors({ tot }, { kb }); f = remaining / 2; }
		remaining -= f;
		ks.push_back(makeKernel(lockHeight ? EKernelFeatures::HEIGHT_LOCKED : EKernelFeatures::DEFAULT_KERNEL, f, lockHeight, kb, Crypto::CommitBlinded(0, kb)));
	}
	return std::make_shared<Transaction>(std::move(off), TransactionBody(std::move(ins), std::move(os), std::move(ks)));
}
TransactionPtr World::randomTx(const CoinMap& utxo, uint64_t nextHeight, int maxIn, int maxOut, std::vector<Coin>* used, std::vector<Coin>* outs, bool, uint64_t feeBase) {
	std::vector<Coin> ok; std::set<std::string> taken; if (used) for (auto& c : *used) taken.insert(c.c.ToHex());
	for (auto& kv : utxo) if (!taken.count(kv.first) && kv.second.height > 0 && (!kv.second.coinbase || kv.second.height + 25 <= nextHeight) && kv.second.amount > 100000000) ok.push_back(kv.second);
	if (ok.empty()) return nullptr;
	std::vector<Coin> in; int n = r.range(1, maxIn);
	for (int i = 0; i < n && !ok.empty(); i++) { size_t k = r.below(ok.size()); in.push_back(ok[k]); ok.erase(ok.begin() + k); }
	int no = r.range(1, maxOut); uint64_t sum = 0; for (auto& c : in) sum += c.amount;
	int nk = r.chance(0.1) ? 2 : 1;
	uint64_t fee = txFee(in.size(), no, nk) + (feeBase ? r.below(feeBase) : 0);
	if (sum <= fee + no) return nullptr;
	uint64_t rem = sum - fee; std::vector<uint64_t> am; for (int i = 0; i < no; i++) { uint64_t a = i + 1 == no ? rem : 1 + r.below(rem - (no - i - 1)); if (a > rem - (no - i - 1)) a = rem - (no - i - 1); am.push_back(a); rem -= a; }
	if (used) used->insert(used->end(), in.begin(), in.end());
	return makeTx(in, am, fee, outs, r.chance(0.1) ? (int)(1 + r.below(nextHeight)) : 0, nk);
}
TransactionPtr World::recreateTx(int parent, std::vector<Coin>* used) {
	const CoinMap& u = *b[parent].utxo; uint64_t nh = b[parent].height + 1; std::set<std::string> taken; if (used) for (auto& c : *used) taken.insert(c.c.ToHex());
	std::vector<std::pair<Coin, TransactionOutput>> gone; int lim = 12;
	for (int x = parent; x > 0 && lim--; x = b[x].parent) for (auto& s : b[x].spent) if (!u.count(s) && byCommit.count(s) && byCommit[s].amount) for (int y = x; y > 0; y = b[y].parent) { bool hit = false; for (auto& o : b[y].full->GetOutputs()) if (!o.IsCoinbase() && o.GetCommitment().ToHex() == s) { gone.push_back({ byCommit[s], o }); hit = true; } if (hit) break; }
	if (gone.empty()) return nullptr; auto& g = gone[r.below(gone.size())];
	std::vector<Coin> ok, in; for (auto& kv : u) if (!taken.count(kv.first) && kv.second.height > 0 && (!kv.second.coinbase || kv.second.height + 25 <= nh)) ok.push_back(kv.second);
	uint64_t sum = 0; while (sum < g.first.amount + txFee(in.size() + 1, 2, 1) + 1000 && !ok.empty() && in.size() < 4) { size_t k = r.below(ok.size()); in.push_back(ok[k]); sum += ok[k].amount; ok.erase(ok.begin() + k); }
	uint64_t fee = txFee(in.size(), 2, 1); if (sum <= g.first.amount + fee) return nullptr;
	TransactionOutput ch = g.second; Coin cc = newCoin(sum - g.first.amount - fee, false, &ch);
	std::vector<TransactionInput> ti; std::vector<BlindingFactor> neg; for (auto& x : in) { ti.push_back(TransactionInput(x.coinbase ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(x.c))); neg.push_back(x.blind); if (used) used->push_back(x); }
	BlindingFactor off = rndBlind(r); neg.push_back(off); BlindingFactor k = Crypto::AddBlindingFactors({ cc.blind, g.first.blind }, neg); sim::count("gen.recreated_commitment");
	return std::make_shared<Transaction>(std::move(off), TransactionBody(std::move(ti), std::vector<TransactionOutput>{ ch, g.second }, std::vector<TransactionKernel>{ makeKernel(EKernelFeatures::DEFAULT_KERNEL, fee, 0, k, Crypto::CommitBlinded(0, k)) }));
}
void World::apply(Blk& x, const Blk& p) {
	x.out = p.out; x.rp = p.rp; x.ker = p.ker; x.hdr = p.hdr; x.utxo = std::make_shared<CoinMap>(*p.utxo);
	x.height = x.full->GetHeight(); x.td = x.full->GetTotalDifficulty(); x.offset = x.full->GetHeader()->GetTotalKernelOffset();
	for (auto& i : x.full->GetInputs()) { x.utxo->erase(i.GetCommitment().ToHex()); x.spent.push_back(i.GetCommitment().ToHex()); }
	for (auto& o : x.full->GetOutputs()) {
		std::string hx = o.GetCommitment().ToHex(); Coin c; auto it = byCommit.find(hx); if (it != byCommit.end()) c = it->second; else { c.c = o.GetCommitment(); c.amount = 0; }
		c.coinbase = o.IsCoinbase(); c.height = x.height; c.leaf = x.out.leaves;
		x.out.append(bytesOf(OutputIdentifier::FromOutput(o))); x.rp.append(bytesOf(o.GetRangeProof())); (*x.utxo)[hx] = c; x.created.push_back(hx);
	}
	for (auto& k : x.full->GetKernels()) x.ker.append(bytesOf(k));
	x.hdr.append(cycleOf(*x.full->GetHeader()));
}
static int64_t tw(const std::map<std::string, int64_t>& t, const char* k) { auto it = t.find(k); return it == t.end() ? 0 : it->second; }
static Hash flip(Hash h) { std::vector<uint8_t> v(h.GetData().begin(), h.GetData().end()); v[5] ^= 1; return Hash(v); }
std::shared_ptr<FullBlock> World::assemble(int parent, const TransactionBody& body, const BlindingFactor& txOffset, uint64_t diff, uint64_t dt, const std::map<std::string, int64_t>& t) {
	const Blk& p = b[parent]; auto ph = p.full->GetHeader();
	MMRAcc out = p.out, rp = p.rp, ker = p.ker;
	for (auto& o : body.GetOutputs()) { out.append(bytesOf(OutputIdentifier::FromOutput(o))); rp.append(bytesOf(o.GetRangeProof())); }
	for (auto& k : body.GetKernels()) ker.append(bytesOf(k));
	std::vector<uint64_t> nonces; for (int i = 0; i < 42; i++) nonces.push_back(r.below(1u << 29)); std::sort(nonces.begin(), nonces.end());
	BlindingFactor off = Crypto::AddBlindingFactors({ p.offset, txOffset }, {});
	if (tw(t, "offset")) off = Crypto::AddBlindingFactors({ off, rndBlind(r) }, {});
	Hash prevRoot = p.hdr.root(), oroot = out.root(), rroot = rp.root(), kroot = ker.root();
	if (tw(t, "prevroot")) prevRoot = flip(prevRoot); if (tw(t, "outroot")) oroot = flip(oroot); if (tw(t, "rproot")) rroot = flip(rroot); if (tw(t, "kerroot")) kroot = flip(kroot);
	auto hdr = std::make_shared<const BlockHeader>((uint16_t)(1 + tw(t, "version")), p.height + 1 + tw(t, "height"), tw(t, "time") ? tw(t, "time") : ph->GetTimestamp() + (int64_t)dt + tw(t, "dt"), Hash(ph->GetHash()), std::move(prevRoot), std::move(oroot), std::move(rroot), std::move(kroot), std::move(off),
		out.size + tw(t, "outsize"), ker.size + tw(t, "kersize"), p.td + diff, 10, r.next(), ProofOfWork(29, std::move(nonces)));
	return std::make_shared<FullBlock>(hdr, TransactionBody(body));
}
struct Draft { TransactionBody body; BlindingFactor off; uint64_t fees; };
static TransactionBody mergeBodies(const std::vector<TransactionPtr>& txs, const TransactionOutput* cb, const TransactionKernel* ck) {
	std::vector<TransactionInput> i; std::vector<TransactionOutput> o; std::vector<TransactionKernel> k;
	for (auto& t : txs) { for (auto& x : t->GetInputs()) i.push_back(x); for (auto& x : t->GetOutputs()) o.push_back(x); for (auto& x : t->GetKernels()) k.push_back(x); }
	// cut-through: outputs spent by inputs of the same block
	for (size_t a = 0; a < i.size();) { bool hit = false; for (size_t c = 0; c < o.size(); c++) if (o[c].GetCommitment() == i[a].GetCommitment()) { o.erase(o.begin() + c); hit = true; break; } if (hit) i.erase(i.begin() + a); else a++; }
	if (cb) o.push_back(*cb); if (ck) k.push_back(*ck);
	return TransactionBody(std::move(i), std::move(o), std::move(k));
}
int World::addRaw(int parent, std::shared_ptr<FullBlock> full, bool valid, const std::string& why) {
	Blk x; x.id = (int)b.size(); x.parent = parent; x.full = full; x.valid = valid; x.why = why; apply(x, b[parent]); b.push_back(x); return x.id;
}
int World::mine(int parent, const std::vector<TransactionPtr>& txs, uint64_t diff, uint64_t dt) {
	uint64_t fees = 0; std::vector<BlindingFactor> offs; for (auto& t : txs) { fees += t->CalcFee(); offs.push_back(t->GetOffset()); }
	TransactionOutput cb(EOutputFeatures::COINBASE_OUTPUT, Commitment(), RangeProof(std::vector<uint8_t>()));
	Coin c = newCoin(Consensus::REWARD + fees, true, &cb);
	Commitment ex = Crypto::AddCommitments({ c.c }, { Crypto::CommitTransparent(c.amount) });
	TransactionKernel ck = makeKernel(EKernelFeatures::COINBASE_KERNEL, 0, 0, c.blind, ex);
	BlindingFactor off = offs.empty() ? BlindingFactor(Hash::ValueOf(0)) : Crypto::AddBlindingFactors(offs, {});
	return addRaw(parent, assemble(parent, mergeBodies(txs, &cb, &ck), off, diff, dt), true, "");
}
int World::mineCb(int parent, const std::vector<TransactionPtr>& txs, const TransactionOutput& cb, const TransactionKernel& ck, uint64_t diff, uint64_t dt) {
	std::vector<BlindingFactor> offs; for (auto& t : txs) offs.push_back(t->GetOffset());
	BlindingFactor off = offs.empty() ? BlindingFactor(Hash::ValueOf(0)) : Crypto::AddBlindingFactors(offs, {});
	return addRaw(parent, assemble(parent, mergeBodies(txs, &cb, &ck), off, diff, dt), true, "");
}
int World::mineRandom(int parent, uint64_t diff, int maxTx) {
	std::vector<TransactionPtr> txs; std::vector<Coin> used; int n = maxTx ? (int)r.below(maxTx + 1) : 0;
	CoinMap u = *b[parent].utxo;
	for (int i = 0; i < n; i++) {
		std::vector<Coin> outs; auto t = randomTx(u, b[parent].height + 1, 3, 4, &used, &outs); if (!t) break; txs.push_back(t);
		if (r.chance(0.2)) for (auto& o : outs) { Coin c = o; c.height = b[parent].height + 1; u[c.c.ToHex()] = c; } // chained inside the block
	}
	return mine(parent, txs, diff, 30 + r.below(60));
}
bool World::ancestorsValid(int id) const { for (int x = id; x >= 0; x = b[x].parent) if (!b[x].valid) return false; return true; }
bool World::isAncestor(int a, int d) const { for (int x = d; x >= 0; x = b[x].parent) if (x == a) return true; return false; }

// ------------------------------------------------------------- invalid blocks
static const char* KINDS[] = { "outroot", "rproot", "kerroot", "prevroot", "offset", "height", "version", "dt", "outsize", "kersize", "future", "inflate-coinbase", "inflate-output", "bad-kernel-sig", "bad-proof", "proof-swap", "double-spend", "missing-input", "immature", "dup-output", "locked-kernel", "drop-kernel", "drop-coinbase", "overweight-fee", "coinbase-feature", "unsorted", "dup-input", "dup-input-feat", "dup-output-block", "no-cut-through", "sh-drop-output", "sh-proof", "sh-kersig", "sh-unsorted", "sh-drop-kernel", "sh-extra-output", "sh-other-body", "sh-drop-input", "overweight" };
int World::mutantKinds() { return sizeof KINDS / sizeof *KINDS; }
std::shared_ptr<FullBlock> World::mutant(int of, int kind, std::string* why) {
	const Blk base = b[of]; int parent = base.parent; if (parent < 0) return nullptr; const Blk& p = b[parent];
	std::string k = KINDS[kind]; if (why) *why = k;
	const auto& f = *base.full; uint64_t diff = base.td - p.td; int64_t dt = f.GetHeader()->GetTimestamp() - p.full->GetHeader()->GetTimestamp();
	BlindingFactor txoff = Crypto::AddBlindingFactors({ base.offset }, { p.offset }); if (base.offset == p.offset) txoff = BlindingFactor(Hash::ValueOf(0));
	std::vector<TransactionInput> in = f.GetInputs(); std::vector<TransactionOutput> out = f.GetOutputs(); std::vector<TransactionKernel> ker = f.GetKernels();
	std::map<std::string, int64_t> t; bool sort = true;
	auto rebuild = [&]() { return assemble(parent, sort ? TransactionBody(std::vector<TransactionInput>(in), std::vector<TransactionOutput>(out), std::vector<TransactionKernel>(ker)) : TransactionBody::NoSort(in, out, ker), txoff, diff, dt, t); };
	if (k == "outroot" || k == "rproot" || k == "kerroot" || k == "prevroot" || k == "offset" || k == "height" || k == "outsize" || k == "kersize") t[k] = 1;
	else if (k == "version") t[k] = r.chance(0.5) ? 1 : 4;
	else if (k == "dt") t["dt"] = -dt - (int64_t)r.below(3);
	else if (k == "future") t["time"] = 1577836800ll + 86400ll * 300 + (int64_t)r.below(1000);
	else if (k == "inflate-coinbase" || k == "drop-coinbase" || k == "coinbase-feature") {
		size_t ci = 0; while (ci < out.size() && !out[ci].IsCoinbase()) ci++; size_t ki = 0; while (ki < ker.size() && !ker[ki].IsCoinbase()) ki++;
		if (ci == out.size() || ki == ker.size()) return nullptr;
		if (k == "drop-coinbase") { out.erase(out.begin() + ci); ker.erase(ker.begin() + ki); if (out.empty()) return nullptr; }
		else if (k == "coinbase-feature") out[ci] = TransactionOutput(EOutputFeatures::DEFAULT, Commitment(out[ci].GetCommitment()), RangeProof(out[ci].GetRangeProof()));
		else {
			uint64_t fees = f.GetTotalFees(); TransactionOutput cb = out[ci]; Coin c = newCoin(Consensus::REWARD + fees + 1 + r.below(1000), true, &cb);
			Commitment ex = Crypto::AddCommitments({ c.c }, { Crypto::CommitTransparent(r.chance(0.5) ? c.amount : Consensus::REWARD + fees) });
			out[ci] = cb; ker[ki] = makeKernel(EKernelFeatures::COINBASE_KERNEL, 0, 0, c.blind, ex);
		}
	}
	else if (k == "inflate-output") { size_t i = 0; while (i < out.size() && out[i].IsCoinbase()) i++; if (i == out.size()) return nullptr; auto it = byCommit.find(out[i].GetCommitment().ToHex()); Coin old = it->second; TransactionOutput o = out[i]; Coin c = old; c.amount += 5; c.c = Crypto::CommitBlinded(c.amount, c.blind); 
		RangeProof pr = Crypto::GenerateRangeProof(c.amount, BlindingFactor(c.blind).ToSecretKey(), BlindingFactor(rndBlind(r)).ToSecretKey(), BlindingFactor(rndBlind(r)).ToSecretKey(), ProofMessage(CBigInteger<20>(std::vector<uint8_t>(20, 7)))); byCommit[c.c.ToHex()] = c; out[i] = TransactionOutput(EOutputFeatures::DEFAULT, Commitment(c.c), std::move(pr)); }
	else if (k == "bad-kernel-sig") { size_t i = r.below(ker.size()); std::vector<uint8_t> s(ker[i].GetExcessSignature().GetSignatureBytes().GetData().begin(), ker[i].GetExcessSignature().GetSignatureBytes().GetData().end()); s[r.below(64)] ^= 1 << r.below(8); ker[i] = TransactionKernel(ker[i].GetFeatures(), Fee::From(ker[i].GetFee()), ker[i].GetLockHeight(), Commitment(ker[i].GetExcessCommitment()), Signature(CBigInteger<64>(s))); }
	else if (k == "bad-proof") { size_t i = r.below(out.size()); auto pb = out[i].GetRangeProof().GetProofBytes(); pb[r.below(pb.size())] ^= 1 << r.below(8); out[i] = TransactionOutput(out[i].GetFeatures(), Commitment(out[i].GetCommitment()), RangeProof(std::move(pb))); }
	else if (k == "proof-swap") { if (out.size() < 2) return nullptr; auto a = out[0], c = out[1]; out[0] = TransactionOutput(a.GetFeatures(), Commitment(a.GetCommitment()), RangeProof(c.GetRangeProof())); out[1] = TransactionOutput(c.GetFeatures(), Commitment(c.GetCommitment()), RangeProof(a.GetRangeProof())); }
	else if (k == "double-spend" || k == "missing-input" || k == "immature") {
		// add a self-balanced transaction spending a coin it must not
		Coin c; bool got = false;
		if (k == "double-spend") { std::vector<std::string> sp; for (int x = parent; x > 0; x = b[x].parent) for (auto& s : b[x].spent) if (byCommit.count(s) && !p.utxo->count(s)) sp.push_back(s); if (!sp.empty()) { c = byCommit[sp[r.below(sp.size())]]; got = true; bool cb = false; for (auto& y : b) for (auto& o : y.full->GetOutputs()) if (o.GetCommitment() == c.c) cb = o.IsCoinbase(); c.coinbase = cb; } }
		else if (k == "missing-input") { TransactionOutput o = out[0]; c = newCoin(1000000000, false, &o); c.coinbase = r.chance(0.3); got = true; }
		else { std::vector<Coin> im; for (auto& kv : *p.utxo) if (kv.second.coinbase && kv.second.height > 0 && kv.second.height + 25 > base.height) im.push_back(kv.second); if (!im.empty()) { c = im[r.below(im.size())]; got = true; } }
		if (!got) return nullptr;
		uint64_t fee = txFee(1, 1, 1); if (c.amount <= fee) return nullptr;
		if (r.chance(0.35)) c.coinbase = !c.coinbase; // mislabelled input
		auto tx = makeTx({ c }, { c.amount - fee }, fee);
		// rebuild with a coinbase collecting the extra fee
		std::vector<TransactionPtr> one; auto full = f; 
		size_t ci = 0; while (ci < out.size() && !out[ci].IsCoinbase()) ci++; size_t ki = 0; while (ki < ker.size() && !ker[ki].IsCoinbase()) ki++; if (ci == out.size()) return nullptr;
		TransactionOutput cb = out[ci]; Coin nc = newCoin(Consensus::REWARD + f.GetTotalFees() + fee, true, &cb); out[ci] = cb; ker[ki] = makeKernel(EKernelFeatures::COINBASE_KERNEL, 0, 0, nc.blind, Crypto::AddCommitments({ nc.c }, { Crypto::CommitTransparent(nc.amount) }));
		for (auto& x : tx->GetInputs()) in.push_back(x); for (auto& x : tx->GetOutputs()) out.push_back(x); for (auto& x : tx->GetKernels()) ker.push_back(x);
		txoff = (base.offset == p.offset) ? tx->GetOffset() : Crypto::AddBlindingFactors({ txoff, tx->GetOffset() }, {});
	}
	else if (k == "dup-output") { // an output whose commitment is already unspent
		std::vector<Coin> pl; for (auto& kv : *p.utxo) if (!kv.second.coinbase && kv.second.amount && byCommit.count(kv.first)) { bool spent = false; for (auto& i : in) if (i.GetCommitment() == kv.second.c) spent = true; if (!spent) pl.push_back(kv.second); }
		std::vector<Coin> src; for (auto& kv : *p.utxo) if (kv.second.height > 0 && (!kv.second.coinbase || kv.second.height + 25 <= base.height)) { bool sp = false; for (auto& i : in) if (i.GetCommitment() == kv.second.c) sp = true; if (!sp) src.push_back(kv.second); }
		for (auto& d : pl) for (auto& s : src) if (s.c != d.c && s.amount > d.amount + txFee(1, 2, 1)) {
			uint64_t fee = txFee(1, 2, 1); TransactionOutput o2 = out[0]; Coin ch = newCoin(s.amount - d.amount - fee, false, &o2);
			TransactionOutput dupo = out[0]; bool found = false; for (auto& y : b) for (auto& o : y.full->GetOutputs()) if (o.GetCommitment() == d.c) { dupo = o; found = true; } if (!found) continue;
			BlindingFactor off = rndBlind(r); BlindingFactor kb = Crypto::AddBlindingFactors({ ch.blind, d.blind }, { s.blind, off });
			size_t ci = 0; while (ci < out.size() && !out[ci].IsCoinbase()) ci++; size_t ki = 0; while (ki < ker.size() && !ker[ki].IsCoinbase()) ki++; if (ci == out.size()) return nullptr;
			TransactionOutput cb = out[ci]; Coin nc = newCoin(Consensus::REWARD + f.GetTotalFees() + fee, true, &cb); out[ci] = cb; ker[ki] = makeKernel(EKernelFeatures::COINBASE_KERNEL, 0, 0, nc.blind, Crypto::AddCommitments({ nc.c }, { Crypto::CommitTransparent(nc.amount) }));
			in.push_back(TransactionInput(s.coinbase ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(s.c))); out.push_back(o2); out.push_back(dupo); ker.push_back(makeKernel(EKernelFeatures::DEFAULT_KERNEL, fee, 0, kb, Crypto::CommitBlinded(0, kb)));
			txoff = (base.offset == p.offset) ? off : Crypto::AddBlindingFactors({ txoff, off }, {});
			return rebuild();
		}
		return nullptr;
	}
	else if (k == "locked-kernel") { size_t i = 0; while (i < ker.size() && ker[i].IsCoinbase()) i++; if (i == ker.size()) return nullptr;
		std::vector<Coin> src; for (auto& kv : *p.utxo) if (kv.second.height > 0 && (!kv.second.coinbase || kv.second.height + 25 <= base.height)) { bool sp = false; for (auto& x : in) if (x.GetCommitment() == kv.second.c) sp = true; if (!sp) src.push_back(kv.second); }
		if (src.empty()) return nullptr; Coin s = src[r.below(src.size())]; uint64_t fee = txFee(1, 1, 1); if (s.amount <= fee) return nullptr;
		auto tx = makeTx({ s }, { s.amount - fee }, fee, nullptr, (int)(base.height + 1 + r.below(5)));
		size_t ci = 0; while (ci < out.size() && !out[ci].IsCoinbase()) ci++; size_t ki = 0; while (ki < ker.size() && !ker[ki].IsCoinbase()) ki++; if (ci == out.size()) return nullptr;
		TransactionOutput cb = out[ci]; Coin nc = newCoin(Consensus::REWARD + f.GetTotalFees() + fee, true, &cb); out[ci] = cb; ker[ki] = makeKernel(EKernelFeatures::COINBASE_KERNEL, 0, 0, nc.blind, Crypto::AddCommitments({ nc.c }, { Crypto::CommitTransparent(nc.amount) }));
		for (auto& x : tx->GetInputs()) in.push_back(x); for (auto& x : tx->GetOutputs()) out.push_back(x); for (auto& x : tx->GetKernels()) ker.push_back(x);
		txoff = (base.offset == p.offset) ? tx->GetOffset() : Crypto::AddBlindingFactors({ txoff, tx->GetOffset() }, {}); }
	else if (k == "drop-kernel") { size_t i = 0; while (i < ker.size() && ker[i].IsCoinbase()) i++; if (i == ker.size()) return nullptr; ker.erase(ker.begin() + i); }
	else if (k == "overweight-fee") { size_t i = 0; while (i < ker.size() && ker[i].IsCoinbase()) i++; if (i == ker.size()) return nullptr; ker[i] = TransactionKernel(ker[i].GetFeatures(), Fee::From(ker[i].GetFee() + 1000), ker[i].GetLockHeight(), Commitment(ker[i].GetExcessCommitment()), ker[i].GetExcessSignature()); }
	else if (k == "dup-input" || k == "dup-input-feat" || k == "no-cut-through" || k == "overweight") {
		std::vector<Coin> src; for (auto& kv : *p.utxo) if (kv.second.height > 0 && kv.second.amount > 1000000000ull && (!kv.second.coinbase || kv.second.height + 25 <= base.height)) { bool sp = false; for (auto& x : in) if (x.GetCommitment() == kv.second.c) sp = true; if (!sp) src.push_back(kv.second); }
		if (src.empty()) return nullptr; if (k == "overweight" && !r.chance(0.15)) return nullptr;
		Coin s = src[r.below(src.size())]; uint64_t fee = txFee(2, 2, 1); TransactionPtr tx;
		if (k == "no-cut-through") { // an output both created and spent inside the block
			TransactionOutput mo = out[0]; Coin mid = newCoin(s.amount - fee, false, &mo); TransactionOutput lo = out[0]; Coin last = newCoin(s.amount - 2 * fee, false, &lo);
			BlindingFactor o1 = rndBlind(r), o2 = rndBlind(r); BlindingFactor k1 = Crypto::AddBlindingFactors({ mid.blind }, { s.blind, o1 }), k2 = Crypto::AddBlindingFactors({ last.blind }, { mid.blind, o2 });
			std::vector<TransactionInput> ti{ TransactionInput(s.coinbase ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(s.c)), TransactionInput(EOutputFeatures::DEFAULT, Commitment(mid.c)) };
			tx = std::make_shared<Transaction>(Crypto::AddBlindingFactors({ o1, o2 }, {}), TransactionBody(std::move(ti), std::vector<TransactionOutput>{ mo, lo }, std::vector<TransactionKernel>{ makeKernel(EKernelFeatures::DEFAULT_KERNEL, fee, 0, k1, Crypto::CommitBlinded(0, k1)), makeKernel(EKernelFeatures::DEFAULT_KERNEL, fee, 0, k2, Crypto::CommitBlinded(0, k2)) }));
		} else if (k == "overweight") { int n = 10010; uint64_t fe = txFee(1, n, 1); // too heavy under every version of the weight formula
			 if (s.amount <= fe + n) return nullptr; std::vector<uint64_t> am(n, (s.amount - fe) / n); am[0] += (s.amount - fe) % n; tx = makeTx({ s }, am, fe); }
		else {
			tx = makeTx({ s, s }, { 2 * s.amount - fee }, fee);
			if (k == "dup-input-feat") { std::vector<TransactionInput> ti{ TransactionInput(EOutputFeatures::COINBASE_OUTPUT, Commitment(s.c)), TransactionInput(EOutputFeatures::DEFAULT, Commitment(s.c)) };
				tx = std::make_shared<Transaction>(BlindingFactor(tx->GetOffset()), TransactionBody(std::move(ti), std::vector<TransactionOutput>(tx->GetOutputs()), std::vector<TransactionKernel>(tx->GetKernels()))); }
		}
		size_t ci = 0; while (ci < out.size() && !out[ci].IsCoinbase()) ci++; size_t ki = 0; while (ki < ker.size() && !ker[ki].IsCoinbase()) ki++; if (ci == out.size()) return nullptr;
		TransactionOutput cb = out[ci]; Coin nc = newCoin(Consensus::REWARD + f.GetTotalFees() + tx->CalcFee(), true, &cb); out[ci] = cb; ker[ki] = makeKernel(EKernelFeatures::COINBASE_KERNEL, 0, 0, nc.blind, Crypto::AddCommitments({ nc.c }, { Crypto::CommitTransparent(nc.amount) }));
		for (auto& x : tx->GetInputs()) in.push_back(x); for (auto& x : tx->GetOutputs()) out.push_back(x); for (auto& x : tx->GetKernels()) ker.push_back(x);
		txoff = (base.offset == p.offset) ? tx->GetOffset() : Crypto::AddBlindingFactors({ txoff, tx->GetOffset() }, {});
	}
	else if (k == "dup-output-block") { // the coinbase output twice, second copy paid by nobody but balanced through its own blinding
		size_t ci = 0; while (ci < out.size() && !out[ci].IsCoinbase()) ci++; if (ci == out.size()) return nullptr; out.push_back(out[ci]); }
	else if (k.rfind("sh-", 0) == 0) { // the original header with a different body
		if (k == "sh-drop-output") out.erase(out.begin() + r.below(out.size()));
		else if (k == "sh-proof") { size_t i = r.below(out.size()); auto pb = out[i].GetRangeProof().GetProofBytes(); pb[r.below(pb.size())] ^= 1 << r.below(8); out[i] = TransactionOutput(out[i].GetFeatures(), Commitment(out[i].GetCommitment()), RangeProof(std::move(pb))); }
		else if (k == "sh-kersig") { size_t i = r.below(ker.size()); std::vector<uint8_t> s(ker[i].GetExcessSignature().GetSignatureBytes().GetData().begin(), ker[i].GetExcessSignature().GetSignatureBytes().GetData().end()); s[r.below(64)] ^= 1 << r.below(8); ker[i] = TransactionKernel(ker[i].GetFeatures(), Fee::From(ker[i].GetFee()), ker[i].GetLockHeight(), Commitment(ker[i].GetExcessCommitment()), Signature(CBigInteger<64>(s))); }
		else if (k == "sh-unsorted") { if (out.size() < 2) return nullptr; std::swap(out[0], out[1]); return std::make_shared<FullBlock>(f.GetHeader(), TransactionBody::NoSort(in, out, ker)); }
		else if (k == "sh-drop-kernel") ker.erase(ker.begin() + r.below(ker.size()));
		else if (k == "sh-extra-output") { TransactionOutput o = out[0]; newCoin(1 + r.below(1000000), false, &o); out.push_back(o); }
		else if (k == "sh-drop-input") { if (in.empty()) return nullptr; in.erase(in.begin() + r.below(in.size())); }
		else { // a self-consistent body that belongs to another block
			size_t before = b.size(); int o = mineRandom(parent, 1, 2); TransactionBody ob = b[o].full->GetTransactionBody(); b.resize(before); return std::make_shared<FullBlock>(f.GetHeader(), TransactionBody(ob)); }
		return std::make_shared<FullBlock>(f.GetHeader(), TransactionBody(std::move(in), std::move(out), std::move(ker)));
	}
	else if (k == "input-feature") { size_t i = 0; if (in.empty()) return nullptr; i = r.below(in.size()); in[i] = TransactionInput(in[i].GetFeatures() == EOutputFeatures::DEFAULT ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(in[i].GetCommitment())); }
	else if (k == "unsorted") { int c = (int)r.below(3); sort = false; if (c == 0 && in.size() > 1) std::swap(in[0], in[1]); else if (c == 1 && ker.size() > 1) std::swap(ker[0], ker[1]); else if (out.size() > 1) std::swap(out[0], out[1]); else return nullptr; }
	else return nullptr;
	return rebuild();
}

// ------------------------------------------------------------- node
const char* statusName(EBlockChainStatus s) {
	switch (s) { case EBlockChainStatus::SUCCESS: return "SUCCESS"; case EBlockChainStatus::INVALID: return "INVALID"; case EBlockChainStatus::ALREADY_EXISTS: return "EXISTS"; case EBlockChainStatus::ORPHANED: return "ORPHANED"; case EBlockChainStatus::UNKNOWN_ERROR: return "ERROR"; default: break; }
	static char b[16]; snprintf(b, 16, "status%d", (int)s); return b;
}
void Node::init(const std::string& d, bool scheduler) {
	dir = d;
	cfg[ "DATA_PATH" ] = d;
	auto pc = Config::Load(cfg, Environment::AUTOMATED_TESTING);
	if (scheduler) ctx = Context::Create(Environment::AUTOMATED_TESTING, pc);
	else ctx = std::make_shared<Context>(Environment::AUTOMATED_TESTING, pc, std::shared_ptr<Bosma::Scheduler>());
	Global::Init(ctx);
}
void Node::open() {
	const Config& c = ctx->GetConfig();
	db = DatabaseAPI::OpenDatabase(c);
	txhs = std::make_shared<Locked<TxHashSetManager>>(std::make_shared<TxHashSetManager>(c));
	pool = TxPoolAPI::CreateTransactionPool(c);
	hmmr = HeaderMMRAPI::OpenHeaderMMR(c);
	chain = BlockChainAPI::OpenBlockChain(c, db->GetBlockDB(), txhs, pool, hmmr);
}
void Node::close() { chain.reset(); hmmr.reset(); pool.reset(); txhs.reset(); db.reset(); Global::SetCoinView(nullptr); Global::Shutdown(); ctx.reset(); }
EBlockChainStatus addBlockSafe(Node& n, const FullBlock& f, std::string* exc) {
	try { return n.chain->AddBlock(f); } catch (const std::exception& e) { if (exc) *exc = e.what(); return EBlockChainStatus::UNKNOWN_ERROR; }
}
int tipOf(Node& n, const World& w, EChainType t) {
	auto h = n.chain->GetTipBlockHeader(t); if (!h) return -1;
	for (auto& x : w.b) if (x.hash() == h->GetHash()) return x.id;
	return -2;
}
void checkState(Node& n, const World& w, int tip, const CheckOpts& o) {
	const Blk& T = w.b[tip];
	auto th = n.chain->GetTipBlockHeader(EChainType::CONFIRMED);
	SIM_CHECK(o.prop, th && th->GetHash() == T.hash(), "%s: confirmed tip is not block %d (height %lu) but height %lu", o.when, tip, T.height, th ? th->GetHeight() : 0);
	SIM_CHECK(o.prop, n.chain->GetHeight(EChainType::CONFIRMED) == T.height && n.chain->GetTotalDifficulty(EChainType::CONFIRMED) == T.td, "%s: height/total difficulty of the confirmed chain differ from its tip", o.when);
	auto cand = n.chain->GetTipBlockHeader(EChainType::CANDIDATE);
	SIM_CHECK(o.prop, cand && cand->GetTotalDifficulty() >= T.td, "%s: header chain tip has less work than the confirmed tip", o.when);
	std::vector<int> path; for (int x = tip; x >= 0; x = w.b[x].parent) path.push_back(x);
	std::reverse(path.begin(), path.end());
	for (size_t i = 0; i < path.size(); i++) {
		const Blk& x = w.b[path[i]];
		auto h = n.chain->GetBlockHeaderByHeight(i, EChainType::CONFIRMED);
		SIM_CHECK(o.prop, h && h->GetHash() == x.hash(), "%s: header at confirmed height %zu is not that of the chain of the tip", o.when, i);
		if (o.readBlocks && i) {
			auto bl = n.chain->GetBlockByHash(x.hash());
			SIM_CHECK(o.prop, bl && bl->GetHash() == x.hash() && bytesOf(bl->GetTransactionBody()) == bytesOf(x.full->GetTransactionBody()), "%s: block at height %zu missing or different", o.when, i);
			SIM_CHECK(o.prop, n.chain->HasBlock(i, x.hash()), "%s: HasBlock denies confirmed block at height %zu", o.when, i);
		}
	}
	SIM_CHECK(o.prop, !n.chain->GetBlockHeaderByHeight(path.size(), EChainType::CONFIRMED), "%s: a header is confirmed above the tip", o.when);
	// unspent outputs
	auto bdb = n.db->GetBlockDB()->Read();
	auto ts = std::const_pointer_cast<ITxHashSet>(n.txhs->Read()->GetTxHashSet());
	SIM_CHECK(o.prop, ts != nullptr, "%s: no unspent-output state loaded", o.when);
	for (auto& kv : *T.utxo) {
		auto loc = bdb->GetOutputPosition(kv.second.c);
		SIM_CHECK(o.prop, loc != nullptr, "%s: unspent output of height %lu (leaf %lu) is reported spent/unknown at tip height %lu", o.when, kv.second.height, kv.second.leaf, T.height);
		SIM_CHECK(o.prop, loc->GetBlockHeight() == kv.second.height, "%s: unspent output of height %lu reported at height %lu", o.when, kv.second.height, loc->GetBlockHeight());
		SIM_CHECK(o.prop, loc->GetLeafIndex().Get() == kv.second.leaf, "%s: unspent output with leaf %lu reported at leaf %lu", o.when, kv.second.leaf, loc->GetLeafIndex().Get());
		if (kv.second.height > 0) { auto bh = n.chain->GetBlockHeaderByCommitment(kv.second.c); SIM_CHECK(o.prop, bh && bh->GetHeight() == kv.second.height, "%s: block lookup by output commitment is wrong", o.when); }
	}
	if (o.full) for (auto& kv : w.byCommit) if (!T.utxo->count(kv.first)) {
		auto loc = bdb->GetOutputPosition(kv.second.c);
		SIM_CHECK(o.prop, loc == nullptr, "%s: an output that is spent or not on the chain is reported unspent at height %lu", o.when, loc ? loc->GetBlockHeight() : 0);
	}
	auto roots = ts->GetRoots(bdb.GetShared(), TransactionBody());
	SIM_CHECK(o.prop, roots.GetOutputInfo().root == T.out.root() && roots.GetOutputInfo().size == T.out.size, "%s: output root/size differ from the replayed chain (size %lu, expected %lu)", o.when, roots.GetOutputInfo().size, T.out.size);
	SIM_CHECK(o.prop, roots.GetRangeProofInfo().root == T.rp.root(), "%s: range-proof root differs from the replayed chain", o.when);
	SIM_CHECK(o.prop, roots.GetKernelInfo().root == T.ker.root() && roots.GetKernelInfo().size == T.ker.size, "%s: kernel root/size differ from the replayed chain", o.when);
	// the leaf set itself
	std::set<uint64_t> leaves; for (auto& kv : *T.utxo) leaves.insert(kv.second.leaf);
	uint64_t start = 0; std::set<uint64_t> got; std::map<uint64_t, std::string> gotC;
	auto range = ts->GetOutputsByLeafIndex(bdb.GetShared(), 0, 3000);
	for (auto& op : range.GetOutputs()) { got.insert(op.GetLeafIndex().Get()); gotC[op.GetLeafIndex().Get()] = op.GetIdentifier().GetCommitment().ToHex(); } (void)start;
	SIM_CHECK(o.prop, got.size() == leaves.size() && got == leaves, "%s: enumerated unspent outputs differ: %zu enumerated, %zu expected", o.when, got.size(), leaves.size());
	for (auto& kv : *T.utxo) SIM_CHECK(o.prop, gotC[kv.second.leaf] == kv.first, "%s: output data stored at leaf %lu is that of another output", o.when, kv.second.leaf);
	sim::count("checks.state");
}
#include "../src/BlockChain/CompactBlockFactory.h"
CompactBlock Node::compact(const FullBlock& f) { return CompactBlockFactory::CreateCompactBlock(f); }
std::string observe(Node& n, const World& w, bool co) {
	std::string s; auto th = n.chain->GetTipBlockHeader(EChainType::CONFIRMED), ch = n.chain->GetTipBlockHeader(EChainType::CANDIDATE);
	s += th ? th->GetHash().ToHex().substr(0, 16) : "none"; if (!co) { s += "/"; s += ch ? ch->GetHash().ToHex() : "none"; }
	s += "/" + std::to_string(n.chain->GetTotalDifficulty(EChainType::CONFIRMED)) + (co ? std::string() : "/" + std::to_string(n.chain->GetTotalDifficulty(EChainType::CANDIDATE)));
	auto bdb = n.db->GetBlockDB()->Read(); auto ts = std::const_pointer_cast<ITxHashSet>(n.txhs->Read()->GetTxHashSet());
	uint64_t hsh = 1; for (auto& kv : w.byCommit) { auto l = bdb->GetOutputPosition(kv.second.c); if (l) hsh = mix(hsh, mix(hashStr(kv.first.c_str()), l->GetLeafIndex().Get() * 1000 + l->GetBlockHeight())); }
	s += "/u" + std::to_string(hsh);
	if (ts) { auto roots = ts->GetRoots(bdb.GetShared(), TransactionBody()); s += "/o" + roots.GetOutputInfo().root.ToHex().substr(0, 12) + "k" + roots.GetKernelInfo().root.ToHex().substr(0, 12) + "r" + roots.GetRangeProofInfo().root.ToHex().substr(0, 12); }
	for (uint64_t h = 0; th && h <= th->GetHeight() + 2; h++) { auto x = n.chain->GetBlockHeaderByHeight(h, EChainType::CONFIRMED); hsh = mix(hsh, x ? hashStr(x->GetHash().ToHex().c_str()) : 3); }
	if (!co) for (uint64_t h = 0; ch && h <= ch->GetHeight() + 2; h++) { auto x = n.chain->GetBlockHeaderByHeight(h, EChainType::CANDIDATE); hsh = mix(hsh, x ? hashStr(x->GetHash().ToHex().c_str()) : 3); }
	return s + "/h" + std::to_string(hsh);
}
