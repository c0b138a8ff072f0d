#include "chainlib.h"
using namespace sim;
// A coin is spent, and the same commitment is created again two blocks later; then a longer branch replaces both blocks.
int main() {
	World w; int base = 0; Node n; n.init("n"); n.open();
	auto give = [&](int id) { std::string e; auto s = addBlockSafe(n, *w.b[id].full, &e); SIM_CHECK("", s == EBlockChainStatus::SUCCESS, "valid block %d refused: %s %s", id, statusName(s), e.c_str()); };
	for (int i = 0; i < 30; i++) { base = w.mineRandom(base, 1, 0); give(base); }
	Coin cb; for (auto& kv : *w.b[base].utxo) if (kv.second.height == 1) cb = kv.second;
	std::vector<Coin> o1, o2, o3; uint64_t fee = txFee(1, 1, 1);
	int b1 = w.mine(base, { w.makeTx({ cb }, { cb.amount - fee }, fee, &o1) }); give(b1);                     // creates C
	Coin c = o1[0]; TransactionOutput cOut = w.b[b1].full->GetOutputs()[0]; for (auto& o : w.b[b1].full->GetOutputs()) if (o.GetCommitment() == c.c) cOut = o;
	Coin cb2; for (auto& kv : *w.b[base].utxo) if (kv.second.height == 2) cb2 = kv.second;
	int a1 = w.mine(b1, { w.makeTx({ c }, { c.amount - fee }, fee, &o2) }); give(a1);                          // spends C
	// creates C again, out of another coin
	uint64_t f2 = txFee(1, 2, 1); TransactionOutput ch = cOut; Coin cc = w.newCoin(cb2.amount - c.amount + 0 > f2 ? cb2.amount - c.amount - f2 : 0, false, &ch);
	Coin src = cb2; std::vector<Coin> in{ cb2 };
	if (cb2.amount < c.amount + f2 + 1) { in.push_back(o2[0]); uint64_t sum = cb2.amount + o2[0].amount; f2 = txFee(2, 2, 1); cc = w.newCoin(sum - c.amount - f2, false, &ch); }
	std::vector<TransactionInput> ti; std::vector<BlindingFactor> neg; for (auto& x : in) { ti.push_back(TransactionInput(x.coinbase ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, Commitment(x.c))); neg.push_back(x.blind); }
	BlindingFactor off = o1[0].blind; neg.push_back(off); BlindingFactor k = Crypto::AddBlindingFactors({ cc.blind, c.blind }, neg);
	auto tx = std::make_shared<Transaction>(BlindingFactor(off), TransactionBody(std::move(ti), std::vector<TransactionOutput>{ ch, cOut }, std::vector<TransactionKernel>{ makeKernel(EKernelFeatures::DEFAULT_KERNEL, f2, 0, k, Crypto::CommitBlinded(0, k)) }));
	int a2 = w.mine(a1, { tx }); give(a2);
	CheckOpts co; co.when = "before the reorganisation"; checkState(n, w, a2, co);
	int f = b1; for (int i = 0; i < 3; i++) { f = w.mine(f, {}, 2); auto s = addBlockSafe(n, *w.b[f].full); printf("fork block %d: %s\n", i, statusName(s)); }
	co.when = "after the reorganisation"; checkState(n, w, f, co);
	n.close();
}
