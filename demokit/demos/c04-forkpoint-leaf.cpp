#include "chainlib.h"
using namespace sim;
// A coin created in the block both branches share is spent on the branch that loses.
int main() {
	World w; int base = 0; Node n; n.init("n"); n.open();
	auto give = [&](int id) { std::string e; auto s = addBlockSafe(n, *w.b[id].full, &e); SIM_CHECK("", s == EBlockChainStatus::SUCCESS, "valid block %d refused: %s %s", id, statusName(s), e.c_str()); };
	for (int i = 0; i < 30; i++) { base = w.mineRandom(base, 1, 0); give(base); }
	Coin cb; for (auto& kv : *w.b[base].utxo) if (kv.second.height == 1) cb = kv.second;
	std::vector<Coin> o1; uint64_t fee = txFee(1, 1, 1), f2 = txFee(1, 2, 1);
	int b1 = w.mine(base, { w.makeTx({ cb }, { cb.amount / 2, cb.amount - cb.amount / 2 - f2 }, f2, &o1) }); give(b1);
	int a1 = w.mine(b1, { w.makeTx({ o1[0] }, { o1[0].amount - fee }, fee) }); give(a1);
	int a2 = w.mine(a1, {}); give(a2);
	int f = b1; for (int i = 0; i < 3; i++) { f = w.mine(f, {}, 2); std::string e; auto s = addBlockSafe(n, *w.b[f].full, &e); printf("fork block %d: %s %s\n", i, statusName(s), e.c_str()); }
	CheckOpts co; co.when = "after the reorganisation"; checkState(n, w, f, co);
	f = w.mine(f, { w.makeTx({ o1[0] }, { o1[0].amount - fee }, fee) }); give(f); checkState(n, w, f, co);
	n.close();
}
