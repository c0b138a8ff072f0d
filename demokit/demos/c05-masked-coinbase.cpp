#include "chainlib.h"
using namespace sim;
// A block spends a fresh coinbase and labels its input as an ordinary one.
int main() {
	World w; int base = 0; Node n; n.init("n"); n.open();
	for (int i = 0; i < 30; i++) { base = w.mineRandom(base, 1, 0); SIM_CHECK("", addBlockSafe(n, *w.b[base].full) == EBlockChainStatus::SUCCESS, "valid block refused"); }
	Coin cb; for (auto& kv : *w.b[base].utxo) if (kv.second.height == 29) cb = kv.second;
	cb.coinbase = false; uint64_t fee = txFee(1, 1, 1); std::string e;
	int bad = w.mine(base, { w.makeTx({ cb }, { cb.amount - fee }, fee) });
	auto s = addBlockSafe(n, *w.b[bad].full, &e); printf("immature spend: %s %s\n", statusName(s), e.c_str());
	SIM_CHECK("", s != EBlockChainStatus::SUCCESS && tipOf(n, w, EChainType::CONFIRMED) == base, "a block spending an immature coinbase was accepted");
	n.close();
}
