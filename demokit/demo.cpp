#include "chainlib.h"
using namespace sim;
int main() {
	World w; int base = 0; Node n; n.init("n"); n.open();
	for (int i = 0; i < 30; i++) { base = w.mineRandom(base, 1, 0); SIM_CHECK("", addBlockSafe(n, *w.b[base].full) == EBlockChainStatus::SUCCESS, "block refused"); }
	CheckOpts co; checkState(n, w, base, co); n.close(); puts("ok");
}
