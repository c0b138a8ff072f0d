#include "chainlib.h"
using namespace sim;
// The second block of a heavier branch is tampered: the attempt to switch is undone, and the next block on the real tip must still be accepted.
int main() {
	World w; int base = 0; Node n; n.init("n"); n.open();
	auto give = [&](int id) { std::string e; auto s = addBlockSafe(n, *w.b[id].full, &e); printf("block %d: %s %s\n", id, statusName(s), e.c_str()); return s; };
	for (int i = 0; i < 30; i++) { base = w.mineRandom(base, 1, 0); give(base); }
	int a1 = w.mine(base, {}, 3), a2 = w.mine(a1, {}, 3); give(a1); give(a2);
	std::string before = observe(n, w, true);
	int f1 = w.mine(base, {}, 2); give(f1);
	std::string mid = observe(n, w, true);
	SIM_CHECK("", before == mid, "a block of a lighter branch changed what the node reports");
	int a3 = w.mine(a2, {}, 1); SIM_CHECK("", give(a3) == EBlockChainStatus::SUCCESS, "the next block was refused");
	int g1 = w.mine(a1, {}, 20); give(g1); CheckOpts co; co.when = "after a reorganisation that followed"; checkState(n, w, g1, co);
	n.close();
}
