#include "chainlib.h"
using namespace sim;
// A fork that first loses and then wins through its second block.
int main() {
	World w; int base = 0; Node n; n.init("n"); n.open();
	auto give = [&](int id) { std::string e; auto s = addBlockSafe(n, *w.b[id].full, &e); printf("block %d: %s %s\n", id, statusName(s), e.c_str()); };
	for (int i = 0; i < 30; i++) { base = w.mineRandom(base, 1, 0); give(base); }
	int a1 = w.mine(base, {}, 3), f1 = w.mine(base, {}, 2), f2 = w.mine(f1, {}, 4);
	give(a1); give(f1); give(f2);
	for (int p = 0; p < 2; p++) { give(f1); give(f2); }
	CheckOpts co; co.when = "after every block was offered"; checkState(n, w, f2, co);
	n.close();
}
