#include "sim.h"
#include <mutex>
#include <thread>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <shared_mutex>
using namespace sim;
static void selftest() {
	PhaseEnd e = phase([] {
		std::mutex m; std::condition_variable cv; std::deque<int> q; int sum = 0; bool done = false; long racy = 0;
		std::vector<std::thread> ts;
		for (int i = 0; i < 3; i++) ts.emplace_back([&, i] { for (int j = 0; j < 20; j++) { { std::lock_guard<std::mutex> l(m); q.push_back(i * 100 + j); } cv.notify_one(); long r = racy; r++; racy = r; if (j % 7 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(j)); } });
		std::thread c([&] { for (;;) { std::unique_lock<std::mutex> l(m); if (!cv.wait_for(l, std::chrono::seconds(1), [&] { return !q.empty() || done; })) { note("timeout"); continue; } if (q.empty()) return; note("got %d", q.front()); sum += q.front(); q.pop_front(); } });
		for (auto& t : ts) t.join();
		{ std::lock_guard<std::mutex> l(m); done = true; } cv.notify_all(); c.join();
		note("sum %d racy %ld", sum, racy);
		{ std::ofstream f(root() + "/x"); for (int i = 0; i < 10000; i++) f << i << "\n"; }
		if (seed % 7 == 3) SIM_CHECK("X01", racy == 60, "lost update: %ld", racy);
		disk::crashAt(2, 0.5); std::ofstream f(root() + "/y"); for (int i = 0; i < 10000; i++) f << i << "\n"; f.close(); std::ofstream g(root() + "/z"); g << 1; g.close();
	}, swarmSched(rng("swarm"), true));
	(void)e;
	count(e.kind == PH_CRASHED ? "crashed" : "finished");
}
SCENARIO("selftest", "X01", selftest);
