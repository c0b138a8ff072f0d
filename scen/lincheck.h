// Small linearizability checker: searches an order of the recorded operations that respects
// real time and explains every result with a sequential model.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <vector>
#include <string>

template <class Model> struct LinOp { uint64_t t0, t1; std::function<bool(Model&)> apply; std::string what; }; // apply: does the recorded result fit; changes the model

// ops grouped per thread in program order. Model needs: copyable, std::string key() const.
// returns 1 linearizable, 0 not, -1 gave up
template <class Model> int linearizable(const std::vector<std::vector<LinOp<Model>>>& th, Model m0, size_t maxNodes = 400000) {
	std::set<std::string> seen; size_t nodes = 0; int result = 0;
	std::function<bool(std::vector<size_t>&, const Model&)> go = [&](std::vector<size_t>& at, const Model& m) -> bool {
		bool done = true; uint64_t minEnd = ~0ull;
		for (size_t i = 0; i < th.size(); i++) if (at[i] < th[i].size()) { done = false; minEnd = std::min(minEnd, th[i][at[i]].t1); }
		if (done) return true;
		std::string k; for (size_t x : at) { k += std::to_string(x); k += ','; } k += m.key();
		if (!seen.insert(k).second) return false;
		if (++nodes > maxNodes) { result = -1; return false; }
		for (size_t i = 0; i < th.size(); i++) if (at[i] < th[i].size()) {
			auto& o = th[i][at[i]]; if (o.t0 > minEnd) continue;
			Model n = m; if (!o.apply(n)) continue;
			at[i]++; bool r = go(at, n); at[i]--; if (r) return true; if (result == -1) return false;
		}
		return false;
	};
	std::vector<size_t> at(th.size(), 0);
	if (go(at, m0)) return 1;
	return result;
}
