// U01 (reader/writer wrapper and batches) and U02 (work queues).
#include "sim.h"
#include "lincheck.h"
#include <Core/Traits/Lockable.h>
#include <Common/ConcurrentQueue.h>
#include <Common/SharedQueue.h>
#include <Core/Exceptions/FileException.h>
#include <thread>
#include <atomic>
#include <algorithm>
#include <optional>
using namespace sim;

// these programs are short, so most runs preempt often
static SchedCfg tight(Rng g) { SchedCfg c = swarmSched(g, true); Rng r = g; r.next(); if (r.chance(0.6)) { c.memMean = 2 + r.below(r.chance(0.5) ? 12 : 60); if (c.mode == 0) c.mode = 1; } return c; }

// ------------------------------------------------------------------ U01
namespace {
struct Gate { int writers = 0, readers = 0; }; // touched only without instrumentation points in between
struct Cell : public Traits::IBatchable {
	int id = 0; bool failCommit = false; int failInit = -1;
	uint64_t a = 0, b = 0;                 // visible value, written in two steps
	uint64_t committed = 0; int ended = 0, inited = 0, open = 0;
	uint64_t before = 0;
	void Commit() final { if (failCommit) { failCommit = false; throw FILE_EXCEPTION("commit refused"); } committed = a; before = a; }
	void Rollback() noexcept final { a = before; yield(); b = before; }
	void OnInitWrite(const bool) final { if (failInit == selfId()) { failInit = -1; throw FILE_EXCEPTION("init refused"); } SIM_CHECK("U01", open == 0, "a second writer was admitted to object %d", id); open = 1; before = a; inited++; }
	void OnEndWrite() final { SIM_CHECK("U01", open == 1, "end of write announced twice for object %d", id); open = 0; ended++; }
};
struct Plain { int id = 0; uint64_t a = 0, b = 0; };
struct Obj { std::shared_ptr<Cell> cell; std::shared_ptr<Locked<Cell>> lk; int w = 0, r = 0; uint64_t expect = 0; };
struct In { Obj& o; bool wr; In(Obj& o, bool wr, const char* what) : o(o), wr(wr) { Kernel k;
		if (wr) { SIM_CHECK("U01", o.w == 0 && o.r == 0, "%s: a writer of object %d overlaps %d writers and %d readers", what, o.cell->id, o.w, o.r); o.w++; }
		else { SIM_CHECK("U01", o.w == 0, "%s: a reader of object %d overlaps a writer", what, o.cell->id); o.r++; } }
	~In() { Kernel k; if (wr) o.w--; else o.r--; } };
}
static void pause(Rng& g) { int n = g.below(3); for (int i = 0; i < n; i++) yield(); if (g.chance(0.05)) sleepMs(g.below(20)); }
static void lockedScen() {
	Rng g = rng("cfg"); int nobj = g.range(1, 3), nth = g.range(2, 5), nops = g.range(3, thorough() ? 20 : 10); bool faults = g.chance(0.5); defaultProp("U01");
	struct Op { int kind, x, y; bool commit, thr; }; std::vector<std::vector<Op>> plan_(nth);
	for (auto& v : plan_) for (int i = 0; i < nops; i++) v.push_back({ g.range(0, 8), (int)g.below(nobj), (int)g.below(nobj), g.chance(0.5), g.chance(faults ? 0.3 : 0) });
	phase([&] {
		std::vector<Obj> ob(nobj); for (int i = 0; i < nobj; i++) { ob[i].cell = std::make_shared<Cell>(); ob[i].cell->id = i; ob[i].lk = std::make_shared<Locked<Cell>>(ob[i].cell); }
		auto readv = [&](Obj& o, const Cell& c, const char* what) { uint64_t a = c.a; yield(); uint64_t b = c.b; SIM_CHECK("U01", a == b, "%s: half of a change of object %d is visible (%lu, %lu)", what, o.cell->id, a, b); SIM_CHECK("U01", a == o.expect, "%s: object %d shows %lu, the committed value is %lu", what, o.cell->id, a, o.expect); count("checks.read"); };
		auto change = [&](Obj& o, Cell& c, Rng& r, uint64_t v) { c.a = v; pause(r); c.b = v; (void)o; };
		uint64_t nextVal = 1; int opno = 0; std::vector<std::vector<int>> ids(nth); for (int t = 0; t < nth; t++) for (size_t i = 0; i < plan_[t].size(); i++) ids[t].push_back(opno++);
		auto worker = [&](int t) {
			for (size_t i = 0; i < plan_[t].size(); i++) {
				Op p = plan_[t][i]; if (!opOn(ids[t][i])) continue; Rng r = rng("op", t, i); Obj& x = ob[p.x]; Obj& y = ob[p.y]; uint64_t v; { Kernel k; v = nextVal++; }
				switch (p.kind) {
				case 0: case 1: { auto rd = x.lk->Read(); In in(x, false, "Read"); readv(x, *rd, "Read"); auto copy = rd; pause(r); readv(x, *copy, "copied reader"); break; }
				case 2: { auto w = x.lk->Write(); In in(x, true, "Write"); readv(x, *w, "Write"); change(x, *w, r, v); x.expect = v; if (p.thr) { x.cell->failCommit = true; count("fault.commit_throws"); } break; }
				case 3: case 4: { try { auto w = x.lk->BatchWrite(); std::optional<In> in; in.emplace(x, true, "BatchWrite"); readv(x, *w, "BatchWrite"); change(x, *w, r, v);
						// the value is checked again after the writer is gone, so the gate closes before
						if (p.thr && !p.commit) { count("fault.exception_unwinds_batch"); in.reset(); throw FILE_EXCEPTION("work failed"); }
						if (p.commit) { if (p.thr) { x.cell->failCommit = true; count("fault.commit_throws"); } struct D { std::optional<In>& i; ~D() { i.reset(); } } d{ in }; w->Commit(); x.expect = v; if (r.chance(0.5)) w->SetDirty(false); else { x.expect = v; } }
						else count("reach.batch_dropped"); } catch (const FileException&) { } break; }
				case 5: if (p.x != p.y) { auto l = MultiLocker().Lock(*x.lk, *y.lk); In i1(x, true, "Lock"), i2(y, true, "Lock"); change(x, *std::get<0>(l), r, v); change(y, *std::get<1>(l), r, v); x.expect = v; y.expect = v; } break;
				case 6: if (p.x != p.y) { auto l = MultiLocker().BatchLock(*x.lk, *y.lk); In i1(x, true, "BatchLock"), i2(y, true, "BatchLock"); change(x, *std::get<0>(l), r, v); change(y, *std::get<1>(l), r, v); if (p.commit) { std::get<0>(l)->Commit(); std::get<1>(l)->Commit(); x.expect = v; y.expect = v; } } break;
				case 7: if (p.x != p.y) { auto l = MultiLocker().LockShared(*x.lk, *y.lk); In i1(x, false, "LockShared"), i2(y, false, "LockShared"); pause(r); readv(x, *std::get<0>(l), "LockShared"); readv(y, *std::get<1>(l), "LockShared"); } break;
				case 8: if (p.thr) { x.cell->failInit = selfId(); count("fault.init_throws"); try { auto w = x.lk->Write(); change(x, *w, r, x.expect); } catch (const FileException&) { } } else { auto w = x.lk->Write(); In in(x, true, "moved writer"); auto w2 = std::move(w); change(x, *w2, r, v); x.expect = v; } break;
				}
				pause(r);
			}
		};
		std::vector<std::thread> ts; for (int t = 0; t < nth; t++) ts.emplace_back(worker, t); for (auto& t : ts) t.join();
		for (auto& o : ob) { auto r = o.lk->Read(); readv(o, *r, "at the end"); SIM_CHECK("U01", o.cell->inited == o.cell->ended, "object %d: %d writes begun, %d ended", o.cell->id, o.cell->inited, o.cell->ended); state(mix(o.expect, o.cell->inited)); }
		count("nontrivial");
	}, tight(g));
}
SCENARIO("util_locked", "U01", lockedScen);

// ------------------------------------------------------------------ U02
namespace {
struct Item { int producer, n; bool operator==(const Item& o) const { return producer == o.producer && n == o.n; } };
struct QModel { std::vector<int> q; std::string key() const { std::string s; for (int x : q) { s += char('A' + x / 64); s += char('0' + x % 64); } return s; } };
int code(const Item& i) { return i.producer * 16 + i.n; }
}
static void queueScen() {
	Rng g = rng("cfg"); defaultProp("U02"); int kind = g.range(0, 1), prods = g.range(1, 3), per = g.range(2, thorough() ? 6 : 5), watchers = g.range(0, 2), total = 0;
	bool uniq = kind == 0 && g.chance(0.3); std::vector<int> counts; for (int i = 0; i < prods; i++) { counts.push_back(g.range(1, per)); total += counts.back(); } double pSlow = g.below(100) / 100.0;
	phase([&] {
		ConcurrentQueue<Item> cq; SharedQueue<Item> sq; uint64_t clk = 0; std::vector<std::vector<LinOp<QModel>>> hist(prods + 1 + watchers); bool stop = false; std::vector<int> got; int dups = 0;
		auto rec = [&](int t, uint64_t t0, std::function<bool(QModel&)> f, std::string w) { Kernel k; hist[t].push_back({ t0, ++clk, f, w }); }; auto tick = [&]() -> uint64_t { Kernel k; return ++clk; };
		auto producer = [&](int p) { for (int i = 0; i < counts[p]; i++) { Rng r = rng("p", p, i); if (r.chance(pSlow)) sleepMs(r.below(4)); Item it{ p, i }; int c = code(it); uint64_t t0 = tick();
				if (kind == 0) {
					if (uniq && r.chance(0.6)) { Item u{ 3, (int)r.below(3) }; int cu = code(u); std::function<bool(const Item&, const Item&)> cmp = [](const Item& a, const Item& b) { return a == b; }; bool ok = cq.push_back_unique(std::move(u), cmp); if (ok) { Kernel kk; dups++; } rec(p, t0, [cu, ok](QModel& m) { bool has = std::find(m.q.begin(), m.q.end(), cu) != m.q.end(); if (has == ok) return false; if (ok) m.q.push_back(cu); return true; }, "push_back_unique " + std::to_string(cu) + "=" + std::to_string(ok)); t0 = tick(); }
					if (r.chance(0.5)) cq.push_back(it); else cq.push_back(std::move(it)); }
				else { if (r.chance(0.5)) sq.push_back(it); else sq.push_back(std::move(it)); }
				rec(p, t0, [c](QModel& m) { m.q.push_back(c); return true; }, "push " + std::to_string(c)); } };
		auto watcher = [&](int w) { int t = prods + 1 + w; for (int i = 0; i < 6; i++) { Rng r = rng("w", w, i); if (r.chance(0.5)) sleepMs(r.below(4)); uint64_t t0 = tick();
				int k = r.range(0, 2);
				if (kind == 0) { if (k == 0) { size_t n = cq.size(); rec(t, t0, [n](QModel& m) { return m.q.size() == n; }, "size=" + std::to_string(n)); }
					else if (k == 1) { Item it{ (int)r.below(prods), 0 }; int c = code(it); bool h = cq.contains(it); rec(t, t0, [c, h](QModel& m) { return (std::find(m.q.begin(), m.q.end(), c) != m.q.end()) == h; }, "contains " + std::to_string(c) + "=" + std::to_string(h)); }
					else { Item it{ (int)r.below(prods), 1 }; int c = code(it); std::function<bool(const Item&, const Item&)> cmp = [](const Item& a, const Item& b) { return a == b; }; bool h = cq.contains(it, cmp); rec(t, t0, [c, h](QModel& m) { return (std::find(m.q.begin(), m.q.end(), c) != m.q.end()) == h; }, "contains' " + std::to_string(c) + "=" + std::to_string(h)); } }
				else { if (k) { bool e = sq.empty(); rec(t, t0, [e](QModel& m) { return m.q.empty() == e; }, std::string("empty=") + (e ? "1" : "0")); } else { int n = sq.size(); rec(t, t0, [n](QModel& m) { return (int)m.q.size() == n; }, "size=" + std::to_string(n)); } } } };
		auto consumer = [&] { int t = prods, taken = 0; for (int round = 0; taken < 1000; round++) { bool last = stop; Rng r = rng("c", round); if (r.chance(pSlow)) sleepMs(r.below(4));
				if (kind == 0) {
					std::vector<int> seen; uint64_t t0 = tick(); size_t want = r.range(1, 3);
					if (r.chance(0.5)) { auto v = ((const ConcurrentQueue<Item>&)cq).copy_front(want); for (auto& x : v) seen.push_back(code(x)); rec(t, t0, [seen, want](QModel& m) { size_t n = std::min(want, m.q.size()); return seen == std::vector<int>(m.q.begin(), m.q.begin() + n); }, "copy_front n=" + std::to_string(seen.size())); }
					else { auto p = cq.copy_front(); if (p) seen.push_back(code(*p)); rec(t, t0, [seen](QModel& m) { size_t n = std::min<size_t>(1, m.q.size()); return seen == std::vector<int>(m.q.begin(), m.q.begin() + n); }, "front n=" + std::to_string(seen.size())); }
					if (!seen.empty()) { for (int x : seen) got.push_back(x); t0 = tick(); size_t k = seen.size(); cq.pop_front(k); taken += k; rec(t, t0, [k](QModel& m) { if (m.q.size() < k) return false; m.q.erase(m.q.begin(), m.q.begin() + k); return true; }, "pop " + std::to_string(k)); }
					else { if (last) break; sleepMs(1); }
				} else {
					if (taken == total) break;
					uint64_t t0 = tick(); Item it = sq.front(); int c = code(it); rec(t, t0, [c](QModel& m) { return !m.q.empty() && m.q[0] == c; }, "front=" + std::to_string(c)); got.push_back(c);
					if (r.chance(pSlow)) sleepMs(r.below(3)); t0 = tick(); sq.pop_front(); taken++; rec(t, t0, [c](QModel& m) { if (m.q.empty() || m.q[0] != c) return false; m.q.erase(m.q.begin()); return true; }, "pop " + std::to_string(c)); } } };
		std::vector<std::thread> ts; for (int p = 0; p < prods; p++) ts.emplace_back(producer, p); for (int w = 0; w < watchers; w++) ts.emplace_back(watcher, w); std::thread c(consumer);
		for (auto& t : ts) t.join(); stop = true; c.join();
		for (int p = 0; p < prods; p++) { int n = 0; for (int x : got) if (x / 16 == p) { SIM_CHECK("U02", x % 16 == n, "items of producer %d were taken out of order or repeated (item %d, expected %d)", p, x % 16, n); n++; } SIM_CHECK("U02", n == counts[p], "%d of %d items of producer %d were taken", n, counts[p], p); }
		SIM_CHECK("U02", (int)got.size() == total + dups, "%zu items taken, %d put in", got.size(), total + dups);
		int lin = linearizable<QModel>(hist, QModel()); if (lin == -1) count("lin.gave_up"); else count("checks.linearizable");
		if (lin == 0) { std::string s; for (size_t i = 0; i < hist.size(); i++) { s += " | thread " + std::to_string(i) + ":"; for (auto& o : hist[i]) s += " [" + std::to_string(o.t0) + "-" + std::to_string(o.t1) + " " + o.what + "]"; } violation("U02", "no order of the queue operations explains what they returned (%s queue)%s", kind ? "shared" : "concurrent", s.substr(0, 1800).c_str()); }
		uint64_t h = 0; for (int x : got) h = mix(h, x); state(h); count("nontrivial");
	}, tight(g));
}
SCENARIO("util_queue", "U02", queueScen);
