// U04: the node's own file formats under append, rewind, discard, commit, reopen, kill and disk error.
#include "sim.h"
#include <Core/File/AppendOnlyFile.h>
#include <Core/File/DataFile.h>
#include <Core/Exceptions/FileException.h>
#include <Core/File/BitmapFile.h>
#include <algorithm>
#include <optional>
using namespace sim;
namespace {
using Bytes = std::vector<uint8_t>;
Bytes blob(uint64_t id, size_t n) { Bytes b(n); uint64_t h = mix(0xb10b, id); for (size_t i = 0; i < n; i++) { if (i % 8 == 0) h = mix(h, i); b[i] = h >> (i % 8 * 8); } return b; }
// unified view of the two append-only formats: a byte string made of records
struct Rec { virtual ~Rec() = default; virtual void append(const Bytes&) = 0; virtual bool rewind(uint64_t bytes) = 0; virtual bool commit() = 0; virtual void discard() = 0; virtual uint64_t size() = 0; virtual Bytes read(uint64_t pos, uint64_t n) = 0; };
struct RawRec : Rec { AppendOnlyFile f; RawRec(const std::string& p) : f(p) { f.Load(); } void append(const Bytes& b) override { f.Append(b); } bool rewind(uint64_t n) override { return f.Rewind(n); } bool commit() override { return f.Flush(); } void discard() override { f.Discard(); } uint64_t size() override { return f.GetSize(); } Bytes read(uint64_t p, uint64_t n) override { Bytes b; if (!f.Read(p, n, b)) throw FILE_EXCEPTION("read"); return b; } };
struct DataRec : Rec { DataFile<32>::Ptr f; DataRec(const std::string& p) : f(DataFile<32>::Load(p)) {} void append(const Bytes& b) override { if (b[0] & 1) f->AddData(b); else f->AddData(CBigInteger<32>(b)); } bool rewind(uint64_t n) override { f->Rewind(n / 32); return true; } bool commit() override { f->Commit(); return true; } void discard() override { f->Rollback(); } uint64_t size() override { return f->GetSize() * 32; } Bytes read(uint64_t p, uint64_t) override { return f->GetDataAt(p / 32); } };
enum { L_DONE = 1, L_TRY = 2 };
}
static std::string ser(const std::vector<uint32_t>& v) { return std::string((const char*)v.data(), v.size() * 4); }
static std::vector<uint32_t> des(const std::string& s) { std::vector<uint32_t> v(s.size() / 4); memcpy(v.data(), s.data(), s.size()); return v; }

static void appendScen(bool data) {
	Rng g = rng("cfg"); int nops = g.range(6, thorough() ? 60 : 30), maxKills = g.range(0, 3); double pFault = g.chance(0.5) ? 0.25 : 0; bool torn = g.chance(0.5);
	size_t fixed = data ? 32 : 0; auto len = [&](uint32_t id) -> size_t { return fixed ? 32 : 1 + mix(7, id) % 70; };
	auto flat = [&](const std::vector<uint32_t>& v) { Bytes b; for (uint32_t x : v) { Bytes r = blob(x, len(x)); b.insert(b.end(), r.begin(), r.end()); } return b; };
	std::vector<uint32_t> committed, tried; bool inTry = false; uint64_t keep = 0; bool afterKill = false; int kills = 0, opBase = 0; bool over = false;
	while (!over) {
		bool kill = kills < maxKills; Rng k = rng("kill", kills); int killOp = kill ? (int)k.below(nops) : -1; int killMode = k.range(0, 2);
		auto end = phase([&] {
			disk::track("/sim/r/u"); std::string path = root() + "/u/f.bin"; 
			std::unique_ptr<Rec> f; auto open = [&] { if (data) f = std::make_unique<DataRec>(path); else f = std::make_unique<RawRec>(path); };
			if (!kills) { disk::crashOff(); fs::create_directories(root() + "/u"); }
			open(); std::vector<uint32_t> cur = committed; uint64_t keepPend = ~0ull;   // pending view and lowest rewind point since the last commit
			auto readAll = [&](const Bytes& want, const char* when) { Rng r = rng("spot", nops); for (uint64_t p = 0; p < want.size();) { uint64_t n = data ? 32 : std::min<uint64_t>(want.size() - p, 1); // records never straddle the committed/pending boundary for callers
					Bytes b = f->read(p, n); SIM_CHECK("U04", b == Bytes(want.begin() + p, want.begin() + p + n), "%s: bytes at %lu differ from what was stored", when, p); p += n; } };
			auto check = [&](const char* when) { Bytes want = flat(cur); SIM_CHECK("U04", f->size() == want.size(), "%s: size is %lu, should be %zu", when, f->size(), want.size()); readAll(want, when); count("checks.content"); state(mix(want.size(), cur.empty() ? 0 : cur.back())); };
			if (afterKill) {
				// everything committed below the rewind point is there; above it either the old content or a part of the new one
				uint64_t s = f->size(); Bytes old = flat(committed), neu = flat(tried); Bytes got; for (uint64_t p = 0; p < s; p += data ? 32 : 1) { Bytes b = f->read(p, data ? 32 : 1); got.insert(got.end(), b.begin(), b.end()); }
				auto pre = [&](const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); };
				bool ok = got == old || (inTry && got.size() >= keep && pre(got, neu)); 
				SIM_CHECK("U04", ok, "after a kill %s the file holds %zu bytes that are neither the %zu committed before nor a continuation of them above byte %lu", inTry ? "inside a commit" : "outside a commit", got.size(), old.size(), keep);
				count("checks.after_kill"); bool full = inTry && got == neu;
				// like the node, go back to a size known to be good
				if (full && !(got == old)) cur = tried; else if (got == old) cur = committed; else { cur.clear(); Bytes acc; for (uint32_t x : tried) { Bytes r = blob(x, len(x)); if (acc.size() + r.size() > got.size()) break; acc.insert(acc.end(), r.begin(), r.end()); cur.push_back(x); } if (!data || k.chance(0.5)) f->rewind(acc.size()); }
				committed = cur; std::string e; try { if (!f->commit()) e = "not committed"; } catch (const std::exception& x) { e = x.what(); } SIM_CHECK("U04", e.empty(), "cannot commit after a kill: %s", e.c_str()); logPut(L_DONE, ser(committed)); check("after recovery");
			}
			for (int i = opBase; i < opBase + nops; i++) {
				Rng r = rng("op", i); int o = r.range(0, 9); if (!opOn(i % 4096)) continue;
				bool killHere = i - opBase == killOp;
				if (o <= 3) { int n = r.range(1, 5); for (int j = 0; j < n; j++) { uint32_t id = i * 8 + j + 1; f->append(blob(id, len(id))); cur.push_back(id); } count("op.append"); }
				else if (o == 4) { size_t n = r.below(cur.size() + 1); if (r.chance(0.3)) n = cur.size(); cur.resize(n); uint64_t b = flat(cur).size(); keepPend = std::min<uint64_t>(keepPend, b); SIM_CHECK("U04", f->rewind(b), "rewinding to %lu was refused", b); count("op.rewind"); }
				else if (o == 5) { f->discard(); cur = committed; keepPend = ~0ull; count("op.discard"); }
				else if (o == 6) { f.reset(); open(); cur = committed; keepPend = ~0ull; count("op.reopen"); }
				else if (o >= 8 || killHere) {
					uint64_t kp = std::min<uint64_t>(keepPend, flat(committed).size()); bool fault = r.chance(pFault); uint64_t h0 = disk::faultCount();
					std::string t; { uint32_t a[1] = { (uint32_t)kp }; t.assign((const char*)a, 4); t += ser(cur); } logPut(L_TRY, t);
					if (killHere && killMode) { disk::crashAt(1 + k.below(4), torn ? k.below(1000) / 1000.0 : -1); }
					if (fault) { DiskFault df; df.err = r.chance(0.5) ? 28 : 5; df.kinds = r.chance(0.4) ? 5 : 1; df.from = r.below(3); df.len = r.chance(0.5) ? 1 : 100; disk::setFault(df); }
					bool ok; std::string e; try { ok = f->commit(); } catch (const std::exception& x) { ok = false; e = x.what(); }
					disk::clearFault(); disk::crashOff(); bool hit = disk::faultCount() > h0;
					SIM_CHECK("U04", ok || hit, "a commit failed without any disk error: %s", e.c_str());
					if (ok) { committed = cur; keepPend = ~0ull; logPut(L_DONE, ser(committed)); count("op.commit"); check(hit ? "after a commit reported as done despite a disk error" : "after a commit"); if (hit) { f.reset(); open(); check("reopened after a commit reported as done despite a disk error"); } }
					else { count("reach.commit_failed"); 
						int how = r.range(0, 2);
						if (how == 0) { std::string e2; try { if (!f->commit()) e2 = "refused"; } catch (const std::exception& x) { e2 = x.what(); } SIM_CHECK("U04", e2.empty(), "a commit repeated after a disk error fails: %s", e2.c_str()); committed = cur; keepPend = ~0ull; logPut(L_DONE, ser(committed)); check("after a repeated commit"); count("reach.commit_repeated"); }
						else { if (how == 1) f->discard(); else { f.reset(); open(); }
							uint64_t s = f->size(); Bytes old = flat(committed), neu = flat(cur); Bytes got; for (uint64_t p = 0; p < s; p += data ? 32 : 1) { Bytes b = f->read(p, data ? 32 : 1); got.insert(got.end(), b.begin(), b.end()); }
							auto pre = [&](const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); };
							bool okc = got == old || (got.size() >= kp && (pre(got, neu) || pre(got, old)) && (keepPend != ~0ull || how == 2));
							SIM_CHECK("U04", okc, "after a failed commit and %s the file shows %zu bytes instead of the %zu committed ones (data below byte %lu must be intact)", how == 1 ? "a discard" : "a reopen", got.size(), old.size(), kp);
							// go on from a known good size
							std::vector<uint32_t> base = pre(got, old) ? committed : cur; cur.clear(); Bytes acc; for (uint32_t x : base) { Bytes q = blob(x, len(x)); if (acc.size() + q.size() > got.size()) break; acc.insert(acc.end(), q.begin(), q.end()); cur.push_back(x); }
							f->rewind(acc.size()); std::string e2; try { if (!f->commit()) e2 = "refused"; } catch (const std::exception& x) { e2 = x.what(); } SIM_CHECK("U04", e2.empty(), "cannot commit after a failed commit was undone: %s", e2.c_str()); committed = cur; keepPend = ~0ull; logPut(L_DONE, ser(committed)); check("after undoing a failed commit"); }
					}
				}
				check("after an operation");
				if (killHere && killMode != 1) { note("kill"); crashNow(); }
			}
			f.reset(); open(); cur = committed; check("finally reopened");
		}, swarmSched(rng("swarm", kills), false));
		if (end.kind == PH_OK) over = true;
		else { kills++; opBase += nops; afterKill = true; inTry = false; for (auto& r : logAll()) { if (r.tag == L_DONE) { committed = des(r.data); inTry = false; } else if (r.tag == L_TRY) { uint32_t kp; memcpy(&kp, r.data.data(), 4); keep = kp; tried = des(r.data.substr(4)); inTry = true; } } count("reach.killed"); if (inTry) count("reach.killed_inside_commit"); }
	}
	count("nontrivial");
}
static void rawFile() { defaultProp("U04"); appendScen(false); }
static void dataFile() { defaultProp("U04"); appendScen(true); }
SCENARIO("util_rawfile", "U04", rawFile);
SCENARIO("util_datafile", "U04", dataFile);

static void bitmapScen() {
	Rng g = rng("cfg"); defaultProp("U04"); int nops = g.range(6, thorough() ? 60 : 30), maxKills = g.range(0, 3), span = g.range(10, 400); double pFault = g.chance(0.5) ? 0.25 : 0;
	auto S = [](const std::set<uint32_t>& s) { return ser(std::vector<uint32_t>(s.begin(), s.end())); };
	std::set<uint32_t> committed, tried; bool inTry = false, afterKill = false; int kills = 0, opBase = 0; bool over = false;
	while (!over) {
		bool kill = kills < maxKills; Rng k = rng("kill", kills); int killOp = kill ? (int)k.below(nops) : -1; int killMode = k.range(0, 2);
		auto end = phase([&] {
			disk::track("/sim/r/u"); std::string path = root() + "/u/f.bin"; if (!kills) fs::create_directories(root() + "/u");
			std::shared_ptr<BitmapFile> f = BitmapFile::Load(path); std::set<uint32_t> cur = committed; auto byteOf = [](const std::set<uint32_t>& s, uint32_t b) { uint8_t v = 0; for (int j = 0; j < 8; j++) if (s.count(b * 8 + j)) v |= 1 << (7 - j); return v; };
			auto check = [&](const char* when) { for (uint32_t b = 0; b * 8 < (uint32_t)span + 16; b++) SIM_CHECK("U04", f->GetByte(b) == byteOf(cur, b), "%s: byte %u of the bitmap is %02x, should be %02x", when, b, f->GetByte(b), byteOf(cur, b)); for (int j = 0; j < 6; j++) { uint32_t l = rng("spot", j).below(span + 8); SIM_CHECK("U04", f->IsSet(l) == (cur.count(l) > 0), "%s: bit %u", when, l); }
				Roaring ro = f->ToRoaring(); SIM_CHECK("U04", ro.cardinality() == cur.size(), "%s: the bitmap lists %lu leaves, should be %zu", when, (unsigned long)ro.cardinality(), cur.size()); count("checks.content"); uint64_t h = 0; for (auto x : cur) h = mix(h, x); state(h); };
			auto mixOk = [&](const std::set<uint32_t>& a, const std::set<uint32_t>& b, const char* when) { std::set<uint32_t> now; for (uint32_t i = 0; i * 8 < (uint32_t)span + 16; i++) { uint8_t v = f->GetByte(i); SIM_CHECK("U04", v == byteOf(a, i) || v == byteOf(b, i), "%s: byte %u of the bitmap is %02x, neither the old %02x nor the new %02x", when, i, v, byteOf(a, i), byteOf(b, i)); for (int j = 0; j < 8; j++) if (v & (1 << (7 - j))) now.insert(i * 8 + j); } return now; };
			auto bring = [&](const std::set<uint32_t>& from, const std::set<uint32_t>& to) { for (auto x : from) if (!to.count(x)) f->Unset(x); for (auto x : to) if (!from.count(x)) f->Set(x); f->Commit(); };
			if (afterKill) { auto now = mixOk(committed, inTry ? tried : committed, "after a kill"); cur = committed; bring(now, cur); logPut(L_DONE, S(committed)); check("after recovery"); count("checks.after_kill"); }
			for (int i = opBase; i < opBase + nops; i++) {
				Rng r = rng("op", i); int o = r.range(0, 10); if (!opOn(i % 4096)) continue; bool killHere = i - opBase == killOp;
				if (o <= 3) { int n = r.range(1, 6); for (int j = 0; j < n; j++) { uint32_t x = r.below(span); f->Set(x); cur.insert(x); } count("op.set"); }
				else if (o == 4) { int n = r.range(1, 6); for (int j = 0; j < n; j++) { uint32_t x = r.below(span); f->Unset(x); cur.erase(x); } count("op.unset"); }
				else if (o == 5) { uint32_t n = r.below(span + 1); std::vector<uint64_t> add; for (int j = r.range(0, 4); j > 0; j--) if (n) add.push_back(r.below(n)); f->Rewind(n, add); for (auto x : add) cur.insert((uint32_t)x); cur.erase(cur.lower_bound(n), cur.end()); count("op.rewind"); }
				else if (o == 6) { f->Rollback(); cur = committed; count("op.discard"); }
				else if (o == 7) { f.reset(); f = BitmapFile::Load(path); cur = committed; count("op.reopen"); }
				else if (o >= 9 || killHere) {
					bool fault = r.chance(pFault); uint64_t h0 = disk::faultCount(); logPut(L_TRY, S(cur));
					if (killHere && killMode) disk::crashAt(1 + k.below(6), -1);
					if (fault) { DiskFault df; df.err = r.chance(0.5) ? 28 : 5; df.from = r.below(4); df.len = r.chance(0.5) ? 1 : 100; disk::setFault(df); }
					bool ok = true; std::string e; try { f->Commit(); } catch (const std::exception& x) { ok = false; e = x.what(); }
					disk::clearFault(); disk::crashOff(); bool hit = disk::faultCount() > h0; SIM_CHECK("U04", ok || hit, "a commit failed without any disk error: %s", e.c_str());
					if (ok) { committed = cur; logPut(L_DONE, S(committed)); count("op.commit"); check(hit ? "after a commit reported as done despite a disk error" : "after a commit"); if (hit || r.chance(0.3)) { f.reset(); f = BitmapFile::Load(path); check("reopened after a commit"); } }
					else { count("reach.commit_failed"); check("after a failed commit, changes still pending"); if (r.chance(0.5)) { f->Commit(); committed = cur; logPut(L_DONE, S(committed)); check("after a repeated commit"); } else { f->Rollback(); auto now = mixOk(committed, cur, "after a failed commit"); bring(now, committed); cur = committed; check("after undoing a failed commit"); } }
				}
				check("after an operation");
				if (killHere && killMode != 1) { note("kill"); crashNow(); }
			}
			f.reset(); f = BitmapFile::Load(path); cur = committed; check("finally reopened");
		}, swarmSched(rng("swarm", kills), false));
		if (end.kind == PH_OK) over = true;
		else { kills++; opBase += nops; afterKill = true; inTry = false; for (auto& r : logAll()) { auto v = des(r.data); if (r.tag == L_DONE) { committed = std::set<uint32_t>(v.begin(), v.end()); inTry = false; } else if (r.tag == L_TRY) { tried = std::set<uint32_t>(v.begin(), v.end()); inTry = true; } } count("reach.killed"); }
	}
	count("nontrivial");
}
SCENARIO("util_bitmap", "U04", bitmapScen);
