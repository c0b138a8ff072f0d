// U03: settings files under kills and disk errors.
#include "sim.h"
#include <Core/Config.h>
#include <Core/Global.h>
#include <Core/Context.h>
#include <Core/Util/JsonUtil.h>
#include <Common/Util/FileUtil.h>
#include <Net/Clients/RPC/RPC.h>
#include <API/Node/Handlers/UpdateConfigHandler.h>
#include <fstream>
#include <sstream>
#include <optional>
using namespace sim;
namespace {
enum { L_OLD = 1, L_TRY = 2, L_DONE = 3, L_POS = 4 };
struct Sett { uint32_t minp = 10, maxp = 60, conf = 10, reuse = 0; int prefs = 0; int bridges = 0; bool snow = false, obfs = false; std::string level; };
std::string slurp(const std::string& p, bool* there) { std::ifstream f(p, std::ios::binary); *there = f.is_open(); std::stringstream s; s << f.rdbuf(); return s.str(); }
std::string canon(const std::string& text) { Json::Value j; if (!JsonUtil::Parse(text, j)) return "UNPARSABLE " + text; Json::StreamWriterBuilder b; b["indentation"] = ""; return Json::writeString(b, j); }
}
static void settings() {
	Rng g = rng("cfg"); defaultProp("U03"); int nops = g.range(4, thorough() ? 30 : 16), maxKills = g.range(0, 3); double pFault = g.chance(0.5) ? 0.3 : 0; bool extra = g.chance(0.5);
	std::string want, tried; std::string torWant, torTried; bool inTry = false, inTor = false; int kills = 0, pos = 0; bool over = false;
	// the first life finds a file the user wrote
	while (!over) {
		Rng k = rng("kill", kills); int killAt = kills < maxKills ? pos + (int)k.below(std::max(1, nops - pos)) : -1; int killMode = k.range(0, 3);
		auto end = phase([&] {
			std::string dir = root() + "/s", cfg = dir + "/server_config.json", tor = dir + "/TOR/.torrc"; fs::create_directories(dir);
			setenv("HOME", root().c_str(), 1);
			if (!kills) { Json::Value j; j["DATA_PATH"] = dir; j["P2P"]["MIN_PEERS"] = 12; j["P2P"]["MAX_PEERS"] = 33; j["WALLET"]["DATABASE"] = "SQLITE"; j["WALLET"]["MIN_CONFIRMATIONS"] = 7; if (extra) { j["LOGGER"]["LOG_LEVEL"] = "INFO"; for (int i = 0; i < 40; i++) j["NOTES"][std::to_string(i)] = std::string(60, 'a' + i % 26); } std::stringstream ss; ss << j; { std::ofstream f(cfg, std::ios::binary); f << ss.str(); } want = canon(ss.str()); logPut(L_DONE, want); fs::create_directories(dir + "/TOR"); std::ofstream(tor).close(); torWant = ""; }
			disk::track("/sim/r/s");
			std::shared_ptr<Config> c;
			auto fileIs = [&](const std::string& a, const std::string& b, const char* when) { bool there; std::string t = canon(slurp(cfg, &there)); SIM_CHECK("U03", there, "%s: the configuration file is missing", when); SIM_CHECK("U03", t == a || t == b, "%s: the configuration file is neither the old nor the new one: %.300s instead of %.300s", when, t.c_str(), a.c_str()); return t; };
			auto torIs = [&](const std::string& a, const std::string& b, const char* when) { bool there; std::string t = slurp(tor, &there); SIM_CHECK("U03", there, "%s: the torrc file is missing", when); SIM_CHECK("U03", t == a || t == b, "%s: the torrc file is neither the old nor the new one: [%.200s] instead of [%.200s]", when, t.c_str(), a.c_str()); return t; };
			auto apply = [&](const Json::Value& now) { // what the running configuration answers follows the settings
				SIM_CHECK("U03", c->GetMinPeers() == now["P2P"].get("MIN_PEERS", 10).asInt() && c->GetMaxPeers() == now["P2P"].get("MAX_PEERS", 60).asInt() && (int)c->GetMinimumConfirmations() == now["WALLET"].get("MIN_CONFIRMATIONS", 10).asInt(), "the loaded settings differ from the stored ones"); };
			if (kills) { want = fileIs(want, inTry ? tried : want, "after a kill"); torWant = torIs(torWant, inTor ? torTried : torWant, "after a kill"); logPut(L_DONE, want); logPut(L_OLD, torWant); count("checks.after_kill"); }
			auto load = [&](Rng& r, bool fault) {
				uint64_t h0 = disk::faultCount(); if (fault) { DiskFault f; f.err = r.chance(0.5) ? 28 : 5; f.from = r.below(6); f.len = r.chance(0.5) ? 1 : 100; f.kinds = r.chance(0.3) ? 2 : r.chance(0.3) ? 5 : 1; disk::setFault(f); }
				std::string err; std::shared_ptr<Config> n; try { n = Config::Load(fs::path(cfg), Environment::AUTOMATED_TESTING); } catch (const std::exception& e) { err = e.what(); }
				disk::clearFault(); bool hit = disk::faultCount() > h0;
				fileIs(want, want, hit ? "loading with a disk error" : "loading"); SIM_CHECK("U03", err.empty() || hit, "the configuration cannot be loaded: %s", err.c_str());
				if (n) { c = n; Json::Value j; JsonUtil::Parse(want, j); apply(j); SIM_CHECK("U03", canon([&] { std::stringstream s; s << c->GetJSON(); return s.str(); }()) == want, "the loaded settings are not those of the file"); } else count("reach.load_failed"); count("checks.load"); };
			Rng r0 = rng("load", kills); if (k.chance(0.3) && killAt >= 0) disk::crashAt(1 + k.below(6), k.chance(0.3) ? k.below(1000) / 1000.0 : -1); // while starting
			load(r0, false); disk::crashOff();
			for (int i = pos; i < nops; i++) {
				Rng r = rng("op", i); if (!opOn(i)) continue; logPut(L_POS, &i, 4); bool fault = r.chance(pFault), killHere = i == killAt; int o = r.range(0, 9);
				uint64_t h0 = disk::faultCount(); auto arm = [&] { if (killHere && killMode) disk::crashAt(1 + k.below(5), k.chance(0.4) ? k.below(1000) / 1000.0 : -1); if (fault) { DiskFault f; f.err = r.chance(0.5) ? 28 : 5; f.from = r.below(4); f.len = r.chance(0.5) ? 1 : 100; f.kinds = r.chance(0.3) ? 5 : 1; disk::setFault(f); } };
				auto disarm = [&] { disk::clearFault(); disk::crashOff(); return disk::faultCount() > h0; };
				if (o <= 5) { // update_config
					Json::Value p(Json::objectValue), j; JsonUtil::Parse(want, j); 
					if (r.chance(0.5)) { uint32_t v = 3 + r.below(40); p["min_peers"] = v; j["P2P"]["MIN_PEERS"] = v; } if (r.chance(0.5)) { uint32_t v = 10 + r.below(90); p["max_peers"] = v; j["P2P"]["MAX_PEERS"] = v; }
					if (r.chance(0.4)) { uint32_t v = 1 + r.below(20); p["min_confirmations"] = v; j["WALLET"]["MIN_CONFIRMATIONS"] = v; } if (r.chance(0.3)) { uint32_t v = r.below(2); p["reuse_address"] = v; j["WALLET"]["REUSE_ADDRESS"] = v; }
					if (r.chance(0.4)) { const char* key[] = { "preferred_peers", "allowed_peers", "blocked_peers" }; const char* K[] = { "PREFERRED_PEERS", "ALLOWED_PEERS", "BLOCKED_PEERS" }; int w = r.below(3); Json::Value a; int n = 1 + r.below(6); for (int q = 0; q < n; q++) { std::string ip = "10." + std::to_string(w) + "." + std::to_string(r.below(250)) + "." + std::to_string(1 + r.below(250)); a.append(ip); } p[key[w]] = a; j["P2P"][K[w]] = a; }
					std::stringstream ss; ss << j; std::string next = canon(ss.str()); logPut(L_TRY, next);
					auto ctx = std::make_shared<Context>(Environment::AUTOMATED_TESTING, c, std::shared_ptr<Bosma::Scheduler>()); Global::Init(ctx);
					arm(); RPC::Response res = UpdateConfigHandler().Handle(RPC::Request::BuildRequest("update_config", p)); bool hit = disarm();
					bool ok = !res.GetError().has_value(); SIM_CHECK("U03", ok || hit, "changing settings was refused");
					if (ok) { fileIs(next, next, hit ? "after a change reported as done despite a disk error" : "after a change reported as done"); want = next; logPut(L_DONE, want); count("op.update"); apply(j); }
					else { fileIs(want, want, "after a refused change"); logPut(L_DONE, want); count("reach.update_failed"); load(r, false); }
				} else if (o == 6 || o == 7) { load(r, fault && !killHere); if (!c) load(r, false); count("op.load"); }
				else { // torrc
					if (!c) continue; bool there; std::string before = slurp(tor, &there); int w = r.range(0, 3); auto name = [&](int w) { return w == 0 ? "snowflake on" : w == 1 ? "snowflake off" : w == 2 ? "bridge" : "obfs off"; };
					// the new content is found by doing the same on a copy
					std::string expect; { std::string d2 = root() + "/copy"; fs::create_directories(d2 + "/TOR"); std::ofstream(d2 + "/TOR/.torrc", std::ios::binary) << before; Json::Value j2; j2["DATA_PATH"] = d2; auto c2 = Config::Load(j2, Environment::AUTOMATED_TESTING); if (w == 0) c2->EnableSnowflake(); else if (w == 1) c2->DisableSnowflake(); else if (w == 3) c2->DisableObfsBridges(); else c2->EnableSnowflake(); bool t; expect = slurp(d2 + "/TOR/.torrc", &t); size_t at; while ((at = expect.find(d2)) != std::string::npos) expect.replace(at, d2.size(), dir); }
					if (w == 2) w = 0; logPut(L_OLD, before); { std::string x = "T" + expect; logPut(L_TRY + 10, x); }
					arm(); bool ok = w == 0 ? c->EnableSnowflake() : w == 1 ? c->DisableSnowflake() : c->DisableObfsBridges(); bool hit = disarm(); (void)ok;
					if (hit) { torWant = torIs(before, expect, "torrc after a disk error"); } else torWant = torIs(expect, expect, name(w)); logPut(L_OLD, torWant); count("op.torrc"); }
				state(hashStr(want.c_str()));
				if (killHere && killMode != 1) { note("kill"); int nx = i + 1; logPut(L_POS, &nx, 4); crashNow(); }
			}
			Rng rl = rng("last"); load(rl, false); 
		}, swarmSched(rng("swarm", kills), false));
		if (end.kind == PH_OK) over = true;
		else { kills++; inTry = inTor = false; for (auto& r : logAll()) { if (r.tag == L_DONE) { want = r.data; inTry = false; } else if (r.tag == L_TRY) { tried = r.data; inTry = true; } else if (r.tag == L_OLD) { torWant = r.data; inTor = false; } else if (r.tag == L_TRY + 10) { torTried = r.data.substr(1); inTor = true; } else if (r.tag == L_POS) memcpy(&pos, r.data.data(), 4); } count("reach.killed"); if (inTry || inTor) count("reach.killed_inside_update"); }
	}
	count("nontrivial");
}
SCENARIO("util_settings", "U03", settings);
