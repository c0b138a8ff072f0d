#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough>: seeded simulation of /repo's working tree.
Builds, runs the property's scenarios on every core, gates what it finds (same seed
twice, minimised, replayed from its file by a fresh process) and writes evidence."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from checks import CHECKS

def known(pid):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == pid:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return r

def cls(m):
    return re.sub(r"[0-9a-f]{8,}|\d+", "#", m)[:90]

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    exe, n = B.build()
    if not exe:
        print("ERROR: build failed"); return 2
    tb = time.time() - t0
    ncpu = min(8, len(os.sched_getaffinity(0)))
    cpus = sorted(os.sched_getaffinity(0))[:ncpu]
    total = c.get("quick_s", 50) if tier == "quick" else c.get("thorough_s", 540)
    if os.environ.get("SIM_BUDGET"): total = float(os.environ["SIM_BUDGET"])
    scen = c["scen"]; wsum = sum(w for _, w in scen)
    evd = os.path.join(VERIF, "evidence"); rep = os.path.join(evd, "replays"); os.makedirs(rep, exist_ok=True)
    kn = known(pid)
    tmp = os.path.join(evd, f"tmp-{pid}-{os.getpid()}"); os.makedirs(tmp, exist_ok=True)
    res, viol, errors, knownHits, others = {}, [], [], {}, {}
    base = seed * 1000000 + (0 if tier == "quick" else 500000)
    for name, w in scen:
        bud = total * w / wsum
        ps = []
        for i in range(ncpu):
            f = os.path.join(tmp, f"{name}.{i}.json")
            ps.append((f, subprocess.Popen([exe, "run", name, "--seeds", f"{base+i}:{base+400000}", "--stride", str(ncpu), "--tier", tier, "--stats", f, "--budget", str(bud),
                       "--stop-after", "200" if kn else "1", "--cpu", str(cpus[i]), "--prop", pid], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        agg = {"counters": {}, "runs": 0, "inconclusive": 0, "sim_ns": 0, "steps": 0, "switches": 0, "mem_points": 0, "phases": 0, "distinct_states": 0, "distinct_interleavings": 0, "distinct_runs": 0, "distinct_nontrivial": 0, "wall": 0, "sample": ""}
        for f, p in ps:
            _, err = p.communicate()
            try: d = json.load(open(f), strict=False)
            except Exception as e:
                errors.append(f"{name}: worker gave no result: {e} {err[-300:]}"); continue
            if d["error"]: errors.append(f"{name}: {d['error']}")
            for k in agg:
                if k == "counters":
                    for x, y in d[k].items(): agg[k][x] = agg[k].get(x, 0) + y
                elif k == "sample": agg[k] = agg[k] or d[k]
                elif k == "wall": agg[k] = max(agg[k], d[k])
                else: agg[k] += d[k]
            for v in d["violations"]:
                if v["prop"] == pid:
                    hit = [k for k in kn if k[0] in (name, "*") and k[1].search(v["msg"])]
                    if hit: knownHits[hit[0][2]] = knownHits.get(hit[0][2], 0) + 1
                    else: viol.append((name, v))
                else: others[v["prop"]] = others.get(v["prop"], 0) + 1
        res[name] = agg
        if viol: break
    # the same seed must give the same run, in a fresh process
    det = []
    if not viol:
        for name, _ in scen:
            h = []
            for _ in range(2):
                o = subprocess.run([exe, "one", name, "--seed", str(base + 3), "--tier", tier, "--prop", pid], capture_output=True, text=True).stdout
                m = re.search(r"status=(\d+) .*?hash=(\w+)", o); h.append(m.groups() if m else o)
            det.append({"scenario": name, "seed": base + 3, "hash": h[0][1] if len(h[0]) == 2 else str(h[0]), "same": h[0] == h[1]})
            if h[0] != h[1]: errors.append(f"{name}: seed {base+3} gave two different runs {h}")
    # gate
    reported, seen, ungated = [], set(), []
    for name, v in viol:
        if cls(v["msg"]) in seen or len(reported) >= 3: continue
        if time.time() - t0 > (500 if tier == "quick" else 800): break
        out = os.path.join(rep, f"{pid}-{name}-{v['seed']}.json")
        o = subprocess.run([exe, "minimise", name, "--seed", str(v["seed"]), "--tier", tier, "--out", out, "--budget", "45" if tier == "quick" else "90", "--prop", pid, "--cpu", str(cpus[0])], capture_output=True, text=True)
        ok = o.returncode == 0 and "MINIMISED" in o.stdout
        if ok:
            want = json.load(open(out), strict=False)
            r = subprocess.run([exe, "one", name, "--plan", out, "--cpu", str(cpus[-1])], capture_output=True, text=True).stdout
            m = re.search(r"status=(\d+) prop=(\S*) hash=(\w+)", r)
            ok = bool(m) and m.group(1) == "1" and m.group(3) == want["hash"] and m.group(2) == pid
        if ok:
            seen.add(cls(v["msg"])); reported.append((out, want["violation"], v["seed"], name))
        else:
            ungated.append(f"{name} seed {v['seed']}: {v['msg'][:200]} [{o.stdout.strip()[:200]}]")
    if viol and not reported: errors.append("violation seen but not reproducible: " + "; ".join(ungated[:3]))
    # evidence
    S = list(res.values()); runs = sum(a["runs"] for a in S); wall = time.time() - t0
    counters = {}
    for a in S:
        for k, x in a["counters"].items(): counters[k] = counters.get(k, 0) + x
    simwall = sum(a["wall"] for a in S) or 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "wall_s": round(wall, 2),
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": sum(a["distinct_nontrivial"] for a in S), "rule": c["rule"],
              "samples": [f"{n}: " + a["sample"][:2500] for n, a in res.items() if a["sample"]] or ["(no non-trivial run)"],
              "runs_per_hour": int(runs / simwall * 3600), "seeds_per_hour": int(runs / simwall * 3600), "seed_base": base,
              "simulated_seconds": round(sum(a["sim_ns"] for a in S) / 1e9, 3), "build_s": round(tb, 1),
              "faults_injected": {k: x for k, x in sorted(counters.items()) if k.startswith("fault.")},
              "reached": {k: x for k, x in sorted(counters.items()) if not k.startswith("fault.")},
              "distinct_interleavings": sum(a["distinct_interleavings"] for a in S), "distinct_states": sum(a["distinct_states"] for a in S),
              "measure": "interleavings: distinct hashes of the scheduling decisions of a run, summed over workers; states: distinct digests reported by the scenario, summed over workers; runs: hash over every observation",
              "per_scenario": {n: {k: x for k, x in a.items() if k not in ("counters", "sample")} for n, a in res.items()},
              "determinism_self_check": det, "inconclusive_runs": sum(a["inconclusive"] for a in S), "violations_of_other_properties_seen": others, "known_findings_seen": knownHits,
              "ran_real_code": c.get("real", ""), "ran_stub": c.get("stub", ""), "errors": errors},
          "assumptions": c.get("assumptions", []), "violations": len(reported)}
    json.dump(ev, open(os.path.join(evd, f"{pid}.json"), "w"), indent=1)
    for f in os.listdir(tmp): os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    for _, _, what in kn: print(f"KNOWN-FINDING: property={pid} {what}")
    for out, msg, s, name in reported:
        print(f"{name} seed {s}: {msg[:700]}")
        print(f"VIOLATION property={pid} replay={out}")
    print(f"{pid} {tier}: {runs} runs, {ev['coverage']['distinct_nontrivial']} non-trivial, {len(reported)} violations, {wall:.0f}s")
    if reported: return 1
    if errors:
        print("ERROR: " + " | ".join(errors)[:3000]); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
