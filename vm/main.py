import argparse
import glob
import importlib
import json
import os
import sys
import time

HOME = os.environ["VM_HOME"]
REPO = os.environ.get("VM_REPO", "/repo")
sys.path.insert(0, HOME)
sys.path.insert(1, REPO)


def known_findings():
    """known_findings.txt: lines  finding: {"property","monitor","match":{...},"what"}
    or  fixed: property=<id> <commit> <what failed>  (the latter suppress nothing)."""
    out = []
    p = os.path.join(HOME, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            if l.startswith("finding:"):
                out.append(json.loads(l[len("finding:"):]))
    return out


def matches(kf, v):
    if kf["property"] != v["property"] or kf["monitor"] != v["monitor"]:
        return False
    for k, want in kf.get("match", {}).items():
        if k == "scenario":
            if v["scenario"] != want:
                return False
        elif v["detail"].get(k) != want:
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    budget = a.budget or (600 if tier == "quick" else 840)

    try:
        import dolo
    except Exception as e:
        print(f"ERROR: dolo does not import: {e!r}")
        return 2
    if not os.path.realpath(dolo.__file__).startswith(os.path.realpath(REPO) + "/"):
        print(f"ERROR: dolo imported from {dolo.__file__}, not from {REPO}")
        return 2
    from vm import core

    core.install_numba_seeder()
    mod = importlib.import_module(f"vm.props.{a.prop.lower()}")
    t_import = time.time() - t0
    scenarios = {s.name: s for s in mod.SCENARIOS}
    core._STATE["scenarios"] = scenarios
    if hasattr(mod, "warmup"):
        mod.warmup()
    jobs = []
    for s in mod.SCENARIOS:
        n = s.quick if tier == "quick" else s.thorough
        for r in range(n):
            if a.only:
                nm, _, rr = a.only.partition(":")
                if nm != s.name or (rr and int(rr) != r):
                    continue
            jobs.append((a.prop, s.name, r, a.seed, tier))
    # interleave the scenarios, so that a budget cut hits all of them alike
    jobs.sort(key=lambda j: (j[2], j[1]) if tier == "thorough" else (0,))
    results = []
    nproc = a.jobs or min(8, os.cpu_count() or 1)
    core.watch_lines(REPO)
    results, crashed, hung = core.run_all(jobs, nproc, t0 + budget)

    events, counters, sigs, samples, viol, inconclusive = {}, {}, set(), [], [], []
    cases = nviol = 0
    per_sc = {}
    results.sort(key=lambda r: (r["job"][1], r["job"][2]))
    lines = {}
    for r in results:
        for f, l in r["lines"]:
            lines.setdefault(f, set()).add(l)
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs |= r["sigs"]
        cases += r["cases"]
        nviol += r["nviol"]
        viol += r["violations"]
        ps = per_sc.setdefault(r["job"][1], dict(jobs=0, wall_s=0.0))
        ps["jobs"] += 1
        ps["wall_s"] = round(ps["wall_s"] + r["wall"], 2)
        ps["longest_s"] = max(ps.get("longest_s", 0), round(r["wall"], 2))
        inconclusive += [f"{r['job'][1]}:{r['job'][2]} {m}" for m in r["inconclusive"]]
    for j, sig in crashed:
        # the interpreter itself died while it executed the code under test
        viol.append(dict(property=a.prop, monitor="crash", scenario=j[1], rep=j[2], seed=a.seed, tier=tier, detail=dict(signal=sig)))
    for j, cpu, limit in hung:
        if cpu > core.HANG * limit:
            viol.append(dict(property=a.prop, monitor="does-not-finish", scenario=j[1], rep=j[2], seed=a.seed, tier=tier,
                             detail=dict(cpu_s=cpu, limit_s=limit, at="compiled code")))
        else:
            inconclusive.append(f"{j[1]}:{j[2]} stopped after its time limit ({cpu}s of computation)")
    seen = set()
    for r in results:
        if r["samples"] and r["job"][1] not in seen and len(samples) < 8:
            seen.add(r["job"][1])
            samples.append(r["samples"][0])
    if len(results) < len(jobs):
        counters["jobs_not_reached_within_budget"] = len(jobs) - len(results)

    kfs = known_findings()
    fresh, known = [], {}
    for v in viol:
        for i, kf in enumerate(kfs):
            if matches(kf, v):
                known.setdefault(i, 0)
                known[i] += 1
                break
        else:
            fresh.append(v)

    evdir = os.path.join(HOME, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    for f in glob.glob(os.path.join(rpdir, f"{a.prop}-*.json")):
        os.remove(f)

    shortfall = []
    if not a.only:
        for mname, n in getattr(mod, "REQUIRED", {}).items():
            if events.get(mname, 0) < n:
                shortfall.append(f"{mname}: observed {events.get(mname, 0)} < {n}")

    ev = dict(
        property=a.prop, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=cases, distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
            monitor_events=events, monitors=len(events), counters=counters, scenarios=per_sc,
            jobs_run=len(results), jobs_planned=len(jobs), inconclusive=inconclusive[:20],
            required_shortfall=shortfall,
            python_lines_of_dolo_executed={f: len(l) for f, l in sorted(lines.items())},
            known_findings_observed=[dict(what=kfs[i]["what"], times=n) for i, n in known.items()],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(fresh),
    )
    with open(os.path.join(evdir, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    for i in known:
        print(f"KNOWN-FINDING: property={a.prop} {kfs[i]['what']}")
    print(f"{a.prop} tier={tier} seed={a.seed}: {cases} cases ({len(sigs)} distinct), "
          f"{sum(events.values())} monitor events over {len(events)} monitors, "
          f"{len(results)}/{len(jobs)} jobs, import {t_import:.0f}s, total {ev['wall_s']:.0f}s")
    if os.environ.get("VM_LINES"):
        with open(os.environ["VM_LINES"], "a") as f:
            for n, l in lines.items():
                for i in sorted(l):
                    f.write(f"{n}:{i}\n")
    if a.v:
        for k in sorted(events):
            print("   ", k, events[k])
        print(json.dumps(per_sc, indent=1))
        print(counters)
    if fresh:
        groups = {}
        for v in fresh:
            groups.setdefault((v["monitor"], v["scenario"]), []).append(v)
        for n, ((mon, sc), vs) in enumerate(groups.items()):
            if n >= 15:
                print(f"... {len(groups) - n} more groups")
                break
            path = os.path.join(rpdir, f"{a.prop}-{n}.json")
            v = vs[0]
            with open(path, "w") as f:
                json.dump(dict(v, replay_cmd=f"/verif/check {a.prop} --tier {tier} --seed {a.seed} --only {sc}:{v['rep']}",
                               similar=len(vs)), f, indent=1)
            print(f"VIOLATION property={a.prop} replay={path} monitor={mon} scenario={sc}:{v['rep']} n={len(vs)}")
            print("    " + json.dumps(v["detail"])[:600 if a.v else 240])
        return 1
    if inconclusive or shortfall or len(results) < (len(jobs) if tier == "quick" else 1):
        for m in (inconclusive + shortfall)[:20]:
            print("INCONCLUSIVE:", m)
        print(f"INCONCLUSIVE property={a.prop}: no violation, but the monitors did not see enough")
        return 2
    print(f"HELD property={a.prop} on everything explored")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
