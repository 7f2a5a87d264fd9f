import json
import os
import sys
import time
import traceback
from pathlib import Path

from dsim import build, runner
from dsim.core import dumps
from dsim.props import ALL, load

VERIF = build.VERIF


def workers():
    return max(1, min(8, len(os.sched_getaffinity(0))))


def check(prop_id):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print(f"property={prop_id} seed={seed} tier={tier}", flush=True)
    prop = load(prop_id)
    build_dir, key = build.ensure()
    t_build = time.monotonic() - t0
    for f in prop.findings:
        print(f"KNOWN-FINDING: property={prop_id} {f['what']}", flush=True)
    b = runner.Batch(prop_id, build_dir, seed, tier, workers(), prop.RUNS[tier], prop.BUDGET[tier], prop.CHUNK)
    b.run()
    viol = b.violation
    path = None
    if viol is not None:
        print(f"violation in run {viol['n']}: {viol['kind']}: {viol['message']}", flush=True)
        if viol.get("program") is None:
            # the process died: get the program, which only depends on the seed
            from dsim.worker import make_program
            viol["program"] = json.loads(dumps(make_program(prop, seed, viol["n"], tier)))
            viol.setdefault("digest", "")
        try:
            viol = runner.minimise(prop, prop_id, build_dir, viol, 60 if tier == "quick" else 240)
        except Exception:
            traceback.print_exc()
        path = runner.replay_path(prop_id, viol)
        runner.write_replay(prop_id, seed, viol, key, path)
        again = runner.run_one(prop_id, build_dir, dict(n=0, program=viol["program"]), dict(seed=seed, tier=tier))
        same = again.get("kind") == viol["kind"]
        print(f"minimised with {viol.get('minimise_runs', 0)} runs; replayed in a fresh process: "
              f"{'same violation' if same else 'DIFFERENT: ' + str(again.get('kind'))}"
              f"{'' if again.get('digest') == viol['digest'] else ' (event log differs)'}")
        print(viol["message"])
    wall = time.monotonic() - t0
    evidence(prop, b, seed, tier, wall, t_build, key, viol, path)
    if viol is not None:
        print(f"VIOLATION property={prop_id} replay={path}", flush=True)
        return 1
    print(f"held on {b.done} runs ({len(b.nontrivial)} distinct with faults or concurrency) in {wall:.1f} s")
    return 0


def evidence(prop, b, seed, tier, wall, t_build, key, viol, path):
    faults = {k[6:]: v for k, v in sorted(b.counters.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(b.counters.items()) if not k.startswith("fault:")}
    rate = b.done / b.wall * 3600 if b.wall else 0
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": b.done,
            "distinct_nontrivial": len(b.nontrivial),
            "rule": prop.RULE,
            "samples": b.samples or [{"note": "the violating run", "program": viol["program"]}] if viol or b.samples else [{"note": "none"}],
            "planned_runs": prop.RUNS[tier],
            "runs_per_hour": round(rate),
            "simulated_time": f"{b.steps} simulated operations (the code under test has no clocks or timers; time is counted in operations"
                              f"{' and scheduling points' if 'scheduling points' in b.counters else ''})",
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": len(b.states),
            "state_measure": prop.STATES,
            "distinct_event_logs": len(b.digests),
            "real_components": prop.REAL,
            "stubbed_components": prop.STUBS,
            "sources": key,
            "build_s": round(t_build, 1),
            "workers": b.nworkers,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 0 if viol is None else 1,
    }
    if viol is not None:
        ev["coverage"]["violation"] = {"kind": viol["kind"], "message": viol["message"], "replay": str(path)}
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop.ID}.json").write_text(json.dumps(ev, indent=1))


def replay(file):
    r = json.loads(Path(file).read_text())
    build_dir, key = build.ensure()
    if key != r["sources"]:
        print(f"note: recorded on other sources ({r['sources']}, now {key})")
    res = runner.run_one(r["property"], build_dir, dict(n=0, program=r["program"]), dict(seed=r["seed"], tier="quick"))
    if res.get("error"):
        print(res["error"])
        return 2
    for e in res.get("events", []):
        print(" ", e)
    if res.get("ok"):
        print("no violation")
        return 0
    print(f"{res['kind']}: {res['message']}")
    print(res.get("where") or "")
    print("same kind as recorded" if res["kind"] == r["kind"] else f"recorded kind: {r['kind']}",
          "same event log" if res["digest"] == r["digest"] else "other event log", sep="; ")
    print(f"VIOLATION property={r['property']} replay={file}")
    return 1


def selftest(props, n=200):
    """The same runs twice, with other worker counts, chunks and hash seeds, must give the same logs."""
    build_dir, _ = build.ensure()
    bad = 0
    for pid in props:
        prop = load(pid)
        runs = min(n, prop.RUNS["quick"])
        ref = None
        for nw, chunk, hs in ((8, 10, "0"), (3, 7, "0"), (5, 1, "77")) if prop.ID != "C15" else ((8, 2, "0"), (5, 3, "77")):
            b = runner.Batch(pid, build_dir, 12345, "quick", nw, runs, 600, chunk, hashseed=hs, stop=False, keep=True).run()
            if ref is None:
                ref = b.results
            diff = [k for k in ref if ref[k] != b.results.get(k)]
            print(pid, f"workers={nw} chunk={chunk} hashseed={hs} runs={b.done} differing={len(diff)} {diff[:5]} {b.wall:.1f}s", flush=True)
            bad += len(diff)
    return 1 if bad else 0


def main(argv):
    try:
        if not argv:
            print(__doc__)
            return 2
        if argv[0] == "--setup":
            print(*build.ensure())
            return 0
        if argv[0] == "--replay":
            return replay(argv[1])
        if argv[0] == "--selftest":
            n = 200
            a = argv[1:]
            if a and a[0].isdigit():
                n = int(a.pop(0))
            return selftest(a or ALL, n)
        return check(argv[0])
    except (runner.HarnessError, build.BuildError) as e:
        print(f"HARNESS ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print("HARNESS ERROR")
        return 2
