#!/opt/venv/bin/python
"""Entry point of every registered check.

    check.py C04 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
    check.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the check
itself failed."""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import boot  # noqa: E402
from sim import core  # noqa: E402

LEVEL = "exploration"


def prop_module(pid):
    return importlib.import_module("props." + pid.lower())


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == pid:
                    out.append(e)
    except FileNotFoundError:
        pass
    return out


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = prop_module(r["property"])
    res = core.run_isolated(prop.execute, r["scenario"])
    ok = core.same_violation(dict(r["violation"], status="violation"), res)
    same_log = res.get("log_hash") == r.get("log_hash")
    if ok:
        print(
            f"REPRODUCED property={r['property']} {res['kind']} "
            f"[{res['where']}]: {res['detail']} (event log "
            f"{'identical' if same_log else 'DIFFERENT'})"
        )
        return 1
    print(f"NOT REPRODUCED: {res.get('status')} {res.get('error', '')}")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))
    )
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--dump-hashes")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--one", type=int, help="run one scenario, verbosely")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = prop_module(a.property)
    t0 = time.monotonic()
    if a.one is not None:
        sc = core.scenario_for(prop, a.seed, a.one, a.tier)
        print(json.dumps(sc, indent=1))
        res = core.run_isolated(prop.execute, sc, quiet=False)
        print(json.dumps(res, indent=1, default=str))
        return 0
    n = a.runs or prop.RUNS[a.tier]
    budget = a.budget or (420.0 if a.tier == "quick" else 6 * 3600.0)
    print(
        f"property={prop.ID} tier={a.tier} VERIF_SEED={a.seed} runs={n} "
        f"workers={a.workers}",
        flush=True,
    )
    results, bad = core.explore(
        prop, a.seed, n, a.tier, a.workers, budget, start=a.start,
        keep_going=a.keep_going,
    )
    if a.dump_hashes:
        with open(a.dump_hashes, "w") as f:
            for r in results:
                f.write(f"{r['i']} {r['status']} {r.get('log_hash')}\n")
    errors = [r for r in results if r["status"] == "error"]
    viols = [r for r in results if r["status"] == "violation"]
    wall = time.monotonic() - t0
    if a.keep_going:
        byk = collections.OrderedDict()
        for r in viols:
            byk.setdefault((r["where"], r["kind"]), []).append(r)
        for k, rs in sorted(byk.items()):
            print(len(rs), k, "e.g. run", rs[0]["i"], rs[0]["detail"][:300])
    code = 0
    vinfo = []
    if viols and not a.keep_going:
        again = None
        for v in viols[:5]:
            sc = core.scenario_for(prop, a.seed, v["i"], a.tier)
            again = core.run_isolated(prop.execute, sc)
            if core.same_violation(v, again):
                break
            print(
                f"run {v['i']} reported {v['kind']} [{v['where']}] but did not "
                f"repeat: {again.get('status')}; this is an error of the check"
            )
        else:
            write_evidence(prop, a, results, wall, [], known_findings(prop.ID))
            return 2
        if a.no_minimise:
            msc, mres, k = sc, again, 0
        else:
            msc, mres, k = core.minimise(prop, sc, again)
        path = os.path.join(
            HERE, "evidence", "replay", f"{prop.ID}-seed{a.seed}-run{v['i']}.json"
        )
        core.write_replay(path, prop, a.seed, v["i"], msc, mres, sc)
        chk = subprocess.run(
            [sys.executable, os.path.abspath(__file__), "--replay", path],
            capture_output=True,
            text=True,
            env=dict(os.environ, PYTHONHASHSEED="77"),
        )
        print(
            f"run {v['i']} (seed {a.seed}): {mres['kind']} [{mres['where']}]: "
            f"{mres['detail']}"
        )
        print(
            f"minimised in {k} runs to {len(msc.get('ops', []))} operations; "
            f"fresh-process replay: {chk.stdout.strip()[:300]}"
        )
        vinfo = [
            {
                "run": v["i"],
                "kind": mres["kind"],
                "where": mres["where"],
                "detail": mres["detail"],
                "replay": path,
                "replayed_in_fresh_process": chk.returncode == 1,
            }
        ]
        code = 1
    write_evidence(prop, a, results, wall, vinfo, known_findings(prop.ID))
    ok = sum(r["status"] == "ok" for r in results)
    skip = sum(r["status"] == "skip" for r in results)
    print(
        f"{len(results)} runs in {wall:.1f}s: {ok} held, {skip} skipped, "
        f"{len(viols)} violations, {len(errors)} errors, {bad} dead workers"
    )
    for e in errors[:3]:
        print("ERROR in run", e["i"], e["error"][-1200:])
    if code == 1:
        print(f"VIOLATION property={prop.ID} replay={vinfo[0]['replay']}")
        return 1
    if a.keep_going:
        return 1 if viols else 0
    if errors or bad or ok == 0:
        return 2
    if len(results) < n:
        print(f"note: wall budget ended the search at {len(results)} of {n}")
    for e in known_findings(prop.ID):
        print(f"KNOWN-FINDING: property={prop.ID} {e['what']}")
    return 0


def write_evidence(prop, a, results, wall, vinfo, known):
    faults, probes = collections.Counter(), collections.Counter()
    states, inter = set(), set()
    steps = switches = nontrivial = 0
    scen = set()
    for r in results:
        faults.update(r.get("faults", {}))
        probes.update(r.get("probes", {}))
        states.update(r.get("states", ()))
        steps += r.get("steps", 0)
        switches += r.get("switches", 0)
        if r.get("interleaving"):
            inter.add(r["interleaving"])
        if r.get("nontrivial") and r["status"] in ("ok", "violation"):
            scen.add(r.get("log_hash", "") + str(r["i"]))
            nontrivial += 1
    samples = []
    for r in results:
        if r.get("nontrivial"):
            samples.append(
                {
                    "run": r["i"],
                    "scenario": core.scenario_for(prop, a.seed, r["i"], a.tier),
                }
            )
        if len(samples) == 3:
            break
    ev = {
        "property": prop.ID,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(prop, "LEVEL", LEVEL),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": nontrivial,
            "rule": getattr(
                prop,
                "RULE",
                "one evaluation is one simulated run of a scenario drawn from "
                "(seed, property, run number); non-trivial if the property's "
                "oracle was evaluated at least once after a state change",
            ),
            "samples": samples,
            "held": sum(r["status"] == "ok" for r in results),
            "skipped": sum(r["status"] == "skip" for r in results),
            "errors": sum(r["status"] == "error" for r in results),
            "runs_per_hour": round(3600 * len(results) / max(wall, 1e-9)),
            "seeds_per_hour": round(3600 * len(results) / max(wall, 1e-9)),
            "simulated_operations": steps,
            "simulated_time": "pydmd has no clock or timer; progress is "
            "counted in operations (simulated_operations) and scheduling "
            "points (thread_switches)",
            "faults_injected": dict(sorted(faults.items())),
            "thread_switches": switches,
            "distinct_interleavings": len(inter),
            "distinct_states": len(states),
            "state_measure": getattr(
                prop,
                "STATE_MEASURE",
                "hash of (model class, configuration, kinds and outcomes of "
                "the operations so far)",
            ),
            "probes": dict(sorted(probes.items())),
            "components_real": getattr(
                prop,
                "REAL",
                "all of pydmd from /repo's working tree, numpy, scipy, "
                "scikit-learn, xarray, h5netcdf, pickle, the kernel's file "
                "system (scratch folders)",
            ),
            "components_stub": getattr(
                prop,
                "STUB",
                "user-supplied callables (criteria, kernels, constraints, "
                "interpolator); failing library calls are injected exceptions",
            ),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "known_findings": [e["what"] for e in known],
        "wall_s": round(wall, 2),
        "violations": vinfo,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop.ID}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        code = main()
    except KeyboardInterrupt:
        code = 2
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
