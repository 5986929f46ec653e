"""The simulator's core: seeds, isolated runs, search over seeds, minimisation,
replay files and evidence.

One integer (VERIF_SEED) decides everything.  Run number i of property P uses
the generator derived from (VERIF_SEED, P, i); the generator produces a
*scenario* (plain JSON: configuration, operations, fault points, scheduling
decisions), and executing a scenario is a pure function of the scenario and
of the code in /repo.  Every run executes in a process of its own, forked from
a parent that has never run any pydmd code beyond importing it, so no run can
see what another one left behind.
"""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import entropy

RUN_TIMEOUT_S = 120.0


def derive(*labels):
    """A PRNG that depends on the labels only."""
    h = hashlib.sha256(repr(labels).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


class Violation(Exception):
    """The property is broken.  `kind` is the class of violation that
    minimisation must preserve, `where` the subject it was seen on."""

    def __init__(self, kind, where, detail):
        super().__init__(f"{kind} [{where}]: {detail}")
        self.kind, self.where, self.detail = kind, where, detail


class Skip(Exception):
    """The scenario turned out to test nothing (e.g. the configuration is
    rejected by the library); not evidence, not an error."""


class Ctx:
    """What a run may talk to: its event log, counters and scratch folder."""

    def __init__(self, scratch):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.switches = 0
        self.states = set()
        self.nontrivial = False
        self.interleaving = None
        self.trace = None
        self.scratch = scratch

    def log(self, *event):
        self.events.append(json.dumps(event, default=str))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(
            hashlib.sha256(repr(parts).encode()).hexdigest()[:12]
        )


def _inside(e):
    """The innermost function of pydmd on the way to the exception."""
    from . import boot

    root = os.path.realpath(boot.REPO) + os.sep + "pydmd"
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(f.filename).startswith(root):
            last = f"{os.path.basename(f.filename)}:{f.name}"
    return last


def _child(fn, scenario, wfd, quiet):
    scratch = tempfile.mkdtemp(prefix="verif-run-")
    res = {"status": "error", "error": "?"}
    ctx = Ctx(scratch)
    try:
        if quiet:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            sys.stdout = open(os.devnull, "w")
            sys.stderr = open(os.devnull, "w")
        import numpy as np

        np.random.seed(scenario.get("np_seed", 0) & 0xFFFFFFFF)
        random.seed(scenario.get("np_seed", 0))
        entropy.install(scenario.get("np_seed", 0))
        try:
            fn(scenario, ctx)
            res = {"status": "ok"}
        except Violation as v:
            res = {
                "status": "violation",
                "kind": v.kind,
                "where": v.where,
                "detail": str(v.detail)[:2000],
            }
            ctx.log("violation", v.kind, v.where)
        except Skip as s:
            res = {"status": "skip", "why": str(s)}
            ctx.log("skip")
        except BaseException as e:
            res = {"status": "error", "error": traceback.format_exc()[-4000:]}
            where = _inside(e)
            if where and isinstance(e, Exception):
                # everything that may legitimately raise is caught by the
                # property; what is left is the library failing at something
                # it has to be able to do
                res = {
                    "status": "violation",
                    "kind": "an operation that has to succeed raises",
                    "where": str(scenario.get("subject", "")),
                    "detail": f"{type(e).__name__}: {e} (in {where})"[:2000],
                }
                ctx.log("violation", res["kind"], res["where"])
    finally:
        res["log_hash"] = hashlib.sha256(
            "\n".join(ctx.events).encode()
        ).hexdigest()
        res["n_events"] = len(ctx.events)
        res["events_tail"] = ctx.events[-40:]
        res["faults"] = ctx.faults
        res["probes"] = ctx.probes
        res["steps"] = ctx.steps
        res["switches"] = ctx.switches
        res["states"] = sorted(ctx.states)
        res["nontrivial"] = ctx.nontrivial
        res["interleaving"] = ctx.interleaving
        if res["status"] == "violation":
            res["trace"] = ctx.trace
        shutil.rmtree(scratch, ignore_errors=True)
        data = pickle.dumps(res)
        os.write(wfd, struct.pack("<Q", len(data)))
        view = memoryview(data)
        while view:
            n = os.write(wfd, view[:65536])
            view = view[n:]
        os._exit(0)


def run_isolated(fn, scenario, quiet=True, timeout=RUN_TIMEOUT_S):
    """Execute the scenario in a forked process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        _child(fn, scenario, w, quiet)
        os._exit(1)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 8:
                need = struct.unpack("<Q", buf[:8])[0]
                if len(buf) >= 8 + need:
                    break
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return {"status": "error", "error": "run timed out", "timeout": True}
    os.waitpid(pid, 0)
    if len(buf) < 8:
        return {"status": "error", "error": "run process died"}
    return pickle.loads(buf[8:])


def same_violation(a, b):
    return (
        a["status"] == "violation"
        and b["status"] == "violation"
        and a["kind"] == b["kind"]
        and a["where"] == b["where"]
    )


def fewer_switches(prop, cur, cur_res, t_end, max_runs):
    """ddmin over the explicit switches of a schedule."""
    runs = 0
    step = max(1, len(cur["schedule"]["switches"]) // 2)
    while True:
        sw = cur["schedule"]["switches"]
        hit = False
        for a in range(0, len(sw), step):
            if time.monotonic() > t_end or runs >= max_runs:
                return cur, cur_res, runs
            cand = dict(
                cur,
                schedule=dict(
                    cur["schedule"], switches=sw[:a] + sw[a + step :]
                ),
            )
            runs += 1
            res = run_isolated(prop.execute, cand, timeout=60)
            if same_violation(cur_res, res):
                cur, cur_res, hit = cand, res, True
                break
        if not hit:
            if step == 1:
                return cur, cur_res, runs
            step //= 2


def minimise(prop, scenario, result, budget_s=90.0, max_runs=400):
    """Greedy delta debugging over the property's own shrink candidates,
    keeping the violation class."""
    t_end = time.monotonic() + budget_s
    runs = 0
    cur, cur_res = scenario, result
    # a random schedule becomes the explicit list of its switches first
    if result.get("trace") and "schedule" in scenario:
        cand = dict(
            scenario,
            schedule={
                "grain": scenario["schedule"].get("grain", "line"),
                "switches": result["trace"],
            },
        )
        runs += 1
        res = run_isolated(prop.execute, cand, timeout=60)
        if same_violation(result, res):
            cur, cur_res = cand, res
            cur, cur_res, n = fewer_switches(
                prop, cur, cur_res, t_end, max_runs - runs
            )
            runs += n
    progress = True
    while progress and time.monotonic() < t_end and runs < max_runs:
        progress = False
        for cand in prop.shrink(cur):
            if time.monotonic() > t_end or runs >= max_runs:
                break
            runs += 1
            res = run_isolated(prop.execute, cand, timeout=60)
            if same_violation(cur_res, res):
                cur, cur_res = cand, res
                progress = True
                break
    return cur, cur_res, runs


def scenario_for(prop, seed, i, tier):
    rng = derive(seed, prop.ID, i)
    sc = prop.plan(rng, i, tier)
    sc.setdefault("np_seed", rng.randrange(1 << 31))
    sc = json.loads(json.dumps(sc))
    return sc


def _worker(
    prop, seed, indices, tier, out_path, stop_path, deadline, keep_going
):
    with open(out_path, "w") as out:
        for i in indices:
            if time.monotonic() > deadline:
                break
            try:
                with open(stop_path) as f:
                    first = min(int(x) for x in f.read().split() or ["9" * 12])
            except (OSError, ValueError):
                first = 10**12
            if i > first:
                break
            sc = scenario_for(prop, seed, i, tier)
            t0 = time.monotonic()
            res = run_isolated(prop.execute, sc)
            res["i"] = i
            res["wall"] = time.monotonic() - t0
            if res["status"] != "error":
                res.pop("events_tail", None)
            out.write(json.dumps(res) + "\n")
            out.flush()
            if res["status"] == "violation" and not keep_going:
                with open(stop_path, "a") as f:
                    f.write(f"{i}\n")


def explore(
    prop, seed, n_runs, tier, workers, deadline_s, start=0, keep_going=False
):
    """Run scenarios start..n_runs-1; stop early at the first violation (lowest
    index, whatever the number of workers)."""
    tmp = tempfile.mkdtemp(prefix="verif-explore-")
    deadline = time.monotonic() + deadline_s
    stop_path = os.path.join(tmp, "stop")
    pids = []
    try:
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(
                        prop,
                        seed,
                        range(start + w, start + n_runs, workers),
                        tier,
                        os.path.join(tmp, f"out{w}"),
                        stop_path,
                        deadline,
                        keep_going,
                    )
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids.append(pid)
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            bad += st != 0
        results = []
        for w in range(workers):
            with open(os.path.join(tmp, f"out{w}")) as f:
                results += [json.loads(line) for line in f]
        results.sort(key=lambda r: r["i"])
        first = min(
            (r["i"] for r in results if r["status"] == "violation"),
            default=None,
        )
        if first is not None and not keep_going:
            results = [r for r in results if r["i"] <= first]
        return results, bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_replay(path, prop, seed, i, scenario, result, original):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop.ID,
                "seed": seed,
                "run": i,
                "violation": {
                    k: result.get(k) for k in ("kind", "where", "detail")
                },
                "log_hash": result.get("log_hash"),
                "events_tail": result.get("events_tail"),
                "scenario": scenario,
                "original_scenario": original,
            },
            f,
            indent=1,
        )
