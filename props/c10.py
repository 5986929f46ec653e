"""C10: randomised methods are reproducible and isolated."""
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from sim import boot, faults, subjects
from sim.compare import Raised, freeze, same
from sim.core import Skip, Violation, derive
from sim.history import Runner, plan_fault, shrink_cfg
from sim.oracle import perturbed
from sim.subjects import ALL, BY_NAME, choose

ID = "C10"
RUNS = {"quick": 1300, "thorough": 20000}
STATE_MEASURE = (
    "hash of (mode, model classes and random kinds of the program, faults)"
)
EXEC_SHARE = 0.025


def kind(subj, cfg):
    """'global': draws from the global generator by design; else 'private'."""
    if subj.name == "CDMD":
        return "private" if cfg["compression_matrix"] == "arr" else "global"
    if subj.name.startswith("BOPDMD"):
        return "global" if cfg["num_trials"] else "private"
    if subj.name == "LANDO":
        return "global" if cfg["permute"] else "private"
    return "private"


def plan_item(rng, want=None, light=False):
    while True:
        subj = choose(rng, ALL, heavy_factor=0.0 if light else 0.25)
        cfg = subj.cfg(rng)
        if want and kind(subj, cfg) != want:
            continue
        break
    rds = subj.reads(cfg)
    return {
        "subject": subj.name,
        "cfg": cfg,
        "spec": subj.spec(cfg, rng),
        "ffit": plan_fault(rng) if rng.random() < 0.25 else None,
        "reads": list(rds)
        if want == "private" and not light and not subj.heavy
        else [rng.choice(rds) for _ in range(rng.choice([2, 5]))]
        + [list(p) for p in subj.products],
        "refit": rng.random() < 0.25,
    }


def plan(rng, i, tier):
    mode = rng.choice(["private"] * 3 + ["global"] * 3 + ["threads"] * 2)
    if rng.random() < EXEC_SHARE:
        mode = "exec"
    sc = {"mode": mode, "seeds": [rng.randrange(1 << 31) for _ in range(3)]}
    if mode == "private":
        sc["items"] = [plan_item(rng, "private")]
        sc["noise"] = [plan_item(rng, light=True) for _ in range(rng.choice([0, 1, 2]))]
    elif mode in ("global", "exec"):
        n = rng.choice([1, 2, 3])
        sc["items"] = [
            plan_item(rng, "global" if rng.random() < 0.7 else None, light=True)
            for _ in range(n)
        ]
        sc["noise"] = [plan_item(rng, light=True) for _ in range(rng.choice([0, 1]))]
    else:
        sc["items"] = [plan_item(rng, "private", light=True)]
        sc["noise"] = [plan_item(rng, "global", light=True)]
        for it in sc["items"] + sc["noise"]:
            it["ffit"] = None
            it["refit"] = False
        sc["schedule"] = {
            "p": rng.choice([0.02, 0.1, 0.5]),
            "grain": "line",
            "seed": rng.randrange(1 << 30),
        }
    sc["subject"] = sc["items"][0]["subject"]
    sc["cfg"] = sc["items"][0]["cfg"]
    return sc


def states():
    return pickle.dumps((np.random.get_state(), random.getstate()))


def run_item(it, ctx, perturb=0):
    """One model of a program: build, perhaps fail, fit, read."""
    s = BY_NAME[it["subject"]]
    cfg, spec = it["cfg"], it["spec"]
    m = s.new(cfg)
    out = []
    if it["ffit"]:
        # the number of fault points is counted outside the streams
        st = np.random.get_state(), random.getstate()
        run = Runner(s, cfg, [spec], ctx)
        n = run.npoints(
            ["fit"], it["ffit"]["mode"], lambda: s.fit(s.new(cfg), cfg, spec)
        )
        np.random.set_state(st[0])
        random.setstate(st[1])
        out.append(
            [["failed fit"], run.faulted(n, it["ffit"], lambda: s.fit(m, cfg, spec))]
        )
    data = s.data(cfg, spec)
    if perturb:
        data = perturbed(data, perturb)
    for j in range(2 if it["refit"] else 1):
        try:
            s.fit(m, cfg, spec, data)
            out.append([["fit"], "ok"])
        except Exception as e:
            out.append([["fit"], Raised(e)])
        for rd in it["reads"]:
            try:
                out.append([rd, freeze(s.read(m, rd, cfg))])
            except Exception as e:
                out.append([rd, Raised(e)])
    return out


def run_all(items, ctx, perturb=0):
    return [run_item(it, ctx, perturb) for it in items]


def first_diff(items, a, b, redo):
    """redo(k): the same program on data changed by 1e-13."""
    for i, it in enumerate(items):
        s = BY_NAME[it["subject"]]
        for j, ((rd, x), (_, y)) in enumerate(zip(a[i], b[i])):
            d = same(x, y, s.rtol)
            if d:
                for k in (1, 2, 3):
                    p = redo(k)[i]
                    if j >= len(p) or same(p[j][1], x, s.rtol / 30):
                        return None
                return it["subject"], f"{'/'.join(map(str, rd))}: {d}"
        if len(a[i]) != len(b[i]):
            return it["subject"], "different course"
    return None


def execute(sc, ctx):
    subjects.SEEDED_FITS = False
    items, noise, seeds = sc["items"], sc["noise"], sc["seeds"]
    mode = sc["mode"]
    where = items[0]["subject"]
    ctx.state(mode, [x["subject"] for x in items + noise], [bool(x["ffit"]) for x in items])
    ctx.nontrivial = True
    if mode == "private":
        np.random.seed(seeds[0])
        random.seed(seeds[0])
        before = states()
        a = run_all(items, ctx)
        ctx.steps += len(a[0])
        if states() != before:
            raise Violation(
                "a deterministic or seeded method advances the global generator",
                where,
                f"cfg {items[0]['cfg']}",
            )
        np.random.seed(seeds[1])
        random.seed(seeds[1])
        run_all(noise, ctx)
        ctx.steps += len(noise)
        before = states()
        b = run_all(items, ctx)
        if states() != before:
            raise Violation(
                "a deterministic or seeded method advances the global generator",
                where,
                f"cfg {items[0]['cfg']}",
            )
        d = first_diff(items, a, b, lambda k: run_all(items, ctx, k))
        if d:
            raise Violation(
                "a deterministic or seeded result depends on what ran before",
                d[0],
                d[1],
            )
    elif mode == "global":
        def program(k=0):
            np.random.seed(seeds[0])
            random.seed(seeds[0])
            out = run_all(items, ctx, k)
            return out, states()

        a, sa = program()
        ctx.steps += sum(map(len, a))
        np.random.seed(seeds[1])
        random.seed(seeds[1])
        run_all(noise, ctx)
        if seeds[2] % 2:
            np.random.standard_normal(7)
            random.random()
        b, sb = program()
        d = first_diff(items, a, b, lambda k: program(k)[0])
        if d:
            raise Violation(
                "seeding the global generator does not make a run repeatable",
                d[0],
                d[1],
            )
        if sa != sb:
            raise Violation(
                "seeding the global generator does not make a run repeatable",
                where,
                "the generator ends in another state",
            )
        random.seed(seeds[0])
        if pickle.loads(sb)[1] != random.getstate():
            raise Violation(
                "a method draws from Python's random module", where, ""
            )
    elif mode == "threads":
        threads(sc, ctx)
    else:
        a = hashes(sc, ctx)
        env = dict(os.environ, PYTHONHASHSEED=str(seeds[1] % 1000 + 1))
        r = subprocess.run(
            [sys.executable, "-c", CHILD],
            input=json.dumps(sc),
            capture_output=True,
            text=True,
            env=env,
            cwd=boot.VERIF,
            timeout=200,
        )
        if r.returncode:
            raise RuntimeError(r.stderr[-1500:])
        b = pickle.loads(bytes.fromhex(r.stdout.strip().splitlines()[-1]))
        ctx.fault("other process")
        ctx.probe("programs repeated in another process")
        np.random.seed(seeds[0])
        d = first_diff(
            items, a, b, lambda k: program_in(sc, ctx, k)
        )
        if d:
            raise Violation(
                "a seeded run gives another result in another process",
                d[0],
                d[1],
            )


CHILD = """
import json, sys, pickle
from sim import boot, core
from props import c10
sc = json.load(sys.stdin)
out = c10.hashes(sc, core.Ctx(None))
print(pickle.dumps(out).hex())
"""


def program_in(sc, ctx, k=0):
    subjects.SEEDED_FITS = False
    np.random.seed(sc["seeds"][0])
    random.seed(sc["seeds"][0])
    return run_all(sc["items"], ctx, k)


def hashes(sc, ctx):
    return program_in(sc, ctx)


def threads(sc, ctx):
    """A deterministic or seeded method beside a randomised one."""
    items, noise, seeds = sc["items"], sc["noise"], sc["seeds"]

    def alone(its, k=0):
        np.random.seed(seeds[0])
        random.seed(seeds[0])
        return run_all(its, ctx, k)

    a, r = alone(items), alone(noise)
    np.random.seed(seeds[0])
    random.seed(seeds[0])
    b = faults.Baton(
        [lambda: run_all(items, ctx), lambda: run_all(noise, ctx)],
        sc["schedule"],
        derive("c10", sc["schedule"].get("seed", 0)),
        ctx,
    )
    res = b.run()
    ctx.steps += b.step
    ctx.log("switches", len(b.trace), b.step)
    for its, want, got in ((items, a, res[0]), (noise, r, res[1])):
        if got[0] != "ok":
            raise Violation(
                "an operation fails only beside another thread",
                its[0]["subject"],
                repr(got[1])[:300],
            )
        d = first_diff(its, want, got[1], lambda k: alone(its, k))
        if d:
            raise Violation(
                "a result depends on a thread running beside it", d[0], d[1]
            )


def shrink(sc):
    for i in range(len(sc["noise"])):
        if sc["mode"] != "threads":
            yield dict(sc, noise=sc["noise"][:i] + sc["noise"][i + 1 :])
    if len(sc["items"]) > 1:
        for i in range(len(sc["items"])):
            yield dict(sc, items=sc["items"][:i] + sc["items"][i + 1 :])
    for key in ("items", "noise"):
        for i, it in enumerate(sc[key]):
            for f in ("ffit", "refit"):
                if it[f]:
                    new = dict(it, **{f: None})
                    yield dict(
                        sc, **{key: sc[key][:i] + [new] + sc[key][i + 1 :]}
                    )
            for j in range(len(it["reads"])):
                new = dict(it, reads=it["reads"][:j] + it["reads"][j + 1 :])
                yield dict(sc, **{key: sc[key][:i] + [new] + sc[key][i + 1 :]})
    for i, it in enumerate(sc["items"]):
        for c in shrink_cfg(it, BY_NAME[it["subject"]]):
            yield dict(sc, items=sc["items"][:i] + [c] + sc["items"][i + 1 :])
