"""C02: a saved and reloaded model carries on exactly as the original would."""
import copy
import json
import os
import pickle
import struct

import numpy as np

from sim.core import Ctx, Skip, Violation
from sim.history import (
    Runner,
    load_saved,
    plan_op,
    shrink_cfg,
    shrink_ops,
    unstable,
    vary_layout,
)
from sim.oracle import diffs
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C02"
RUNS = {"quick": 1500, "thorough": 25000}
STUB = (
    "user-supplied callables (criteria, kernels, constraints, interpolator); "
    "the process that loads is a real process forked before the model existed"
)


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.4)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    n = rng.choice([1, 2, 4, 6]) if not subj.heavy else rng.choice([1, 2])
    ops = []
    if rng.random() < 0.85:
        ops.append(["fit", 0])
    kinds = None
    for _ in range(n):
        ops.append(plan_op(
                subj, cfg, pool, rng, faulty=rng.random() < 0.3, reconf=True
            )
        )
    ops = [o for o in ops if o[0] not in ("restart", "copy")]
    saves = sorted(
        rng.sample(range(len(ops) + 1), min(len(ops) + 1, rng.choice([1, 1, 2])))
    )
    return {
        "subject": subj.name,
        "cfg": cfg,
        "pool": pool,
        "ops": ops,
        "saves": saves,
        "via": rng.choice(
            ["save", "save", "save", "pickle", "pickle2", "copy"]
        ),
        "elsewhere": rng.random() < 0.5,
        "stray": [
            plan_op(subj, cfg, pool, rng, faulty=False)
            for _ in range(rng.choice([1, 2, 3]))
        ],
    }


class Elsewhere:
    """A process forked before any model was built; it loads the file, carries
    on with the rest of the history and reports every answer."""

    def __init__(self, sc):
        self.r0, self.w0 = os.pipe()
        self.r1, self.w1 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w0)
                os.close(self.r1)
                req = b""
                while True:
                    c = os.read(self.r0, 65536)
                    if not c:
                        break
                    req += c
                out = b""
                if req:
                    out = pickle.dumps(self.serve(sc, json.loads(req)))
                view = memoryview(struct.pack("<Q", len(out)) + out)
                while view:
                    view = view[os.write(self.w1, view[:65536]) :]
            finally:
                os._exit(0)
        os.close(self.r0)
        os.close(self.w1)

    def serve(self, sc, req):
        subj = BY_NAME[sc["subject"]]
        cfg, pool = sc["cfg"], sc["pool"]
        ctx = Ctx(req["scratch"])
        run = Runner(subj, cfg, pool, ctx)
        try:
            m = load(subj, req["via"], req["file"])
        except Exception as e:
            return {"error": repr(e)}
        obs = [observe(subj, m, cfg)]
        for op in req["ops"]:
            m, out = run.apply(m, op)
            obs.append(observe(subj, m, cfg))
        return {"obs": obs}

    def ask(self, req):
        data = json.dumps(req).encode()
        while data:
            data = data[os.write(self.w0, data) :]
        os.close(self.w0)
        buf = b""
        while True:
            c = os.read(self.r1, 65536)
            if not c:
                break
            buf += c
        os.close(self.r1)
        os.waitpid(self.pid, 0)
        if len(buf) <= 8:
            return {"error": "the loading process died"}
        return pickle.loads(buf[8:])

    def drop(self):
        os.close(self.w0)
        os.close(self.r1)
        os.waitpid(self.pid, 0)


def store(subj, m, via, fn):
    if via == "save" and subj.saves == "method":
        m.save(fn)
    else:
        proto = 2 if via == "pickle2" else None
        with open(fn, "wb") as f:
            pickle.dump(m, f, protocol=proto)


def load(subj, via, fn):
    if via == "save" and subj.saves == "method":
        return load_saved(subj, fn)
    with open(fn, "rb") as f:
        return pickle.load(f)


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    cfg, pool = sc["cfg"], sc["pool"]
    other = Elsewhere(sc) if sc["elsewhere"] else None
    run = Runner(subj, cfg, pool, ctx)
    # the uninterrupted life
    ref = []
    m = subj.new(cfg)
    ref.append(observe(subj, m, cfg))
    outs = []
    for op in sc["ops"]:
        m, out = run.apply(m, op)
        outs.append(out)
        ref.append(observe(subj, m, cfg))
    # the same life, interrupted
    m = subj.new(cfg)
    strayed = []
    trail = []
    for i in range(len(sc["ops"]) + 1):
        if i in sc["saves"]:
            fn = os.path.join(ctx.scratch, f"m{i}")
            ctx.steps += 1
            ctx.fault("restart")
            try:
                if sc["via"] == "copy":
                    new = copy.deepcopy(m)
                else:
                    store(subj, m, sc["via"], fn)
                    new = load(subj, sc["via"], fn)
            except Exception as e:
                raise Violation(
                    "a model cannot be saved and loaded",
                    subj.name,
                    f"{type(e).__name__}: {e} after {trail}",
                )
            check(subj, observe(subj, new, cfg), ref[i], "loaded", trail, sc, i, ctx)
            check(subj, observe(subj, m, cfg), ref[i], "original", trail, sc, i, ctx)
            if other is not None and sc["via"] != "copy":
                os.makedirs(fn + ".d")
                r = other.ask(
                    {
                        "file": fn,
                        "via": sc["via"],
                        "ops": sc["ops"][i:],
                        "scratch": fn + ".d",
                    }
                )
                other = None
                if "error" in r:
                    raise Violation(
                        "a saved model cannot be loaded by another process",
                        subj.name,
                        f"{r['error']} after {trail}",
                    )
                for j, o in enumerate(r["obs"]):
                    check(
                        subj,
                        o,
                        ref[i + j],
                        f"loaded elsewhere and {j} operations on",
                        trail,
                        sc,
                        i + j,
                        ctx,
                    )
                ctx.probe("loaded in another process")
            strayed.append((m, observe(subj, m, cfg)))
            m = new
            ctx.probe("restarts compared")
        if i < len(sc["ops"]):
            op = sc["ops"][i]
            m, out = run.apply(m, op)
            trail.append(op[0] + ("" if out == "ok" else "!"))
            if out != outs[i]:
                raise Violation(
                    "an operation ends differently after a restart",
                    subj.name,
                    f"{op[0]}: {out} instead of {outs[i]} after {trail}",
                )
            check(subj, observe(subj, m, cfg), ref[i + 1], "continued", trail, sc, i + 1, ctx)
    ctx.state(subj.name, sorted(cfg.items(), key=str), trail, sc["saves"])
    # what was done to the copies shows in no original
    for old, obs in strayed:
        check(subj, observe(subj, old, cfg), obs, "left-behind original", trail)
    # and the other way round
    end = observe(subj, m, cfg)
    for old, _ in strayed:
        for op in sc["stray"]:
            old, out = run.apply(old, op)
            trail.append("stray " + op[0])
    check(
        subj, observe(subj, m, cfg), end, "loaded (original changed)", trail
    )
    if other is not None:
        other.drop()
    ctx.nontrivial = bool(sc["ops"])


def check(subj, got, want, who, trail, sc=None, n=None, ctx=None):
    """sc, n: the two answers come from two executions of the first n
    operations; else they are two looks at one model."""
    rtol = 1e-9 if sc is None else subj.rtol
    for k, d in diffs(got, want, rtol):
        if sc is not None and unstable(
            subj, sc["cfg"], sc["pool"], sc["ops"][:n], k, ctx
        ):
            continue
        raise Violation(
            "a reloaded model differs"
            if "orig" not in who
            else "saving or a copy changed the original"
            if "changed" not in who
            else "a change of the original shows in the copy",
            subj.name,
            f"{who}: {k}: {d} after {trail}",
        )


def shrink(sc):
    for i in range(len(sc["saves"])):
        if len(sc["saves"]) > 1:
            yield dict(sc, saves=sc["saves"][:i] + sc["saves"][i + 1 :])
    for j in range(len(sc["ops"])):
        ops = sc["ops"][:j] + sc["ops"][j + 1 :]
        yield dict(
            sc, ops=ops, saves=sorted({s - (s > j) for s in sc["saves"]})
        )
    if sc["elsewhere"]:
        yield dict(sc, elsewhere=False)
    for j in range(len(sc["stray"])):
        yield dict(sc, stray=sc["stray"][:j] + sc["stray"][j + 1 :])
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
