"""C07: looking at a model does not change it."""
import copy

import numpy as np

from pydmd.dmd_modes_tuner import ModesTuner, select_modes
from sim.compare import Raised, freeze, same
from sim.core import Skip, Violation
from sim.history import (
    Runner,
    builtin_crit,
    plan_crit,
    plan_fault,
    plan_op,
    shrink_cfg,
    shrink_ops,
    unstable,
    vary_layout,
)
from sim.plots import plots_for, run_plot
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C07"
RUNS = {"quick": 1800, "thorough": 30000}
SETUP = ("mask", "edit", "stab", "select", "window", "setwin", "extra", "fit")


def plan_look(subj, cfg, rng):
    menu = ["read"] * 5 + ["fread"] * 2 + ["copy", "save"]
    if subj.selectable:
        menu += ["crit", "crit", "nselect", "nselect", "tuner"]
    if subj.indexable and subj.selectable:
        menu += ["getitem"]
    if subj.name == "COSTS":
        menu += ["sweep"]
    if plots_for(subj, cfg) and rng.random() < 0.35:
        menu += ["plot"] * 3
    k = rng.choice(menu)
    if k == "read":
        return [k, rng.choice(subj.reads(cfg))]
    if k == "fread":
        return [k, rng.choice(subj.reads(cfg)), plan_fault(rng)]
    if k in ("crit", "nselect", "tuner"):
        c = plan_crit(rng) if rng.random() < 0.85 else ["raise"]
        f = plan_fault(rng) if rng.random() < 0.3 else None
        return [k, c, f]
    if k == "getitem":
        return [k, rng.choice([0, -1, [0], {"slice": [0, 2, None]}, 99])]
    if k == "plot":
        return [k, rng.choice(plots_for(subj, cfg)), rng.randrange(6)]
    return [k]


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.4)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    setup = [["fit", 0]] if rng.random() < 0.97 else []
    if setup:
        if subj.windowed and rng.random() < 0.4:
            setup.append(plan_op(subj, cfg, pool, rng, kinds=("window",)))
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            setup.append(
                plan_op(subj, cfg, pool, rng, faulty=False, kinds=SETUP)
            )
    n = rng.choice([1, 2, 4, 7, 12]) if not subj.heavy else rng.choice([1, 3, 5])
    ops = [plan_look(subj, cfg, rng) for _ in range(n)]
    return {
        "subject": subj.name,
        "cfg": cfg,
        "pool": pool,
        "setup": setup,
        "ops": ops,
        "each": rng.random() < 0.5,
        "twin": rng.choice(["copy", "rebuild"]) if not subj.heavy else "copy",
        "order": rng.randrange(1 << 30),
    }


def baseline(subj, cfg, pool, sc, ctx, m):
    """Each answer taken from a model at which nothing else was looked at."""
    out = {}
    rds = subj.reads(cfg)
    if sc["twin"] == "copy":
        for rd in rds:
            out.update(observe(subj, copy.deepcopy(m), cfg, [rd]))
        return out
    # rebuilt models, a few reads each, in the usual order
    for part in (rds[::3], rds[1::3], rds[2::3]):
        run = Runner(subj, cfg, pool, ctx)
        tw = subj.new(cfg)
        for op in sc["setup"]:
            tw, _ = run.apply(tw, op)
        for rd in part:
            out.update(observe(subj, copy.deepcopy(tw), cfg, [rd]))
    return out


def spread(f, k=5):
    """The same fault at several points of the call, one after another."""
    return [dict(f, frac=(f["frac"] + j / k) % 1.0) for j in range(k)]


def look(subj, m, cfg, op, run, ctx):
    k = op[0]
    ctx.steps += 1
    if k == "read":
        return observe(subj, m, cfg, [op[1]])
    try:
        if k == "fread":
            for f in spread(op[2]):
                run.fread(m, op[1], f)
        elif k in ("crit", "nselect", "tuner"):
            c = builtin_crit(op[1])
            if k == "crit":
                fn = lambda x: c(x)
            elif k == "nselect":
                fn = lambda x: select_modes(x, c, in_place=False)
            else:
                fn = lambda x: ModesTuner(x).select(c).stabilize(0.5).get()
            if op[2]:
                n = run.npoints(
                    [k, ctx.steps], op[2]["mode"], lambda: fn(copy.deepcopy(m))
                )
                for f in spread(op[2]):
                    run.faulted(n, f, lambda: fn(m))
            else:
                fn(m)
        elif k == "getitem":
            key = op[1]
            sub = m[slice(*key["slice"]) if isinstance(key, dict) else key]
            _ = sub.modes, sub.eigs, sub.amplitudes, sub.dynamics
            _ = sub.reconstructed_data
        elif k == "plot":
            run_plot(subj, m, cfg, op[1], op[2], ctx.scratch)
        elif k == "copy":
            copy.deepcopy(m)
        elif k == "save":
            run.restart(m)
        elif k == "sweep":
            m.cluster_hyperparameter_sweep(n_components_range=[2, 3])
        out = "ok"
    except Exception as e:
        out = "raised"
    ctx.log("look", k, out)
    return None


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    cfg, pool = sc["cfg"], sc["pool"]
    run = Runner(subj, cfg, pool, ctx)
    m = subj.new(cfg)
    for op in sc["setup"]:
        m, _ = run.apply(m, op)
    base = baseline(subj, cfg, pool, sc, ctx, m)
    rds = subj.reads(cfg)
    trail = []

    def compare(got, when):
        for k, v in got.items():
            d = same(v, base[k], subj.rtol if sc["twin"] == "rebuild" else 1e-9)
            if d and not shaky(subj, cfg, pool, sc, ctx, k):
                raise Violation(
                    "an answer changed by looking",
                    subj.name,
                    f"{k}: {d} {when} {trail}",
                )
        ctx.probe("answers compared", len(got))

    for op in sc["ops"]:
        st = np.random.get_state()
        got = look(subj, m, cfg, op, run, ctx)
        np.random.set_state(st)
        if got is not None:
            compare(got, "on reading after")
        trail.append(op[0] + ("" if len(op) == 1 else f":{op[1]}"))
        ctx.state(subj.name, sorted(cfg.items(), key=str), trail)
        if sc["each"]:
            compare(observe(subj, m, cfg), "after")
    order = list(rds)
    np.random.RandomState(sc["order"] % (2**32)).shuffle(order)
    compare(observe(subj, m, cfg, order), "after")
    compare(observe(subj, m, cfg, order[::-1]), "at the second read, after")
    ctx.nontrivial = any(not isinstance(v, Raised) for v in base.values())


def shaky(subj, cfg, pool, sc, ctx, key):
    """With rebuilt twins only: is the answer determined by the data?"""
    return sc["twin"] == "rebuild" and unstable(
        subj, cfg, pool, sc["setup"], key, ctx
    )


def shrink(sc):
    yield from shrink_ops(sc)
    if len(sc["setup"]) > 1:
        for j in range(1, len(sc["setup"])):
            yield dict(sc, setup=sc["setup"][:j] + sc["setup"][j + 1 :])
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
