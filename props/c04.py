"""C04: refitting gives what a fresh model would give."""
from sim.core import Skip, Violation
from sim.history import Runner, plan_op, shrink_cfg, shrink_ops, vary_layout
from sim.oracle import judged
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C04"
RUNS = {"quick": 1800, "thorough": 60000}


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.35)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, rng.choice([2, 3, 3])))
    if subj.name in ("COSTS", "mrCOSTS"):
        n = rng.choice([1, 2])
    else:
        n = rng.choice([1, 2, 3, 4, 6, 9])
    ops = []
    if rng.random() < 0.8:
        ops.append(["fit", 0])
    for _ in range(n):
        ops.append(plan_op(subj, cfg, pool, rng, reconf=True))
    ops.append(["fit", rng.randrange(len(pool))])
    return {"subject": subj.name, "cfg": cfg, "pool": pool, "ops": ops}


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    cfg, pool = sc["cfg"], sc["pool"]
    run = Runner(subj, cfg, pool, ctx)
    m = subj.new(cfg)
    fresh = {}
    fits = 0
    trail = []
    for op in sc["ops"]:
        if op[0] == "fit":
            k = op[1] % len(pool)
            key = (k, str(cfg.get("reconfs")))
            if key not in fresh:
                tw = subj.new(cfg)
                try:
                    subj.fit(tw, cfg, pool[k])
                    fresh[key] = observe(subj, tw, cfg)
                except Exception as e:
                    fresh[key] = repr(e)
            m, out = run.apply(m, op)
            want = fresh[key]
            if isinstance(want, str):
                if out == "ok":
                    raise Violation(
                        "refit succeeds where a fresh fit raises",
                        subj.name,
                        want,
                    )
            elif out != "ok":
                raise Violation(
                    "refit raises where a fresh fit succeeds",
                    subj.name,
                    f"after {trail}",
                )
            else:
                got = observe(subj, m, cfg)
                d = judged(subj, cfg, pool[k], got, want, ctx)
                if d:
                    raise Violation(
                        "refit differs from a fresh fit",
                        subj.name,
                        f"{d} after {trail}",
                    )
                if trail:
                    fits += 1
                    ctx.probe("refit compared")
                    ctx.state(subj.name, sorted(cfg.items(), key=str), trail)
        else:
            m, out = run.apply(m, op)
            if op[0] == "reconf" and out == "ok":
                cfg = dict(cfg, reconfs=cfg.get("reconfs", []) + [op[1]])
        trail.append(op[0] + ("" if out == "ok" else "!"))
    ctx.nontrivial = fits > 0


def shrink(sc):
    yield from shrink_ops(sc)
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
