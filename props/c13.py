"""C13: threads - shared reads are safe, separate models do not interact.

Real threads, of which one runs at a time; after every line (or bytecode
instruction) of the library the seeded schedule decides who runs on."""
import copy
import os

import numpy as np

from pydmd.dmd_modes_tuner import select_modes
from props.c10 import kind
from sim import faults
from sim.compare import Raised, freeze, same
from sim.core import Ctx, Skip, Violation, derive
from sim.history import (
    Runner,
    builtin_crit,
    load_saved,
    plan_crit,
    plan_op,
    shrink_cfg,
    unstable,
    vary_layout,
)
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C13"
RUNS = {"quick": 1800, "thorough": 25000}
STATE_MEASURE = "hash of (mode, classes of the threads, operations of each)"
SETUP = ("mask", "edit", "stab", "select", "window", "setwin", "extra", "fit")
OWN = SETUP + ("read", "getitem", "copy", "restart")


def readable(subj, cfg):
    """Reads that neither draw random numbers nor change settings."""
    return [rd for rd in subj.reads(cfg) if rd[0] not in ("forecast",)]


def plan_schedule(rng):
    return {
        "p": rng.choice([0.02, 0.1, 0.3, 0.5]),
        "grain": rng.choice(["line", "line", "op"]),
        "seed": rng.randrange(1 << 30),
    }


def plan(rng, i, tier):
    if rng.random() < 0.5:
        return plan_share(rng)
    return plan_own(rng)


def plan_look(subj, cfg, rng):
    menu = ["read"] * 6 + ["copy", "save"]
    if subj.selectable:
        menu += ["crit", "nselect"]
    if subj.indexable and subj.selectable:
        menu += ["getitem"]
    k = rng.choice(menu)
    if k == "read":
        return [k, rng.choice(readable(subj, cfg))]
    if k in ("crit", "nselect"):
        return [k, plan_crit(rng)]
    if k == "getitem":
        return [k, rng.choice([0, [0], {"slice": [0, 2, None]}])]
    return [k]


def plan_share(rng):
    subj = choose(rng, ALL, heavy_factor=0.4)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    setup = [["fit", 0]]
    for _ in range(rng.choice([0, 0, 1, 2])):
        setup.append(plan_op(subj, cfg, pool, rng, faulty=False, kinds=SETUP))
    n = rng.choice([2, 2, 3])
    same_looks = rng.random() < 0.3
    looks = [
        [plan_look(subj, cfg, rng) for _ in range(rng.choice([1, 2, 4, 6]))]
        for _ in range(n)
    ]
    if same_looks:
        looks = [looks[0]] * n
    return {
        "mode": "share",
        "subject": subj.name,
        "cfg": cfg,
        "pool": pool,
        "setup": setup,
        "looks": looks,
        "schedule": plan_schedule(rng),
    }


def plan_own(rng):
    n = rng.choice([2, 2, 3])
    together = rng.random() < 0.7  # threads use the same class
    users = []
    first = None
    for _ in range(n):
        while True:
            subj = (
                first
                if together and first
                else choose(rng, ALL, heavy_factor=0.15)
            )
            cfg = subj.cfg(rng)
            if kind(subj, cfg) == "private":
                break
        first = first or subj
        pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
        ops = [["fit", 0]]
        for _ in range(
            rng.choice([1, 2, 3]) if subj.heavy else rng.choice([1, 3, 5])
        ):
            ops.append(
                plan_op(subj, cfg, pool, rng, faulty=False, kinds=OWN)
            )
        users.append(
            {
                "subject": subj.name,
                "cfg": cfg,
                "pool": pool,
                "ops": ops,
                "reads": [
                    rng.choice(subj.reads(cfg)) for _ in range(rng.choice([2, 4]))
                ]
                + [list(p) for p in subj.products],
            }
        )
    return {
        "mode": "own",
        "subject": users[0]["subject"],
        "users": users,
        "forked": together and rng.random() < 0.4,
        "schedule": plan_schedule(rng),
    }


def ask(subj, m, rd, cfg):
    try:
        return freeze(subj.read(m, rd, cfg))
    except Exception as e:
        return Raised(e)


def state_of(subj, m, cfg):
    return {
        "/".join(map(str, rd)): ask(subj, m, rd, cfg)
        for rd in readable(subj, cfg)
    }


def look(subj, m, op, cfg, fn):
    k = op[0]
    try:
        if k == "read":
            return ask(subj, m, op[1], cfg)
        if k == "crit":
            return freeze(builtin_crit(op[1])(m))
        if k == "nselect":
            c = select_modes(m, builtin_crit(op[1]), in_place=False)
            return freeze([np.array(c.modes), np.array(c.eigs)])
        if k == "getitem":
            key = op[1]
            sub = m[slice(*key["slice"]) if isinstance(key, dict) else key]
            return freeze(
                [np.array(v) for v in (sub.modes, sub.eigs, sub.amplitudes)]
            )
        if k == "copy":
            return state_of(subj, copy.deepcopy(m), cfg)
        if k == "save":
            if subj.saves == "method":
                m.save(fn)
                return state_of(subj, load_saved(subj, fn), cfg)
            return None
    except Exception as e:
        return Raised(e)


def execute(sc, ctx):
    if sc["mode"] == "share":
        share(sc, ctx)
    else:
        separate(sc, ctx)


def baton(bodies, sc, ctx):
    b = faults.Baton(
        bodies,
        sc["schedule"],
        derive("c13", sc["schedule"].get("seed", 0)),
        ctx,
    )
    res = b.run()
    ctx.steps += b.step
    ctx.log("switches", len(b.trace), b.step)
    ctx.fault("switch at a " + sc["schedule"].get("grain", "line"), ctx.switches)
    for k, r in enumerate(res):
        if r[0] != "ok":
            raise RuntimeError(f"thread {k}: {r[1]!r}")
    return [r[1] for r in res]


def share(sc, ctx):
    subj, cfg, pool = BY_NAME[sc["subject"]], sc["cfg"], sc["pool"]
    run = Runner(subj, cfg, pool, ctx)
    m = subj.new(cfg)
    for op in sc["setup"]:
        m, _ = run.apply(m, op)
    before = {
        "/".join(map(str, rd)): ask(subj, copy.deepcopy(m), rd, cfg)
        for rd in readable(subj, cfg)
    }
    if all(isinstance(v, Raised) for v in before.values()):
        raise Skip("no fitted model")
    path = lambda t, j: os.path.join(ctx.scratch, f"save{t}-{j}")
    want = [
        [
            look(subj, copy.deepcopy(m), op, cfg, path(t, j))
            for j, op in enumerate(ops)
        ]
        for t, ops in enumerate(sc["looks"])
    ]

    def body(t):
        return lambda: [
            look(subj, m, op, cfg, path(t, j))
            for j, op in enumerate(sc["looks"][t])
        ]

    got = baton([body(t) for t in range(len(sc["looks"]))], sc, ctx)
    for t, ops in enumerate(sc["looks"]):
        for j, op in enumerate(ops):
            d = same(got[t][j], want[t][j], 1e-9)
            if d:
                raise Violation(
                    "a reader gets another answer beside other readers",
                    subj.name,
                    f"thread {t}, {op}: {d}; cfg {cfg}",
                )
            ctx.probe("shared answers compared")
    after = state_of(subj, m, cfg)
    for k, v in after.items():
        d = same(v, before[k], 1e-9)
        if d:
            raise Violation(
                "concurrent readers change a model", subj.name, f"{k}: {d}"
            )
    ctx.state("share", subj.name, [[o[0] for o in ops] for ops in sc["looks"]])
    ctx.nontrivial = True


def separate(sc, ctx):
    users = sc["users"]

    def make(k):
        """The model a user starts with."""
        u = users[0] if sc["forked"] else users[k]
        s = BY_NAME[u["subject"]]
        return s.new(u["cfg"])

    def live(k, m, ops, quiet, root):
        u = users[0] if sc["forked"] else users[k]
        s, cfg = BY_NAME[u["subject"]], u["cfg"]
        run = Runner(s, cfg, u["pool"], quiet)
        run.nfile = root
        out = []
        for op in ops:
            m, r = run.apply(m, op)
            out.append([op, r])
        for rd in u["reads"]:
            if rd[0] != "forecast":
                out.append([["read", rd], ask(s, m, rd, cfg)])
        return out

    def course(k):
        # users of a fork share the configuration and the pool
        ops = users[k]["ops"]
        if sc["forked"]:
            n = len(users[0]["pool"])
            ops = [
                [o[0], o[1] % n] if o[0] == "fit" else o
                for o in users[k]["ops"]
                if o[0] != "extra"
            ]
            return ops[1:] + [["fit", 1]] * (k % 2)
        return ops

    def start():
        """Models before the threads start."""
        if not sc["forked"]:
            return [make(k) for k in range(len(users))]
        u = users[0]
        s = BY_NAME[u["subject"]]
        run = Runner(s, u["cfg"], u["pool"], Ctx(ctx.scratch))
        m, out = run.apply(s.new(u["cfg"]), ["fit", 0])
        return [m] + [copy.deepcopy(m) for _ in users[1:]]

    os.makedirs(os.path.join(ctx.scratch, "a"))
    os.makedirs(os.path.join(ctx.scratch, "t"))
    ms = start()
    want = [
        live(
            k, ms[k], course(k), Ctx(os.path.join(ctx.scratch, "a")), 100 * k
        )
        for k in range(len(users))
    ]
    ms = start()

    def body(k):
        quiet = Ctx(os.path.join(ctx.scratch, "t"))
        return lambda: live(k, ms[k], course(k), quiet, 100 * k)

    got = baton([body(k) for k in range(len(users))], sc, ctx)
    for k, u0 in enumerate(users):
        u = users[0] if sc["forked"] else u0
        s = BY_NAME[u["subject"]]
        for (op, a), (_, b) in zip(want[k], got[k]):
            d = same(a, b, s.rtol)
            ctx.probe("outcomes beside other threads compared")
            if not d:
                continue
            if op[0] == "read":
                full = ([["fit", 0]] if sc["forked"] else []) + course(k)
                if unstable(
                    s, u["cfg"], u["pool"], full, "/".join(map(str, op[1])), ctx
                ):
                    continue
            raise Violation(
                "a thread gets another result beside other threads",
                u["subject"],
                f"thread {k}, {op}: {d}",
            )
    ctx.state(
        "own",
        [u["subject"] for u in users],
        [[o[0] for o in u["ops"]] for u in users],
        sc["forked"],
    )
    ctx.nontrivial = True


def shrink(sc):
    if sc["mode"] == "share":
        n = len(sc["looks"])
        if n > 2:
            for t in range(n):
                yield dict(sc, looks=sc["looks"][:t] + sc["looks"][t + 1 :])
        for t in range(n):
            for j in range(len(sc["looks"][t])):
                if len(sc["looks"][t]) > 1:
                    new = sc["looks"][t][:j] + sc["looks"][t][j + 1 :]
                    yield dict(
                        sc, looks=sc["looks"][:t] + [new] + sc["looks"][t + 1 :]
                    )
        for j in range(1, len(sc["setup"])):
            yield dict(sc, setup=sc["setup"][:j] + sc["setup"][j + 1 :])
        yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
        return
    us = sc["users"]
    if len(us) > 2:
        for t in range(len(us)):
            yield dict(sc, users=us[:t] + us[t + 1 :])
    for t, u in enumerate(us):
        for key in ("ops", "reads"):
            for j in range(1 if key == "ops" else 0, len(u[key])):
                new = dict(u, **{key: u[key][:j] + u[key][j + 1 :]})
                yield dict(sc, users=us[:t] + [new] + us[t + 1 :])
