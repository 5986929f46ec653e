"""Histories: sequences of operations a user performs on one model, each plain
JSON, drawn by the seeded planner and applied by the executor."""
import copy
import os
import pickle

import numpy as np

from pydmd.dmd_modes_tuner import ModesSelectors, select_modes, stabilize_modes

from . import faults
from .core import Ctx
from .compare import same
from .oracle import perturbed
from .plots import plots_for, run_plot
from .subjects import CRITS, observe, own


def builtin_crit(spec):
    if spec[0] == "threshold":
        return ModesSelectors.threshold(*spec[1:])
    if spec[0] == "stable":
        return ModesSelectors.stable_modes(
            max_distance_from_unity_inside=spec[1],
            max_distance_from_unity_outside=spec[2],
        )
    if spec[0] == "integral":
        return ModesSelectors.integral_contribution(spec[1])
    return CRITS[spec[0]]


def plan_crit(rng):
    return rng.choice(
        [
            ["threshold", round(0.3 + 0.7 * rng.random(), 3), 1.02],
            ["stable", 0.1, 0.01],
            ["integral", rng.choice([1, 2, 3])],
            ["all"],
            ["osc"],
            ["first"],
            ["strong"],
        ]
    )


def plan_fault(rng, call_only=False):
    if call_only or rng.random() < 0.6:
        return {
            "mode": "call",
            "frac": round(rng.random(), 4),
            "exc": rng.choice(["linalg", "memory"]),
        }
    return {
        "mode": "line",
        "frac": round(rng.random(), 4),
        "exc": rng.choice(["interrupt", "memory"]),
    }


def plan_op(
    subj,
    cfg,
    pool,
    rng,
    faulty=True,
    kinds=None,
    plots=False,
    reconf=False,
):
    if reconf and rng.random() < 0.25:
        op = subj.reconf(cfg, rng)
        if op is not None:
            return ["reconf", op]
    menu = ["read", "read"]
    if plots and plots_for(subj, cfg):
        menu += ["plot"]
    menu += ["fit", "fit"]
    if faulty:
        menu += ["badfit", "ffit", "ffit", "fread"]
    if subj.selectable:
        menu += ["mask", "mask", "edit", "stab", "select", "badmask"]
    if subj.indexable:
        menu += ["getitem"]
    if subj.windowed:
        menu += ["window", "window", "setwin"]
    if subj.extra_ops:
        menu += ["extra"] * 3
    menu += ["copy", "restart"]
    if kinds is not None:
        menu = [k for k in menu if k in kinds]
    k = rng.choice(menu)
    if k == "read":
        return ["read", rng.choice(subj.reads(cfg))]
    if k == "fread":
        return ["fread", rng.choice(subj.reads(cfg)), plan_fault(rng)]
    if k == "fit":
        return ["fit", rng.randrange(len(pool))]
    if k == "badfit":
        return ["badfit", rng.randrange(len(pool)), rng.choice(subj.bads)]
    if k == "ffit":
        return ["ffit", rng.randrange(len(pool)), plan_fault(rng)]
    if k in ("mask", "edit", "badmask"):
        return [k, rng.randrange(1 << 16)]
    if k == "stab":
        return [k, round(0.8 + 0.2 * rng.random(), 3)]
    if k == "select":
        return [k, plan_crit(rng), rng.random() < 0.7]
    if k == "getitem":
        return [k, rng.choice([0, [0], {"slice": [0, 2, None]}])]
    if k == "plot":
        return [k, rng.choice(plots_for(subj, cfg)), rng.randrange(6)]
    if k in ("window", "setwin"):
        return [
            k,
            rng.choice([0, 0, 2, 3]),
            rng.choice([4, 7, 12, 30]),
            rng.choice([1, 1, 0.5, 2]),
        ]
    if k == "extra":
        return [k, subj.extra(cfg, rng, pool)]
    return [k]


def bits(seed, n):
    b = np.array([(seed >> (i % 16)) & 1 for i in range(n)], dtype=bool)
    if not b.any() and n:
        b[seed % n] = True
    return b


def load_saved(subj, fn):
    # wrappers have no load of their own
    from pydmd.dmdbase import DMDBase
    from pydmd.paramdmd import ParametricDMD

    if subj.name == "ParametricDMD":
        return ParametricDMD.load(fn)
    return DMDBase.load(fn)


class Runner:
    """Applies operations to a model.  What an operation raises is an outcome
    of the history, not a failure; what the property says decides."""

    def __init__(self, subj, cfg, pool, ctx):
        self.subj, self.cfg, self.pool, self.ctx = subj, cfg, pool, ctx
        self._counts = {}
        self.nfile = 0
        self.perturb = 0

    def spec(self, k, **more):
        return dict(self.pool[k % len(self.pool)], **more)

    def npoints(self, key, mode, fn):
        key = (str(key), mode)
        if key not in self._counts:
            with faults.Points(mode) as p:
                try:
                    fn()
                except Exception:
                    pass
            self._counts[key] = p.n
        return self._counts[key]

    def faulted(self, n, f, fn):
        """Run fn with one fault at the given fraction of its n points."""
        if n == 0:
            return "nopoint"
        at = min(n - 1, int(f["frac"] * n))
        with faults.Points(f["mode"], at, f["exc"], self.ctx) as p:
            try:
                fn()
                out = "ok"
            except BaseException as e:
                if not isinstance(e, (Exception, KeyboardInterrupt)):
                    raise
                out = "raised"
        self.ctx.log("fault", f["mode"], f["exc"], at, p.fired, out)
        if p.fired is None:
            return "nofire-" + out
        return out

    def apply(self, m, op):
        """(model, outcome)"""
        self.ctx.steps += 1
        s, cfg = self.subj, self.cfg
        k = op[0]
        try:
            if k == "fit":
                sp = self.spec(op[1])
                if self.perturb:
                    s.fit(m, cfg, sp, perturbed(s.data(cfg, sp), self.perturb))
                else:
                    s.fit(m, cfg, sp)
            elif k == "badfit":
                self.ctx.fault("bad-input:" + op[2])
                s.fit(m, cfg, self.spec(op[1], bad=op[2]))
            elif k == "ffit":
                sp = self.spec(op[1])
                n = self.npoints(
                    ["fit", op[1]],
                    op[2]["mode"],
                    lambda: s.fit(s.new(cfg), cfg, sp),
                )
                return m, self.faulted(n, op[2], lambda: s.fit(m, cfg, sp))
            elif k == "read":
                observe(s, m, cfg, [op[1]])
            elif k == "fread":
                return m, self.fread(m, op[1], op[2])
            elif k == "mask":
                n = len(m.modes_activation_bitmask)
                m.modes_activation_bitmask = own(bits(op[1], n))
            elif k == "badmask":
                n = len(m.modes_activation_bitmask)
                bad = (
                    np.ones(n + 1, dtype=bool)
                    if op[1] % 2
                    else np.ones(n, dtype=int)
                )
                m.modes_activation_bitmask = own(bad)
            elif k == "edit":
                w = op[1] % 3
                if w == 0:
                    m.modes[:, 0] *= 2.0
                elif w == 1:
                    m.eigs[-1] *= 0.9
                else:
                    m.amplitudes[0] *= 3.0
            elif k == "stab":
                stabilize_modes(m, op[1])
            elif k == "select":
                select_modes(m, builtin_crit(op[1]), in_place=bool(op[2]))
            elif k == "getitem":
                key = op[1]
                sub = m[slice(*key["slice"]) if isinstance(key, dict) else key]
                _ = sub.modes, sub.eigs
            elif k == "window":
                m.dmd_time["t0"] = op[1]
                m.dmd_time["tend"] = op[1] + op[2]
                m.dmd_time["dt"] = op[3]
            elif k == "setwin":
                m.dmd_time = own(
                    {"t0": op[1], "tend": op[1] + op[2], "dt": op[3]}
                )
            elif k == "plot":
                run_plot(s, m, cfg, op[1], op[2], self.ctx.scratch)
            elif k == "extra":
                s.do_extra(m, op[1], cfg)
            elif k == "reconf":
                s.do_reconf(m, op[1])
            elif k == "copy":
                m = copy.deepcopy(m)
            elif k == "restart":
                m = self.restart(m)
            else:
                raise KeyError(k)
            out = "ok"
        except KeyError as e:
            if e.args and e.args[0] == k:
                raise
            out = "raised"
        except Exception as e:
            out = "raised"
        self.ctx.log("op", k, out)
        return m, out

    def fread(self, m, rd, f):
        s, cfg = self.subj, self.cfg
        n = self.npoints(
            ["read", rd, self.ctx.steps, id(m)],
            f["mode"],
            lambda: s.read(copy.deepcopy(m), rd, cfg),
        )
        st = np.random.get_state()
        np.random.seed(4242)
        try:
            return self.faulted(n, f, lambda: s.read(m, rd, cfg))
        finally:
            np.random.set_state(st)

    def restart(self, m):
        """Only what was saved survives."""
        self.ctx.fault("restart")
        self.nfile += 1
        fn = os.path.join(self.ctx.scratch, f"model{self.nfile}")
        if self.subj.saves == "method":
            m.save(fn)
            return load_saved(self.subj, fn)
        with open(fn, "wb") as f:
            pickle.dump(m, f)
        with open(fn, "rb") as f:
            return pickle.load(f)


def unstable(subj, cfg, pool, ops, key, ctx, rtol=None):
    """Is the answer `key` after these operations not determined by the data
    to working precision?  Repeats the history with data changed by a relative
    1e-13."""
    rtol = subj.rtol if rtol is None else rtol
    seen = []
    quiet = Ctx(ctx.scratch)
    for j in range(4):
        run = Runner(subj, cfg, pool, quiet)
        run.perturb = j
        m = subj.new(cfg)
        for op in ops:
            m, _ = run.apply(m, op)
        o = observe(subj, m, cfg)
        if key not in o:
            return False
        seen.append(o[key])
    if any(same(s, seen[0], rtol / 30) for s in seen[1:]):
        ctx.probe("ill-conditioned answer set aside")
        return True
    return False


def vary_layout(subj, rng, pool):
    """Give some data sets another memory layout or container."""
    for p in pool:
        r = rng.random()
        if r < 0.3:
            p["lay"] = rng.choice(["F", "view", "T", "f4", "c16", "int"])
        elif r < 0.36:
            p["aslist"] = 1
    return pool


def shrink_ops(sc, key="ops"):
    """Candidates with fewer or simpler operations."""
    ops = sc[key]
    n = len(ops)
    step = max(1, n // 2)
    while step >= 1:
        for a in range(0, n, step):
            rest = ops[:a] + ops[a + step :]
            if rest:
                yield dict(sc, **{key: rest})
        if step == 1:
            break
        step //= 2


def shrink_cfg(sc, subj, key="cfg", simple=None):
    """Candidates with one configuration entry made simpler."""
    simple = simple or {
        "rescale_mode": None,
        "forward_backward": False,
        "sorted_eigs": False,
        "tikhonov_regularization": None,
        "tlsq_rank": 0,
        "exact": False,
        "opt": False,
        "num_trials": 0,
        "eig": None,
        "mode_prox": None,
    }
    for k, v in simple.items():
        if k in sc[key] and sc[key][k] != v:
            yield dict(sc, **{key: dict(sc[key], **{k: v})})
    for i, p in enumerate(sc.get("pool", [])):
        for k in ("lay", "aslist"):
            if p.get(k):
                q = {a: b for a, b in p.items() if a != k}
                yield dict(sc, pool=sc["pool"][:i] + [q] + sc["pool"][i + 1 :])
