"""C05: data handed in by the caller is never modified."""
import numpy as np

from pydmd.dmdbase import DMDBase

from sim import subjects
from sim.core import Violation
from sim.history import Runner, plan_op, shrink_cfg, shrink_ops, vary_layout
from sim.subjects import ALL, BY_NAME, choose

ID = "C05"
RUNS = {"quick": 1800, "thorough": 40000}


def pristine(x, depth=0):
    """A private, comparable description of everything reachable from x
    through arrays, lists, tuples, dictionaries and sets."""
    if isinstance(x, np.ndarray):
        b = x if x.base is None else x.base
        return (
            "arr",
            id(x),
            x.shape,
            x.dtype.str,
            x.tobytes(),
            b.tobytes() if isinstance(b, np.ndarray) else None,
        )
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), [pristine(v) for v in x])
    if isinstance(x, dict):
        return ("dict", id(x), [(k, pristine(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", id(x), sorted(map(repr, x)))
    if isinstance(x, (int, float, complex, str, bytes, type(None))):
        return ("value", repr(x))
    if isinstance(x, DMDBase):
        # a prototype: still not fitted
        try:
            return ("model", id(x), np.array(x.modes).tobytes())
        except Exception:
            return ("model", id(x), None)
    return ("object", id(x))


class Track:
    def __init__(self):
        self.items = []
        self.label = "constructor"
        self.limit = 400

    def append(self, x):
        if isinstance(x, (int, float, str, type(None))):
            return
        if len(self.items) < self.limit:
            self.items.append((self.label, x, pristine(x)))

    def changed(self):
        for label, x, p in self.items:
            if pristine(x) != p:
                return label, x
        return None


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.4)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    n = rng.choice([2, 3, 5, 8]) if not subj.heavy else rng.choice([1, 2, 3])
    ops = [["fit", 0]] if rng.random() < 0.7 else []
    for _ in range(n):
        ops.append(plan_op(subj, cfg, pool, rng, plots=rng.random() < 0.5,
                           reconf=True))
    if not any(o[0] in ("fit", "ffit", "badfit") for o in ops):
        ops.insert(0, ["fit", 0])
    return {"subject": subj.name, "cfg": cfg, "pool": pool, "ops": ops}


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    cfg, pool = sc["cfg"], sc["pool"]
    tr = Track()
    subjects.TRACK = tr
    try:
        m, owned = subj.make(cfg)
        for name, x in owned:
            tr.label = "constructor argument " + name
            tr.append(x)
        run = Runner(subj, cfg, pool, ctx)
        trail = []
        for op in sc["ops"]:
            tr.label = "argument of " + op[0]
            m, out = run.apply(m, op)
            trail.append(op[0] + ("" if out == "ok" else "!"))
            bad = tr.changed()
            if bad:
                raise Violation(
                    "argument modified",
                    subj.name,
                    f"{bad[0]} ({type(bad[1]).__name__}) changed during "
                    f"{op[0]} ({out}) after {trail}",
                )
            ctx.state(subj.name, sorted(cfg.items(), key=str), trail)
            ctx.probe("argument comparisons", len(tr.items))
        ctx.nontrivial = bool(tr.items)
    finally:
        subjects.TRACK = None


def shrink(sc):
    yield from shrink_ops(sc)
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
