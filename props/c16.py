"""C16: models do not touch, and do not depend on, what the whole process
shares.

The same seeded history is lived twice: once in the process as it is, once
after its owner changed everything that belongs to the process as a whole and
that no answer may depend on (working directory, environment, floating point
policy, print options, warning filters, plotting defaults, logging, recursion
limit, the standard library's generator, the operating system's entropy and
clock).  After every operation, failing ones included, all of that has to be as
its owner left it, and all answers of the two lives have to agree."""
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from sim import entropy
from sim.compare import Raised, same
from sim.core import Violation
from sim.history import (
    Runner,
    plan_fault,
    plan_op,
    shrink_cfg,
    shrink_ops,
    unstable,
    vary_layout,
)
from sim.plots import plots_for
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C16"
RUNS = {"quick": 900, "thorough": 30000}


def open_files(folder):
    """Those of the run's folder which are open."""
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(os.path.realpath(folder)):
            out.append(t)
    return sorted(out)


def process_state(folder):
    """What belongs to the process as a whole."""
    s = {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "floating point policy": np.geterr(),
        "floating point callback": repr(np.geterrcall()),
        "print options": repr(np.get_printoptions()),
        "warning filters": [
            # xarray adds one of its own when it reads a file
            repr(f)
            for f in warnings.filters
            if "decode_timedelta" not in repr(f)
        ],
        "warning display": id(warnings.showwarning),
        "recursion limit": sys.getrecursionlimit(),
        "module search path": list(sys.path),
        "exception hook": id(sys.excepthook),
        "standard output": id(sys.stdout),
        "standard error": id(sys.stderr),
        "switch interval": sys.getswitchinterval(),
        "trace function": repr(sys.gettrace()),
        "signal handlers": {
            n: repr(signal.getsignal(n))
            for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)
        },
        "timers": signal.getitimer(signal.ITIMER_REAL),
        "the standard library's generator": random.getstate(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "logging": (
            logging.getLogger().level,
            [repr(h) for h in logging.getLogger().handlers],
            logging.root.manager.disable,
        ),
        "locale": locale.setlocale(locale.LC_ALL),
        "threads": threading.active_count(),
        "files in the working directory": sorted(os.listdir(".")),
        "open files": open_files(folder),
    }
    mask = os.umask(0o22)
    os.umask(mask)
    s["file mode mask"] = mask
    if "matplotlib" in sys.modules:
        import matplotlib

        s["plotting defaults"] = {
            k: repr(v)
            for k, v in dict.items(matplotlib.rcParams)
            if k != "backend"
        }
    if "sklearn" in sys.modules:
        import sklearn

        s["scikit-learn options"] = repr(sorted(sklearn.get_config().items()))
    if "xarray" in sys.modules:
        import xarray

        s["xarray options"] = repr(sorted(xarray.get_options().items()))
    return s


def difference(a, b):
    for k in a:
        if k in b and a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                x, y = (
                    {i: x[i] for i in x if x[i] != y.get(i)},
                    {i: y[i] for i in y if y[i] != x.get(i)},
                )
            return f"{k}: {str(x)[:150]} became {str(y)[:150]}"
    return None


def others_world(seed, folder):
    """The owner of the process arranges it to his taste."""
    import matplotlib

    r = random.Random(seed)
    d = os.path.join(folder, "elsewhere")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    os.environ["HOME"] = d
    os.environ["LANG"] = "C"
    os.environ["COLUMNS"] = "40"
    os.environ["OMP_NUM_THREADS"] = "3"
    np.seterr(all=r.choice(["ignore", "warn"]))
    np.set_printoptions(
        precision=2, threshold=5, edgeitems=1, suppress=True, linewidth=30
    )
    warnings.simplefilter(r.choice(["ignore", "always"]))
    matplotlib.rcParams["figure.figsize"] = (2.0, 2.0)
    matplotlib.rcParams["image.cmap"] = "gray"
    matplotlib.rcParams["lines.linewidth"] = 3.0
    matplotlib.rcParams["figure.dpi"] = 40
    sys.setrecursionlimit(1700)
    logging.getLogger().setLevel(
        r.choice([logging.DEBUG, logging.ERROR])
    )
    random.seed(seed)
    gc.set_threshold(300, 5, 5)
    os.umask(0o77)
    entropy.install(seed + 1)


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.4)
    cfg = subj.cfg(rng)
    files = subj.name in ("COSTS", "mrCOSTS") and rng.random() < 0.5
    if files:
        cfg["noopts"] = 1  # these options cannot be written to files
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    n = rng.choice([1, 2, 4, 7]) if not subj.heavy else rng.choice([1, 2, 3])
    ops = [["fit", 0]]
    for _ in range(n):
        if plots_for(subj, cfg) and rng.random() < 0.1:
            ops.append(["plot", rng.choice(plots_for(subj, cfg)), rng.randrange(6)])
            continue
        if files and rng.random() < 0.5:
            ops.append(["netcdf", plan_fault(rng) if rng.random() < 0.4 else None])
            continue
        ops.append(plan_op(subj, cfg, pool, rng, reconf=True))
    return {
        "subject": subj.name,
        "cfg": cfg,
        "pool": pool,
        "ops": ops,
        "world": rng.randrange(1 << 20),
        "first": rng.random() < 0.5,
    }


def through_files(subj, m, run, fault, ctx):
    """Export, and import into another object."""
    ctx.steps += 1

    def go():
        if subj.name == "COSTS":
            fn = os.path.join(ctx.scratch, "one.nc")
            ds = m.to_xarray()
            ds.attrs.pop("pydmd_kwargs__varpro_opts_dict", None)
            ds.to_netcdf(fn, engine="h5netcdf", invalid_netcdf=True)
            other = type(m)()
            import xarray as xr

            with xr.open_dataset(fn, engine="h5netcdf") as ds:
                other.from_xarray(ds)
        else:
            m.to_netcdf("many", filepath=ctx.scratch)
            files = [
                os.path.join(ctx.scratch, f)
                for f in os.listdir(ctx.scratch)
                if f.startswith("many")
            ]
            other = type(m)()
            other.from_netcdf(sorted(files))

    if fault:
        n = run.npoints(["netcdf", ctx.steps], fault["mode"], go)
        out = run.faulted(n, fault, go)
    else:
        try:
            go()
            out = "ok"
        except Exception:
            out = "raised"
    gc.collect()
    return out


def live(subj, sc, ctx, where):
    cfg, pool = sc["cfg"], sc["pool"]
    run = Runner(subj, cfg, pool, ctx)
    before = process_state(ctx.scratch)
    trail, seen = [], []

    def check():
        now = process_state(ctx.scratch)
        # what is imported or first used on the way is not there before
        d = difference(before, now)
        if d:
            raise Violation(
                "something of the whole process was changed",
                subj.name,
                f"{d}; {where}, after {trail}",
            )
        ctx.probe("process states compared")

    m = subj.new(cfg)
    check()
    for op in sc["ops"]:
        st = np.random.get_state()
        if op[0] == "netcdf":
            out = through_files(subj, m, run, op[1], ctx)
        else:
            m, out = run.apply(m, op)
        np.random.set_state(st)
        trail.append(op[0] + ("" if out == "ok" else "!"))
        check()
        seen.append((out, observe(subj, m, cfg)))
        trail.append("reads")
        check()
        trail.pop()
        ctx.state(subj.name, sorted(cfg.items(), key=str), trail)
    return seen


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    import matplotlib.pyplot  # noqa: F401  (before the first comparison)

    if subj.name == "ParametricDMD":
        import ezyrb  # noqa: F401

    os.makedirs(os.path.join(ctx.scratch, "here"), exist_ok=True)
    os.chdir(os.path.join(ctx.scratch, "here"))
    a = live(subj, sc, ctx, "in the process as it was")
    others_world(sc["world"], ctx.scratch)
    b = live(subj, sc, ctx, "in a process arranged differently")
    for j, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0]:
            raise Violation(
                "an outcome depends on what the whole process shares",
                subj.name,
                f"{sc['ops'][j][0]}: {x[0]} or {y[0]}",
            )
        for k in x[1]:
            d = same(x[1][k], y[1][k])
            if d and not unstable(
                subj, sc["cfg"], sc["pool"], sc["ops"][: j + 1], k, ctx
            ):
                raise Violation(
                    "an answer depends on what the whole process shares",
                    subj.name,
                    f"{k}: {d} after {[o[0] for o in sc['ops'][: j + 1]]}",
                )
        ctx.probe("answers compared", len(x[1]))
    ctx.nontrivial = any(not isinstance(v, Raised) for v in a[-1][1].values())


def shrink(sc):
    yield from shrink_ops(sc)
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
