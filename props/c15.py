"""C15: data handed in and data handed out is not shared with the model.

A model and a twin go through the same seeded history.  Whatever the model was
given is overwritten as soon as the call is over (a caller reusing its
buffers), results computed for the caller are kept and some of them written
over; the twin lives undisturbed.  All computed answers have to agree, and
results handed out earlier have to stay as they were."""
import numpy as np

from sim import subjects
from sim.compare import Raised, freeze, same
from sim.core import Violation
from sim.history import (
    Runner,
    plan_op,
    shrink_cfg,
    shrink_ops,
    unstable,
    vary_layout,
)
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C15"
RUNS = {"quick": 1800, "thorough": 40000}

# answers which give back what was handed in: whether as a copy or as the
# very object is not promised
ECHO = {
    "ho_snapshots",
    "compression_matrix",
    "init_alpha",
    "proj_basis",
}
# answers computed for the caller, and his alone
FRESH = {
    "reconstructed_data",
    "dynamics",
    "predict",
    "predict_c",
    "forecast",
    "f",
    "nonlinear",
    "rec",
    "rec_u",
    "eigenfunctions",
    "dmd_timesteps",
    "original_timesteps",
    "partial_dynamics",
    "partial_reconstructed_data",
    "scale_reconstruction",
    "global_reconstruction",
    "scale_separation",
    "global_scale_reconstruction",
    "get_background",
    "level_recon",
    "interpolated_modal_coefficients",
    "forecasted_modal_coefficients",
    "reconstructed_embeddings",
}


def arrays(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out)
    return out


def overwrite(x):
    """The caller uses his own objects for something else."""
    for a in arrays(x, []):
        if not a.flags.writeable:
            continue
        if a.dtype == bool:
            a[...] = ~a
        elif a.dtype.kind in "iufc":
            a[...] = 7
    clear(x)


def clear(x):
    if isinstance(x, dict):
        x.clear()
    elif isinstance(x, list):
        for v in x:
            clear(v)
        x.clear()


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.4)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    n = rng.choice([1, 2, 4, 6]) if not subj.heavy else rng.choice([1, 2, 3])
    ops = [["fit", 0]]
    for _ in range(n):
        if rng.random() < 0.3:
            fresh = [r for r in subj.reads(cfg) if r[0] in FRESH]
            if fresh:
                ops.append(["take", rng.choice(fresh), rng.random() < 0.6])
                continue
        ops.append(plan_op(subj, cfg, pool, rng, plots=rng.random() < 0.2))
    return {"subject": subj.name, "cfg": cfg, "pool": pool, "ops": ops}


def step(run, m, op):
    if op[0] == "take":
        return m, "ok"
    return run.apply(m, op)


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    cfg, pool = sc["cfg"], sc["pool"]
    reads = [r for r in subj.reads(cfg) if r[0] not in ECHO]

    # the twin's life comes first, and is over before anything is written over
    run = Runner(subj, cfg, pool, ctx)
    m = subj.new(cfg)
    due = []
    for op in sc["ops"]:
        m, out = step(run, m, op)
        due.append((out, observe(subj, m, cfg, reads)))

    run = Runner(subj, cfg, pool, ctx)
    tr = []
    m = subj.new(cfg)
    held, trail = [], []
    try:
        for j, op in enumerate(sc["ops"]):
            subjects.TRACK = tr
            if op[0] == "take":
                take(subj, m, cfg, op, held)
                out = "ok"
            else:
                m, out = run.apply(m, op)
            subjects.TRACK = None
            ctx.probe("arguments written over", len(tr))
            for x in tr:
                overwrite(x)
            tr.clear()
            trail.append(op[0] + ("" if out == "ok" else "!"))
            if out != due[j][0]:
                raise Violation(
                    "an outcome depends on the caller's later use of his data",
                    subj.name,
                    f"{op[0]} {out} instead of {due[j][0]} after {trail}",
                )
            # looking, with arguments which are written over as well
            subjects.TRACK = tr
            got = observe(subj, m, cfg, reads)
            subjects.TRACK = None
            for x in tr:
                overwrite(x)
            tr.clear()
            for k, v in got.items():
                d = same(v, due[j][1][k])
                if d and not unstable(
                    subj,
                    cfg,
                    pool,
                    [o for o in sc["ops"][: j + 1] if o[0] != "take"],
                    k,
                    ctx,
                ):
                    raise Violation(
                        "an answer depends on the caller's later use of his data",
                        subj.name,
                        f"{k}: {d} after {trail}",
                    )
            ctx.probe("answers compared", len(got))
            for name, ref, was in held:
                d = same(freeze(ref), was, 0.0)
                if d:
                    raise Violation(
                        "a result handed out earlier changed",
                        subj.name,
                        f"{name}: {d} after {trail}",
                    )
            ctx.state(subj.name, sorted(cfg.items(), key=str), trail)
        ctx.nontrivial = any(
            not isinstance(v, Raised) for v in due[-1][1].values()
        )
    finally:
        subjects.TRACK = None


def take(subj, m, cfg, op, held):
    """Keep a result, or write over it."""
    st = np.random.get_state()
    np.random.seed(4242)
    try:
        v = subj.read(m, op[1], cfg)
    except Exception:
        return
    finally:
        np.random.set_state(st)
    if op[2]:
        for a in arrays(v, []):
            if a.flags.writeable and a.dtype.kind in "iufc":
                a[...] = 5
    else:
        held.append(("/".join(map(str, op[1])), v, freeze(v)))


def shrink(sc):
    yield from shrink_ops(sc)
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
