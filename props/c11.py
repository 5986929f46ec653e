"""C11: streaming updates of an online kernel model equal one batch fit."""
import copy

import numpy as np

from sim.compare import Raised, same
from sim.core import Skip, Violation
from sim.history import Runner, plan_fault
from sim.oracle import diffs
from sim.subjects import BY_NAME, arr, layout, observe, own, series

ID = "C11"
RUNS = {"quick": 2500, "thorough": 40000}
STATE_MEASURE = (
    "hash of (kernel, tolerance, chunk sizes, kinds and outcomes of the "
    "operations between the chunks)"
)
S = BY_NAME["LANDO"]
READS = [
    ["sparse_dictionary"],
    ["f", 3],
    ["predict", 4],
    ["predict_c", 4],
    ["fixed_point"],
    ["bias"],
    ["linear"],
    ["nonlinear", 5],
    ["modes"],
    ["eigs"],
    ["amplitudes"],
    ["modes_activation_bitmask"],
    ["atilde"],
    ["fitted"],
    ["partially_fitted"],
]


def plan(rng, i, tier):
    cfg = S.cfg(rng)
    cfg.update(online=True, permute=False, tlsq_rank=0)
    cfg["dict_tol"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6])
    cfg["analyze"] = 0
    spec = S.spec(cfg, rng)
    spec["pair"] = 1
    spec["m"] = rng.choice([6, 9, 14, 20])
    spec["pairs"] = rng.choice([1, 2, 3])
    spec["amp"] = rng.choice([1.0, 1.0, 0.3, 3.0])
    if rng.random() < 0.25:
        spec["lay"] = rng.choice(["F", "view", "T", "c16"])
    overlap = rng.random() < 0.35  # series with one sample in common
    spec["repeat"] = rng.random() < 0.2  # samples that add nothing
    m = spec["m"]
    cuts = []
    # a chunk needs two samples; a series with one in common has them
    gap = 1 if overlap else 2
    for c in sorted(
        rng.sample(range(2, m), min(m - 2, rng.choice([1, 1, 2, 3, 5, 18])))
    ):
        if c - (cuts[-1] if cuts else 0) >= gap and m - c >= gap:
            cuts.append(c)
    if not cuts:
        cuts = [m // 2]
    ops = []
    for j in range(len(cuts) + 1):
        if j:
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.append(plan_between(rng, j))
            ops.append(["chunk", j])
        else:
            ops.append(["fit"])
    for _ in range(rng.choice([0, 1, 1])):
        ops.append(plan_between(rng, len(cuts)))
    return {
        "subject": "LANDO",
        "cfg": cfg,
        "spec": spec,
        "overlap": overlap,
        "cuts": cuts,
        "ops": ops,
        "final": [rng.randrange(30), rng.random() < 0.5],
    }


def plan_between(rng, j):
    k = rng.choice(
        ["analyze"] * 3
        + ["fchunk"] * 4
        + ["badchunk"] * 2
        + ["read", "fread", "copy", "restart", "fanalyze", "noise"]
    )
    if k == "analyze":
        return [k, rng.randrange(30), rng.random() < 0.5]
    if k == "fanalyze":
        return [k, rng.randrange(30), rng.random() < 0.5, plan_fault(rng)]
    if k == "fchunk":
        return [k, j, plan_fault(rng)]
    if k == "badchunk":
        return [k, j, rng.choice(["nan", "shape", "short", "nany", "obj"])]
    if k == "read":
        return [k, rng.choice(READS)]
    if k == "fread":
        return [k, rng.choice(READS), plan_fault(rng)]
    if k == "noise":
        return [k, rng.randrange(1000)]
    return [k]


def samples(sc, perturb=0):
    spec, cfg = sc["spec"], sc["cfg"]
    x = series(dict(spec, m=spec["m"] + 1))
    if spec.get("repeat"):
        h = x.shape[-1] // 2
        x[..., h : h + 2] = x[..., :2]
    if perturb:
        g = np.random.default_rng([29, perturb])
        x = x * (1 + 1e-13 * g.standard_normal(x.shape))
    return x


def pieces(sc, perturb=0):
    """[(X, Y or None)] for the first fit and each chunk, and for all."""
    x = samples(sc, perturb)
    m = sc["spec"]["m"]
    lay = sc["spec"].get("lay")
    edges = [0] + sc["cuts"] + [m]
    out = []
    for a, b in list(zip(edges[:-1], edges[1:])) + [(0, m)]:
        if sc["overlap"]:
            out.append((layout(x[..., a : b + 1], lay), None))
        else:
            out.append((layout(x[..., a:b], lay), layout(x[..., a + 1 : b + 1], lay)))
    return out[:-1], out[-1]


def point(cfg, k):
    return own(arr(k, tuple(cfg["n"])) * 0.2)


def batch(sc, fp, perturb=0):
    m = S.new(sc["cfg"])
    _, (X, Y) = pieces(sc, perturb)
    m.fit(X, Y)
    if fp is not None:
        m.analyze_fixed_point(point(sc["cfg"], fp[0]), compute_A=bool(fp[1]))
    return m


def execute(sc, ctx):
    cfg = sc["cfg"]
    run = Runner(S, cfg, [sc["spec"]], ctx)
    parts, _ = pieces(sc)
    try:
        want = observe(S, batch(sc, None), cfg, READS)
    except Exception as e:
        raise Skip(f"no batch fit: {type(e).__name__}")
    m = S.new(cfg)
    fp = None
    taken = 0
    trail = []
    broken = set()

    def look():
        return observe(S, m, cfg, READS)

    def unchanged(before, what, guard=True):
        for key, d in diffs(look(), before, 1e-9):
            raise Violation(
                "a failed update changes the model",
                "LANDO",
                f"{what}: {key}: {d} after {trail}",
            )
        ctx.probe("failed updates compared")

    for op in sc["ops"]:
        k = op[0]
        ctx.steps += 1
        trail.append(k)
        out = "ok"
        if k == "fit":
            m.fit(*[own(v) for v in parts[0]])
            taken = 1
        elif k == "chunk":
            if op[1] != taken:
                continue  # (minimised scenarios) already taken
            try:
                m.update(*[own(v) for v in parts[op[1]]])
            except Exception as e:
                raise Violation(
                    "a chunk is refused",
                    "LANDO",
                    f"{type(e).__name__}: {e} after {trail}",
                )
            taken += 1
        elif k == "fchunk":
            if taken >= len(parts):
                continue
            before = look()
            data = parts[taken]
            n = run.npoints(
                ["upd", ctx.steps],
                op[2]["mode"],
                lambda: copy.deepcopy(m).update(*data),
            )
            out = run.faulted(n, op[2], lambda: m.update(*data))
            if out == "raised":
                unchanged(before, "interrupted update")
            elif out in ("ok", "nofire-ok"):
                taken += 1  # the fault was survived
        elif k == "badchunk":
            X, Y = parts[min(taken, len(parts) - 1)]
            X = np.array(X)
            Y = np.array(Y) if Y is not None else None
            if op[2] == "nan":
                X[..., -1] = np.nan
            elif op[2] == "nany":
                if Y is None:
                    continue
                Y[..., -1] = np.nan
            elif op[2] == "shape":
                X = np.ones((17, 4))
                Y = np.ones((17, 4))
            elif op[2] == "short":
                if Y is None or Y.shape[-1] < 2:
                    continue
                Y = Y[..., :-1]
            else:
                X = "not data"
            before = look()
            ctx.fault("bad-chunk:" + op[2])
            try:
                m.update(X, Y)
            except Exception:
                out = "raised"
                unchanged(before, "rejected chunk " + op[2])
            else:
                ctx.log(k, "accepted")
                raise Skip("unusable data was accepted")
        elif k == "analyze":
            try:
                m.analyze_fixed_point(point(cfg, op[1]), compute_A=bool(op[2]))
            except np.linalg.LinAlgError:
                raise Skip("the analysis does not exist")
            fp = [op[1], op[2]]
        elif k == "fanalyze":
            before = look()
            fn = lambda x: x.analyze_fixed_point(
                point(cfg, op[1]), compute_A=bool(op[2])
            )
            n = run.npoints(
                ["an", ctx.steps], op[3]["mode"], lambda: fn(copy.deepcopy(m))
            )
            out = run.faulted(n, op[3], lambda: fn(m))
            if out == "raised":
                unchanged(before, "interrupted analysis")
            elif out in ("ok", "nofire-ok"):
                fp = [op[1], op[2]]
        elif k == "read":
            observe(S, m, cfg, [op[1]])
        elif k == "fread":
            out = run.fread(m, op[1], op[2])
        elif k == "copy":
            old = m
            m = copy.deepcopy(m)
            # what happens to the original afterwards concerns nobody
            try:
                old.update(*parts[-1])
            except Exception:
                pass
        elif k == "restart":
            m = run.restart(m)
        elif k == "noise":
            # another model of the same kind, fed with other data
            other = S.new(cfg)
            x = series(dict(sc["spec"], s=op[1], m=7))
            try:
                other.fit(x[..., :3], x[..., 1:4])
                other.update(x[..., 3:5], x[..., 4:6])
            except Exception:
                pass
        ctx.log(k, out)
        ctx.state(cfg["kernel"], cfg["dict_tol"], sc["cuts"], trail[-3:], out)
    while taken < len(parts):
        # (minimised scenarios) offer what is left
        m.update(*parts[taken])
        taken += 1
    compare(sc, ctx, m, fp, trail)
    # the analysis after the stream
    try:
        m.analyze_fixed_point(
            point(cfg, sc["final"][0]), compute_A=bool(sc["final"][1])
        )
    except Exception:
        return
    compare(sc, ctx, m, sc["final"], trail + ["final analysis"])
    ctx.nontrivial = True


def invariant(obs):
    """The eigenpairs are determined up to their order and one phase each;
    replace modes and amplitudes by what does not depend on either."""
    out, keys = {}, {}
    for k, v in obs.items():
        for n in ("modes", "eigs", "amplitudes"):
            if k.startswith('["%s"' % n) or k == n:
                keys[n] = k
        out[k] = v
    if len(keys) < 3:
        return out
    vals = [out[keys[n]] for n in ("modes", "eigs", "amplitudes")]
    if any(not isinstance(v, np.ndarray) for v in vals):
        return out
    modes, eigs, b = vals
    if modes.ndim != 2 or modes.shape[1] != len(eigs) or len(b) != len(eigs):
        return out
    for n in keys.values():
        out.pop(n)
    out["number of modes"] = len(eigs)
    s = max(np.abs(eigs).max(initial=0), 1e-300)
    lam = eigs / s
    out["eigs: power sums"] = np.array(
        [s] + [np.sum(lam**k) for k in range(1, len(lam) + 1)]
    )
    for k in range(4):
        out[f"modes {k}"] = (modes * lam**k) @ modes.conj().T
        out[f"modes and amplitudes {k}"] = (modes * lam**k) @ b
    return out


def compare(sc, ctx, m, fp, trail):
    cfg = sc["cfg"]
    got = invariant(observe(S, m, cfg, READS))
    try:
        want = invariant(observe(S, batch(sc, fp), cfg, READS))
    except Exception:
        raise Skip("the analysis does not exist")
    ctx.probe("streams compared with a batch fit")
    for key, d in diffs(got, want, S.rtol):
        more = []
        for k in (1, 2, 3):
            try:
                more.append(
                    invariant(observe(S, batch(sc, fp, k), cfg, READS))[key]
                )
            except Exception as e:
                more.append(Raised(e))
        if any(same(x, want[key], S.rtol / 30) for x in more):
            ctx.probe("ill-conditioned answer set aside")
            continue
        raise Violation(
            "a stream differs from one batch fit",
            "LANDO",
            f"{key}: {d} after {trail}, chunks {sc['cuts']}",
        )


def shrink(sc):
    ops = sc["ops"]
    for i in range(len(ops)):
        if ops[i][0] not in ("fit", "chunk"):
            yield dict(sc, ops=ops[:i] + ops[i + 1 :])
    # fewer chunks
    for i in range(len(sc["cuts"])):
        if len(sc["cuts"]) > 1:
            cuts = sc["cuts"][:i] + sc["cuts"][i + 1 :]
            out, n = [], 0
            for op in ops:
                if op[0] == "chunk":
                    n += 1
                    if n > len(cuts):
                        continue
                    out.append(["chunk", n])
                else:
                    out.append(op)
            yield dict(sc, cuts=cuts, ops=out)
    if sc["spec"].get("lay"):
        sp = {k: v for k, v in sc["spec"].items() if k != "lay"}
        yield dict(sc, spec=sp)
    for k, v in (("kernel", "linear"), ("x_rescale", 1.0)):
        if sc["cfg"][k] != v:
            yield dict(sc, cfg=dict(sc["cfg"], **{k: v}))
