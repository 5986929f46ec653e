"""C14: the bands of a scale separation depend on the fit and on the latest
clustering only, and a clustering happens wholly or not at all.

A fitted separation goes through a seeded series of clusterings (levels and
global), sweeps, reads, plots, copies and failures; after every step all its
answers are compared with those of a copy taken right after the fit which went
directly through the clusterings that are in force."""
import copy
import pickle

import numpy as np

from sim import faults
from sim.compare import Raised, freeze, same
from sim.core import Skip, Violation
from sim.history import shrink_ops
from props import c03

ID = "C14"
RUNS = {"quick": 520, "thorough": 20000}
STATE_MEASURE = (
    "hash of (class, number of levels, last three operations and outcomes)"
)
TMS = ["absolute", "square_frequencies", "log10"]


class Quantiles:
    """A user's clustering method."""

    def __init__(self, n_clusters, **kw):
        self.n = n_clusters

    def fit_predict(self, x):
        e = np.quantile(x[:, 0], np.linspace(0, 1, self.n + 1)[1:-1])
        c = np.searchsorted(e, x[:, 0])
        self.cluster_centers_ = np.array(
            [x[c == j, 0].mean() if (c == j).any() else e[-1] for j in range(self.n)]
        )
        return c


class Failing(Quantiles):
    """... which gives up after having worked for a while."""

    def fit_predict(self, x):
        super().fit_predict(x)
        raise RuntimeError("no convergence")


class NoCentres(Quantiles):
    def fit_predict(self, x):
        c = super().fit_predict(x)
        del self.cluster_centers_
        return c


def method(name):
    from sklearn.cluster import KMeans, MiniBatchKMeans

    return {
        "mini": MiniBatchKMeans,
        "kmeans": KMeans,
        "user": Quantiles,
        "fails": Failing,
        "nocentres": NoCentres,
    }[name]


def plan_args(rng, many):
    m = rng.choice(["mini", "mini", "kmeans", "user"])
    return {
        "n": rng.choice([2, 2, 3, 4]),
        "tm": rng.choice(TMS + ["absolute"]),
        "method": m,
        "kw": rng.choice([None, None, 3, "global"]),
        "seed": rng.randrange(1000),
    }


def spoil_args(rng, a, many):
    k = rng.choice(["tm", "n", "fails", "nocentres", "kw"])
    a = dict(a)
    if k == "tm":
        a["tm"] = "nonsense"
    elif k == "n":
        a["n"] = rng.choice([0, 5000])
        a["method"] = "mini"
    elif k == "kw":
        a["kw"] = "bad"
        a["method"] = "mini"
    else:
        a["method"] = k
        a["n"] = 5
    return a


def fault(rng):
    return {
        "frac": round(rng.random(), 4),
        "exc": rng.choice(["linalg", "memory"]),
    }


def plan(rng, i, tier):
    many = rng.random() < 0.6
    cfg = c03.plan(rng, i, tier)
    while (cfg["subject"] == "mrCOSTS") != many:
        cfg = c03.plan(rng, i, tier)
    cfg = cfg["cfg"]
    ops = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        ops.append(plan_op(rng, many))
    return {
        "subject": "mrCOSTS" if many else "COSTS",
        "cfg": cfg,
        "ops": ops,
    }


def plan_op(rng, many):
    a = plan_args(rng, many)
    if not many:
        k = rng.choice(
            ["cluster"] * 4 + ["sweep"] * 2 + ["read", "plot", "copy"]
        )
    else:
        k = rng.choice(
            ["gcluster"] * 5
            + ["gsweep"] * 3
            + ["level"] * 2
            + ["read", "plot", "copy"]
        )
        if k == "gcluster" and rng.random() < 0.25:
            a["n"] = None
        if rng.random() < 0.3:
            a["tm"] = None
    if k == "copy":
        return [k, rng.choice(["deepcopy", "pickle"])]
    if k == "read":
        names = c03.COSTS_READS
        if many:
            names = c03.MR_READS + c03.GLOBAL_READS
        f = fault(rng) if rng.random() < 0.5 else None
        return [k, rng.choice(names[1:]), f]
    if k == "plot":
        names = ["plot_omega_histogram", "plot_omega_time_series"]
        f = fault(rng) if rng.random() < 0.5 else None
        return [k, rng.choice(names), rng.randrange(4), f]
    r = rng.random()
    f = None
    if r < 0.2:
        a = spoil_args(rng, a, many)
    elif r < 0.45:
        f = fault(rng)
    if k == "level":
        a["tm"] = a["tm"] or "absolute"
        return [k, rng.randrange(4), a, f]
    return [k, a, f]


def kwargs(a):
    return {
        None: None,
        3: {"random_state": 3, "n_init": 2},
        "global": {"random_state": None, "n_init": 2},
        "bad": {"random_state": "x"},
    }[a["kw"]]


def step(m, op):
    """Carry out a clustering or a sweep; its result."""
    a = op[-2]
    meth = method(a["method"])
    kw = kwargs(a)
    st = np.random.get_state()
    np.random.seed(a["seed"])
    try:
        if op[0] == "cluster":
            return m.cluster_omega(
                a["n"], kmeans_kwargs=kw, transform_method=a["tm"], method=meth
            )
        if op[0] == "level":
            c = m.costs_array[op[1] % len(m.costs_array)]
            return c.cluster_omega(
                a["n"], kmeans_kwargs=kw, transform_method=a["tm"], method=meth
            )
        if op[0] == "sweep":
            return float(
                m.cluster_hyperparameter_sweep(
                    n_components_range=np.arange(2, 2 + min(3, a["n"] or 2)),
                    transform_method=a["tm"],
                    method=meth,
                    clustering_kwargs=kw,
                )
            )
        if op[0] == "gcluster":
            return freeze(
                list(
                    m.global_cluster_omega(
                        n_components=a["n"],
                        transform_method=a["tm"],
                        clustering_kwargs=kw,
                        method=meth,
                    )
                )
            )
        if op[0] == "gsweep":
            return freeze(
                list(
                    m.global_cluster_hyperparameter_sweep(
                        np.arange(2, 2 + min(3, a["n"] or 2)),
                        transform_method=a["tm"],
                        score_method=[None, "silhouette", "calinski-harabasz"][
                            a["seed"] % 3
                        ],
                        verbose=False,
                        method=meth,
                        clustering_kwargs=kw,
                    )
                )
            )
    finally:
        np.random.set_state(st)


class Bands:
    """The clusterings in force."""

    def __init__(self, pristine, many):
        self.pristine, self.many = pristine, many
        self.levels = []  # clusterings of levels since the fit, latest each
        self.glob = None  # (clusterings of levels then, the global one)
        self.number = None  # number of global bands last asked for or found
        self.cache = None

    def twin(self):
        if self.cache is None:
            m = copy.deepcopy(self.pristine)
            for op in self.glob[0] if self.glob else []:
                step(m, op)
            if self.glob:
                step(m, self.glob[1])
            for op in self.levels:
                step(m, op)
            self.cache = m
        return copy.deepcopy(self.cache)

    def plain(self, op):
        """The step without what can depend on the history."""
        a = op[-2]
        if op[0] == "gcluster" and a["n"] is None:
            a = dict(a, n=self.number)
        return op[:-2] + [a, None]

    def latest(self, op):
        key = op[1] if op[0] == "level" else None
        same_ = lambda o: o[0] == op[0] and (
            op[0] != "level"
            or (o[1] - key) % len(self.pristine.costs_array) == 0
        )
        self.levels = [o for o in self.levels if not same_(o)] + [op]

    def happened(self, op, result):
        self.cache = None
        op = self.plain(op)
        if op[0] in ("cluster", "level"):
            self.latest(op)
        elif op[0] == "gcluster":
            self.glob = (list(self.levels), op)
            self.number = op[-2]["n"]
        elif op[0] == "gsweep":
            self.number = int(result[1])


def look(m, many, bands):
    out = c03.look(m, many, glob=True)
    if many:
        # the number found by a sweep is kept for the next clustering
        n = out.pop("n_components_global")
        want = float(bands.number) if bands.number is not None else Raised(
            ValueError("none yet")
        )
        if not isinstance(n, Raised):
            n = float(n)
        if same(n, want):
            out["number"] = f"{n} instead of {want}"
        else:
            out["number"] = "as asked for"
    return out


def execute(sc, ctx):
    many = sc["subject"] == "mrCOSTS"
    where = sc["subject"]
    try:
        m = c03.build(sc["cfg"], many)
    except Exception as e:
        raise Skip(f"no decomposition: {type(e).__name__}: {e}")
    bands = Bands(copy.deepcopy(m), many)
    trail = []
    for op in sc["ops"]:
        ctx.steps += 1
        k = op[0]
        trail.append(
            k + (":" + str(op[-2]["method"]) if isinstance(op[-2], dict) else "")
        )
        if k == "copy":
            m = (
                copy.deepcopy(m)
                if op[1] == "deepcopy"
                else pickle.loads(pickle.dumps(m))
            )
            out = "ok"
        elif k in ("read", "plot"):
            out = quiet(m, op, many, ctx)
        else:
            m, out = carry_out(m, op, bands, ctx, where, trail)
        ctx.log(k, out)
        ctx.state(where, len(sc["cfg"].get("windows", [0])), trail[-3:], out)
        got, want = look(m, many, bands), look(bands.twin(), many, bands)
        want["number"] = "as asked for"
        if not many:
            got.pop("number", None)
            want.pop("number", None)
        for key in sorted(set(got) | set(want)):
            d = (
                "only on one side"
                if key not in got or key not in want
                else same(got[key], want[key], 1e-12)
            )
            if d:
                raise Violation(
                    "the bands are not those of the latest clustering",
                    where,
                    f"{key}: {d} after {trail} ({out})",
                )
        ctx.probe("answers compared", len(got))
        trail[-1] += "" if out == "ok" else "!"
    ctx.nontrivial = True


def points(fn):
    with faults.Points("call") as p:
        try:
            fn()
        except Exception:
            pass
    return p.n


def carry_out(m, op, bands, ctx, where, trail):
    f = op[-1]
    # what a copy which only went through what is in force gives
    tw = bands.twin()
    try:
        want = step(tw, bands.plain(op))
    except Exception as e:
        want = Raised(e)
    if op[0] == "gcluster" and op[-2]["n"] is None and bands.number is None:
        want = Raised(ValueError("no number of bands"))
    if f is None:
        try:
            got = step(m, op)
            out = "ok"
        except Exception as e:
            got = Raised(e)
            out = "raised"
            ctx.fault("rejected or failing clustering")
    else:
        n = points(lambda: step(bands.twin(), bands.plain(op)))
        if n == 0:
            return m, "nopoint"
        at = min(n - 1, int(f["frac"] * n))
        with faults.Points("call", at, f["exc"], ctx) as p:
            try:
                got = step(m, op)
                out = "ok"
            except Exception as e:
                got = Raised(e)
                out = "raised"
        if p.fired is not None and out == "raised":
            ctx.log("fault", at, p.fired)
            return m, "failed"
    d = same(got, want, 1e-12)
    if d:
        raise Violation(
            "a clustering depends on what happened before",
            where,
            f"{op[0]}: {d} after {trail}",
        )
    if out == "ok":
        bands.happened(op, got)
    return m, out


def quiet(m, op, many, ctx):
    import matplotlib.pyplot as plt

    def fn(x):
        if op[0] == "read":
            v = getattr(x, op[1])
            return v() if callable(v) else v
        c = x.costs_array[op[2] % len(x.costs_array)] if many else x
        return getattr(c, op[1])()

    f = op[-1]
    try:
        if f is None:
            fn(m)
            return "ok"
        n = points(lambda: fn(copy.deepcopy(m)))
        if n == 0:
            return "nopoint"
        at = min(n - 1, int(f["frac"] * n))
        with faults.Points("call", at, f["exc"], ctx) as p:
            fn(m)
        return "ok"
    except Exception:
        return "raised"
    finally:
        plt.close("all")


def shrink(sc):
    yield from shrink_ops(sc)
    for j, op in enumerate(sc["ops"]):
        if op[-1] is not None and op[0] != "copy":
            q = list(sc["ops"])
            q[j] = op[:-1] + [None]
            yield dict(sc, ops=q)
    for x in c03.shrink(dict(sc, ops=[["x"]])):
        yield dict(x, ops=sc["ops"])
