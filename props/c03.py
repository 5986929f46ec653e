"""C03: sliding-window decompositions survive export to files and import.

Export and import run for real in a scratch folder.  The disk refuses bytes
through the process's file size limit, calls into the file libraries fail,
files are lost, cut, replaced or listed in another order, and every object
restored from files walks through the same later steps as the original."""
import copy
import os
import resource
import signal

import numpy as np
import xarray as xr

from sim import faults
from sim.compare import Raised, freeze, same
from sim.core import Skip, Violation
from sim.history import shrink_ops
from sim.subjects import BY_NAME, own, series

ID = "C03"
RUNS = {"quick": 420, "thorough": 15000}
STATE_MEASURE = (
    "hash of (class, number of levels, last three operations and outcomes)"
)
TMS = ["absolute", "square_frequencies", "log10"]


def plan(rng, i, tier):
    many = rng.random() < 0.6
    cfg = {
        "kw": rng.choice(
            [None, None, "stable", "pairs", "imag", "real", "proj", "abs", "no"]
        ),
        "n": rng.choice([4, 5]),
        "m": rng.choice([36, 40, 43]),
        "s": rng.randrange(1000),
        "t0": rng.choice([0.0, 0.0, 5.0]),
        "dt": rng.choice([0.5, 1.0, 0.1]),
    }
    if many:
        cfg["windows"] = rng.choice(
            [[12, 20], [10, 16], [9, 24], [10, 14, 20], [16], [8, 12, 18, 26]]
        )
        L = len(cfg["windows"])
        cfg["ranks"] = rng.choice([[4] * L, [2] * L, [4] + [2] * (L - 1), [2] * (L - 1) + [4]])
        cfg["gsvd"] = rng.choice(
            [None, None, [i % 2 == 0 for i in range(L)], [False] * L]
        )
        cfg["ncomp"] = [rng.choice([2, 2, 3]) for _ in range(L)]
        cfg["sweep"] = rng.random() < 0.15 and min(cfg["ranks"]) == 4
        cfg["tm"] = rng.choice(TMS[:2] if cfg["sweep"] else TMS)
        cfg["steps"] = [rng.choice([w // 2, w // 3]) for w in cfg["windows"]]
    else:
        cfg["rank"] = rng.choice([4, 4, 4, 2, 2, -1, 0.9999, 0, 0])
        cfg["gsvd"] = cfg["rank"] != 0 and rng.choice([True, True, False])
        cfg["window"] = rng.choice([14, 16])
        cfg["step"] = rng.choice([7, 8, 9])
        cfg["max_rank"] = rng.choice([None, None, 4])
        cfg["ncomp"] = rng.choice([2, 2, 3])
        cfg["tm"] = rng.choice(TMS)
        cfg["varpro"] = rng.random() < 0.3
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        ops.append(plan_op(rng, many))
    if not any(op[0] == "roundtrip" for op in ops):
        ops.insert(rng.randrange(len(ops) + 1), plan_rt(rng, many))
    return {
        "subject": "mrCOSTS" if many else "COSTS",
        "cfg": cfg,
        "ops": ops,
    }


def plan_rt(rng, many):
    return [
        "roundtrip",
        rng.choice(["fresh", "fresh", "used", "self"]),
        rng.randrange(24),
        rng.choice(["file", "file", "file", "memory", "lazy"])
        if not many
        else "file",
    ]


def plan_op(rng, many):
    k = rng.choice(
        ["roundtrip"] * 4
        + ["badimport"] * 4
        + ["fexport"] * 3
        + ["fimport"] * 3
        + ["later"] * 5
    )
    if k == "roundtrip":
        return plan_rt(rng, many)
    if k == "badimport":
        return [
            k,
            rng.choice(["fresh", "used", "used", "imported"]),
            rng.choice(
                [
                    "missing",
                    "cut",
                    "cut",
                    "cut",
                    "empty",
                    "garbage",
                    "folder",
                    "novar",
                    "noattr",
                ]
            ),
            rng.randrange(6),
            round(rng.random(), 4),
            rng.randrange(24),
        ]
    if k == "fexport":
        return [k, rng.choice(["full", "full", "io"]), round(rng.random(), 4)]
    if k == "fimport":
        return [
            k,
            rng.choice(["fresh", "used", "imported"]),
            round(rng.random(), 4),
            rng.choice(["oserror", "oserror", "memory"]),
            rng.randrange(24),
        ]
    return [k, plan_later(rng, many)]


def plan_later(rng, many):
    if not many:
        return rng.choice(
            [
                ["cluster", rng.choice([2, 3, 4]), rng.choice(TMS)],
                ["cluster", rng.choice([2, 3]), rng.choice(TMS)],
                ["sweep", rng.choice(TMS)],
                ["recon", rng.random() < 0.5],
                ["histogram"],
            ]
        )
    return rng.choice(
        [
            ["gcluster", rng.choice([2, 3, 4]), rng.choice([None] + TMS)],
            ["gcluster", rng.choice([2, 3]), None],
            ["gsweep", rng.choice([None, None] + TMS[:2])],
            ["level", rng.randrange(4), rng.choice([2, 3]), rng.choice(TMS)],
            ["recon"],
        ]
    )


def kwargs(cfg):
    k = {
        None: None,
        "stable": {"eig_constraints": {"stable"}},
        "pairs": {"eig_constraints": {"conjugate_pairs", "stable"}},
        "no": {"eig_constraints": None},
        "imag": {"eig_constraints": {"imag"}},
        "real": {"eig_sort": "real"},
        "abs": {"eig_sort": "abs", "eig_constraints": {"stable"}},
        "proj": {"use_proj": True, "eig_constraints": {"conjugate_pairs"}},
    }[cfg["kw"]]
    if cfg.get("varpro"):
        k = dict(k or {}, varpro_opts_dict={"maxiter": 5, "tol": 1e-3})
    return k


def data_of(cfg, s=None):
    x = series(
        {"n": [cfg["n"]], "m": cfg["m"], "s": cfg["s"] if s is None else s}
    )
    t = (cfg["t0"] + cfg["dt"] * np.arange(cfg["m"]))[None]
    return x, t


def build(cfg, many, s=None):
    from pydmd.costs import COSTS
    from pydmd.mrcosts import mrCOSTS

    x, t = data_of(cfg, s)
    if many:
        m = mrCOSTS(
            window_length_array=list(cfg["windows"]),
            step_size_array=list(cfg["steps"]),
            svd_rank_array=list(cfg["ranks"]),
            global_svd_array=cfg["gsvd"],
            n_components_array=None if cfg["sweep"] else list(cfg["ncomp"]),
            cluster_sweep=cfg["sweep"],
            transform_method=cfg["tm"],
            pydmd_kwargs=kwargs(cfg),
        )
        m.fit(x, t, verbose=False)
    else:
        m = COSTS(
            svd_rank=cfg["rank"],
            global_svd=cfg["gsvd"],
            max_rank=cfg["max_rank"],
            pydmd_kwargs=kwargs(cfg),
        )
        m.fit(x, t, cfg["window"], cfg["step"])
        m.cluster_omega(cfg["ncomp"], transform_method=cfg["tm"])
    return m


COSTS_READS = (
    "svd_rank",
    "global_svd",
    "window_length",
    "step_size",
    "n_slides",
    "modes_array",
    "amplitudes_array",
    "omega_array",
    "time_array",
    "window_means_array",
    "n_components",
    "cluster_centroids",
    "omega_classes",
    "periods",
    "scale_reconstruction",
    "global_reconstruction",
    "scale_separation",
)
MR_READS = (
    "n_decompositions",
    "window_length_array",
    "step_size_array",
    "svd_rank_array",
    "n_components_array",
    "ragged_modes_array",
    "ragged_omega_array",
    "ragged_amplitudes_array",
    "get_background",
)
GLOBAL_READS = (
    "n_components_global",
    "cluster_centroids",
    "omega_classes_interpolated",
    "ragged_omega_classes",
    "global_scale_reconstruction",
    "global_reconstruction",
)


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (np.bool_, bool)):
        return float(v)
    if isinstance(v, np.ndarray) and v.dtype.kind in "US":
        return sorted(map(str, v))
    if np.isscalar(v) and not isinstance(v, str):
        return float(v) if not np.iscomplexobj(v) else complex(v)
    return v


def get(m, name):
    try:
        v = getattr(m, name)
        if callable(v):
            v = v()
        return freeze(plain(v))
    except Exception as e:
        return Raised(e)


def attrs(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, (list, tuple, set)) or (
            isinstance(v, np.ndarray) and v.dtype.kind in "USO"
        ):
            v = sorted(map(str, np.atleast_1d(list(v))))
        elif isinstance(v, dict):
            v = repr(sorted(v.items()))
        out[k] = plain(v)
    return out


def look_costs(c):
    out = {k: get(c, k) for k in COSTS_READS}
    try:
        ds = c.to_xarray()
        out["to_xarray"] = freeze(
            {
                "vars": {str(v): np.array(ds[v].values) for v in ds.variables},
                "attrs": attrs(ds.attrs),
            }
        )
    except Exception as e:
        out["to_xarray"] = Raised(e)
    return out


def look(m, many, glob=False):
    if not many:
        return look_costs(m)
    out = {k: get(m, k) for k in MR_READS + (GLOBAL_READS if glob else ())}
    for i, c in enumerate(m.costs_array or []):
        for k, v in look_costs(c).items():
            out[f"level {i}: {k}"] = v
    return out


def compare(a, b, what, where, say):
    keys = sorted(set(a) | set(b))
    for k in keys:
        if k not in a or k not in b:
            raise Violation(what, where, f"{k}: only on one side; {say}")
        d = same(a[k], b[k], 1e-12)
        if d:
            raise Violation(what, where, f"{k}: {d}; {say}")


def later(m, op, many):
    """Apply a later step; its outcome."""
    try:
        if op[0] == "cluster":
            m.cluster_omega(op[1], transform_method=op[2])
            return None
        if op[0] == "sweep":
            return float(
                m.cluster_hyperparameter_sweep(
                    n_components_range=np.arange(2, 4), transform_method=op[1]
                )
            )
        if op[0] == "recon":
            if many:
                return freeze(m.get_background())
            return freeze(m.scale_reconstruction(include_means=op[1]))
        if op[0] == "histogram":
            import matplotlib.pyplot as plt

            fig, ax = m.plot_omega_histogram()
            out = [
                [float(p.get_height()) for p in ax.patches],
                str(ax.get_xlabel()),
            ]
            plt.close(fig)
            return out
        if op[0] == "gcluster":
            return freeze(
                list(
                    m.global_cluster_omega(
                        n_components=op[1], transform_method=op[2]
                    )
                )
            )
        if op[0] == "gsweep":
            return freeze(
                list(
                    m.global_cluster_hyperparameter_sweep(
                        np.array([2, 3]), transform_method=op[1], verbose=False
                    )
                )
            )
        if op[0] == "level":
            c = m.costs_array[op[1] % len(m.costs_array)]
            c.cluster_omega(op[2], transform_method=op[3])
            return None
    except Exception as e:
        return Raised(e)


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.cfg = sc, ctx, sc["cfg"]
        self.many = sc["subject"] == "mrCOSTS"
        self.where = sc["subject"]
        try:
            self.m = build(self.cfg, self.many)
        except Exception as e:
            raise Skip(f"no decomposition: {type(e).__name__}: {e}")
        self.glob = False
        self.level = False
        self.used = None
        self.copies = []  # restored objects that must keep in step
        self.n = 0
        self.trail = []
        self.files = None

    def look(self, m, glob=None):
        out = look(m, self.many, self.glob if glob is None else glob)
        if self.level:
            # what was asked for, not what a level was given on its own
            out.pop("n_components_array")
        return out

    def folder(self):
        self.n += 1
        d = os.path.join(self.ctx.scratch, f"export{self.n}")
        os.makedirs(d)
        return d

    def export(self, m, d):
        """The files of one export."""
        if self.many:
            m.to_netcdf("x", filepath=d)
            return sorted(os.path.join(d, f) for f in os.listdir(d))
        fn = os.path.join(d, "x.nc")
        ds = m.to_xarray()
        ds.attrs.pop("pydmd_kwargs__varpro_opts_dict", None)
        ds.to_netcdf(fn, engine="h5netcdf", invalid_netcdf=True)
        return [fn]

    def importer(self, how):
        from pydmd.costs import COSTS
        from pydmd.mrcosts import mrCOSTS

        if how == "used":
            if self.used is not None:
                return copy.deepcopy(self.used)
            other = dict(self.cfg, n=self.cfg["n"] + 1, t0=1.0)
            if self.many:
                other = dict(
                    other,
                    tm="absolute",
                    windows=[18],
                    steps=[9],
                    ranks=[2],
                    gsvd=None,
                    ncomp=[2],
                    sweep=False,
                )
            other["kw"] = None
            try:
                m = build(other, self.many, s=7)
                if self.many and self.cfg["s"] % 2:
                    m.global_cluster_omega(
                        n_components=2, transform_method="absolute"
                    )
                self.used = copy.deepcopy(m)
                return m
            except Exception:
                self.used = mrCOSTS() if self.many else COSTS()
        if how == "imported" and self.copies:
            return copy.deepcopy(self.copies[-1])
        return mrCOSTS() if self.many else COSTS()

    def load(self, m, files, lazy=False):
        if self.many:
            m.from_netcdf(files)
            return m
        if lazy:
            with xr.open_dataset(files[0], engine="h5netcdf") as ds:
                return m.from_xarray(ds)
        return m.from_xarray(xr.load_dataset(files[0], engine="h5netcdf"))

    def order(self, files, k):
        g = np.random.default_rng(k)
        return [files[i] for i in g.permutation(len(files))]

    def good_files(self):
        d = self.folder()
        try:
            return self.export(self.m, d)
        except Exception as e:
            raise Violation(
                "a decomposition cannot be exported",
                self.where,
                f"{type(e).__name__}: {e}",
            )


def execute(sc, ctx):
    w = World(sc, ctx)
    for op in sc["ops"]:
        ctx.steps += 1
        w.trail.append(op[0] if op[0] != "badimport" else op[0] + ":" + op[2])
        out = globals()["do_" + op[0]](w, op) or "ok"
        ctx.log(op[0], out)
        ctx.state(
            w.where, len(sc["cfg"].get("windows", [0])), w.trail[-3:], out
        )
    ctx.nontrivial = True


def do_roundtrip(w, op):
    before = w.look(w.m)
    if op[3] == "memory":
        # through a dataset only
        ds = w.m.to_xarray()
        m = w.importer(op[1] if op[1] != "self" else "fresh").from_xarray(ds)
    else:
        files = w.order(w.good_files(), op[2])
        if op[1] == "self":
            m = copy.deepcopy(w.m)
        else:
            m = w.importer(op[1])
        m = w.load(m, files, op[3] == "lazy")
    compare(
        w.look(w.m),
        before,
        "exporting changes the exported object",
        w.where,
        str(w.trail),
    )
    got, want = w.look(m, False), w.look(w.m, False)
    if w.cfg.get("varpro") and not w.many and op[3] != "memory":
        for o in (got, want):
            if isinstance(o["to_xarray"], dict):
                o["to_xarray"]["attrs"].pop(
                    "pydmd_kwargs__varpro_opts_dict", None
                )
    compare(
        got,
        want,
        "an imported decomposition differs from the exported one",
        w.where,
        f"import into {op[1]} by {op[3]}; {w.trail}",
    )
    w.ctx.probe("round trips compared")
    if w.many and w.glob:
        # the global clustering is a later step
        for m2 in (copy.deepcopy(w.m), m):
            later(m2, w.glob_op, True)
        ref = copy.deepcopy(w.m)
        later(ref, w.glob_op, True)
        compare(
            w.look(m),
            w.look(ref),
            "a later step differs on an imported decomposition",
            w.where,
            f"{w.glob_op}; {w.trail}",
        )
        w.m = ref
        for c in w.copies:
            later(c, w.glob_op, True)
    w.copies.append(m)
    w.copies = w.copies[-2:]


def do_later(w, op):
    if op[1][0] == "level" and op[1][1] % len(w.cfg["windows"]) == 0:
        # files do not say how the levels were meant to be transformed when
        # the first one was clustered otherwise
        op = [op[0], op[1][:3] + [w.cfg["tm"]]]
    if not w.copies:
        m = w.importer("fresh")
        w.copies.append(w.load(m, w.good_files()))
    a = later(w.m, op[1], w.many)
    for c in w.copies:
        b = later(c, op[1], w.many)
        d = same(a, b, 1e-12)
        if d:
            raise Violation(
                "a later step differs on an imported decomposition",
                w.where,
                f"{op[1]}: {d}; {w.trail}",
            )
    if isinstance(a, Raised):
        return "raised"
    if op[1][0] == "gcluster":
        w.glob, w.glob_op = True, op[1]
    elif op[1][0] == "level":
        # bands derived before refer to the former classes
        w.glob, w.level = False, True
        for x in [w.m] + w.copies:
            try:
                x.multi_res_interp()
            except Exception:
                # no band above the lowest one is left at some level
                pass
    want = w.look(w.m)
    for c in w.copies:
        got = w.look(c)
        if w.cfg.get("varpro") and not w.many:
            for o in (got, want):
                o["to_xarray"] = None
        compare(
            got,
            want,
            "a later step differs on an imported decomposition",
            w.where,
            f"after {op[1]}; {w.trail}",
        )
    w.ctx.probe("later steps compared")


def do_badimport(w, op):
    _, how, kind, which, frac, perm = op
    files = w.order(w.good_files(), perm)
    fn = files[which % len(files)]
    size = os.path.getsize(fn)
    if kind == "missing":
        os.remove(fn)
    elif kind == "cut":
        with open(fn, "r+b") as f:
            f.truncate(int(frac * size))
    elif kind == "empty":
        open(fn, "wb").close()
    elif kind == "garbage":
        with open(fn, "wb") as f:
            f.write(np.random.default_rng(which).bytes(size))
    elif kind == "folder":
        os.remove(fn)
        os.makedirs(fn)
    else:
        ds = xr.load_dataset(fn, engine="h5netcdf")
        if kind == "novar":
            names = ["omega", "modes", "cluster_centroids", "window_means"]
            ds = ds.drop_vars(names[which % 4])
        else:
            names = ["n_slides", "step_size", "window_length", "global_svd"]
            del ds.attrs[names[which % 4]]
        os.remove(fn)
        ds.to_netcdf(fn, engine="h5netcdf", invalid_netcdf=True)
    w.ctx.fault("import of a damaged set:" + kind)
    m = w.importer(how)
    glob = w.many and how == "used"
    before = w.look(m, glob)
    try:
        w.load(m, files)
    except Exception:
        pass
    else:
        raise Violation(
            "importing a damaged set of files does not raise",
            w.where,
            f"{kind} ({frac}) file {which % len(files)}; {w.trail}",
        )
    compare(
        w.look(m, glob),
        before,
        "a failed import changes the importing object",
        w.where,
        f"{kind}, importer {how}; {w.trail}",
    )
    w.ctx.probe("failed imports compared")
    return kind


def do_fimport(w, op):
    _, how, frac, exc, perm = op
    files = w.order(w.good_files(), perm)
    m = w.importer(how)
    with faults.Points("io") as p:
        w.load(copy.deepcopy(m), files)
    if p.n == 0:
        return "nopoint"
    glob = w.many and how == "used"
    before = w.look(m, glob)
    at = min(p.n - 1, int(frac * p.n))
    with faults.Points("io", at, exc, w.ctx) as p:
        try:
            w.load(m, files)
            out = "ok"
        except Exception:
            out = "raised"
    if p.fired is None:
        return "nofire"
    if out == "ok":
        # survived: then the import has to be complete
        before = w.look(w.m, False)
        glob = False
        if w.cfg.get("varpro") and not w.many:
            return out
    compare(
        w.look(m, glob),
        before,
        "a failed import changes the importing object",
        w.where,
        f"{p.fired}, importer {how}; {w.trail}",
    )
    w.ctx.probe("failed imports compared")
    return out


def do_fexport(w, op):
    _, how, frac = op
    before = w.look(w.m)
    d = w.folder()
    try:
        files = w.export(w.m, w.folder())
    except Exception as e:
        raise Violation(
            "a decomposition cannot be exported",
            w.where,
            f"{type(e).__name__}: {e}",
        )
    size = max(os.path.getsize(f) for f in files)
    if how == "full":
        k = int(frac * size * 0.98)

        def body():
            # the file library may take the process down with it
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            w.export(w.m, d)

        w.ctx.fault("disk full")
        out = faults.in_child(body)
    else:
        with faults.Points("io") as p:
            w.export(w.m, w.folder())
        if p.n == 0:
            return "nopoint"
        at = min(p.n - 1, int(frac * p.n))
        with faults.Points("io", at, "oserror", w.ctx) as p:
            try:
                w.export(w.m, d)
                out = "ok"
            except Exception:
                out = "raised"
    compare(
        w.look(w.m),
        before,
        "exporting changes the exported object",
        w.where,
        f"failed export; {w.trail}",
    )
    if out == "ok":
        files = sorted(os.path.join(d, f) for f in os.listdir(d))
        try:
            m = w.load(w.importer("fresh"), files)
        except Exception as e:
            raise Violation(
                "a failed export does not raise",
                w.where,
                f"{type(e).__name__}: {e}; {w.trail}",
            )
        if not (w.cfg.get("varpro") and not w.many):
            compare(
                w.look(m, False),
                w.look(w.m, False),
                "a failed export does not raise",
                w.where,
                str(w.trail),
            )
    w.ctx.probe("failed exports compared")
    return out


def shrink(sc):
    yield from shrink_ops(sc)
    cfg = sc["cfg"]
    if cfg["kw"] is not None:
        yield dict(sc, cfg=dict(cfg, kw=None))
    if "windows" in cfg and len(cfg["windows"]) > 1:
        c = dict(cfg)
        for k in ("windows", "ranks", "gsvd", "ncomp", "steps"):
            if c[k] is not None:
                c[k] = c[k][:-1]
        yield dict(sc, cfg=c)
    for k, v in (("t0", 0.0), ("dt", 1.0), ("tm", "absolute"), ("varpro", False)):
        if k in cfg and cfg[k] != v:
            yield dict(sc, cfg=dict(cfg, **{k: v}))
