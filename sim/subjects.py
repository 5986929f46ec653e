"""The models under simulation: how to configure, build, feed and read each of
the library's model classes through its public interface.

Everything a subject needs is described by plain JSON (configuration, data
specification, read), so that a scenario is a complete description of a run.
"""
import copy

import numpy as np

import pydmd
from pydmd import (
    BOPDMD,
    CDMD,
    DMD,
    EDMD,
    HAVOK,
    HODMD,
    LANDO,
    RDMD,
    DMDc,
    FbDMD,
    HankelDMD,
    MrDMD,
    OptDMD,
    ParametricDMD,
    PiDMD,
    SpDMD,
    SubspaceDMD,
    VarProDMD,
)
from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS
from pydmd.preprocessing import (
    hankel_preprocessing,
    randomized_preprocessing,
    svd_projection_preprocessing,
    zero_mean_preprocessing,
)

from .compare import Raised, freeze
from .core import Skip

# ----------------------------------------------------------------- data


def series(spec):
    """A real linear signal with a little noise: shape + (m,)."""
    shape = tuple(spec["n"])
    m = spec["m"]
    g = np.random.default_rng([7, spec["s"]])
    n = int(np.prod(shape))
    t = np.arange(m)
    out = np.zeros((n, m))
    for k in range(spec.get("pairs", 2)):
        w = 0.35 + 0.7 * k + 0.15 * g.random()
        r = 0.97 + 0.05 * g.random()
        phi = g.standard_normal(n) + 1j * g.standard_normal(n)
        out += ((1.5 - 0.4 * k) * phi[:, None] * (r * np.exp(1j * w)) ** t).real
    out += 1e-3 * g.standard_normal((n, m))
    if spec.get("mean"):
        out += g.standard_normal((n, 1))
    out = out.reshape(shape + (m,)) * spec.get("amp", 1.0)
    return out


def layout(x, lay):
    """The same numbers in another memory layout or element type."""
    if lay in (None, "C"):
        return np.ascontiguousarray(x)
    if lay == "F":
        return np.asfortranarray(x)
    if lay == "view":  # non-contiguous view of a larger buffer
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        big[..., ::2] = x
        return big[..., ::2]
    if lay == "T":  # a transposed view
        return np.ascontiguousarray(x.T).T
    if lay == "f4":
        return np.ascontiguousarray(x.astype(np.float32))
    if lay == "c16":
        return np.ascontiguousarray(x.astype(np.complex128))
    if lay == "int":
        return np.ascontiguousarray(np.round(100 * x).astype(np.int64))
    raise ValueError(lay)


def spoil(x, bad):
    """Inputs that make a fit fail naturally."""
    x = np.array(x)
    if bad == "nan":
        x[..., x.shape[-1] // 2] = np.nan
    elif bad == "nan_end":
        x[..., -1] = np.nan
    elif bad == "one":
        x = x[..., :1]
    elif bad == "1d":
        x = x.reshape(-1)
    elif bad == "two":
        x = x[..., :2]
    return x


# Arguments handed to the library by the reads, when someone wants to know.
TRACK = None


# Every fit starts from a stream of its own, unless the property is about
# the streams.
SEEDED_FITS = True


def seed_global(s):
    if SEEDED_FITS:
        np.random.seed(s & 0xFFFFFFFF)


def own(x):
    """Mark an argument as belonging to the caller."""
    if TRACK is not None:
        TRACK.append(x)
    return x


def arr(seed, shape, kind="normal"):
    g = np.random.default_rng([11, seed])
    if kind == "pos":
        return own(0.5 + g.random(shape))
    return own(g.standard_normal(shape))


# ------------------------------------------- picklable user-supplied functions


def user_kernel(X, Y):
    return X.T.dot(Y)


def user_kernel_grad(X, y):
    return X.T


def eigs_left(eigs):
    """A user's eigenvalue constraint: clip growth."""
    e = np.array(eigs, dtype=complex)
    return np.minimum(e.real, 0.05) + 1j * e.imag


def prox_mild(B):
    return B * 0.999


def crit_all(dmd):
    return np.ones(len(dmd.eigs), dtype=bool)


def crit_osc(dmd):
    return np.abs(np.imag(dmd.eigs)) > 1e-6


def crit_first(dmd):
    k = np.zeros(len(dmd.eigs), dtype=bool)
    k[: max(1, len(k) // 2)] = True
    return k


def crit_strong(dmd):
    a = np.abs(dmd.amplitudes)
    return a >= np.median(a)


def crit_raise(dmd):
    _ = dmd.eigs, dmd.modes
    raise RuntimeError("user criterion failed")


CRITS = {
    "all": crit_all,
    "osc": crit_osc,
    "first": crit_first,
    "strong": crit_strong,
    "raise": crit_raise,
}


def build_mr_sub(level, leaf):
    return DMD(svd_rank=-1 if level == 0 else 2)


class LinearApprox:
    """A stateful interpolator with ezyrb's fit/predict interface (a stub for
    the user-supplied approximation)."""

    def fit(self, points, values):
        p = np.asarray(points, float)
        A = np.hstack([np.ones((len(p), 1)), p])
        self.c = np.linalg.lstsq(A, np.asarray(values), rcond=None)[0]
        return self

    def predict(self, points):
        p = np.atleast_2d(np.asarray(points, float))
        return np.hstack([np.ones((len(p), 1)), p]).dot(self.c)


# ----------------------------------------------------------------- subjects

BASE_READS = [
    ["modes"],
    ["eigs"],
    ["amplitudes"],
    ["dynamics"],
    ["reconstructed_data"],
    ["dmd_time"],
    ["original_time"],
    ["dmd_timesteps"],
    ["original_timesteps"],
    ["frequency"],
    ["growth_rate"],
    ["snapshots"],
    ["snapshots_y"],
    ["snapshots_shape"],
    ["fitted"],
    ["modes_activation_bitmask"],
    ["atilde"],
    ["eigenvectors"],
    ["Lambda"],
]


class Subject:
    name = None
    weight = 3
    selectable = True  # supports selection masks
    indexable = True  # supports model[...]
    windowed = True  # dmd_time can be set
    stable = True  # stabilize_modes applies (discrete-time eigenvalues)
    saves = "method"  # how it is persisted: save()/load()
    random = False  # a fit draws from the global generator
    rtol = 1e-6
    heavy = False
    products = (["reconstructed_data"],)
    triple = (["modes"], ["eigs"], ["amplitudes"])

    # -- configuration ------------------------------------------------
    def cfg(self, rng):
        return {}

    def make(self, cfg):
        """(model, [(name, caller-owned object), ...])"""
        raise NotImplementedError

    def new(self, cfg):
        m = self.make(cfg)[0]
        for op in cfg.get("reconfs", ()):
            self.do_reconf(m, op)
        return m

    def reconf(self, cfg, rng):
        """A change of configuration through a setter, if there is one."""
        return None

    # -- data ----------------------------------------------------------
    def spec(self, cfg, rng, like=None):
        if like is not None:
            return dict(like, s=rng.randrange(1000))
        n = cfg.get("n") or [rng.choice([4, 5, 6, 8, 11])]
        return {
            "n": list(n),
            "m": cfg.get("m") or rng.choice([9, 12, 14, 17, 21]),
            "s": rng.randrange(1000),
        }

    def pool(self, cfg, rng, k=3):
        """A few data sets: same shape with other values, other shapes."""
        a = self.spec(cfg, rng)
        out = [a]
        while len(out) < k:
            out.append(
                self.spec(cfg, rng, like=a)
                if rng.random() < 0.5
                else self.spec(cfg, rng)
            )
        return out

    bads = ("nan", "one", "1d", "nan_end", "two")

    def data(self, cfg, spec):
        """Arguments of one fit: list of (name, value)."""
        x = spoil(layout(series(spec), spec.get("lay")), spec.get("bad"))
        if spec.get("aslist") and x.ndim >= 2:
            x = [x[..., i] for i in range(x.shape[-1])]
        out = [("X", x)]
        return out

    def fit(self, m, cfg, spec, data=None):
        data = self.data(cfg, spec) if data is None else data
        seed_global(spec["s"] * 7919 + 13)
        m.fit(*[own(v) for _, v in data])
        self.after_fit(m, cfg, spec)

    def after_fit(self, m, cfg, spec):
        pass

    # -- reads ----------------------------------------------------------
    def reads(self, cfg):
        return BASE_READS

    def read(self, m, rd, cfg):
        k = rd[0]
        if k == "atilde":
            return m.operator.as_numpy_array
        if k == "eigenvectors":
            return m.operator.eigenvectors
        if k == "Lambda":
            return m.operator.Lambda
        if k == "predict":
            return m.predict(arr(rd[1], (m.modes.shape[0], 2)))
        if k == "crit":
            return CRITS[rd[1]](m)
        if k == "getitem":
            return self.probe_state(m[_key(rd[1])], cfg)
        v = getattr(m, k)
        if isinstance(v, dict):
            return {kk: float(vv) for kk, vv in v.items()}
        return v

    def probe_state(self, m, cfg):
        return [m.modes, m.eigs, m.amplitudes]

    def cheap_reads(self, cfg):
        return self.reads(cfg)

    # -- generic state-changing operations between fits ------------------
    extra_ops = ()

    def do_extra(self, m, op, cfg, spec):
        raise NotImplementedError


def _key(k):
    if isinstance(k, dict):
        return slice(*k["slice"])
    return k


def observe(subj, m, cfg, reads=None):
    """Every answer of the model, each under the same state of the global
    generator, which is put back afterwards."""
    st = np.random.get_state()
    out = {}
    try:
        for rd in reads if reads is not None else subj.reads(cfg):
            np.random.seed(4242)
            try:
                out["/".join(map(str, rd))] = freeze(subj.read(m, rd, cfg))
            except Exception as e:
                out["/".join(map(str, rd))] = Raised(e)
    finally:
        np.random.set_state(st)
    return out


def pick(rng, **options):
    return {k: rng.choice(v) for k, v in options.items()}


RANKS = [0, 4, 4, 3, 2, -1, 0.99]


def pair_data(subj, cfg, spec):
    """One series, or a pair (X, Y) of snapshot sets."""
    if not spec.get("pair"):
        return Subject.data(subj, cfg, spec)
    full = dict(spec, m=spec["m"] + 1)
    x = series(full)
    X = spoil(layout(x[..., :-1], spec.get("lay")), spec.get("bad"))
    Y = layout(x[..., 1:], spec.get("lay"))
    if spec.get("badpair"):
        Y = Y[..., :-1]
    return [("X", X), ("Y", Y)]


class DmdS(Subject):
    name = "DMD"
    weight = 6
    cls = DMD
    pairable = True
    products = (["reconstructed_data"], ["predict", 3])

    def cfg(self, rng):
        c = pick(
            rng,
            svd_rank=RANKS,
            tlsq_rank=[0, 0, 0, 3],
            exact=[False, True],
            opt=[False, True, True, 2, -1],
            rescale_mode=[None, None, "auto", "arr"],
            forward_backward=[False, False, True],
            sorted_eigs=[False, False, "abs", "real"],
            tikhonov_regularization=[None, None, 1e-6],
        )
        if c["rescale_mode"] == "arr":
            c["svd_rank"] = 4
            c["resc0"] = int(rng.random() < 0.3)
        elif rng.random() < 0.3:
            c["nd"] = 1
            c["n"] = [rng.choice([2, 3]), rng.choice([2, 3, 4])]
        return c

    CTOR = (
        "svd_rank",
        "tlsq_rank",
        "exact",
        "opt",
        "rescale_mode",
        "forward_backward",
        "sorted_eigs",
        "tikhonov_regularization",
    )

    def make(self, cfg):
        kw = {k: cfg[k] for k in self.CTOR if k in cfg}
        owned = []
        if kw.get("rescale_mode") == "arr":
            kw["rescale_mode"] = arr(5, (cfg["svd_rank"],), "pos")
            if cfg.get("resc0"):
                a = np.array(kw["rescale_mode"])
                a[-1] = 0.0
                kw["rescale_mode"] = own(a)
            owned.append(("rescale_mode", kw["rescale_mode"]))
        return self.cls(**kw), owned

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if self.pairable and rng.random() < 0.3:
            s["pair"] = 1
        else:
            s.pop("pair", None)
        if cfg.get("rescale_mode") == "arr" and not like:
            s["n"] = [max(5, s["n"][0])]
        return s

    def data(self, cfg, spec):
        return pair_data(self, cfg, spec)

    def reads(self, cfg):
        return BASE_READS + [["predict", 3]]


class FbS(DmdS):
    name = "FbDMD"
    cls = FbDMD
    weight = 2
    CTOR = (
        "svd_rank",
        "tlsq_rank",
        "exact",
        "opt",
        "rescale_mode",
        "sorted_eigs",
    )


class HankelS(DmdS):
    name = "HankelDMD"
    weight = 5
    cls = HankelDMD
    pairable = False
    indexable = False
    CTOR = DmdS.CTOR + ("d", "reconstruction_method")
    products = (["reconstructed_data"],)

    def cfg(self, rng):
        c = super().cfg(rng)
        c.pop("nd", None)
        c.pop("n", None)
        c.update(
            pick(
                rng,
                d=[1, 2, 3, 4],
                reconstruction_method=["first", "first", "mean", "w"],
            )
        )
        if not isinstance(c["opt"], bool):
            c["opt"] = bool(c["opt"])
        return c

    def make(self, cfg):
        if cfg["reconstruction_method"] == "w":
            w = list(range(1, cfg["d"] + 1))
            kind = cfg.get("wkind", "list")
            if kind == "arr":
                w = np.array(w, float)
            c = dict(cfg, reconstruction_method=w)
            m, owned = super().make(c)
            return m, owned + [("weights", w)]
        return super().make(cfg)

    def reads(self, cfg):
        return BASE_READS + [["ho_snapshots"]]


class HodmdS(HankelS):
    name = "HODMD"
    weight = 4
    cls = HODMD
    CTOR = tuple(k for k in HankelS.CTOR if k != "tikhonov_regularization") + (
        "svd_rank_extra",
    )

    def cfg(self, rng):
        c = super().cfg(rng)
        c["svd_rank_extra"] = rng.choice([0, -1, 3, 4])
        if c["rescale_mode"] == "arr":
            c["svd_rank_extra"] = 4
        return c


class CdmdS(DmdS):
    name = "CDMD"
    weight = 4
    cls = CDMD
    pairable = False
    random = True
    CTOR = (
        "svd_rank",
        "tlsq_rank",
        "compression_matrix",
        "opt",
        "rescale_mode",
        "forward_backward",
        "sorted_eigs",
    )
    products = (["reconstructed_data"],)

    def cfg(self, rng):
        c = super().cfg(rng)
        c.pop("exact")
        c["compression_matrix"] = rng.choice(
            ["uniform", "normal", "sample", "sparse", "arr", "uniform"]
        )
        if c["rescale_mode"] == "auto":
            c["rescale_mode"] = None
        if c["forward_backward"]:
            c["svd_rank"] = 4
        if c["compression_matrix"] in ("arr", "sample"):
            c["n"] = [8]
            c["m"] = 8
            c.pop("nd", None)
            if c["compression_matrix"] == "arr":
                c["m"] = 12
        elif "n" not in c:
            c["n"] = [rng.choice([6, 8])]
            c["m"] = rng.choice([9, 12])
        return c

    def make(self, cfg):
        if cfg["compression_matrix"] == "arr":
            C = arr(9, (cfg["m"], cfg["n"][0]))
            m, owned = super().make(dict(cfg, compression_matrix=C))
            return m, owned + [("compression_matrix", C)]
        return super().make(cfg)

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if (
            like is None
            and cfg["compression_matrix"] in ("uniform", "normal", "sparse")
            and "nd" not in cfg
        ):
            s["n"] = [rng.choice([6, 8, 9])]
            s["m"] = rng.choice([9, 12, 15])
        return s

    def reads(self, cfg):
        return BASE_READS + (
            [["compression_matrix"]]
            if cfg.get("compression_matrix") != "sparse"
            else []
        )


class RdmdS(CdmdS):
    name = "RDMD"
    weight = 4
    cls = RDMD
    random = False
    CTOR = (
        "svd_rank",
        "tlsq_rank",
        "test_matrix",
        "seed",
        "oversampling",
        "power_iters",
        "opt",
        "rescale_mode",
        "forward_backward",
        "sorted_eigs",
    )

    def cfg(self, rng):
        c = DmdS.cfg(self, rng)
        c.pop("exact")
        c.update(
            pick(
                rng,
                seed=[0, 1, 17, 2**31],
                oversampling=[2, 5, 10],
                power_iters=[0, 1, 2],
            )
        )
        if c["rescale_mode"] == "auto":
            c["rescale_mode"] = None
        if c["forward_backward"] or c["svd_rank"] == -1:
            c["svd_rank"] = 4
        if rng.random() < 0.15:
            c["test_matrix"] = "arr"
            c["m"] = 12
        return c

    def make(self, cfg):
        if cfg.get("test_matrix") == "arr":
            T = arr(21, (cfg["m"], 9))
            m, owned = DmdS.make(self, dict(cfg, test_matrix=T))
            return m, owned + [("test_matrix", T)]
        return DmdS.make(self, cfg)

    spec = DmdS.spec

    def reads(self, cfg):
        return BASE_READS + [["compression_matrix"]]


class SpS(DmdS):
    name = "SpDMD"
    weight = 3
    cls = SpDMD
    pairable = False
    CTOR = (
        "svd_rank",
        "tlsq_rank",
        "exact",
        "opt",
        "rescale_mode",
        "forward_backward",
        "sorted_eigs",
        "gamma",
        "rho",
        "verbose",
        "max_iterations",
        "release_memory",
    )

    def cfg(self, rng):
        c = super().cfg(rng)
        c.update(
            gamma=rng.choice([0.1, 1.0, 5.0]),
            rho=rng.choice([1, 10]),
            verbose=False,
            max_iterations=rng.choice([20, 60]),
            release_memory=rng.choice([True, False]),
        )
        c["opt"] = bool(c["opt"])
        return c


class SubspaceS(DmdS):
    name = "SubspaceDMD"
    weight = 2
    cls = SubspaceDMD
    pairable = False
    CTOR = ("svd_rank", "opt", "rescale_mode", "sorted_eigs")
    products = (["reconstructed_data"],)

    def cfg(self, rng):
        c = super().cfg(rng)
        c["svd_rank"] = rng.choice([-1, 0, 2, 4])
        c["rescale_mode"] = None
        if c["opt"] is True:
            c["opt"] = False
        c["m"] = rng.choice([16, 20])
        return c

    def reads(self, cfg):
        return BASE_READS

    def spec(self, cfg, rng, like=None):
        s = Subject.spec(self, cfg, rng, like)
        if like is None:
            s["m"] = rng.choice([16, 20])
        return s


class OptS(Subject):
    name = "OptDMD"
    weight = 2
    selectable = indexable = windowed = stable = False
    products = (["predict", 3],)
    triple = ()

    def cfg(self, rng):
        return pick(
            rng,
            factorization=["svd", "svd", "evd"],
            svd_rank=[-1, 0, 3],
            tlsq_rank=[0, 0, 2],
        )

    def make(self, cfg):
        return (
            OptDMD(
                factorization=cfg["factorization"],
                svd_rank=cfg["svd_rank"],
                tlsq_rank=cfg["tlsq_rank"],
            ),
            [],
        )

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        s.pop("pair", None)
        if rng.random() < 0.4:
            s["pair"] = 1
        return s

    def data(self, cfg, spec):
        return pair_data(self, cfg, spec)

    def fit(self, m, cfg, spec, data=None):
        super().fit(m, cfg, spec, data)

    def reads(self, cfg):
        return [
            ["modes"],
            ["eigs"],
            ["amplitudes"],
            ["atilde"],
            ["snapshots"],
            ["predict", 3],
        ]

    def read(self, m, rd, cfg):
        if rd[0] == "predict":
            n = m.modes.shape[0]
            return m.predict(arr(rd[1], (n, 2)))
        return super().read(m, rd, cfg)


class EdmdS(DmdS):
    name = "EDMD"
    weight = 2
    cls = EDMD
    CTOR = ("svd_rank", "tlsq_rank", "opt", "kernel_metric", "kernel_params")
    pairable = True

    def cfg(self, rng):
        c = pick(
            rng,
            svd_rank=[-1, 3, 4, 0.99],
            tlsq_rank=[0, 0, 3],
            opt=[False],
            kernel_metric=["linear", "rbf", "poly"],
        )
        if c["kernel_metric"] == "rbf":
            c["kernel_params"] = rng.choice(
                [{"gamma": 0.02}, {"gamma": 0.1}, {}]
            )
            c["svd_rank"] = rng.choice([3, 4])
        elif c["kernel_metric"] == "poly":
            c["kernel_params"] = rng.choice([{"degree": 2, "coef0": 1.0}, {"degree": 2}])
            c["svd_rank"] = rng.choice([3, 4])
        else:
            c["svd_rank"] = rng.choice([3, 4])
        return c

    def make(self, cfg):
        c = dict(cfg)
        owned = []
        if "kernel_params" in c:
            c["kernel_params"] = dict(c["kernel_params"])
            owned.append(("kernel_params", c["kernel_params"]))
        m, o = super().make(c)
        return m, owned + o

    def reads(self, cfg):
        return [r for r in BASE_READS if r[0] != "atilde"] + [
            ["predict", 3],
            ["eigenfunctions", 5],
        ]

    def read(self, m, rd, cfg):
        if rd[0] == "eigenfunctions":
            return m.eigenfunctions(arr(rd[1], (m.snapshots.shape[0],)))
        return super().read(m, rd, cfg)

    products = (["reconstructed_data"], ["predict", 3], ["eigenfunctions", 5])


class PiS(DmdS):
    name = "PiDMD"
    weight = 3
    cls = PiDMD
    CTOR = ("manifold", "manifold_opt", "compute_A", "svd_rank", "tlsq_rank", "opt")

    def cfg(self, rng):
        c = pick(
            rng,
            manifold=[
                "unitary",
                "uppertriangular",
                "lowertriangular",
                "diagonal",
                "symmetric",
                "skewsymmetric",
                "toeplitz",
                "hankel",
                "circulant",
                "circulant_unitary",
                "circulant_symmetric",
                "symmetric_tridiagonal",
                "BC",
                "BCCB",
                "BCCBunitary",
            ],
            svd_rank=[-1, -1, 3],
            tlsq_rank=[0, 0, 3],
            opt=[False, True],
            compute_A=[True, True, False],
        )
        if c["manifold"].startswith("BC"):
            c["n"] = [6]
            c["manifold_opt"] = [2, 3]
            c["compute_A"] = True
        if rng.random() < 0.15:
            c["manifold"] = rng.choice(["diagonal", "symmetric_tridiagonal"])
            c.pop("manifold_opt", None)
            c["compute_A"] = False
            c["svd_rank"] = 2  # found by a sparse eigenvalue solver
        if c["manifold"] == "diagonal" and rng.random() < 0.5:
            c["manifold_opt"] = 2
        if c["manifold"] in (
            "uppertriangular",
            "lowertriangular",
            "toeplitz",
            "hankel",
        ):
            c["compute_A"] = True
        return c

    def make(self, cfg):
        c = dict(cfg)
        if isinstance(c.get("manifold_opt"), list):
            c["manifold_opt"] = tuple(c["manifold_opt"])
        return super().make(c)

    def reads(self, cfg):
        return [r for r in BASE_READS if r[0] != "Lambda"] + [
            ["predict", 3],
            ["A"],
        ]


class DmdcS(Subject):
    name = "DMDc"
    weight = 3
    products = (["rec"],)

    def cfg(self, rng):
        c = pick(
            rng,
            svd_rank=[0, -1, 3],
            svd_rank_omega=[-1, 0, 4],
            opt=[False, False, 1],
            lag=[1, 1, 2],
            tlsq_rank=[0, 0, 3],
        )
        c["n"] = [rng.choice([4, 5, 6])]
        return c

    def make(self, cfg):
        return (
            DMDc(
                **{
                    k: cfg[k]
                    for k in (
                        "svd_rank",
                        "svd_rank_omega",
                        "opt",
                        "lag",
                        "tlsq_rank",
                    )
                }
            ),
            [],
        )

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None and rng.random() < 0.3:
            s["n"] = [rng.choice([4, 5, 6])]
        s["known"] = rng.choice([0, 0, 1])
        s["nu"] = rng.choice([1, 2])
        return s

    def data(self, cfg, spec):
        n, m, nu, lag = spec["n"][0], spec["m"], spec["nu"], cfg["lag"]
        g = np.random.default_rng([13, spec["s"]])
        A = g.standard_normal((n, n))
        A *= 0.95 / np.abs(np.linalg.eigvals(A)).max()
        B = g.standard_normal((n, nu))
        U = g.standard_normal((nu, m - lag))
        x = [g.standard_normal(n) for _ in range(lag)]
        for i in range(m - lag):
            x.append(A.dot(x[i]) + B.dot(U[:, i]))
        X = np.array(x).T
        X = X + 1e-4 * g.standard_normal(X.shape)
        X = spoil(layout(X, spec.get("lay")), spec.get("bad"))
        if spec.get("badpair"):
            U = U[:, :-1]
        out = [("X", X), ("I", layout(U, spec.get("lay2")))]
        if spec["known"]:
            out.append(("B", B))
        return out

    def reads(self, cfg):
        return [r for r in BASE_READS if r[0] != "reconstructed_data"] + [
            ["rec"],
            ["rec_u", 3],
            ["B"],
            ["basis"],
        ]

    def read(self, m, rd, cfg):
        if rd[0] == "rec":
            return m.reconstructed_data()
        if rd[0] == "rec_u":
            k = len(m.dmd_timesteps) - cfg["lag"]
            nu = m._B.shape[1] if m._B is not None else 1
            return m.reconstructed_data(arr(rd[1], (nu, max(k, 0))))
        return super().read(m, rd, cfg)

    triple = (["modes"], ["eigs"], ["amplitudes"])


class MrS(Subject):
    name = "MrDMD"
    weight = 3
    selectable = indexable = windowed = stable = False
    products = (["reconstructed_data"],)

    def cfg(self, rng):
        c = pick(
            rng,
            sub=["DMD", "DMD", "Hankel", "list", "callable", "SpDMD"],
            max_level=[1, 2, 2, 3, 5],
            max_cycles=[1, 1, 2],
            rank=[-1, 2, 0],
        )
        if c["sub"] == "Hankel":
            c["rank"] = -1
        if c["sub"] == "list":
            c["max_level"] = rng.choice([1, 2])
        return c

    def make(self, cfg):
        owned = []
        if cfg["sub"] == "DMD":
            d = DMD(svd_rank=cfg["rank"])
        elif cfg["sub"] == "SpDMD":
            d = SpDMD(
                svd_rank=cfg["rank"],
                gamma=0.1,
                verbose=False,
                max_iterations=10,
            )
        elif cfg["sub"] == "Hankel":
            d = HankelDMD(svd_rank=cfg["rank"], d=2)
        elif cfg["sub"] == "list":
            d = [DMD(svd_rank=cfg["rank"]) for _ in range(cfg["max_level"] + 1)]
            owned.append(("dmd list", d))
        else:
            d = build_mr_sub
        if cfg["sub"] not in ("list", "callable"):
            owned.append(("prototype", d))
        return (
            MrDMD(d, max_level=cfg["max_level"], max_cycles=cfg["max_cycles"]),
            owned,
        )

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["m"] = rng.choice([16, 24, 32, 33, 48, 64])
            if cfg["sub"] == "list":
                s["m"] = rng.choice([24, 32, 33, 48])
            s["pairs"] = 1
            s["mean"] = 1
        return s

    def reads(self, cfg):
        out = [
            ["modes"],
            ["eigs"],
            ["dynamics"],
            ["reconstructed_data"],
            ["original_time"],
            ["snapshots"],
            ["max_level"],
            ["leaf_amplitudes"],
            ["leaf_masks"],
        ]
        for lv in range(3):
            out += [
                ["partial_modes", lv],
                ["partial_eigs", lv],
                ["partial_dynamics", lv],
                ["partial_reconstructed_data", lv],
                ["partial_time_interval", lv, 0],
            ]
        out += [["time_window_bins", 3, 9], ["time_window_eigs", 3, 9]]
        return out

    def read(self, m, rd, cfg):
        k = rd[0]
        if k == "leaf_amplitudes":
            return [d.amplitudes for d in m]
        if k == "leaf_masks":
            return [d.modes_activation_bitmask for d in m]
        if len(rd) > 1:
            return getattr(m, k)(*rd[1:])
        return super().read(m, rd, cfg)

    triple = (["modes"], ["eigs"], ["leaf_amplitudes"])


def time_axis(spec):
    t = np.arange(spec["m"]) * spec["dt"]
    if spec.get("tj"):
        # not evenly sampled
        t = t + 0.2 * spec["dt"] * np.sin(1.0 + np.arange(spec["m"]))
    return t + spec.get("t0", 0.0)


class BopS(Subject):
    name = "BOPDMD"
    weight = 5
    windowed = stable = False
    random = True
    rtol = 1e-5
    products = (["reconstructed_data"], ["forecast", 5])
    bads = ("nan", "one", "1d", "nan_end", "badtime")

    def cfg(self, rng):
        c = pick(
            rng,
            svd_rank=[0, 4, 4, 2, 3],
            compute_A=[False, True],
            use_proj=[True, True, False],
            num_trials=[0, 0, 0, 2, 3],
            trial_size=[0.7, 0.8, 8],
            eig_sort=["auto", "real", "imag", "abs"],
            eig=[None, None, "stable", "imag", "fn", "conj"],
            mode_prox=[None, None, None, 1],
        )
        if c["eig"] == "conj":
            c["svd_rank"] = rng.choice([2, 4])
        if rng.random() < 0.2:
            c["init_alpha"] = 1
            c["svd_rank"] = 4
        if rng.random() < 0.15:
            c["proj_basis"] = 1
            c["svd_rank"] = 4
            c["n"] = [6]
        c["maxiter"] = rng.choice([5, 10])
        return c

    def make(self, cfg):
        kw = {
            k: cfg[k]
            for k in (
                "svd_rank",
                "compute_A",
                "use_proj",
                "num_trials",
                "trial_size",
                "eig_sort",
            )
        }
        owned = []
        e = cfg["eig"]
        if e == "fn":
            kw["eig_constraints"] = eigs_left
        elif e is not None:
            kw["eig_constraints"] = (
                {"conjugate_pairs"} if e == "conj" else {e}
            )
            owned.append(("eig_constraints", kw["eig_constraints"]))
        if cfg.get("mode_prox"):
            kw["mode_prox"] = prox_mild
        if cfg.get("init_alpha"):
            a = np.array([0.05 + 0.4j, 0.05 - 0.4j, 0.01 + 1.1j, 0.01 - 1.1j])
            kw["init_alpha"] = a
            owned.append(("init_alpha", a))
        if cfg.get("proj_basis"):
            q = np.linalg.qr(arr(31, (cfg["n"][0], 4)))[0]
            kw["proj_basis"] = q
            owned.append(("proj_basis", q))
        opts = {"maxiter": cfg["maxiter"], "tol": cfg.get("tol", 1e-3)}
        kw["varpro_opts_dict"] = opts
        owned.append(("varpro_opts_dict", opts))
        return BOPDMD(**kw), owned

    def reconf(self, cfg, rng):
        if cfg.get("proj_basis") or cfg.get("init_alpha") or cfg["eig"] == "conj":
            return None
        return rng.choice(
            [
                ["svd_rank", rng.choice([2, 3, 4])],
                ["init_alpha", rng.choice([0, 1])],
            ]
        )

    def do_reconf(self, m, op):
        if op[0] == "svd_rank":
            m.svd_rank = op[1]
        else:
            a = np.array([0.05 + 0.4j, 0.05 - 0.4j, 0.01 + 1.1j, 0.01 - 1.1j])
            m.init_alpha = own(a) if op[1] else None

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            if "n" not in cfg:
                s["n"] = [rng.choice([5, 6, 7])]
            s["m"] = rng.choice([14, 16, 20])
        s["dt"] = rng.choice([1.0, 0.5])
        s["t0"] = rng.choice([0.0, 0.0, 1.5])
        s["tj"] = rng.choice([0, 0, 1])
        return s

    def data(self, cfg, spec):
        t = time_axis(spec)
        x = series(spec)
        bad = spec.get("bad")
        if bad == "badtime":
            t = t[:-1]
        x = spoil(layout(x, spec.get("lay")), bad)
        if spec.get("tlist"):
            t = list(map(float, t))
        return [("X", x), ("t", t)]

    def reads(self, cfg):
        r = [
            ["modes"],
            ["eigs"],
            ["amplitudes"],
            ["dynamics"],
            ["reconstructed_data"],
            ["time"],
            ["snapshots"],
            ["snapshots_shape"],
            ["fitted"],
            ["modes_activation_bitmask"],
            ["op_atilde"],
            ["forecast", 5],
            ["svd_rank"],
            ["init_alpha"],
            ["proj_basis"],
            ["amplitudes_std"],
            ["eigenvalues_std"],
            ["modes_std"],
        ]
        if cfg.get("compute_A"):
            r.append(["A"])
        return r

    def read(self, m, rd, cfg):
        if rd[0] == "forecast":
            t = own(np.linspace(0.0, 4.0 + rd[1], 7))
            v = m.forecast(t)
            return list(v) if isinstance(v, tuple) else v
        if rd[0] == "op_atilde":
            return m.atilde
        return super().read(m, rd, cfg)


class BopEconS(BopS):
    """BOPDMD fed through fit_econ (a precomputed SVD)."""

    name = "BOPDMD_econ"
    weight = 1
    bads = ("badtime", "nan")

    def cfg(self, rng):
        c = super().cfg(rng)
        c["svd_rank"] = 4
        c["use_proj"] = True
        c["proj_basis"] = 1
        c["n"] = [6]
        return c

    def data(self, cfg, spec):
        t = time_axis(spec)
        x = series(spec)
        q = np.linalg.qr(arr(31, (cfg["n"][0], 4)))[0]
        u, s, v = np.linalg.svd(q.T.dot(x), full_matrices=False)
        # keep the caller's basis: coefficients = diag(s) V with s = 1
        s = np.linalg.norm(q.T.dot(x), axis=1)
        V = q.T.dot(x) / s[:, None]
        if spec.get("bad") == "badtime":
            t = t[:-1]
        elif spec.get("bad"):
            V = np.array(V)
            V[0, 0] = np.nan
        return [("s", s), ("V", layout(V, spec.get("lay"))), ("t", t)]

    def fit(self, m, cfg, spec, data=None):
        data = self.data(cfg, spec) if data is None else data
        seed_global(spec["s"] * 7919 + 13)
        m.fit_econ(*[own(v) for _, v in data])

    def reads(self, cfg):
        drop = {"snapshots", "snapshots_shape"}
        if cfg["num_trials"]:
            drop.add("forecast")  # needs snapshots for its shape
        return [r for r in super().reads(cfg) if r[0] not in drop]

    products = (["reconstructed_data"],)


class VarproS(Subject):
    name = "VarProDMD"
    weight = 3
    windowed = stable = False
    indexable = True
    rtol = 1e-5
    products = (["reconstructed_data"], ["forecast", 5])
    bads = ("nan", "one", "1d", "nan_end")

    def cfg(self, rng):
        return pick(
            rng,
            svd_rank=[4, 4, 2, 0],
            exact=[False, True],
            sorted_eigs=[False, "abs", "real", "imag", "auto", True],
            compression=[0, 0, 0.3],
            opts=[0, 0, 1],
        )

    def make(self, cfg):
        owned = []
        kw = {}
        if cfg["opts"]:
            kw["optargs"] = {"method": "trf", "max_nfev": 6, "xtol": 1e-6}
            owned.append(("optargs", kw["optargs"]))
        return (
            VarProDMD(
                svd_rank=cfg["svd_rank"],
                exact=cfg["exact"],
                sorted_eigs=cfg["sorted_eigs"],
                compression=cfg["compression"],
                **kw,
            ),
            owned,
        )

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["m"] = rng.choice([14, 18, 22])
            s["n"] = [rng.choice([5, 6])]
        s["dt"] = rng.choice([1.0, 0.5])
        s["t0"] = rng.choice([0.0, 0.0, 1.5])
        s["tj"] = rng.choice([0, 0, 1])
        return s

    def data(self, cfg, spec):
        t = time_axis(spec)
        return [
            ("X", spoil(layout(series(spec), spec.get("lay")), spec.get("bad"))),
            ("time", t),
        ]

    def reads(self, cfg):
        return [
            ["modes"],
            ["eigs"],
            ["amplitudes"],
            ["dynamics"],
            ["reconstructed_data"],
            ["snapshots"],
            ["snapshots_shape"],
            ["fitted"],
            ["modes_activation_bitmask"],
            ["frequency"],
            ["growth_rate"],
            ["original_time_arr"],
            ["dmd_time_arr"],
            ["forecast", 5],
            ["ssr"],
            ["selected_samples"],
            ["cost"],
        ]

    def read(self, m, rd, cfg):
        if rd[0] == "forecast":
            return m.forecast(own(np.linspace(0.0, 4.0 + rd[1], 7)))
        if rd[0] == "original_time_arr":
            return m.original_time
        if rd[0] == "dmd_time_arr":
            return m.dmd_time
        if rd[0] == "cost":
            return float(m.opt_stats.cost)
        return super().read(m, rd, cfg)


class LandoS(Subject):
    name = "LANDO"
    weight = 5
    stable = False
    random = True
    rtol = 1e-5
    products = (["f", 3], ["predict", 4], ["reconstructed_data"], ["nonlinear", 5])
    bads = ("nan", "one", "1d", "nan_end")

    def cfg(self, rng):
        c = pick(
            rng,
            kernel=["linear", "poly", "rbf", "user"],
            online=[False, True],
            permute=[True, False],
            lstsq=[True, False],
            dict_tol=[1e-3, 1e-2],
            x_rescale=[1.0, 0.5, "arr"],
            svd_rank=[0, -1, 3],
            tlsq_rank=[0, 0, 0, 3],
            analyze=[0, 1, 1, 2],
        )
        c["n"] = (
            [rng.choice([3, 4])] if rng.random() < 0.7 else [2, 2]
        )
        return c

    def make(self, cfg):
        kw = {
            k: cfg[k]
            for k in (
                "online",
                "permute",
                "lstsq",
                "dict_tol",
                "svd_rank",
                "tlsq_rank",
            )
        }
        owned = []
        if cfg["kernel"] == "user":
            kw["kernel_function"] = user_kernel
            kw["kernel_gradient"] = user_kernel_grad
        else:
            kw["kernel_metric"] = cfg["kernel"]
            p = {
                "linear": {},
                "poly": {"degree": 2, "coef0": 1.0, "gamma": 0.5},
                "rbf": {"gamma": 0.2} if cfg["lstsq"] else {},
            }[cfg["kernel"]]
            kw["kernel_params"] = p
            owned.append(("kernel_params", p))
        if cfg["x_rescale"] == "arr":
            r = arr(41, tuple(cfg["n"]), "pos")
            kw["x_rescale"] = r
            owned.append(("x_rescale", r))
        else:
            kw["x_rescale"] = cfg["x_rescale"]
        return LANDO(**kw), owned

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["m"] = rng.choice([10, 14])
        if rng.random() < 0.5:
            s["pair"] = 1
        else:
            s.pop("pair", None)
        return s

    def data(self, cfg, spec):
        return pair_data(self, cfg, spec)

    def after_fit(self, m, cfg, spec):
        if cfg["analyze"]:
            m.analyze_fixed_point(
                own(np.zeros(tuple(cfg["n"])) + 0.1),
                compute_A=cfg["analyze"] == 2,
            )

    def reads(self, cfg):
        return [
            ["modes"],
            ["eigs"],
            ["amplitudes"],
            ["dynamics"],
            ["reconstructed_data"],
            ["dmd_time"],
            ["original_time"],
            ["snapshots"],
            ["fitted"],
            ["partially_fitted"],
            ["sparse_dictionary"],
            ["f", 3],
            ["predict", 4],
            ["predict_c", 4],
            ["fixed_point"],
            ["bias"],
            ["linear"],
            ["nonlinear", 5],
            ["modes_activation_bitmask"],
            ["atilde"],
        ]

    def read(self, m, rd, cfg):
        k = rd[0]
        shape = tuple(cfg["n"])
        if k == "f":
            return m.f(arr(rd[1], shape + (3,)))
        if k == "predict":
            return m.predict(own(arr(rd[1], shape) * 0.3), 5, continuous=False)
        if k == "predict_c":
            return m.predict(
                own(arr(rd[1], shape) * 0.1),
                4,
                continuous=True,
                dt=0.05,
                solve_ivp_opts=own(
                    {"rtol": 1e-4} if cfg["svd_rank"] else {"atol": 1e-5}
                ),
            )
        if k == "nonlinear":
            return m.nonlinear(arr(rd[1], shape + (2,)))
        return super().read(m, rd, cfg)

    extra_ops = ("analyze", "update")

    def extra(self, cfg, rng, pool):
        if rng.random() < 0.5:
            return ["analyze", rng.randrange(50), rng.random() < 0.5]
        return ["update", self.spec(cfg, rng, like=pool[0])]

    def do_extra(self, m, op, cfg):
        if op[0] == "analyze":
            m.analyze_fixed_point(
                own(arr(op[1], tuple(cfg["n"])) * 0.2), compute_A=bool(op[2])
            )
        else:
            seed_global(op[1]["s"])
            m.update(*[own(v) for _, v in self.data(cfg, op[1])])


class HavokS(Subject):
    name = "HAVOK"
    weight = 3
    saves = "pickle"
    selectable = indexable = windowed = stable = False
    rtol = 1e-5
    products = (["reconstructed_data"], ["predict", 3])
    triple = ()
    bads = ("nan", "badtime", "nan_end", "short")

    def cfg(self, rng):
        c = pick(
            rng,
            svd_rank=[4, 5, 0, 3],
            delays=[6, 8, 10],
            lag=[1, 1, 2],
            num_chaos=[1, 1, 2],
            structured=[False, False, True],
            lstsq=[True, False],
            dmd=[None, None, None, "DMD", "BOP"],
        )
        return c

    def make(self, cfg):
        d = None
        if cfg["dmd"] == "DMD":
            d = DMD(svd_rank=-1)
        elif cfg["dmd"] == "BOP":
            d = BOPDMD(
                svd_rank=cfg["svd_rank"] if cfg["svd_rank"] else 4,
                varpro_opts_dict={"maxiter": 4, "tol": 1e-2},
            )
        return (
            HAVOK(
                dmd=d,
                **{
                    k: cfg[k]
                    for k in (
                        "svd_rank",
                        "delays",
                        "lag",
                        "num_chaos",
                        "structured",
                        "lstsq",
                    )
                },
            ),
            [],
        )

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["n"] = [rng.choice([1, 1, 2])]
            s["m"] = rng.choice([40, 50, 60])
        s["dt"] = rng.choice([0.1, 0.2])
        s["t0"] = rng.choice([0.0, 0.0, 1.5])
        s["tscalar"] = rng.choice([0, 1])
        return s

    def data(self, cfg, spec):
        x = series(spec)
        if spec["n"] == [1]:
            x = x[0]
        bad = spec.get("bad")
        t = time_axis(spec)
        if bad == "badtime":
            t = t[:-1]
        elif bad == "short":
            x = x[..., :5]
            t = t[:5]
        elif bad:
            x = np.array(x)
            x[..., spec["m"] // 2] = np.nan
        x = layout(x, spec.get("lay")) if x.ndim == 2 else x
        if spec["tscalar"] and bad != "badtime":
            t = spec["dt"]
        return [("X", x), ("t", t)]

    def reads(self, cfg):
        return [
            [k]
            for k in (
                "snapshots",
                "ho_snapshots",
                "time",
                "modes",
                "singular_vals",
                "delay_embeddings",
                "linear_dynamics",
                "forcing",
                "operator",
                "A",
                "B",
                "eigs",
                "r",
                "reconstructed_embeddings",
                "reconstructed_data",
            )
        ] + [["predict", 3], ["threshold", 0.1]]

    def read(self, m, rd, cfg):
        if rd[0] == "predict":
            f = m.forcing[: 8 + rd[1]]
            return m.predict(
                own(np.array(f)), own(np.array(m.time[: len(f)])), V0=0
            )
        if rd[0] == "threshold":
            return float(m.compute_threshold(p=rd[1], bins=12))
        return getattr(m, rd[0])


class ParamS(Subject):
    name = "ParametricDMD"
    weight = 4
    selectable = indexable = stable = False
    products = (["reconstructed_data"],)
    triple = ()
    bads = ("nan", "badparams", "nan_end")

    def cfg(self, rng):
        c = pick(
            rng,
            part=[0, 1],
            ntrain=[3, 4],
            rank=[3, 4],
            light=[False, True],
            approx=["lin", "rbf"],
            sub=["DMD", "DMD", "Hankel", "HODMD"],
            pdim=[1, 1, 2],
        )
        c["n"] = [rng.choice([6, 8])]
        return c

    def _sub(self, cfg):
        if cfg["sub"] == "Hankel":
            return HankelDMD(svd_rank=-1, d=2)
        if cfg["sub"] == "HODMD":
            return HODMD(svd_rank=-1, d=2, svd_rank_extra=-1)
        return DMD(svd_rank=-1, opt=True)

    def make(self, cfg):
        from ezyrb import POD, RBF

        owned = []
        if cfg["part"]:
            d = [self._sub(cfg) for _ in range(cfg["ntrain"])]
        else:
            d = self._sub(cfg)
        ap = LinearApprox() if cfg["approx"] == "lin" else RBF()
        m = ParametricDMD(d, POD(rank=cfg["rank"]), ap, light=cfg["light"])
        return m, owned

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["n"] = list(cfg["n"])
            s["m"] = rng.choice([10, 12, 15])
        s["plist"] = rng.choice([0, 1])
        return s

    def data(self, cfg, spec):
        g = np.random.default_rng([17, spec["s"]])
        p = np.sort(g.random(cfg["ntrain"]))
        base = series(dict(spec))
        alt = series(dict(spec, s=spec["s"] + 5000))
        X = np.stack([base + q * alt for q in p])
        bad = spec.get("bad")
        if bad in ("nan", "nan_end"):
            X[-1, 0, -1] = np.nan
        if cfg["pdim"] == 2:
            p = np.column_stack([p, g.random(len(p))])
        if bad == "badparams":
            p = p[:-1]
        p = [list(map(float, np.atleast_1d(q))) for q in p] if spec["plist"] else p
        return [("X", layout(X, spec.get("lay"))), ("training_parameters", p)]

    def after_fit(self, m, cfg, spec):
        m.parameters = own(self.params(cfg, 1))

    def params(self, cfg, seed, k=2):
        return np.random.default_rng([19, seed]).random((k, cfg["pdim"]))

    extra_ops = ("params",)

    def extra(self, cfg, rng, pool):
        return ["params", rng.randrange(40), rng.choice([1, 2, 3])]

    def do_extra(self, m, op, cfg):
        m.parameters = own(self.params(cfg, op[1], op[2]))

    def reads(self, cfg):
        r = [
            ["dmd_time"],
            ["original_time"],
            ["dmd_timesteps"],
            ["training_parameters"],
            ["parameters"],
            ["forecasted_modal_coefficients"],
            ["interpolated_modal_coefficients"],
            ["reconstructed_data"],
        ]
        if not cfg["light"]:
            r.append(["training_modal_coefficients"])
        return r


class WrapS(DmdS):
    """A DMD behind one or two preprocessing layers."""

    name = "PrePost"
    weight = 4
    pairable = False
    indexable = False
    products = (["reconstructed_data"],)

    def cfg(self, rng):
        c = super().cfg(rng)
        c.pop("nd", None)
        c.pop("n", None)
        if c["rescale_mode"] == "arr":
            c["rescale_mode"] = None
        c["inner"] = rng.choice(["DMD", "DMD", "RDMD", "SpDMD"])
        c["layers"] = [
            rng.choice(["zero", "zero1", "svd", "rand", "hankel"])
            for _ in range(rng.choice([1, 1, 2]))
        ]
        return c

    def make(self, cfg):
        if cfg["inner"] == "DMD":
            m, owned = super().make(cfg)
        elif cfg["inner"] == "RDMD":
            m, owned = (
                RDMD(svd_rank=4, seed=3, oversampling=2, opt=bool(cfg["opt"])),
                [],
            )
        else:
            m, owned = (
                SpDMD(
                    svd_rank=4, gamma=0.5, verbose=False, max_iterations=20
                ),
                [],
            )
        for L in cfg["layers"]:
            if L == "zero":
                m = zero_mean_preprocessing(m)
            elif L == "zero1":
                m = zero_mean_preprocessing(m, axis=1)
            elif L == "svd":
                m = svd_projection_preprocessing(m, 5)
            elif L == "rand":
                m = randomized_preprocessing(
                    m, svd_rank=4, oversampling=2, seed=5
                )
            elif L == "hankel":
                m = hankel_preprocessing(m, d=2, reconstruction_method="mean")
        return m, owned

    def spec(self, cfg, rng, like=None):
        s = Subject.spec(self, cfg, rng, like)
        if like is None:
            s["n"] = [rng.choice([6, 8, 9])]
            s["m"] = rng.choice([12, 15, 18])
            s["mean"] = 1
        return s

    def reads(self, cfg):
        return BASE_READS


class CostsS(Subject):
    name = "COSTS"
    weight = 3
    heavy = True
    saves = "pickle"
    selectable = indexable = windowed = stable = False
    rtol = 1e-5
    products = (["scale_reconstruction"], ["global_reconstruction"])
    triple = (["modes_array"], ["omega_array"], ["amplitudes_array"])
    bads = ("nan", "badtime", "window")

    def cfg(self, rng):
        c = pick(
            rng,
            svd_rank=[4, 4, 2],
            global_svd=[True, True, False],
            kw=[None, "dict", "stable", "trials"],
            use_last_freq=[False, False, True],
            reset_alpha_init=[False, False, True],
            ncomp=[2, 2, 3],
            tm=["absolute", "square_frequencies", "log10"],
            cluster=[1, 1, 1, 0],
            window=[14, 16],
            step=[7, 8, 9],
        )
        c["n"] = [rng.choice([4, 5])]
        return c

    def kwargs(self, cfg):
        opts = {"maxiter": 4, "tol": 1e-2}
        k = {} if cfg.get("noopts") else {"varpro_opts_dict": opts}
        if cfg["kw"] == "stable":
            k["eig_constraints"] = {"stable"}
        elif cfg["kw"] == "trials":
            k["eig_constraints"] = {"conjugate_pairs", "stable"}
            k["use_proj"] = True
        elif cfg["kw"] == "dict":
            k["eig_sort"] = "abs"
            k["eig_constraints"] = {"imag"}
        return k

    def make(self, cfg):
        kw = self.kwargs(cfg)
        m = COSTS(
            svd_rank=cfg["svd_rank"],
            global_svd=cfg["global_svd"],
            use_last_freq=cfg["use_last_freq"],
            reset_alpha_init=cfg["reset_alpha_init"],
            pydmd_kwargs=kw,
        )
        return m, [("pydmd_kwargs", kw)]

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["m"] = rng.choice([34, 40])
            s["t0"] = rng.choice([0.0, 0.0, 2.0])
            if rng.random() < 0.7:
                s["n"] = list(cfg["n"])
            else:
                s["n"] = [rng.choice([4, 5, 6])]
        return s

    def data(self, cfg, spec):
        x = series(spec)
        t = time_axis(dict(dt=0.5, m=spec["m"], t0=spec.get("t0", 0.0)))[None]
        bad = spec.get("bad")
        w = cfg["window"]
        if bad == "nan":
            x[0, -3] = np.nan
        elif bad == "badtime":
            t = t[:, :-1]
        elif bad == "window":
            w = spec["m"] + 5
        return [
            ("data", layout(x, spec.get("lay"))),
            ("time", t),
            ("window_length", w),
            ("step_size", cfg["step"]),
        ]

    def after_fit(self, m, cfg, spec):
        if cfg["cluster"]:
            m.cluster_omega(cfg["ncomp"], transform_method=cfg["tm"])

    def reads(self, cfg):
        return [
            [k]
            for k in (
                "svd_rank",
                "window_length",
                "step_size",
                "n_slides",
                "modes_array",
                "amplitudes_array",
                "omega_array",
                "time_array",
                "window_means_array",
                "n_components",
                "cluster_centroids",
                "omega_classes",
                "periods",
                "scale_reconstruction",
                "global_reconstruction",
                "scale_separation",
                "to_xarray",
            )
        ]

    def read(self, m, rd, cfg):
        k = rd[0]
        if k == "to_xarray":
            ds = m.to_xarray()
            return {
                "vars": {v: ds[v].values for v in ds.variables},
                "attrs": {a: _plain(b) for a, b in ds.attrs.items()},
            }
        if k in (
            "periods",
            "scale_reconstruction",
            "global_reconstruction",
            "scale_separation",
        ):
            v = getattr(m, k)()
            return list(v) if isinstance(v, tuple) else v
        return getattr(m, k)

    def extra(self, cfg, rng, pool):
        return [
            rng.choice(["cluster", "cluster", "csweep"]),
            rng.choice([2, 3]),
            rng.choice(["absolute", "square_frequencies"]),
            rng.choice([None, {}, {"n_init": 2}, {"random_state": 4}]),
        ]

    extra_ops = ("cluster",)

    def do_extra(self, m, op, cfg):
        kw = None if len(op) < 4 or op[3] is None else own(dict(op[3]))
        seed_global(op[1] + 71)
        if op[0] == "cluster":
            m.cluster_omega(op[1], kmeans_kwargs=kw, transform_method=op[2])
        else:
            m.cluster_hyperparameter_sweep(
                n_components_range=own(np.arange(2, 4)),
                transform_method=op[2],
                clustering_kwargs=kw,
            )


def _plain(b):
    if isinstance(b, (list, tuple)):
        return sorted(map(str, b))
    if isinstance(b, dict):
        return repr(sorted(b.items()))
    return b


class MrCostsS(Subject):
    name = "mrCOSTS"
    weight = 2
    heavy = True
    saves = "pickle"
    selectable = indexable = windowed = stable = False
    rtol = 1e-5
    products = (["global_scale_reconstruction"], ["global_reconstruction"])
    triple = (["ragged_modes"], ["ragged_omega"], ["ragged_amplitudes"])
    bads = ("nan", "badtime")

    def cfg(self, rng):
        c = pick(
            rng,
            windows=[[12, 20], [12, 16], [14, 24], [10, 14, 20]],
            rank=[4, 4, "mixed"],
            gsvd=[None, None, "mixed"],
            ncomp=[2, 2, 3],
            sweep=[0, 0, 0, 1],
            tm=["absolute", "square_frequencies", None],
            glob=[0, 2, 3],
        )
        if c["sweep"] or c["tm"] is None:
            c["tm"] = "absolute"
        c["n"] = [rng.choice([4, 5])]
        return c

    def make(self, cfg):
        L = len(cfg["windows"])
        kw = {
            "varpro_opts_dict": {"maxiter": 3, "tol": 1e-2},
            "eig_constraints": {"stable"},
        }
        if cfg.get("noopts"):
            kw.pop("varpro_opts_dict")
        ranks = [4] * L if cfg["rank"] == 4 else [4] + [2] * (L - 1)
        if cfg["sweep"]:
            ranks = [4] * L
        gs = None if cfg["gsvd"] is None else [i % 2 == 0 for i in range(L)]
        recon = {"include_means": True} if cfg["glob"] == 2 else {}
        owned = [("pydmd_kwargs", kw), ("costs_recon_kwargs", recon)]
        args = dict(
            costs_recon_kwargs=recon,
            window_length_array=list(cfg["windows"]),
            step_size_array=[w // 2 for w in cfg["windows"]],
            svd_rank_array=ranks,
            global_svd_array=gs,
            n_components_array=None if cfg["sweep"] else [cfg["ncomp"]] * L,
            cluster_sweep=bool(cfg["sweep"]),
            transform_method=cfg["tm"],
        )
        owned += [(k, v) for k, v in args.items() if isinstance(v, list)]
        return mrCOSTS(pydmd_kwargs=kw, **args), owned

    def spec(self, cfg, rng, like=None):
        s = super().spec(cfg, rng, like)
        if like is None:
            s["m"] = rng.choice([36, 40])
            s["t0"] = rng.choice([0.0, 0.0, 2.0])
            s["n"] = list(cfg["n"])
        return s

    def data(self, cfg, spec):
        x = series(spec)
        t = time_axis(dict(dt=0.5, m=spec["m"], t0=spec.get("t0", 0.0)))[None]
        bad = spec.get("bad")
        if bad == "nan":
            x[0, -3] = np.nan
        elif bad == "badtime":
            t = t[:, :-1]
        return [
            ("data", layout(x, spec.get("lay"))),
            ("time", t),
            ("verbose", False),
        ]

    def after_fit(self, m, cfg, spec):
        if cfg["glob"]:
            m.global_cluster_omega(
                n_components=cfg["glob"], transform_method="absolute"
            )

    def reads(self, cfg):
        return [
            [k]
            for k in (
                "n_decompositions",
                "window_length_array",
                "step_size_array",
                "svd_rank_array",
                "n_components_array",
                "transform_method",
                "ragged_modes",
                "ragged_omega",
                "ragged_amplitudes",
                "level_classes",
                "level_centroids",
                "level_recon",
                "n_components_global",
                "cluster_centroids",
                "omega_classes_interpolated",
                "ragged_omega_classes",
                "global_scale_reconstruction",
                "global_reconstruction",
                "get_background",
            )
        ]

    def read(self, m, rd, cfg):
        k = rd[0]
        if k == "ragged_modes":
            return m.ragged_modes_array
        if k == "ragged_omega":
            return m.ragged_omega_array
        if k == "ragged_amplitudes":
            return m.ragged_amplitudes_array
        if k == "level_classes":
            return [c.omega_classes for c in m.costs_array]
        if k == "level_centroids":
            return [c.cluster_centroids for c in m.costs_array]
        if k == "level_recon":
            return [c.global_reconstruction() for c in m.costs_array]
        if k in ("global_scale_reconstruction", "global_reconstruction", "get_background"):
            return getattr(m, k)()
        v = getattr(m, k)
        if isinstance(v, (list, tuple)):
            return [float(x) if np.isscalar(x) else x for x in v]
        return v

    extra_ops = ("gcluster",)

    def extra(self, cfg, rng, pool):
        return [
            rng.choice(["gcluster", "gcluster", "gsweep"]),
            rng.choice([2, 3, 4]),
            rng.choice([None, {}, {"n_init": 2}, {"random_state": 4}]),
        ]

    def do_extra(self, m, op, cfg):
        kw = None if len(op) < 3 or op[2] is None else own(dict(op[2]))
        seed_global(op[1] + 73)
        if op[0] == "gcluster":
            m.global_cluster_omega(
                n_components=op[1],
                transform_method="absolute",
                clustering_kwargs=kw,
            )
        else:
            m.global_cluster_hyperparameter_sweep(
                own(np.arange(2, 4)),
                transform_method="absolute",
                clustering_kwargs=kw,
                verbose=False,
            )


ALL = [
    DmdS(),
    FbS(),
    HankelS(),
    HodmdS(),
    CdmdS(),
    RdmdS(),
    SpS(),
    SubspaceS(),
    OptS(),
    EdmdS(),
    PiS(),
    DmdcS(),
    MrS(),
    BopS(),
    BopEconS(),
    VarproS(),
    LandoS(),
    HavokS(),
    ParamS(),
    WrapS(),
    CostsS(),
    MrCostsS(),
]
BY_NAME = {s.name: s for s in ALL}


def choose(rng, subjects=None, heavy_factor=1.0):
    subs = subjects or ALL
    w = [s.weight * (heavy_factor if s.heavy else 1.0) for s in subs]
    return rng.choices(subs, weights=w)[0]
