"""C12: bagged fits average exactly the requested successful trials.

The trials of a bagged fit are steered and watched through what a user may
supply: the eigenvalue constraint (called first in every trial, with the
starting eigenvalues) decides whether a trial can converge, and the proximal
operator on the modes shows, through the data's unit rows, which snapshots a
trial works on.  The expected result is assembled from independent
single-trial fits on the observed subsets."""
import sys
import warnings

import numpy as np

from sim import faults
from sim.compare import same
from sim.core import Skip, Violation, derive
from sim.subjects import arr

ID = "C12"
RUNS = {"quick": 3000, "thorough": 40000}
STATE_MEASURE = (
    "hash of (trials wanted, limits, removal, sequence of outcomes of the "
    "trials, outcome of the fit)"
)


class Endless(Exception):
    """More trials than the property allows."""


def plan_fit(rng, m):
    n = rng.choice([1, 2, 3, 3, 5, 8, 12])
    remove = rng.random() < 0.8
    bag_warning = rng.choice([-1, 1, 2, 3, 4, 100])
    bag_maxfail = rng.choice([-1, 1, 2, 3, 4, 5, 200])
    p = rng.choice([0.0, 0.2, 0.5, 0.8])
    pattern = []
    for _ in range(rng.choice([n, n + 4, 2 * n + 6])):
        pattern.append("F" if rng.random() < p else rng.choice("PPPN"))
    # runs of failures that end just below, at and above the limits
    for lim in (bag_warning, bag_maxfail):
        if 0 < lim < 10 and rng.random() < 0.6:
            run = max(0, lim + rng.choice([-1, -1, 0, 1]))
            at = rng.randrange(len(pattern) + 1)
            pattern[at:at] = (
                ["P"] + ["F"] * run + ["P"] * rng.choice([0, 1])
            ) * rng.choice([1, 1, 2, 3])
    return {
        "num_trials": n if rng.random() > 0.04 else 0,
        "remove": remove,
        "bag_warning": bag_warning,
        "bag_maxfail": bag_maxfail,
        "pattern": "".join(pattern[:60]),
    }


def plan_model(rng):
    m = rng.choice([9, 12, 16, 20])
    size = rng.choice([0.5, 0.6, 0.8, 0.34, 6, m - 1, m - 2, 7])
    proj = rng.choice([0, 0, 0, 1, 1, "econ"])
    r = rng.choice([1, 2, 2, 3])
    while (int(size * m) if size < 1 else size) < r + 3:
        size = rng.choice([0.6, 0.8, 7, m - 1])
    if r == 1 and proj == "econ":
        r = 2
    fits = [plan_fit(rng, m) for _ in range(rng.choice([1, 1, 2, 3]))]
    # one object: the constructor decides these
    for f in fits[1:]:
        for k in ("num_trials", "remove", "bag_warning", "bag_maxfail"):
            f[k] = fits[0][k]
    return {
        "m": m,
        "r": r,
        "size": size,
        "proj": proj,
        "eig_sort": rng.choice(["auto", "real", "imag", "abs", "auto"]),
        "compute_A": rng.random() < 0.3,
        "verbose": rng.random() < 0.15,
        "prox": rng.random() < 0.5,
        "data": [rng.randrange(50) for _ in fits],
        "uneven": rng.random() < 0.3,
        "opts": rng.choice(
            [{}, {"use_fulljac": False}, {"use_levmarq": False}]
        ),
        "fits": fits,
    }


def plan(rng, i, tier):
    sc = {"subject": "BOPDMD", "models": [plan_model(rng)], "seed": rng.randrange(10**6)}
    if rng.random() < 0.15:
        sc["models"].append(plan_model(rng))
        for mm in sc["models"]:
            mm["proj"] = 0
            mm["verbose"] = False
            mm["fits"] = mm["fits"][:1]
            mm["fits"][0]["pattern"] = mm["fits"][0]["pattern"][:12]
        sc["schedule"] = {
            "grain": "line",
            "p": rng.choice([0.002, 0.02, 0.1]),
            "seed": rng.randrange(10**6),
        }
    return sc


def dataset(mc, k):
    m, r = mc["m"], mc["r"]
    g = np.random.default_rng([101, mc["data"][k], m, r])
    t = np.linspace(0, 2, m)
    if mc["uneven"]:
        t = np.sort(t + 0.03 * g.standard_normal(m))
    om = 1j * (1.0 + 2.1 * np.arange(r)) - 0.1 * np.arange(1, r + 1)
    W = g.standard_normal((4, r)) + 1j * g.standard_normal((4, r))
    sig = (W @ np.exp(np.outer(om, t))) + 1e-3 * g.standard_normal((4, m))
    X = np.vstack([sig, 1e-2 * np.eye(m)])
    init = om * (1 + 0.02 * g.standard_normal(r)) + 0.01
    return X, t, init


class Watch:
    """The functions handed to one bagged fit, and what they saw."""

    def __init__(self, mc, fit, e0, n0):
        self.mc, self.fit, self.e0 = mc, fit, e0
        self.n0 = n0  # calls made by the fit on all data
        self.calls = 0
        self.kinds = []  # script letter of every trial started
        self.subsets = []  # snapshots of every trial (None: not seen)
        self.events = []
        self.cur = None
        self.limit = len(fit["pattern"]) + fit["num_trials"] + 40
        w = self

        def constraint(x):
            return w._constraint(x)

        def prox(B):
            w._prox(B)
            return B

        self.constraint, self.prox = constraint, prox

    def _constraint(self, x):
        x = np.asarray(x)
        self.calls += 1
        if self.calls > self.n0 and np.array_equal(x, self.e0):
            k = len(self.kinds)
            pat = self.fit["pattern"]
            self.cur = pat[k] if k < len(pat) else "P"
            self.kinds.append(self.cur)
            self.subsets.append(None)
            self.events.append("trial")
            if k > self.limit:
                raise Endless()
            return scripted(self.cur, x, True)
        return scripted(self.cur, x, False)

    def _prox(self, B):
        if not self.kinds or self.mc["proj"]:
            return
        seen = np.flatnonzero(np.abs(np.asarray(B)[:, 4:]).max(axis=0) > 0)
        old = self.subsets[-1]
        if old is not None and not np.array_equal(old, seen):
            raise Violation(
                "a trial changes its snapshots half-way",
                "BOPDMD",
                f"{list(old)} then {list(seen)}",
            )
        self.subsets[-1] = seen


def scripted(letter, x, first):
    if letter == "F":
        return 1j * (40.0 + 7 * np.arange(len(x)))
    if letter == "P" and first:
        return x * 1.03 + 0.05
    if letter == "N" and first:
        return x * (1 + 1e-6)
    return x


def build(mc, fit, constraint, prox, init, basis=None, bag=True):
    from pydmd import BOPDMD

    opts = dict(tol=0.2, maxiter=20, **mc["opts"])
    if bag and mc["verbose"]:
        opts["verbose"] = True
    kw = {}
    if basis is not None:
        kw["proj_basis"] = basis
    if prox is not None and (mc["prox"] or not mc["proj"]):
        kw["mode_prox"] = prox
    return BOPDMD(
        svd_rank=mc["r"],
        use_proj=bool(mc["proj"]),
        compute_A=mc["compute_A"],
        init_alpha=np.array(init),
        num_trials=fit["num_trials"] if bag else 0,
        trial_size=mc["size"],
        eig_sort=mc["eig_sort"],
        eig_constraints=constraint,
        remove_bad_bags=fit["remove"],
        bag_warning=fit["bag_warning"],
        bag_maxfail=fit["bag_maxfail"],
        varpro_opts_dict=opts,
        **kw,
    )


def svd_of(mc, X):
    U, s, V = np.linalg.svd(X, full_matrices=False)
    r = mc["r"]
    return U[:, :r], s[:r], V[:r]


def run_fit(model, mc, X, t, cols=None):
    if mc["proj"] == "econ":
        _, s, V = svd_of(mc, X)
        if cols is not None:
            V, t = V[:, cols], t[cols]
        return model.fit_econ(s, V, t)
    if cols is not None:
        X, t = X[:, cols], t[cols]
    return model.fit(X, t)


def basis_of(mc, X):
    return svd_of(mc, X)[0] if mc["proj"] else None


def single(mc, fit, X, t, cols, letter, init):
    """(modes, eigenvalues, amplitudes, converged) of one trial on its own."""
    first, count = [True], [0]

    def constraint(x):
        f, first[0] = first[0], False
        count[0] += 1
        return scripted(letter, np.asarray(x), f)

    def prox(B):
        return B

    m = build(mc, fit, constraint, prox, init, basis_of(mc, X), bag=False)
    first[0] = True  # the constructor tries the function as well
    count[0] = 0
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        run_fit(m, mc, X, t, cols)
    conv = not any("converge" in str(w.message) for w in ws)
    return (
        np.array(m.modes),
        np.array(m.eigs),
        np.array(m.amplitudes),
        conv,
        count[0],
    )


def order(rule, e):
    if rule == "real":
        return np.argsort(e)
    if rule == "imag":
        return np.lexsort((e.real, e.imag))
    return np.argsort(np.abs(e))


def rule_for(mc, e):
    if mc["eig_sort"] != "auto":
        return mc["eig_sort"]
    v = [np.var(e.real), np.var(e.imag), np.var(np.abs(e))]
    return ("real", "imag", "abs")[int(np.argmax(v))]


class Spy:
    """Records the subsets drawn through numpy.random.choice (only used where
    the modes do not show them)."""

    def __init__(self, watch_of):
        self.watch_of = watch_of
        self.draws = []

    def __enter__(self):
        self.real = np.random.choice

        def choice(*a, **k):
            out = self.real(*a, **k)
            self.draws.append(np.sort(np.array(out).ravel()))
            return out

        np.random.choice = choice
        return self

    def __exit__(self, *a):
        np.random.choice = self.real
        return False


class Out:
    """Standard output of a fit, as events of its watch."""

    def __init__(self, w):
        self.w = w
        self.buf = ""

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            if line.strip():
                self.w.events.append(["said", line])
        return len(s)

    def flush(self):
        pass


def prepare(mc, k):
    fit = mc["fits"][k]
    X, t, init = dataset(mc, k)
    try:
        _, e0, _, _, n0 = single(mc, fit, X, t, None, "", init)
    except Exception as e:
        raise Skip(f"no optimised fit: {type(e).__name__}")
    if not np.all(np.isfinite(e0)) or np.array_equal(e0, init):
        raise Skip("no usable first fit")
    return fit, X, t, init, e0, Watch(mc, fit, e0, n0)


def execute(sc, ctx):
    np.random.seed(sc["seed"])
    if len(sc["models"]) == 1:
        history(sc["models"][0], ctx)
    else:
        threads(sc, ctx)


def history(mc, ctx):
    model, swap = None, {}

    # one object keeps its functions for good; they look up the current fit
    def constraint(x):
        return swap["w"].constraint(x) if "w" in swap else x

    def prox(B):
        return swap["w"].prox(B) if "w" in swap else B

    for k in range(len(mc["fits"])):
        fit, X, t, init, e0, w = prepare(mc, k)
        if model is None:
            swap.pop("w", None)
            model = build(mc, fit, constraint, prox, init, basis_of(mc, X))
        else:
            model.init_alpha = np.array(init)
            if mc["proj"]:
                model.proj_basis = basis_of(mc, X)
        swap["w"] = w
        old, sys.stdout = sys.stdout, Out(w)
        try:
            with Spy(w) as spy, warnings.catch_warnings():
                warnings.simplefilter("always")
                warnings.showwarning = lambda msg, *a, **kw: w.events.append(
                    ["warned", str(msg)]
                )
                try:
                    run_fit(model, mc, X, t)
                    outcome = "ok"
                except Endless:
                    outcome = "endless"
                except RuntimeError as e:
                    outcome = "stopped"
                except (ValueError, np.linalg.LinAlgError) as e:
                    outcome = f"{type(e).__name__}: {e}"
        finally:
            sys.stdout = old
            swap.pop("w")
        judge(mc, fit, X, t, init, e0, w, spy.draws, outcome, model, ctx)


def threads(sc, ctx):
    made = []
    for mc in sc["models"]:
        fit, X, t, init, e0, w = prepare(mc, 0)
        first = {}

        def constraint(x, w=w, first=first):
            return w.constraint(x) if first else x

        model = build(mc, fit, constraint, w.prox, init, basis_of(mc, X))
        first["on"] = True
        made.append((mc, fit, X, t, init, e0, w, model))

    def body(x):
        mc, fit, X, t, init, e0, w, model = x

        def go():
            try:
                run_fit(model, mc, X, t)
                return "ok"
            except Endless:
                return "endless"
            except RuntimeError:
                return "stopped"
            except (ValueError, np.linalg.LinAlgError) as e:
                return f"{type(e).__name__}: {e}"

        return go

    sch = sc["schedule"]
    b = faults.Baton(
        [body(x) for x in made], sch, derive("c12", sch.get("seed", 0)), ctx
    )
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = b.run()
    ctx.fault("thread-switches")
    for x, r in zip(made, res):
        if r[0] != "ok":
            raise r[1]
        mc, fit, X, t, init, e0, w, model = x
        judge(
            mc, fit, X, t, init, e0, w, [], r[1], model, ctx, said=False
        )


def wanted_size(mc):
    s = mc["size"]
    return int(s * mc["m"]) if 0 < s < 1 else s


def judge(mc, fit, X, t, init, e0, w, draws, outcome, model, ctx, said=True):
    n, N = len(w.kinds), fit["num_trials"]
    where = "BOPDMD"
    ctx.steps += n + 1
    ctx.log("fit", outcome.split(":")[0], "".join(w.kinds))
    say = f"script {''.join(w.kinds)}, {fit}, size {mc['size']} of {mc['m']}"
    if outcome.startswith("LinAlgError"):
        raise Skip("the fit is not possible: " + outcome)
    if outcome not in ("ok", "stopped", "endless"):
        raise Violation(
            "an operation that has to succeed raises",
            where,
            f"{outcome}; {say}",
        )
    if outcome == "endless":
        raise Violation("a bagged fit does not end", where, say)
    if N == 0:
        if n:
            raise Violation("trials without bagging", where, say)
        return
    if n == 0:
        # the trials do not start from the first fit: nothing to steer
        raise Skip("trials cannot be told apart")
    # the subsets
    size = wanted_size(mc)
    if mc["proj"]:
        if len(draws) != n:
            ctx.probe("subsets not visible")
            raise Skip("subsets not visible")
        w.subsets = draws
    for S in w.subsets:
        if S is None:
            raise Skip("subsets not visible")
        if len(set(S.tolist())) != size:
            raise Violation(
                "a trial does not use the requested number of distinct "
                "snapshots",
                where,
                f"{S.tolist()}; {say}",
            )
    ctx.probe("subsets checked", n)
    if n >= 4 and 2 <= size <= mc["m"] - 2:
        if len({tuple(S.tolist()) for S in w.subsets}) == 1:
            raise Violation("all trials use one subset", where, say)
    # what must have happened
    memo = {}

    def trial(j, Xp):
        key = (w.kinds[j], tuple(w.subsets[j].tolist()))
        if key not in memo:
            memo[key] = single(mc, fit, Xp, t, w.subsets[j], w.kinds[j], e0)
        return memo[key]

    try:
        refs = [trial(j, X) for j in range(n)]
    except Exception as e:
        raise Skip(f"no independent trial: {type(e).__name__}")
    done, fails, warned, stop, used = 0, 0, [], None, []
    for j, (_, _, _, conv, _) in enumerate(refs):
        if done == N:
            break
        if conv or not fit["remove"]:
            done, fails = done + 1, 0
            used.append(j)
        else:
            fails += 1
            ctx.fault("trial without convergence")
            if fails == fit["bag_warning"] and not warned:
                warned.append(j)
            if fails == fit["bag_maxfail"]:
                stop = j
                break
    ctx.state(
        N,
        fit["remove"],
        fit["bag_warning"],
        fit["bag_maxfail"],
        "".join("s" if r[3] else "f" for r in refs),
        outcome,
    )
    seq = "".join("s" if r[3] else "f" for r in refs)
    if stop is not None:
        if outcome != "stopped" or n != stop + 1:
            raise Violation(
                "the limit of consecutive failures does not stop the fit",
                where,
                f"trials {seq}, outcome {outcome}; {say}",
            )
    elif outcome == "stopped":
        raise Violation(
            "a bagged fit stops without reason", where, f"trials {seq}; {say}"
        )
    elif done < N or n != used[-1] + 1:
        raise Violation(
            "a bagged fit makes too few or too many trials",
            where,
            f"trials {seq}; {say}",
        )
    ctx.probe("trial sequences checked")
    if said and not mc["verbose"]:
        # silence, except one message where it is due
        heard, j = [], -1
        for e in w.events:
            if e == "trial":
                j += 1
            elif j >= 0:
                heard.append(j)
        if heard != warned:
            raise Violation(
                "warnings about failing trials are wrong",
                where,
                f"heard after trials {heard}, due after {warned}; "
                f"trials {seq}; {say}",
            )
        ctx.probe("warnings checked", len(warned))
    if stop is not None:
        ctx.nontrivial = True
        return

    def expected(Xp):
        memo.clear()
        rs = [trial(j, Xp) for j in used]
        rule = rule_for(mc, rs[0][1])
        ws, es, bs = [], [], []
        for wi, ei, bi, _, _ in rs:
            o = order(rule, ei)
            ws.append(wi[:, o])
            es.append(ei[o])
            bs.append(bi[o])
        ex = {}
        for name, v in (("modes", ws), ("eigs", es), ("amplitudes", bs)):
            v = np.array(v)
            ex[name] = v.mean(axis=0)
            ex[name + " variance"] = np.mean(np.abs(v) ** 2, axis=0) - np.abs(
                ex[name]
            ) ** 2
            ex[name + " scale"] = max(np.abs(v).max(), 1e-30)
        ex["A"] = (
            (ex["modes"] * ex["eigs"]) @ np.linalg.pinv(ex["modes"])
            if mc["compute_A"]
            else None
        )
        return ex

    ex = expected(X)
    got = {
        "modes": np.array(model.modes),
        "eigs": np.array(model.eigs),
        "amplitudes": np.array(model.amplitudes),
        "modes variance": np.array(model.modes_std) ** 2,
        "eigs variance": np.array(model.eigenvalues_std) ** 2,
        "amplitudes variance": np.array(model.amplitudes_std) ** 2,
        "A": np.array(model.A) if mc["compute_A"] else None,
    }
    more = None
    for name, v in got.items():
        if v is None:
            continue
        s = ex.get(name.split()[0] + " scale", 1.0)
        s = s**2 if "variance" in name else s
        if name == "A":
            s = np.abs(ex["A"]).max()
        d = np.abs(v - ex[name]).max() if v.shape == ex[name].shape else np.inf
        if d <= 1e-7 * s:
            continue
        if more is None:
            more = []
            for k in (1, 2, 3):
                g = np.random.default_rng([31, k])
                try:
                    more.append(
                        expected(X * (1 + 1e-13 * g.standard_normal(X.shape)))
                    )
                except Exception:
                    more.append(None)
        if any(
            x is None
            or x[name].shape != ex[name].shape
            or np.abs(x[name] - ex[name]).max() > 3e-9 * s
            for x in more
        ):
            ctx.probe("ill-conditioned answer set aside")
            continue
        raise Violation(
            "the result is not the average of the contributing trials",
            where,
            f"{name}: off by {d:.3g} at scale {s:.3g}; trials {seq}; {say}",
        )
    ctx.probe("averages checked")
    ctx.nontrivial = True


def shrink(sc):
    ms = sc["models"]
    if len(ms) > 1:
        for mm in ms:
            yield {k: v for k, v in dict(sc, models=[mm]).items() if k != "schedule"}
        for p in (0.0,):
            if sc["schedule"].get("p"):
                yield dict(sc, schedule=dict(sc["schedule"], p=p))
        return
    mc = ms[0]

    def with_(**k):
        return dict(sc, models=[dict(mc, **k)])

    if len(mc["fits"]) > 1:
        for i in range(len(mc["fits"])):
            yield with_(
                fits=mc["fits"][:i] + mc["fits"][i + 1 :],
                data=mc["data"][:i] + mc["data"][i + 1 :],
            )
    for i, f in enumerate(mc["fits"]):
        pat = f["pattern"]
        cands = [pat[: len(pat) // 2]]
        cands += [pat[:j] + pat[j + 1 :] for j in range(len(pat))]
        cands += [
            pat[:j] + "P" + pat[j + 1 :]
            for j in range(len(pat))
            if pat[j] != "P"
        ]
        for c in cands:
            if c != pat:
                yield with_(
                    fits=mc["fits"][:i]
                    + [dict(f, pattern=c)]
                    + mc["fits"][i + 1 :]
                )
    if mc["fits"][0]["num_trials"] > 1:
        yield with_(
            fits=[
                dict(f, num_trials=f["num_trials"] - 1) for f in mc["fits"]
            ]
        )
    for k, v in (
        ("proj", 0),
        ("verbose", False),
        ("compute_A", False),
        ("prox", False),
        ("uneven", False),
        ("eig_sort", "real"),
        ("opts", {}),
    ):
        if mc[k] != v:
            yield with_(**{k: v})
