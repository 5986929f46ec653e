"""C09: a query depends only on the fit and the current query settings."""
import copy

import numpy as np

from sim.compare import Raised, same
from sim.core import Skip, Violation
from sim.history import (
    Runner,
    bits,
    plan_fault,
    shrink_cfg,
    shrink_ops,
    vary_layout,
)
from sim.oracle import judged
from sim.subjects import ALL, BY_NAME, arr, choose, observe, own

ID = "C09"
RUNS = {"quick": 1800, "thorough": 30000}
STATE_MEASURE = (
    "hash of (model class, fit, mask, time axis, window, parameters, kinds of "
    "the last operations)"
)
SUBS = list(ALL)
DTS = [1, 1, 1, 2, 0.5, 3, 1.5]


def plan_window(rng):
    return [rng.choice([0, 0, 1, 2, 3, 6, 2.5]), rng.choice([0, 3, 5, 9, 14, 30]), rng.choice(DTS)]


def plan(rng, i, tier):
    subj = choose(rng, SUBS, heavy_factor=0.25)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    n = rng.choice([1, 3, 5, 8, 12]) if not subj.heavy else rng.choice([2, 4])
    ops = []
    for _ in range(n):
        menu = ["read"] * 3 + ["fread"] * 3 + ["badcall", "fit"]
        if subj.windowed:
            menu += ["win"] * 5 + ["key"] * 3 + ["badkey", "badwin", "badwin"]
            menu += ["axis", "back", "back"]
        if subj.selectable:
            menu += ["mask", "mask", "badmask"]
        if subj.name == "ParametricDMD":
            menu += ["params"] * 4 + ["badparams"] * 3
        k = rng.choice(menu)
        op = [k]
        if k == "read":
            op.append(rng.choice(subj.reads(cfg)))
        elif k == "fread":
            op += [rng.choice(subj.reads(cfg)), plan_fault(rng)]
        elif k == "fit":
            op.append(rng.randrange(2))
        elif k == "win":
            op += [plan_window(rng), rng.choice(["keys", "rev", "dict", "other"])]
        elif k == "key":
            op += [
                rng.choice(["t0", "tend", "tend", "dt"]),
                rng.choice([1, 2, 3, 5, 12, 20]),
            ]
        elif k == "badwin":
            op.append(rng.randrange(4))
        elif k == "axis":
            op += [rng.choice([0, 2, 0.5]), rng.choice([1, 0.5, 2])]
        elif k in ("mask", "badmask", "badcall", "badparams"):
            op.append(rng.randrange(1 << 16))
        elif k == "params":
            op += [rng.randrange(40), rng.choice([1, 2, 3])]
        ops.append(op)
    return {
        "subject": subj.name,
        "cfg": cfg,
        "pool": pool,
        "ops": ops,
        "each": rng.random() < 0.4,
        "wins": [plan_window(rng), plan_window(rng)],
    }


class State:
    """What the answers may depend on."""

    def __init__(self, k):
        self.k = k
        self.mask = None
        self.axis = None
        self.win = None
        self.par = None

    def key(self):
        return repr((self.k, self.mask, self.axis, self.win, self.par))


class Life:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.subj = BY_NAME[sc["subject"]]
        self.cfg, self.pool = sc["cfg"], sc["pool"]
        self.run = Runner(self.subj, self.cfg, self.pool, ctx)
        self.cache = {}
        self.trail = []
        self.earlier = []

    def spec(self, k):
        return self.pool[k % len(self.pool)]

    def put(self, st):
        """Puts a freshly fitted model directly into the state."""

        def after(tw):
            if st.axis:
                set_axis(tw, st.axis)
            if st.win:
                for k, v in st.win.items():
                    tw.dmd_time[k] = v
            if st.mask is not None:
                n = len(tw.modes_activation_bitmask)
                tw.modes_activation_bitmask = bits(st.mask, n)
            if st.par:
                self.subj.do_extra(tw, ["params"] + st.par, self.cfg)

        return after

    def want(self, st):
        if st.key() not in self.cache:
            tw = self.subj.new(self.cfg)
            self.subj.fit(tw, self.cfg, self.spec(st.k))
            self.put(st)(tw)
            self.cache[st.key()] = self.see(tw)
        return self.cache[st.key()]

    def see(self, m):
        o = observe(self.subj, m, self.cfg)
        if isinstance(o.get("dmd_time"), dict):
            o["dmd_time"] = {
                k: o["dmd_time"].get(k) for k in ("t0", "tend", "dt")
            }
        return o

    def check(self, m, st):
        want = self.want(st)
        got = self.see(m)
        self.ctx.probe("states compared")
        self.ctx.state(self.subj.name, st.key(), self.trail[-2:])
        d = judged(
            self.subj,
            self.cfg,
            self.spec(st.k),
            got,
            want,
            self.ctx,
            after=self.put(st),
            ignore=("dmd_time",) if "dmd_time" in want else (),
        )
        if d is None and "dmd_time" in want:
            d = same(got["dmd_time"], want["dmd_time"], 1e-12)
            d = d and "dmd_time: " + d
        if d:
            raise Violation(
                "an answer depends on earlier queries",
                self.subj.name,
                f"{d} after {self.trail}, setting {st.key()}",
            )


def set_axis(m, axis):
    """The user's physical time instead of snapshot numbers."""
    t0, dt = axis
    n = round((m.original_time["tend"] - m.original_time["t0"]) / m.original_time["dt"])
    for d in (m.original_time, m.dmd_time):
        d["t0"] = t0
        d["dt"] = dt
        d["tend"] = t0 + n * dt


def bad_call(subj, m, cfg, seed):
    """Queries that a model has to reject or answer, and forget."""
    calls = [
        lambda: m.no_such_property,
        lambda: m.predict(arr(seed, (97, 3))),
        lambda: m.forecast(own(np.ones((2, 2, 2)))),
        lambda: m.forecast("tomorrow"),
        lambda: m.reconstructed_data(arr(seed, (1, 3))),
        lambda: m[10**6],
        lambda: m.partial_reconstructed_data(99),
        lambda: m.partial_modes(0, 99),
        lambda: m.time_window_eigs(9, 3),
        lambda: m.f(arr(seed, (7, 7))),
        lambda: m.eigenfunctions(arr(seed, (97,))),
        lambda: m.global_reconstruction({"no_such_option": 1}),
        lambda: m.global_reconstruction({"include_means": False}),
        lambda: m.scale_reconstruction(include_means=False),
        lambda: m.interp_fill(None),
        lambda: m.predict(arr(seed, (5,)), arr(seed, (4,))),
    ]
    for j in range(3):
        try:
            calls[(seed + 5 * j) % len(calls)]()
        except Exception:
            pass


def execute(sc, ctx):
    life = Life(sc, ctx)
    s, cfg = life.subj, life.cfg
    m = s.new(cfg)
    try:
        s.fit(m, cfg, life.spec(0))
    except Exception as e:
        raise Skip(f"cannot be fitted: {type(e).__name__}")
    st = State(0)
    for op in sc["ops"]:
        ctx.steps += 1
        k = op[0]
        life.trail.append(k)
        out = "ok"
        if k == "fit":
            try:
                s.fit(m, cfg, life.spec(op[1]))
            except Exception:
                raise Skip("data cannot be fitted")
            st = State(op[1] % len(life.pool))
        elif k == "read":
            observe(s, m, cfg, [op[1]])
        elif k == "fread":
            out = life.run.fread(m, op[1], op[2])
        elif k == "badcall":
            ctx.fault("rejected query")
            bad_call(s, m, cfg, op[1])
        elif k == "win":
            t0, ln, dt = op[1]
            a0, adt = st.axis or (0, 1)
            w = {
                "t0": a0 + t0 * adt,
                "tend": a0 + (t0 + ln) * adt,
                "dt": dt * adt,
            }
            life.earlier.append(dict(w))
            if op[2] == "dict":
                m.dmd_time = own(dict(w))
            elif op[2] == "other":
                d = own(dict(w))
                m.dmd_time = d
                d["tend"] = -5  # the caller goes on using its dictionary
            else:
                ks = list(w)
                for key in ks if op[2] == "keys" else ks[::-1]:
                    m.dmd_time[key] = w[key]
            st.win = w
        elif k == "back":
            if not life.earlier:
                continue
            w = life.earlier[0]
            if st.axis:
                continue
            m.dmd_time = own(dict(w))
            st.win = dict(w)
        elif k == "key":
            if st.axis:
                continue
            w = st.win or {
                q: m.original_time[q] for q in ("t0", "tend", "dt")
            }
            w = dict(w, **{op[1]: op[2]})
            if w["tend"] < w["t0"]:
                continue
            m.dmd_time[op[1]] = op[2]
            st.win = w
        elif k == "badkey":
            ctx.fault("rejected query")
            try:
                m.dmd_time["no such key"] = 3
                out = "accepted"
            except Exception:
                out = "rejected"
        elif k == "badwin":
            # an unusable window, a query that fails on it, and the old window
            ctx.fault("unusable window")
            old = {q: m.dmd_time[q] for q in ("t0", "tend", "dt")}
            bad = [
                {"t0": 0},
                {"t0": "a", "tend": 3, "dt": 1},
                {"t0": 0, "tend": 5, "dt": 0},
                {"t0": 5, "tend": 0, "dt": 1},
            ][op[1]]
            try:
                m.dmd_time = bad
            except Exception:
                pass
            observe(s, m, cfg)
            m.dmd_time = old
        elif k == "axis":
            if s.name == "ParametricDMD" or st.axis or st.win:
                continue
            set_axis(m, op[1:3])
            st.axis, st.win = op[1:3], None
        elif k == "mask":
            try:
                n = len(m.modes_activation_bitmask)
            except RuntimeError:
                continue  # nothing to select yet (no fixed-point analysis)
            m.modes_activation_bitmask = own(bits(op[1], n))
            st.mask = op[1]
        elif k == "badmask":
            ctx.fault("rejected query")
            try:
                n = len(m.modes_activation_bitmask)
                m.modes_activation_bitmask = np.ones(n + 1, dtype=bool)
            except Exception:
                out = "rejected"
        elif k == "params":
            s.do_extra(m, ["params"] + op[1:3], cfg)
            st.par = op[1:3]
        elif k == "badparams":
            ctx.fault("rejected query")
            old = np.array(m.parameters)
            bad = [
                np.ones((2, cfg["pdim"] + 1)),
                np.ones((2, 2, 2)),
                None,
                [],
                "x",
            ][op[1] % 5]
            try:
                m.parameters = bad
                out = "accepted"
            except Exception:
                out = "rejected"
            if out == "accepted":
                observe(s, m, cfg)
                m.parameters = old
        ctx.log(k, out, st.key())
        if sc["each"]:
            life.check(m, st)
    life.check(m, st)
    ctx.nontrivial = True
    overlap(life, m, st)


# ------------------------------------------------------------------ overlap


def overlap(life, m, st):
    """Instants common to two windows get the same values in both."""
    s, cfg, sc = life.subj, life.cfg, life.sc
    if s.windowed and s.name != "DMDc":
        if s.name == "PrePost" and "hankel" in cfg["layers"]:
            return  # its reconstruction has more columns than instants
        a0, adt = st.axis or (0, 1)
        res = []
        for t0, ln, dt in sc["wins"]:
            m.dmd_time["t0"] = a0 + t0 * adt
            m.dmd_time["tend"] = a0 + (t0 + ln) * adt
            m.dmd_time["dt"] = dt * adt
            t = np.array(m.dmd_timesteps)
            o = observe(
                s, m, cfg, [["reconstructed_data"], ["dynamics"]]
            )
            res.append((t, o))
        (ta, oa), (tb, ob) = res
        ia = [i for i in range(len(ta)) if np.any(np.abs(tb - ta[i]) < 1e-9)]
        tail = 0
        if cfg.get("reconstruction_method") not in (None, "first"):
            # fewer versions to average near the end of a window
            tail = cfg["d"] - 1 + max(w[2] for w in sc["wins"])
        pairs = []
        for i in ia:
            j = int(np.argmin(np.abs(tb - ta[i])))
            if tail and min(ta[-1], tb[-1]) - ta[i] < tail * adt - 1e-9:
                continue
            if tail and (sc["wins"][0][2] != sc["wins"][1][2]):
                continue
            pairs.append((i, j))
        if not pairs:
            return
        ia, ib = map(list, zip(*pairs))
        for key in oa:
            x, y = oa[key], ob[key]
            if isinstance(x, Raised) or isinstance(y, Raised):
                if isinstance(x, Raised) != isinstance(y, Raised):
                    raise Violation(
                        "a time window cannot be queried",
                        s.name,
                        f"{key}: {x!r:.80} vs {y!r:.80} {sc['wins']}",
                    )
                continue
            if key == "dynamics" and np.ndim(x) != 2:
                continue
            if x.shape[-1] != len(ta) or y.shape[-1] != len(tb):
                raise Violation(
                    "a reconstruction does not have one column per instant",
                    s.name,
                    f"{key}: {x.shape}, {y.shape} for {sc['wins']}",
                )
            d = same(x[..., ia], y[..., ib], 1e-5)
            life.ctx.probe("instants common to two windows", len(ia))
            if d:
                raise Violation(
                    "an instant has different values in two windows",
                    s.name,
                    f"{key}: {d}, windows {sc['wins']} axis {st.axis}",
                )
    elif s.name.startswith("BOPDMD") or s.name == "VarProDMD":
        if cfg.get("num_trials"):
            return
        t = np.arange(12) * 0.5
        a, b = np.array(m.forecast(t)), np.array(m.forecast(t[3:8]))
        d = same(a[:, 3:8], b, 1e-6)
        if not d:
            d = same(np.array(m.forecast(t[::-1]))[:, ::-1], a, 1e-6)
        if not d and s.name == "BOPDMD":
            rec = np.array(m.reconstructed_data)
            d = same(
                np.array(m.forecast(m.time)).reshape(rec.shape), rec, 1e-6
            )
        life.ctx.probe("instants common to two forecasts", 5)
        if d:
            raise Violation(
                "an instant has different values in two windows", s.name, d
            )
    elif s.name == "HAVOK":
        f, t = np.array(m.forcing), np.array(m.time)
        n = min(len(f), len(t), 25)
        try:
            a = np.array(m.predict(f[:n], t[:n]))
            b = np.array(m.predict(f[: n - 6], t[: n - 6]))
        except ValueError:
            return  # one linear mode only: no forecast at all
        k = min(a.shape[-1], b.shape[-1]) - cfg["delays"] * cfg["lag"]
        if k > 0:
            d = same(a[..., :k], b[..., :k], 1e-5)
            life.ctx.probe("instants common to two forecasts", k)
            if d:
                raise Violation(
                    "an instant has different values in two windows", s.name, d
                )


def shrink(sc):
    yield from shrink_ops(sc)
    if len(sc["ops"]) == 1:
        yield dict(sc, ops=[])
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
