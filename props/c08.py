"""C08: mode selection and mode edits follow one consistent model.

Reference: the full arrays of modes, eigenvalues and amplitudes of a fresh fit,
a mask, and the window; every operation has its textbook effect on them."""
import copy

import numpy as np

from pydmd.dmd_modes_tuner import ModesTuner, select_modes, stabilize_modes
from sim.compare import Raised, same
from sim.core import Skip, Violation
from sim.history import (
    Runner,
    bits,
    builtin_crit,
    plan_crit,
    shrink_cfg,
    vary_layout,
)
from sim.oracle import perturbed
from sim.subjects import ALL, BY_NAME, CRITS, choose, observe, own

ID = "C08"
RUNS = {"quick": 2500, "thorough": 40000}
SUBS = [s for s in ALL if s.selectable]
STATE_MEASURE = (
    "hash of (model class, number of modes, mask of every model alive, kinds "
    "of the operations so far)"
)


def plan(rng, i, tier):
    subj = choose(rng, SUBS)
    cfg = subj.cfg(rng)
    if subj.name == "LANDO" and not cfg["analyze"]:
        cfg["analyze"] = 1
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    n = rng.choice([1, 3, 6, 10, 15])
    ops = []
    for _ in range(n):
        menu = ["mask"] * 4 + ["edit"] * 4 + ["select"] * 3
        menu += ["badmask", "fmask", "nselect", "tuner", "copy", "restart"]
        menu += ["raisesel", "badcrit", "fit"]
        if subj.stable:
            menu += ["stab", "stab", "nstab"]
        if subj.indexable:
            menu += ["getitem"] * 3
        if subj.windowed:
            menu += ["window"]
        k = rng.choice(menu)
        op = [k, rng.randrange(8)]
        if k in ("mask", "fmask", "edit"):
            op.append(rng.randrange(1 << 16))
            if k == "fmask":
                op.append(round(rng.random(), 3))
            if k == "edit":
                op.append(rng.randrange(8))
        elif k == "badmask":
            op.append(rng.randrange(5))
        elif k in ("select", "nselect", "tuner"):
            crit = plan_crit(rng)
            while crit[0] == "integral" and not subj.windowed:
                crit = plan_crit(rng)  # needs the time steps of the data
            op += [crit, rng.random() < 0.2]
            if k == "tuner":
                op.append(rng.random() < 0.4)
        elif k in ("stab", "nstab"):
            op.append(round(0.8 + 0.2 * rng.random(), 3))
            op.append(rng.choice([None, 1.01, 1.2]))
        elif k == "getitem":
            op.append(
                rng.choice(
                    [0, 1, -1, [0], [1, 0], {"slice": [0, 2, None]},
                     {"slice": [None, None, 2]}]
                )
            )
        elif k == "window":
            op += [rng.choice([0, 2]), rng.choice([4, 9, 20])]
        elif k == "fit":
            op.append(rng.randrange(2))
        ops.append(op)
    return {"subject": subj.name, "cfg": cfg, "pool": pool, "ops": ops}


class Ref:
    def __init__(self, M, e, b, k):
        self.M, self.e, self.b = np.array(M), np.array(e), np.array(b)
        self.mask = np.ones(len(self.e), dtype=bool)
        self.window = None
        self.data = k  # which data set it was fitted on
        self.subset = False

    def clone(self):
        return copy.deepcopy(self)

    @property
    def act(self):
        return np.where(self.mask)[0]

    @property
    def view(self):
        return View(self.M[:, self.mask], self.e[self.mask], self.b[self.mask])


class View:
    """What a user's criterion may look at."""

    def __init__(self, modes, eigs, amplitudes):
        self.modes, self.eigs, self.amplitudes = modes, eigs, amplitudes


class Life:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.subj = BY_NAME[sc["subject"]]
        self.cfg, self.pool = sc["cfg"], sc["pool"]
        self.run = Runner(self.subj, self.cfg, self.pool, ctx)
        self.fits = {}
        self.alive = []
        self.trail = []

    def spec(self, k):
        return self.pool[k % len(self.pool)]

    def fresh(self, k):
        k = k % len(self.pool)
        if k not in self.fits:
            tw = self.subj.new(self.cfg)
            try:
                self.subj.fit(tw, self.cfg, self.spec(k))
                if tw.modes is None or tw.amplitudes is None:
                    self.fits[k] = None
                else:
                    self.fits[k] = Ref(tw.modes, tw.eigs, tw.amplitudes, k)
            except Exception:
                self.fits[k] = None
        return self.fits[k]

    def prepared(self, ref, perturb=0):
        """A fresh model put directly into the state of the reference."""
        tw = self.subj.new(self.cfg)
        sp = self.spec(ref.data)
        data = self.subj.data(self.cfg, sp)
        self.subj.fit(
            tw, self.cfg, sp, perturbed(data, perturb) if perturb else data
        )
        tw.modes[...] = ref.M
        tw.eigs[...] = ref.e
        tw.amplitudes[...] = ref.b
        tw.modes_activation_bitmask = ref.mask
        self.set_window(tw, ref)
        return tw

    def set_window(self, m, ref):
        if ref.window:
            m.dmd_time["t0"] = ref.window[0]
            m.dmd_time["tend"] = ref.window[0] + ref.window[1]

    def bad(self, kind, detail):
        raise Violation(
            kind, self.subj.name, f"{detail} after {self.trail}"
        )

    def check_all(self):
        for j, (m, ref) in enumerate(self.alive):
            try:
                got = (
                    np.array(m.modes),
                    np.array(m.eigs),
                    np.array(m.amplitudes),
                    np.array(m.modes_activation_bitmask),
                )
            except Exception as e:
                self.bad("selected modes cannot be read", f"model {j}: {e!r}")
            want = (
                ref.M[:, ref.mask],
                ref.e[ref.mask],
                ref.b[ref.mask],
                ref.mask,
            )
            for name, g, w in zip(
                ("modes", "eigs", "amplitudes", "mask"), got, want
            ):
                d = same(g, w, self.subj.rtol)
                if d and not self.unsure(ref, name, w):
                    self.bad(
                        "reported modes, eigenvalues or amplitudes are not "
                        "those of the selection",
                        f"{name} of model {j} "
                        f"({'subset' if ref.subset else 'whole'}): {d}",
                    )
            self.ctx.probe("states compared")

    def unsure(self, ref, name, w):
        if name == "mask":
            return False
        i = ("modes", "eigs", "amplitudes").index(name)
        sp = self.spec(ref.data)
        vals = []
        for k in range(3):
            tw = self.subj.new(self.cfg)
            data = self.subj.data(self.cfg, sp)
            self.subj.fit(
                tw, self.cfg, sp, perturbed(data, k) if k else data
            )
            vals.append(np.array((tw.modes, tw.eigs, tw.amplitudes)[i]))
        if any(same(v, vals[0], self.subj.rtol / 30) for v in vals[1:]):
            self.ctx.probe("ill-conditioned answer set aside")
            return True
        return False

    DERIVED = (
        "dynamics",
        "reconstructed_data",
        "frequency",
        "growth_rate",
        "forecast",
    )

    def check_derived(self):
        rds = [
            r for r in self.subj.reads(self.cfg) if r[0] in self.DERIVED
        ]
        for j, (m, ref) in enumerate(self.alive):
            if self.derived_excluded(ref):
                continue
            try:
                tw = self.prepared(ref)
            except Exception:
                continue
            want = observe(self.subj, tw, self.cfg, rds)
            got = observe(self.subj, m, self.cfg, rds)
            for k in want:
                d = same(got[k], want[k], max(self.subj.rtol, 1e-6))
                if not d:
                    continue
                if isinstance(want[k], Raised) and ref.subset:
                    continue
                more = [
                    observe(self.subj, self.prepared(ref, p), self.cfg, rds)[k]
                    for p in (1, 2)
                ]
                if any(same(x, want[k], self.subj.rtol / 30) for x in more):
                    self.ctx.probe("ill-conditioned answer set aside")
                    continue
                self.bad(
                    "an answer does not follow the selected modes",
                    f"{k} of model {j} "
                    f"({'subset' if ref.subset else 'whole'}): {d}",
                )
            self.ctx.probe("derived answers compared", len(want))

    def derived_excluded(self, ref):
        return False

    # -- one operation ---------------------------------------------------
    def step(self, op):
        k = op[0]
        j = op[1] % len(self.alive)
        m, ref = self.alive[j]
        self.ctx.steps += 1
        n = len(ref.mask)
        if k == "mask":
            v = bits(op[2], n)
            m.modes_activation_bitmask = own(v)
            ref.mask = np.array(v)
        elif k == "badmask":
            v = [
                np.ones(n + 1, dtype=bool),
                np.ones(n, dtype=int),
                np.ones(max(n - 1, 0), dtype=bool),
                np.ones((n, 1), dtype=bool),
                np.ones(n, dtype=float),
            ][op[2] % 5]
            try:
                m.modes_activation_bitmask = v
            except Exception:
                self.ctx.fault("rejected selection")
            else:
                if v.dtype == bool and v.shape != (n,):
                    self.bad("a selection of the wrong size is accepted", "")
                # accepted: then it has to mean the selection of all modes
                ref.mask = np.ones(n, dtype=bool)
        elif k == "fmask":
            v = bits(op[2], n)

            def assign(x):
                x.modes_activation_bitmask = v

            np_ = self.run.npoints(
                ["fmask", self.ctx.steps],
                "call",
                lambda: assign(copy.deepcopy(m)),
            )
            out = self.run.faulted(
                np_,
                {"mode": "call", "frac": op[3], "exc": "memory"},
                lambda: assign(m),
            )
            if out in ("ok", "nofire-ok"):
                ref.mask = np.array(v)
        elif k == "edit":
            if ref.mask.any():
                self.edit(m, ref, op[2], op[3])
        elif k in ("stab", "nstab"):
            outer = np.inf if op[3] is None else op[3]
            if k == "nstab":
                m = stabilize_modes(m, op[2], outer, in_place=False)
                ref = ref.clone()
                self.add(m, ref)
            else:
                stabilize_modes(m, op[2], outer)
            a = ref.act
            r = np.abs(ref.e[a])
            if np.any(np.abs(r - op[2]) < 1e-6) or (
                outer != np.inf and np.any(np.abs(r - outer) < 1e-6)
            ):
                raise Skip("an eigenvalue lies on the threshold")
            fix = a[(r > op[2]) & (r < outer)]
            s = np.abs(ref.e[fix])
            ref.b[fix] = ref.b[fix] * s
            ref.e[fix] = ref.e[fix] / s
        elif k in ("select", "nselect", "tuner"):
            self.select(m, ref, op)
        elif k == "raisesel":
            self.ctx.fault("criterion raises")
            for inpl in (True, False):
                try:
                    select_modes(m, CRITS["raise"], in_place=inpl)
                    self.bad("the error of a criterion is swallowed", "")
                except RuntimeError:
                    pass
        elif k == "badcrit":
            for c in ("no such criterion", 7):
                try:
                    ModesTuner(m, in_place=True).select(c)
                except Exception:
                    self.ctx.fault("rejected selection")
        elif k == "getitem":
            key = op[2]
            key = slice(*key["slice"]) if isinstance(key, dict) else key
            idx = np.zeros(n, dtype=bool)
            try:
                idx[key] = True
            except IndexError:
                return
            sub = m[key]
            r2 = ref.clone()
            r2.mask = idx
            r2.subset = True
            self.add(sub, r2)
        elif k == "window":
            try:
                m.dmd_time["t0"] = op[2]
                m.dmd_time["tend"] = op[2] + op[3]
            except Exception:
                return
            ref.window = [op[2], op[3]]
        elif k in ("copy", "restart"):
            new = copy.deepcopy(m) if k == "copy" else self.run.restart(m)
            self.add(new, ref.clone())
        elif k == "fit":
            if ref.subset:
                return
            r = self.fresh(op[2])
            if r is None:
                return
            self.subj.fit(m, self.cfg, self.spec(op[2]))
            self.alive[j] = (m, r.clone())

    def add(self, m, ref):
        if len(self.alive) < 4:
            self.alive.append((m, ref))
        else:
            self.alive[1 + self.ctx.steps % 3] = (m, ref)

    def edit(self, m, ref, seed, what):
        a = ref.act
        i = seed % len(a)
        f = 0.5 + (seed % 7) / 4.0
        if what == 0:
            m.modes[:, i] *= f
            ref.M[:, a[i]] *= f
        elif what == 1:
            m.eigs[i] *= 0.9
            ref.e[a[i]] *= 0.9
        elif what == 2:
            m.amplitudes[i] *= f
            ref.b[a[i]] *= f
        elif what == 3:
            m.amplitudes[:] = 0
            ref.b[a] = 0
        elif what == 4:
            m.modes[0, :] = 1.0
            ref.M[0, a] = 1.0
        elif what == 5:
            m.eigs[...] *= 0.95
            ref.e[a] *= 0.95
        elif what == 6:
            m.modes[...] += 0.25
            ref.M[:, a] += 0.25
        else:
            m.amplitudes[i] = 2.0
            ref.b[a[i]] = 2.0

    def select(self, m, ref, op):
        spec, nullify = op[2], bool(op[3])
        crit = builtin_crit(spec)
        before = ref.clone()
        if op[0] == "select":
            select_modes(m, crit, nullify_amplitudes=nullify)
            out = m
        elif op[0] == "nselect":
            ref = ref.clone()
            out = select_modes(
                m, crit, in_place=False, nullify_amplitudes=nullify
            )
            self.add(out, ref)
        else:
            kw = {}
            name = {
                "threshold": "module_threshold",
                "stable": "stable_modes",
                "integral": "integral_contribution",
            }.get(spec[0])
            if name == "module_threshold":
                kw = dict(low_threshold=spec[1], up_threshold=spec[2])
            elif name == "stable_modes":
                kw = dict(
                    max_distance_from_unity_inside=spec[1],
                    max_distance_from_unity_outside=spec[2],
                )
            elif name == "integral_contribution":
                kw = dict(n=spec[1])
            t = ModesTuner(m, in_place=bool(op[4]))
            t.select(name or crit, nullify_amplitudes=nullify, **kw)
            out = t.get()
            if not op[4]:
                ref = ref.clone()
                self.add(out, ref)
        keep = self.expect(spec, before, out, nullify)
        cut = before.act[~keep]
        if nullify:
            ref.b[cut] = 0
        else:
            ref.mask = np.array(before.mask)
            ref.mask[cut] = False

    def expect(self, spec, ref, out, nullify):
        """Which of the active modes meet the criterion, by the reference."""
        v = ref.view
        r = np.abs(v.eigs)
        if spec[0] in ("threshold", "stable"):
            lo, hi = (
                (spec[1], spec[2])
                if spec[0] == "threshold"
                else (1 - spec[1], 1 + spec[2])
            )
            if np.any(np.abs(r - lo) < 1e-6) or np.any(np.abs(r - hi) < 1e-6):
                raise Skip("an eigenvalue lies on the threshold")
            return (r > lo) & (r < hi)
        if spec[0] == "integral":
            tw = self.prepared(dict_ref(ref))
            dyn = np.atleast_2d(tw.dynamics)
            c = np.linalg.norm(v.modes, axis=0) ** 2 * np.abs(dyn).sum(axis=1)
            n = min(spec[1], len(c))
            if not np.all(np.isfinite(c)):
                raise Skip("contributions overflow")
            if nullify:
                order = np.argsort(c)
                if len(c) > n and c[order[-n]] < c[order[-n - 1]] * (1 + 1e-6):
                    raise Skip("a tie between contributions")
                keep = np.zeros(len(c), dtype=bool)
                keep[order[-n:]] = True
                return keep
            # conjugate modes contribute equally: accept any choice of n modes
            # none of which contributes less than one left out
            mask = np.array(out.modes_activation_bitmask)
            keep = mask[ref.mask]
            if mask[~ref.mask].any():
                self.bad("a selection activates inactive modes", str(spec))
            if keep.sum() != n:
                self.bad(
                    "a selection keeps the wrong number of modes",
                    f"{keep.sum()} instead of {n}",
                )
            if n and (~keep).any():
                if c[keep].min() < c[~keep].max() * (1 - 1e-5):
                    self.bad(
                        "a selection keeps a mode that does not meet the "
                        "criterion",
                        str(spec),
                    )
            return keep
        if spec[0] == "strong" and len(v.amplitudes):
            a = np.abs(v.amplitudes)
            med = np.median(a)
            if np.any(np.abs(a - med) <= 1e-6 * a.max()):
                # at the median: the outcome hangs on the last bit
                mask = np.array(out.modes_activation_bitmask)
                if len(a) > 1 and nullify:
                    raise Skip("amplitudes at the median")
                if not nullify:
                    keep = mask[ref.mask]
                    sure = np.abs(a - med) > 1e-6 * a.max()
                    if np.any((a >= med)[sure] != keep[sure]):
                        self.bad("a selection does not follow its criterion", "strong")
                    return keep
        return np.asarray(CRITS[spec[0]](v), dtype=bool)


def dict_ref(ref):
    r = ref.clone()
    r.window = None
    return r


def execute(sc, ctx):
    life = Life(sc, ctx)
    r = life.fresh(0)
    if r is None or not len(r.e):
        raise Skip("no modes to select")
    if not all(np.all(np.isfinite(x)) for x in (r.M, r.e, r.b)):
        raise Skip("fit is not finite")
    m = life.subj.new(life.cfg)
    life.subj.fit(m, life.cfg, life.spec(0))
    life.alive.append((m, r.clone()))
    life.check_all()
    for op in sc["ops"]:
        life.trail.append(op[0])
        try:
            life.step(op)
        except (Skip, Violation):
            raise
        except Exception as e:
            life.bad(f"{op[0]} raises {type(e).__name__}", str(e))
        life.check_all()
        ctx.state(
            life.subj.name,
            [x[1].mask.tolist() for x in life.alive],
            life.trail[-3:],
        )
        ctx.log("op", op[0], [x[1].mask.tolist() for x in life.alive])
    life.check_derived()
    ctx.nontrivial = True


def shrink(sc):
    ops = sc["ops"]
    n = len(ops)
    step = max(1, n // 2)
    while True:
        for a in range(0, n, step):
            rest = ops[:a] + ops[a + step :]
            yield dict(sc, ops=rest)
        if step == 1:
            break
        step //= 2
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
