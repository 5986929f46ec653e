"""Oracles shared by the properties: fresh twins, and the guard that keeps an
ill-conditioned answer from being called a difference.

A twin is a new model of the same configuration given the same data.  When a
model and its twin differ in some answer, the answer is recomputed on twins
whose data was changed by a relative 1e-13.  If those already disagree with
the twin by a comparable amount, the answer is not determined by the data to
working precision and says nothing about the property."""
import numpy as np

from .compare import Raised, same
from .subjects import observe

EPS = 1e-13
N_PERTURBED = 3


def perturbed(data, k):
    g = np.random.default_rng([23, k])

    def p(v):
        if isinstance(v, np.ndarray) and v.ndim >= 2 and v.dtype.kind in "fciu":
            e = 6e-8 if v.dtype == np.float32 else EPS
            w = v if v.dtype.kind in "fc" else v.astype(float)
            return w * (1 + e * g.standard_normal(v.shape))
        if isinstance(v, list) and v and isinstance(v[0], np.ndarray):
            return [
                x * (1 + EPS * g.standard_normal(np.shape(x))) for x in v
            ]
        return v

    return [(n, p(v)) for n, v in data]


def diffs(a, b, rtol, ignore=()):
    for k in a:
        if k not in ignore and k in b:
            d = same(a[k], b[k], rtol)
            if d:
                yield k, d
    if set(a) - set(ignore) != set(b) - set(ignore):
        yield None, "different sets of answers"


def judged(subj, cfg, spec, got, want, ctx, rtol=None, after=None, ignore=()):
    """First difference between two observations that is not explained by
    ill-conditioning, or None.  `after(twin)` repeats on a twin whatever was
    done between its fit and the observation."""
    rtol = subj.rtol if rtol is None else rtol
    found = list(diffs(got, want, rtol, ignore))
    if not found:
        return None
    pert = []
    for k in range(N_PERTURBED):
        tw = subj.new(cfg)
        try:
            subj.fit(tw, cfg, spec, perturbed(subj.data(cfg, spec), k))
            if after is not None:
                tw = after(tw) or tw
            pert.append(observe(subj, tw, cfg))
        except Exception as e:
            pert.append(Raised(e))
    for key, d in found:
        if key is None:
            return d
        if any(
            isinstance(p, Raised)
            or key not in p
            or same(p[key], want[key], rtol / 30)
            for p in pert
        ):
            ctx.probe("ill-conditioned answer set aside")
            continue
        return f"{key}: {d}"
    return None


def twin_obs(subj, cfg, spec, after=None):
    """Observation of a fresh model fitted on spec, or Raised."""
    tw = subj.new(cfg)
    try:
        subj.fit(tw, cfg, spec)
        if after is not None:
            tw = after(tw) or tw
    except Exception as e:
        return Raised(e)
    return observe(subj, tw, cfg)
