"""C06: a failed fit never leaves a silent mixture of two fits."""
from sim import faults
from sim.compare import Raised, same
from sim.core import Skip, Violation
from sim.history import Runner, plan_op, shrink_cfg, shrink_ops, vary_layout
from sim.oracle import perturbed, judged
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C06"
RUNS = {"quick": 1000, "thorough": 20000}
QUIET = ("read", "mask", "edit", "select", "window", "copy", "restart", "extra")


def plan(rng, i, tier):
    subj = choose(rng, ALL, heavy_factor=0.5)
    cfg = subj.cfg(rng)
    pool = vary_layout(subj, rng, subj.pool(cfg, rng, 2))
    # two data sets of one shape make a mixture possible without an error
    if rng.random() < 0.7:
        s = subj.spec(cfg, rng, like=pool[0])
        if "lay" in pool[0]:
            s["lay"] = pool[0]["lay"]
        pool[1] = s
    nf = 2 if subj.heavy else rng.choice([3, 6, 10])
    if tier == "thorough":
        nf *= 3
    attempts = []
    for _ in range(nf):
        between = [
            plan_op(subj, cfg, pool, rng, faulty=False, kinds=QUIET)
            for _ in range(rng.choice([0, 0, 1, 2]))
        ]
        if rng.random() < 0.2:
            f = {"bad": rng.choice(subj.bads)}
        else:
            f = {
                "mode": "call",
                "frac": round(rng.random(), 4),
                "exc": rng.choice(["linalg", "memory"]),
            }
        attempts.append({"between": between, "fault": f})
    return {
        "subject": subj.name,
        "cfg": cfg,
        "pool": pool,
        "ops": attempts,
    }


def keys(rds):
    return ["/".join(map(str, r)) for r in rds]


def unreadable(v):
    return v is None or isinstance(v, Raised)


def execute(sc, ctx):
    subj = BY_NAME[sc["subject"]]
    cfg, pool = sc["cfg"], sc["pool"]
    A, B = pool[0], pool[1 % len(pool)]
    run = Runner(subj, cfg, pool, ctx)
    rds = [list(r) for r in subj.products] + [list(r) for r in subj.triple]
    prods, triple = keys(subj.products), keys(subj.triple)
    new = {}

    def fresh(k, spec):
        if k not in new:
            tw = subj.new(cfg)
            try:
                subj.fit(tw, cfg, spec)
                new[k] = observe(subj, tw, cfg, rds)
            except Exception:
                new[k] = None
        return new[k]

    if fresh("A", A) is None or fresh("B", B) is None:
        raise Skip("configuration rejects the data")
    m = subj.new(cfg)
    for att in sc["ops"]:
        try:
            subj.fit(m, cfg, A)
        except Exception:
            raise Violation(
                "fit fails after a failed fit", subj.name, "see history"
            )
        for op in att["between"]:
            m, _ = run.apply(m, op)
        old = observe(subj, m, cfg, rds)
        f = att["fault"]
        ctx.steps += 1
        if "bad" in f:
            ctx.fault("bad-input:" + f["bad"])
            try:
                subj.fit(m, cfg, dict(B, bad=f["bad"]))
                out = "ok"
            except Exception:
                out = "raised"
            where = "bad input " + f["bad"]
            tw = subj.new(cfg)
            try:
                subj.fit(tw, cfg, dict(B, bad=f["bad"]))
            except Exception:
                pass
            want = observe(subj, tw, cfg, rds)
        else:
            n = run.npoints(
                ["fit", 1], "call", lambda: subj.fit(subj.new(cfg), cfg, B)
            )
            if n == 0:
                raise Skip("no library call")
            at = min(n - 1, int(f["frac"] * n))
            with faults.Points("call", at, f["exc"], ctx) as p:
                try:
                    subj.fit(m, cfg, B)
                    out = "ok"
                except Exception:
                    out = "raised"
            where = f"{f['exc']} at {p.fired}"
            want = new["B"]
        ctx.log("attempt", where, out)
        if out == "ok":
            # the library absorbed the fault or accepted the data
            ctx.probe("fault absorbed")
            continue
        ctx.probe("failed fits examined")
        got = observe(subj, m, cfg, rds)
        ctx.state(subj.name, where, [unreadable(got[k]) for k in got])
        for k in prods:
            if unreadable(got[k]):
                ctx.probe("product unreadable")
                continue
            d_old = same(got[k], old[k], subj.rtol)
            d_new = same(got[k], want[k], subj.rtol)
            if d_old and d_new and not noisy(subj, cfg, A, B, got, k, att, run, rds, ctx):
                raise Violation(
                    "mixture readable after a failed fit",
                    subj.name,
                    f"{k} is neither that of the previous fit ({d_old}) nor "
                    f"that of the new data ({d_new}); {where}",
                )
            ctx.probe("product old" if not d_old else "product new")
        if triple and not any(unreadable(got[k]) for k in triple):
            d_old = [same(got[k], old[k], subj.rtol) for k in triple]
            d_new = [same(got[k], want[k], subj.rtol) for k in triple]
            if any(d_old) and any(d_new):
                if not all(
                    noisy(subj, cfg, A, B, got, k, att, run, rds, ctx)
                    for k in triple
                ):
                    raise Violation(
                        "mixed modes, eigenvalues and amplitudes after a "
                        "failed fit",
                        subj.name,
                        f"vs old {d_old}, vs new {d_new}; {where}",
                    )
        ctx.nontrivial = True
    # a following successful fit is unaffected
    try:
        subj.fit(m, cfg, B)
    except Exception as e:
        raise Violation(
            "fit fails after a failed fit", subj.name, repr(e)
        ) from e
    d = judged(subj, cfg, B, observe(subj, m, cfg), _full(subj, cfg, B), ctx)
    if d:
        raise Violation(
            "a fit after failed fits differs from a fresh fit", subj.name, d
        )


def _full(subj, cfg, B):
    tw = subj.new(cfg)
    subj.fit(tw, cfg, B)
    return observe(subj, tw, cfg)


def noisy(subj, cfg, A, B, got, k, att, run, rds, ctx):
    """Is answer k so ill-conditioned that the comparison means nothing?"""
    for spec, ops in ((A, att["between"]), (B, [])):
        base = None
        for j in range(3):
            tw = subj.new(cfg)
            data = subj.data(cfg, spec)
            try:
                subj.fit(tw, cfg, spec, perturbed(data, j) if j else data)
                for op in ops:
                    tw, _ = run.apply(tw, op)
            except Exception:
                return True
            o = observe(subj, tw, cfg, rds)
            if base is None:
                base = o
            elif same(o[k], base[k], subj.rtol / 30):
                ctx.probe("ill-conditioned answer set aside")
                return True
    return False


def shrink(sc):
    yield from shrink_ops(sc)
    for i, att in enumerate(sc["ops"]):
        for j in range(len(att["between"])):
            b = att["between"][:j] + att["between"][j + 1 :]
            yield dict(
                sc,
                ops=sc["ops"][:i]
                + [dict(att, between=b)]
                + sc["ops"][i + 1 :],
            )
    yield from shrink_cfg(sc, BY_NAME[sc["subject"]])
