"""C01: saving a model is all-or-nothing and durable.

The disk is real (a scratch folder); it refuses bytes through the process's
file size limit, the process dies by that limit's signal or by _exit at a
chosen point of the saving code, system calls fail by injected OSErrors, and
concurrent saves run under the cooperative scheduler, which may switch at
every line of pydmd and at every opening, write and closing of a file."""
import builtins
import io
import os
import pathlib
import pickle
import resource
import signal

import numpy as np

from sim import faults
from sim.compare import same
from sim.core import Skip, Violation, derive
from sim.history import Runner, load_saved, plan_op, shrink_cfg, shrink_ops
from sim.subjects import ALL, BY_NAME, choose, observe

ID = "C01"
RUNS = {"quick": 1600, "thorough": 30000}
STATE_MEASURE = (
    "hash of (model class, kind of fault, what the path held before, outcome, "
    "what it holds after)"
)
SUBJ = [s for s in ALL if s.saves == "method"]
BETWEEN = ("fit", "mask", "edit", "stab", "window", "read", "extra", "restart")
PATHS = ["a", "b", "sub/c.model", "déjà vu.pkl"]


class Unpicklable:
    def __reduce__(self):
        raise pickle.PicklingError("cannot be saved")


def plan_save(rng):
    """How one save goes."""
    k = rng.choice(
        ["plain"] * 3
        + ["full"] * 4
        + ["killbyte"] * 3
        + ["killpoint"] * 3
        + ["io"] * 4
        + ["unpicklable"] * 2
    )
    if k == "plain":
        return {"how": k}
    if k == "unpicklable":
        return {"how": k, "where": rng.choice(["first", "last", "deep"])}
    f = {"how": k, "frac": round(rng.random(), 4)}
    if rng.random() < 0.15:
        f["frac"] = rng.choice([0.0, 0.9999])
    if k == "killpoint":
        f["mode"] = rng.choice(["line", "line", "io"])
    if k == "io":
        f["exc"] = rng.choice(["oserror", "oserror", "memory", "interrupt"])
        f["mode"] = "line" if f["exc"] == "interrupt" else "io"
    return f


def plan(rng, i, tier):
    n = rng.choice([1, 2, 2])
    models = []
    for _ in range(n):
        subj = choose(rng, SUBJ, heavy_factor=0.3)
        cfg = subj.cfg(rng)
        models.append(
            {
                "subject": subj.name,
                "cfg": cfg,
                "pool": [subj.spec(cfg, rng) for _ in range(2)],
                "big": rng.random() < 0.25,
            }
        )
    sc = {"subject": models[0]["subject"], "models": models}
    if rng.random() < 0.22:
        sc["mode"] = "threads"
        k = rng.choice([2, 2, 3])
        one = rng.random() < 0.6
        sc["bodies"] = [
            {
                "model": j % n,
                "path": PATHS[0] if one else rng.choice(PATHS[:2]),
                "saves": rng.choice([1, 1, 2]),
                "bad": rng.random() < 0.15,
                "scale": j,
            }
            for j in range(k)
        ]
        if rng.random() < 0.4:
            sc["bodies"].append({"load": PATHS[0], "times": 3})
        sc["before"] = rng.random() < 0.6
        sc["schedule"] = {
            "p": rng.choice([0.05, 0.2, 0.5]),
            "grain": rng.choice(["line", "line", "line", "op"]),
            "seed": rng.randrange(1 << 30),
        }
        return sc
    sc["mode"] = "history"
    ops = []
    for _ in range(rng.choice([2, 4, 7])):
        j = rng.randrange(n)
        md = models[j]
        subj = BY_NAME[md["subject"]]
        r = rng.random()
        if r < 0.6:
            ops.append(
                [
                    "save",
                    j,
                    rng.choice(PATHS[:2] if rng.random() < 0.7 else PATHS),
                    plan_save(rng),
                    rng.choice(["str", "str", "str", "path", "rel", "link"]),
                ]
            )
        elif r < 0.66:
            ops.append(["garbage", rng.choice(PATHS[:2]), rng.choice([0, 5])])
        elif r < 0.72:
            ops.append(["nowhere", j, rng.choice(["nodir", "isdir", "isfile"])])
        elif r < 0.78:
            ops.append(["take", j, rng.choice(PATHS[:2])])
        else:
            ops.append(
                [
                    "op",
                    j,
                    plan_op(
                        subj, md["cfg"], md["pool"], rng, False, BETWEEN
                    ),
                ]
            )
    sc["ops"] = ops
    return sc


def build(md):
    s = BY_NAME[md["subject"]]
    m = s.new(md["cfg"])
    try:
        s.fit(m, md["cfg"], md["pool"][0])
    except Exception as e:
        raise Skip(f"cannot be fitted: {type(e).__name__}")
    m.verif_tag = 1.0
    try:
        twin = pickle.loads(pickle.dumps(m))
    except Exception as e:
        raise Skip(f"cannot be saved at all: {type(e).__name__}")
    if getattr(twin, "verif_tag", None) is None:
        raise Skip("unknown attributes are not part of the model")
    if md["big"]:
        # more than one buffer's worth of data in the file
        m.verif_note = np.arange(120_000.0)
    return s, m


READS_MAX = 14


def look(s, m, cfg, note=True):
    rds = s.reads(cfg)
    out = observe(s, m, cfg, rds[:READS_MAX])
    v = getattr(m, "verif_note", None) if note else None
    out["note"] = None if v is None else np.array(v)
    out["tag"] = getattr(m, "verif_tag", None)
    return out


def differs(s, a, b):
    if set(a) != set(b):
        return "other answers"
    for k in a:
        d = same(a[k], b[k], 1e-9)
        if d:
            return f"{k}: {d}"
    return None


class Disk:
    """What every path is allowed to hold."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.join(ctx.scratch, "disk")
        os.makedirs(os.path.join(self.root, "sub"))
        self.held = {}  # path -> ("model", j, obs) | ("bytes", b)

    def full(self, p):
        return os.path.join(self.root, p)

    def matches(self, p, state, models):
        """None if path p holds state, else what is wrong."""
        fn = self.full(p)
        if state is None:
            return None if not os.path.exists(fn) else "a file is there"
        if not os.path.exists(fn):
            return "the file is gone"
        if state[0] == "bytes":
            with open(fn, "rb") as f:
                return None if f.read() == state[1] else "other bytes"
        _, j, obs = state
        s, cfg = models[j][0], models[j][2]
        try:
            m = load_saved(s, fn)
        except Exception as e:
            return f"cannot be loaded: {type(e).__name__}: {e}"
        got = look(s, m, cfg)
        return differs(s, obs, got)

    def verify(self, models, touched=None, options=None, say=""):
        for p in sorted(set(self.held) | ({touched} if touched else set())):
            if p == touched:
                bad = []
                for st in options:
                    d = self.matches(p, st, models)
                    if d is None:
                        self.held[p] = st
                        if st is None:
                            self.held.pop(p)
                        break
                    bad.append(d)
                else:
                    kind = (
                        "a saved file is not the model that was saved"
                        if len(options) == 1
                        else "a failed or interrupted save leaves a damaged "
                        "or lost file"
                    )
                    raise Violation(
                        kind, models[0][0].name, f"{p}: {bad}; {say}"
                    )
            else:
                d = self.matches(p, self.held[p], models)
                if d:
                    raise Violation(
                        "a save damages another file",
                        models[0][0].name,
                        f"{p}: {d}; {say}",
                    )
        self.ctx.probe("disks compared")


def form(disk, p, how):
    fn = disk.full(p)
    if how == "path":
        return pathlib.Path(fn)
    if how == "rel":
        return os.path.relpath(fn)
    if how == "link":
        ln = fn + ".lnk"
        if not os.path.lexists(ln):
            os.symlink(os.path.basename(fn), ln)
        return ln
    return fn


def count(m, target, mode):
    """Fault points of a save, counted on a save elsewhere."""
    with faults.Points(mode) as p:
        try:
            m.save(target)
        except Exception:
            pass
    try:
        os.remove(target)
    except OSError:
        pass
    return p.n


def do_save(m, target, f, ctx, disk):
    """Outcome of one save under its fault: ok, raised or died."""
    how = f["how"]
    fresh = os.path.join(disk.root, "elsewhere")
    if how == "plain":
        m.save(target)
        return "ok"
    if how == "unpicklable":
        ctx.fault("unpicklable content")
        d = dict(m.__dict__)
        try:
            if f["where"] == "first":
                m.__dict__ = {"verif_bad": Unpicklable(), **d}
            elif f["where"] == "last":
                m.verif_bad = Unpicklable()
            else:
                m.verif_bad = {"x": [1, (np.arange(2000.0), Unpicklable())]}
            try:
                pickle.dumps(m)
                raise Skip("unknown attributes are not part of the model")
            except pickle.PicklingError:
                pass
            try:
                m.save(target)
                return "ok"
            except Exception:
                return "raised"
        finally:
            m.__dict__ = d
    size = len(pickle.dumps(m, pickle.HIGHEST_PROTOCOL))
    k = int(f["frac"] * size)
    if how == "full":
        ctx.fault("disk full")
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            m.save(target)
            return "ok"
        except OSError:
            return "raised"
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    if how == "killbyte":

        def body():
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            m.save(target)

        out = faults.in_child(body)
        ctx.fault("process killed at a byte" if out == "died" else "late kill")
        return out
    n = count(m, fresh, f["mode"])
    if n == 0:
        m.save(target)
        return "ok"
    at = min(n - 1, int(f["frac"] * n))
    if how == "killpoint":

        def body():
            with faults.Points(f["mode"], at, "exit"):
                m.save(target)

        out = faults.in_child(body)
        ctx.fault(f"process killed at a {f['mode']} point")
        return out
    with faults.Points(f["mode"], at, f["exc"], ctx) as p:
        try:
            m.save(target)
            out = "ok"
        except BaseException as e:
            if not isinstance(e, (Exception, KeyboardInterrupt)):
                raise
            out = "raised"
    ctx.log("point", at, p.fired)
    return out


def execute(sc, ctx):
    models = []
    for md in sc["models"]:
        s, m = build(md)
        models.append([s, m, md["cfg"], md])
    disk = Disk(ctx)
    ctx.nontrivial = True
    if sc["mode"] == "threads":
        return threads(sc, ctx, models, disk)
    trail = []
    for op in sc["ops"]:
        ctx.steps += 1
        k = op[0]
        trail.append(k if k != "save" else "save:" + op[3]["how"])
        if k == "save":
            s, m, cfg, md = models[op[1]]
            p, f = op[2], op[3]
            before = disk.held.get(p)
            obs = look(s, m, cfg)
            new = ("model", op[1], obs)
            out = do_save(m, form(disk, p, op[4]), f, ctx, disk)
            ctx.log("save", p, f["how"], out)
            if out == "raised" and f["how"] == "plain":
                raise Violation("a save fails without a reason", s.name, "")
            if out == "ok" and f["how"] == "unpicklable":
                raise Violation(
                    "a save that failed does not raise", s.name, str(f)
                )
            options = [new] if out == "ok" else [before, new]
            disk.verify(models, p, options, f"{trail[-4:]} {f} {out}")
            ctx.state(
                s.name,
                f["how"],
                before[0] if before else None,
                out,
                disk.held.get(p, [None])[0],
            )
            # saving asks nothing of the model itself
            d = differs(s, obs, look(s, m, cfg))
            if d:
                raise Violation("saving changes the model", s.name, d)
        elif k == "garbage":
            b = b"not a model" * op[2]
            with open(disk.full(op[1]), "wb") as fh:
                fh.write(b)
            disk.held[op[1]] = ("bytes", b)
        elif k == "nowhere":
            s, m, cfg, md = models[op[1]]
            if op[2] == "nodir":
                target = disk.full("missing/x")
            elif op[2] == "isdir":
                target = disk.full("sub")
            else:
                if "a" not in disk.held:
                    continue
                target = disk.full("a") + "/x"
            try:
                m.save(target)
            except Exception:
                out = "raised"
            else:
                out = "ok"
                try:
                    load_saved(s, target)
                except Exception as e:
                    raise Violation(
                        "a save that failed does not raise",
                        s.name,
                        f"{op[2]}: {type(e).__name__}: {e}",
                    )
            if op[2] == "nodir":
                ctx.log("nowhere", out)
            ctx.fault("impossible path")
            disk.verify(models, say=f"{trail[-4:]}")
        elif k == "take":
            # a new process goes on with what was saved
            st = disk.held.get(op[2])
            if st and st[0] == "model":
                s, _, cfg, md = models[st[1]]
                models[st[1]][1] = load_saved(s, disk.full(op[2]))
                ctx.fault("restart")
        else:
            s, m, cfg, md = models[op[1]]
            run = Runner(s, cfg, md["pool"], ctx)
            before = m
            m, out = run.apply(m, op[2])
            models[op[1]][1] = m
            trail[-1] = op[2][0]


class File:
    """A file whose opening, writes and closing are scheduling points."""

    def __init__(self, f, baton):
        self._f, self._b = f, baton

    def write(self, data):
        self._b.point()
        view = memoryview(data).cast("B") if not isinstance(data, str) else data
        if isinstance(data, str) or len(view) < 2:
            return self._f.write(data)
        h = len(view) // 2
        n = self._f.write(view[:h])
        self._f.flush()
        self._b.point()
        return n + self._f.write(view[h:])

    def read(self, *a):
        self._b.point()
        return self._f.read(*a)

    def readline(self, *a):
        self._b.point()
        return self._f.readline(*a)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._b.point()
        self._f.__exit__(*a)
        self._b.point()
        return False

    def close(self):
        self._b.point()
        self._f.close()
        self._b.point()


def threads(sc, ctx, models, disk):
    """Concurrent saves (and loads) of models to one or two paths."""
    import copy

    start = {}
    if sc["before"]:
        s, m, cfg, md = models[0]
        m.save(disk.full(PATHS[0]))
        start[PATHS[0]] = ("model", 0, look(s, m, cfg))
    allowed = {p: [st] for p, st in start.items()}
    bodies, loads = [], []
    for b in sc["bodies"]:
        if "load" in b:
            got = []
            loads.append((b["load"], got))
            s = models[0][0]

            def body(b=b, got=got, s=s):
                for _ in range(b["times"]):
                    try:
                        got.append(("ok", load_saved(s, disk.full(b["load"]))))
                    except FileNotFoundError:
                        got.append(("missing", None))
                    except Exception as e:
                        got.append(("raised", e))

            bodies.append(body)
            continue
        s, m, cfg, md = models[b["model"]]
        own = copy.deepcopy(m)
        own.verif_tag = float(b["scale"])
        if b["bad"]:
            own.verif_bad = Unpicklable()
        else:
            allowed.setdefault(b["path"], [])
            allowed[b["path"]].append(("model", b["model"], look(s, own, cfg)))

        def body(b=b, own=own):
            for _ in range(b["saves"]):
                own.save(disk.full(b["path"]))

        bodies.append(body)
    sch = sc["schedule"]
    bat = faults.Baton(bodies, sch, derive("c01", sch.get("seed", 0)), ctx)
    real = builtins.open

    def opened(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        try:
            inside = os.fspath(file).startswith(disk.root)
        except TypeError:
            inside = False
        if inside:
            bat.point()
            return File(f, bat)
        return f

    builtins.open = io.open = opened
    try:
        res = bat.run()
    finally:
        builtins.open = io.open = real
    ctx.steps += bat.step
    ctx.fault("concurrent saves")
    ctx.log("threads", bat.step, len(bat.trace))
    name = models[0][0].name
    for b, r in zip(sc["bodies"], res):
        if "load" in b:
            continue
        if b["bad"] and r[0] == "ok":
            raise Violation("a save that failed does not raise", name, str(b))
        if not b["bad"] and r[0] != "ok":
            raise Violation(
                "a save fails beside another save", name, repr(r[1])[:300]
            )
    for p, sts in allowed.items():
        good = [b for b in sc["bodies"] if b.get("path") == p and not b["bad"]]
        options = sts[1:] if (p in start and good) else sts
        bad = [disk.matches(p, st, models) for st in options]
        if all(bad):
            raise Violation(
                "concurrent saves leave a damaged file",
                name,
                f"{p}: {bad} with {sc['bodies']}",
            )
    for p, got in loads:
        for k, v in got:
            if k == "missing" and p not in start:
                continue
            if k == "ok":
                bad = []
                for st in allowed.get(p, []):
                    s, cfg = models[st[1]][0], models[st[1]][2]
                    bad.append(differs(s, st[2], look(s, v, cfg)))
                if not all(bad):
                    continue
            raise Violation(
                "a load beside a save gets a damaged model",
                name,
                f"{p}: {k} {v if k == 'raised' else ''}",
            )
        ctx.probe("loads beside saves", len(got))
    ctx.state("threads", name, len(bodies), [r[0] for r in res])


def shrink(sc):
    if sc["mode"] == "history":
        yield from shrink_ops(sc)
        for i, op in enumerate(sc["ops"]):
            if op[0] == "save" and op[4] != "str":
                yield dict(
                    sc,
                    ops=sc["ops"][:i]
                    + [op[:4] + ["str"]]
                    + sc["ops"][i + 1 :],
                )
    else:
        if len(sc["bodies"]) > 1:
            for i in range(len(sc["bodies"])):
                yield dict(sc, bodies=sc["bodies"][:i] + sc["bodies"][i + 1 :])
        for i, b in enumerate(sc["bodies"]):
            if b.get("saves", 1) > 1:
                yield dict(
                    sc,
                    bodies=sc["bodies"][:i]
                    + [dict(b, saves=1)]
                    + sc["bodies"][i + 1 :],
                )
        if sc["before"]:
            yield dict(sc, before=False)
    for i, md in enumerate(sc["models"]):
        if md["big"]:
            yield dict(
                sc,
                models=sc["models"][:i]
                + [dict(md, big=False)]
                + sc["models"][i + 1 :],
            )
        for c in shrink_cfg(md, BY_NAME[md["subject"]]):
            yield dict(
                sc, models=sc["models"][:i] + [c] + sc["models"][i + 1 :]
            )
