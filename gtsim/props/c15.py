"""C15: a damaged scan affects only its own pixels."""
import numpy as np

from gtsim import calls, pools
from gtsim.core import Violation
from gtsim.dasksim import check_observations, gen_sched, gen_scheduler, make_scheduler
from gtsim.rng import Rng

LISTS = ("nan", "damage", "scans_hit")
SIMPLE = {"noise": [None], "lazy": [False], "cores": [1, 2], "slow": [0.1], "dtype": ["f8"]}
MIN_RUNS = 100
PROCS = staticmethod(lambda scen: bool(scen.get("procs")))
REAL = ["geotiepoints (all modules, compiled from /repo with coverage hooks)", "numpy", "scipy", "dask arrays and graphs",
        "xarray"]
STUB = ["storage that delivers damaged rows", "dask scheduler", "process pool scheduling", "thread scheduler", "clock"]
KINDS = calls.MODIS_W + [("l250", 1.5), ("l500", 2), ("l5to1", 1.5), ("gen5", 1.5), ("metop", 3)]
FINITE = ("l250", "l500", "l5to1", "gen5")


def gen(rng, tier):
    kind = rng.weighted(KINDS)
    lazy = kind in calls.MODIS and rng.chance(0.6)
    most = 4 if tier == "quick" else 7
    while True:
        call = calls.gen_lazy_call(rng, (kind,), max_scans=most) if lazy else calls.gen_call(rng, (kind,), max_scans=most)
        if kind == "metop" and call["lines"] > 1 or kind != "metop" and call["swath"]["scans"] > 1:
            break
    call["lazy"] = lazy
    if rng.chance(0.15):            # every scan seen alike: any difference between scans is damage
        call["texture"] = call.get("texture", []) + [{"how": "scans", "args": rng.pick([[2], [2], [0, 1, 2], [0, 1]]), "seed": 0, "step": 1.0}]
    n = call["lines"] if kind == "metop" else call["swath"]["scans"]
    hit = list(range(n))
    rng.shuffle(hit)
    hit = hit[:min(rng.pick([1, 1, 1, 2, n - 1]), n - 1)]
    scen = {"call": call, "scans_hit": hit,
            "damage": [gen_damage(rng, kind in FINITE) for _ in range(rng.pick([1, 1, 2, 3]))]}
    if lazy:
        scen["sched"] = gen_scheduler(rng, threads_p=0.6)
    if kind in ("l250", "l500"):
        scen.update(cores=rng.pick([1, 2, 3, 5]), seed=rng.getrandbits(62), slow=rng.pick([0.1, 1.0]),
                    sched=gen_sched(rng, False), procs=rng.chance(0.2))
    return scen


def gen_damage(rng, finite):
    """What happened to stored tie points of a scan."""
    how = rng.weighted([("fill", 2), ("random", 2), ("bits", 2), ("swap", 1)] + ([] if finite else [("nan", 4), ("inf", 1)]))
    return {"how": how, "what": rng.pick(["all", "all", "row", "col", "cell", "some"]), "seed": rng.getrandbits(31),
            "args": rng.pick([[0, 1, 2], [0], [1], [2], [0, 1]])}


def damage(arrs, rows, spec, finite):
    """Damage these rows of the arrays."""
    rng = np.random.default_rng(spec["seed"])
    for i in spec["args"]:
        if i >= len(arrs):
            continue
        a = arrs[i]
        part = a[rows]
        mask = np.zeros(part.shape, dtype=bool)
        y, x = int(rng.integers(part.shape[0])), int(rng.integers(part.shape[1]))
        if spec["what"] == "all":
            mask[...] = True
        elif spec["what"] == "row":
            mask[y] = True
        elif spec["what"] == "col":
            mask[:, x] = True
        elif spec["what"] == "cell":
            mask[y, x] = True
        else:
            mask = rng.random(part.shape) < 0.3
        n = int(mask.sum())
        if spec["how"] == "nan":
            part[mask] = np.nan
        elif spec["how"] == "inf":
            part[mask] = rng.choice([np.inf, -np.inf], n)
        elif spec["how"] == "fill":
            part[mask] = rng.choice([-999.0, -32767.0, 0.0, 65535.0])
        elif spec["how"] == "random":
            part[mask] = rng.uniform(-180, 180, n)
        elif spec["how"] == "swap":
            part[mask] = rng.permutation(part[mask])
        else:
            raw = part[mask]
            bits = raw.view("u4" if raw.dtype.itemsize == 4 else "u8")
            bits ^= (np.ones(n, bits.dtype) << rng.integers(0, 8 * raw.dtype.itemsize, n).astype(bits.dtype))
            if finite:
                raw[~np.isfinite(raw) | (np.abs(raw) > 1e5)] = -999.0
            part[mask] = raw


def rows_of(spec, scan, out=False):
    """Rows of a scan among the tie points or in the result."""
    kind = spec["kind"]
    if kind == "metop":
        return slice(scan, scan + 1)
    n = 2 if spec["swath"]["res"] == 5000 else 10
    if out:
        n = {"a250": 40, "a500": 20, "s250": 40, "s500": 20, "a5to1": 10, "a5to500": 20, "a5to250": 40, "l250": 40, "l500": 20,
             "l5to1": 10, "gen5": 10}[kind]
    return slice(scan * n, scan * n + n)


def run(ctx, scen):
    spec = scen["call"]
    kind = spec["kind"]
    sound = calls.inputs(spec)
    hurt = calls.inputs(spec)
    n = spec["lines"] if kind == "metop" else spec["swath"]["scans"]
    hit = sorted({s % n for s in scen["scans_hit"]})
    for scan in hit:
        for d in scen["damage"]:
            damage(hurt, rows_of(spec, scan), d, kind in FINITE)
    plain = {k: v for k, v in spec.items() if k not in ("conts", "lazy")}
    ref = ctx.must("undamaged call", calls.run, plain, sound)
    ctx.probe("kind " + kind + (" lazy" if spec["lazy"] else ""))
    for d in scen["damage"]:
        ctx.fault("damaged scan: " + d["how"], len(hit))
    got = interpolate(ctx, scen, spec, hurt)
    if got is None:
        return
    ctx.checks += 1
    left = [s for s in range(n) if s not in hit]
    for a, b in zip(got, ref):
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Violation("damage changes shape or dtype", "%s: %s %s instead of %s %s" % (kind, a.shape, a.dtype, b.shape, b.dtype))
    eps = 1e-9 if kind in FINITE + ("metop",) else None
    for s in left:
        rows = rows_of(spec, s, True)
        problem = calls.compare(spec, [a[rows] for a in got], [b[rows] for b in ref], eps)
        if problem:
            raise Violation("damage spreads to another scan", "%s: scans %s of %d damaged (%s), scan %d: %s"
                            % (kind, hit, n, "+".join(d["how"] for d in scen["damage"]), s, problem))
    ctx.result(kind, *[a[rows_of(spec, s, True)] for s in left for a in got])


def interpolate(ctx, scen, spec, hurt):
    """The call under test on damaged tie points."""
    import dask
    kind = spec["kind"]
    if spec["lazy"]:
        lazy = ctx.must("building", calls.build_lazy, spec, hurt)
        sched = make_scheduler(ctx, scen["sched"])
        got = ctx.must("computing with a damaged scan", dask.compute, *lazy, scheduler=sched)
        check_observations(sched)
        return [np.asarray(getattr(a, "values", a)) for a in got]
    if kind in ("l250", "l500"):
        from gtsim.props.c07 import call_cores
        pools.WORLD = pools.PoolWorld(Rng(scen["seed"]), ctx.zygote if scen["procs"] else None, slow=scen["slow"])
        ended = ctx.simulate([lambda: call_cores(spec, hurt, scen["cores"])], scen["sched"])[0]
        if ended[0] == "exc":
            ctx.must("multi-core call with a damaged scan", _raise, ended[1])
        return ended[1]
    if kind == "metop":
        try:
            return calls.run(spec, hurt)
        except Exception as exc:
            if all(np.isfinite(a).all() for a in hurt):
                ctx.must("call with a damaged line", _raise, exc)
            ctx.probe("lines that are not finite are rejected")
            return None
    return ctx.must("call with a damaged scan", calls.run, spec, hurt)


def _raise(exc):
    raise exc
