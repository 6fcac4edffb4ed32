"""C06: tasks survive shipping, crashes, retries and duplicate execution."""
import numpy as np

from gtsim import calls
from gtsim.core import Violation
from gtsim.dasksim import ClusterScheduler, check_observations, gen_scheduler
from gtsim.rng import Rng

LISTS = ("nan",)
SIMPLE = {"noise": [None], "scans": [1, 2], "n": [1, 2], "slots": [1], "crash": [0], "lose": [0], "dup": [0], "spec": [0],
          "read": [0], "slow": [0], "spill": [0], "budget": [0, 1, 2], "procs": [False]}
MIN_RUNS = 100
STUB = ["cluster scheduler, network, worker supervision", "storage", "clock"]


def gen(rng, tier):
    kinds = calls.MODIS_W + [("sgrid", 3), ("mgrid", 1), ("ggrid", 3), ("sspl", 3), ("mspl", 1), ("gspl", 3), ("vtie", 2), ("vgeo", 2)]
    call = calls.gen_lazy_call(rng, kinds, max_scans=rng.pick([4, 4, 4, 8]), many=0.02)
    sched = gen_scheduler(rng, faults=True, procs=rng.chance(0.85), threads_p=0.0)
    sched["readonly"] = rng.chance(0.95)
    sched["keep"] = rng.chance(0.5)
    return {"call": call, "sched": sched}


def PROCS(scen):
    return scen["sched"]["procs"]


def run(ctx, scen):
    import dask
    spec = scen["call"]
    arrs = calls.inputs(spec)
    try:
        ref = calls.run(spec, [a.copy() for a in arrs])
    except Exception:
        ctx.probe("eager call raises")
        return
    s = scen["sched"]
    zygote = ctx.zygote if s["procs"] else None
    local = ClusterScheduler(ctx, Rng(3), 1, 1, None, {}, 0, True)
    with dask.config.set(scheduler=local):
        lazy = ctx.must("building", calls.build_lazy, spec, arrs)
    sched = ClusterScheduler(ctx, Rng(s["seed"]), s["n"], s["slots"], zygote, s["faults"], s["retries"], s["readonly"],
                             s.get("keep", False))
    got = None
    try:
        got = dask.compute(*lazy, scheduler=sched)
    except Exception as exc:
        if sched.unpicklable:
            raise Violation("task cannot be serialised", "%s: %s" % sched.unpicklable)
        ctx.must("computing on the cluster", _raise, exc)
    ctx.nontrivial = True
    ctx.checks += 1
    ctx.probe("kind " + spec["kind"])
    ctx.probe("tasks executed", sched.executed)
    check_observations(sched)
    eps = None
    got = [np.asarray(getattr(a, "values", a)) for a in got]
    if spec["kind"] in calls.VII:
        eps = 4e-6 if spec["dtype"] == "f4" else 1e-14
        got, ref = [g.astype("f8") for g in got], [np.asarray(r).astype("f8") for r in ref]
    problem = calls.compare(spec, got, ref, eps)
    if problem:
        raise Violation("result differs from the fault-free one", problem)
    ctx.result(spec["kind"], *got)


def _raise(exc):
    raise exc
