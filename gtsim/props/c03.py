"""C03: VII interpolation does not depend on how its inputs are chunked."""
from gtsim import calls
from gtsim.core import Violation
from gtsim.dasksim import check_observations, gen_scheduler, make_scheduler

SIMPLE = {"scans": [1, 2], "n": [1], "factor": [2], "act": [3, 4]}
MIN_RUNS = 150


def gen(rng, tier):
    return {"call": calls.gen_lazy_call(rng, [("vtie", 2), ("vgeo", 3)]),
            "sched": gen_scheduler(rng, faults=rng.chance(0.3), threads_p=0.5, native=False)}


def run(ctx, scen):
    import dask
    spec = scen["call"]
    arrs = calls.inputs(spec)
    ref = ctx.must("eager call", calls.vii, spec, [a.copy() for a in arrs], False)
    sched = make_scheduler(ctx, scen["sched"])
    with dask.config.set(scheduler=sched):
        lazy = ctx.must("building", calls.build_lazy, spec, arrs)
        ctx.probe("computations while building: %d" % sched.calls)
        got = ctx.must("computing", dask.compute, *lazy)
    ctx.nontrivial = True
    ctx.checks += 1
    ctx.probe("kind " + spec["kind"])
    if len(ref) != len(got):
        raise Violation("number of results", "%d instead of %d" % (len(got), len(ref)))
    for a, l, b in zip(got, lazy, ref):
        if a.dims != b.dims or l.dims != b.dims:
            raise Violation("dimensions", "%r (lazy %r) instead of %r" % (a.dims, l.dims, b.dims))
        if sorted(a.coords) != sorted(b.coords):
            raise Violation("coordinates", "%r instead of %r" % (sorted(a.coords), sorted(b.coords)))
        if l.shape != b.shape:
            raise Violation("declared shape", "%s instead of %s" % (l.shape, b.shape))
    check_observations(sched)
    # xarray itself makes float64 of float32 in memory and keeps float32 in chunks
    got, ref = [g.values.astype("f8") for g in got], [r.values.astype("f8") for r in ref]
    eps = 4e-6 if spec["dtype"] == "f4" else 1e-14
    problem = calls.compare(spec, got, ref, eps)
    if problem:
        raise Violation("chunked result differs", problem)
    ctx.result(spec["kind"], *got)
