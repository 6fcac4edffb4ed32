"""C01: chunked MODIS interpolation equals whole-swath interpolation."""
import numpy as np

from gtsim import calls
from gtsim.core import Violation
from gtsim.dasksim import check_observations, gen_scheduler, make_scheduler

LISTS = ("nan",)
SIMPLE = {"noise": [None], "scans": [1, 2]}


def gen(rng, tier):
    return {"call": calls.gen_lazy_call(rng, calls.MODIS_W, max_scans=4 if tier == "quick" else 6, many=0.04),
            "sched": gen_scheduler(rng, threads_p=0.6),
            "together": rng.chance(0.7)}


def run(ctx, scen):
    import dask
    spec = scen["call"]
    arrs = calls.inputs(spec)
    ref = ctx.must("eager call", calls.run, spec, [a.copy() for a in arrs])
    lazy = ctx.must("building", calls.build_lazy, spec, arrs)
    check_form(spec, lazy, ref)
    sched = make_scheduler(ctx, scen["sched"])
    if scen["together"]:
        got = list(ctx.must("computing", dask.compute, *lazy, scheduler=sched))
    else:
        got = [ctx.must("computing", dask.compute, a, scheduler=sched)[0] for a in lazy]
    got = [np.asarray(getattr(a, "values", a)) for a in got]
    ctx.nontrivial = True
    ctx.probe("container " + "/".join(sorted({c["kind"] for c in spec["conts"]})))
    ctx.probe("kind " + spec["kind"])
    if any(c["chunks"] != spec["conts"][0]["chunks"] for c in spec["conts"]):
        ctx.probe("arguments chunked differently")
    rows = 2 if spec["swath"]["res"] == 5000 else 10
    if any(n % rows for n in spec["conts"][0]["chunks"][0]):
        ctx.probe("a chunk cuts a scan")
    if spec["conts"][0]["chunks"][0][0] < rows:
        ctx.probe("chunks smaller than a scan")
    if len(spec["conts"][0]["chunks"][1]) > 1:
        ctx.probe("several column chunks")
    ctx.probe("output blocks %s" % (">1" if len(getattr(lazy[0], "data", lazy[0]).chunks[0]) > 1 else "1"))
    ctx.checks += 1
    check_observations(sched)
    problem = calls.compare(spec, got, ref)
    if problem:
        raise Violation("chunked result differs", problem)
    ctx.result(spec["kind"], *got)


def check_form(spec, lazy, ref):
    """Shape, dtype and container of lazy results."""
    if len(lazy) != len(ref):
        raise Violation("number of results", str(len(lazy)))
    first = spec["conts"][0]
    for name, a, b in zip(("lon", "lat"), lazy, ref):
        if first["kind"] in ("xr", "xrnp"):
            if not hasattr(a, "dims") or list(a.dims) != first["dims"]:
                raise Violation("container", "%s: dims %r instead of %r" % (name, getattr(a, "dims", None), first["dims"]))
            if not hasattr(a.data, "dask"):
                raise Violation("container", "%s: a DataArray of %s" % (name, type(a.data).__name__))
        elif not hasattr(a, "dask") or hasattr(a, "dims"):
            raise Violation("container", "%s is a %s" % (name, type(a).__name__))
        if a.shape != b.shape:
            raise Violation("declared shape", "%s: %s instead of %s" % (name, a.shape, b.shape))
        if a.dtype != b.dtype:
            raise Violation("declared dtype", "%s: %s instead of %s" % (name, a.dtype, b.dtype))
