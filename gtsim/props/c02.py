"""C02: lazy grid and spline interpolation equals eager interpolation."""
import numpy as np

from gtsim import calls
from gtsim.core import Violation
from gtsim.dasksim import check_observations, gen_scheduler, make_scheduler

SIMPLE = {"how": ["int", "arange"], "seed": [0, 1], "n": [1, 2, 3], "a": [1, 2], "b": [1, 2]}
MIN_RUNS = 200


def gen(rng, tier):
    kinds = [("sgrid", 3), ("mgrid", 1), ("ggrid", 3), ("sspl", 3), ("mspl", 1), ("gspl", 3)]
    call = calls.gen_lazy_call(rng, kinds)
    if rng.chance(0.03):
        make_long(rng, call)
    return {"call": call, "sched": gen_scheduler(rng, faults=rng.chance(0.4), threads_p=0.5, native=False),
            "shape": rng.chance(0.15), "eager_first": rng.chance(0.5), "together": rng.chance(0.6)}


def make_long(rng, spec):
    """A strip of very many fine points."""
    axis = rng.pick([0, 0, 1])
    spec["fine"][axis].update(how="long", n=rng.randint(30000, 80000), beyond=False)
    spec["fine"][1 - axis].update(how="float", n=rng.randint(1, 2))
    for opts in (spec["init"], spec["call"]):
        if opts.get("method") in ("pchip", "cubic"):
            opts["method"] = "linear"
    spec["chunks"]["most"] = rng.pick([2, 4, 12])


def run(ctx, scen):
    import dask
    spec = scen["call"]
    if scen["shape"] and spec["kind"] not in ("sgrid", "sspl"):
        to_shape(ctx, scen)
        return
    arrs = calls.inputs(spec)
    obj, fine, opts = ctx.must("construction", calls.grid_interpolator, spec, arrs)
    shape = tuple(len(f) for f in fine)
    chunks = calls.resolve_chunks(spec["chunks"], shape)
    ref_err = None

    def eager():
        return calls.as_list(obj.interpolate(fine, **opts))
    ref = got = None
    sched = make_scheduler(ctx, scen["sched"])

    def lazily():
        lazy = calls.as_list(obj.interpolate(fine, chunks=chunks, **opts))
        if scen["together"]:
            return lazy, list(dask.compute(*lazy, scheduler=sched))
        return lazy, [a.compute(scheduler=sched) for a in lazy]
    if not scen["eager_first"]:
        try:
            got = ("ok", *lazily())
        except Exception as exc:
            got = ("exc", exc)
    try:
        ref = eager()
    except Exception as exc:
        ref_err = exc
    if got is None:
        try:
            got = ("ok", *lazily())
        except Exception as exc:
            got = ("exc", exc)
    ctx.probe("kind " + spec["kind"])
    ctx.probe("fine points " + "/".join(sorted({f["how"] for f in spec["fine"]})))
    ctx.probe("chunks " + spec["chunks"]["how"])
    ctx.checks += 1
    check_observations(sched)
    if ref_err is not None:
        ctx.probe("eager call raises")
        if got[0] == "ok":
            raise Violation("no exception", "the eager call raises %r, the lazy one returns" % (ref_err,))
        return
    ctx.nontrivial = True
    if got[0] == "exc":
        exc = got[1]
        raise Violation("lazy call raised %s" % (getattr(exc, "name", None) or type(exc).__name__), str(exc)[:500])
    lazy, got = got[1], got[2]
    for a, b in zip(lazy, ref):
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Violation("declared shape or dtype", "%s %s instead of %s %s" % (a.shape, a.dtype, b.shape, b.dtype))
    ctx.probe("number of chunks " + ("1" if lazy[0].npartitions == 1 else "2-8" if lazy[0].npartitions < 9 else ">8"))
    problem = calls.compare(spec, [np.asarray(a) for a in got], ref)
    if problem:
        raise Violation("lazy result differs", problem)
    ctx.result(spec["kind"], *got)


def to_shape(ctx, scen):
    """interpolate_to_shape, lazily and eagerly."""
    import dask
    spec = scen["call"]
    spec["tie_off"] = 0
    spec["tie"] = "even"
    if "bounds_error" not in spec["init"] and spec["kind"].endswith("grid"):
        spec["init"].update(bounds_error=False, fill_value=None)
    arrs = calls.inputs(spec)
    obj, _, opts = ctx.must("construction", calls.grid_interpolator, spec, arrs)
    shape = (1 + spec["fine"][0]["n"], 1 + spec["fine"][1]["n"])
    ref = ctx.must("eager", lambda: calls.as_list(obj.interpolate_to_shape(shape, **opts)))
    sched = make_scheduler(ctx, scen["sched"])
    lazy = ctx.must("building", lambda: calls.as_list(
        obj.interpolate_to_shape(shape, chunks=calls.resolve_chunks(spec["chunks"], shape), **opts)))
    got = ctx.must("computing", dask.compute, *lazy, scheduler=sched)
    ctx.probe("interpolate_to_shape")
    ctx.nontrivial = True
    ctx.checks += 1
    problem = calls.compare(spec, [np.asarray(a) for a in got], ref)
    if problem:
        raise Violation("lazy result differs", problem)
