"""C11: a fault during interpolation raises; it never turns into wrong data."""
import time

import numpy as np

from gtsim import calls, faults, pools
from gtsim.core import SimHang, Violation
from gtsim.rng import Rng

LISTS = ("nan", "faults")
SIMPLE = {"noise": [None], "scans": [1], "lazy": [False], "sticky": [0], "n": [1], "lines": [1]}
MIN_RUNS = 120
PROCS = staticmethod(lambda scen: bool(scen["call"].get("cores")))
REAL = ["geotiepoints (all modules, compiled from /repo with coverage hooks)", "numpy", "scipy", "dask arrays and graphs",
        "xarray", "pandas"]
STUB = ["array allocator (fails on request)", "points at which exceptions arrive", "storage", "process pool scheduling", "clock"]
WEIGHTS = calls.MODIS_W + [("sgrid", 1), ("mgrid", 1), ("ggrid", 2), ("sspl", 1), ("mspl", 1), ("gspl", 2), ("l500", 0.7),
                           ("l250", 0.4), ("l5to1", 1.5), ("metop", 1), ("gen5", 1.5), ("interp", 3), ("ginterp", 3), ("mlin", 3),
                           ("basic", 1), ("vtie", 2), ("vgeo", 3), ("conv", 1)]
LAZY = calls.MODIS_W + [("sgrid", 1), ("mgrid", 1), ("ggrid", 2), ("sspl", 1), ("mspl", 1), ("gspl", 2), ("vtie", 1.5), ("vgeo", 1.5)]


def gen(rng, tier):
    if rng.chance(0.06):
        call = calls.gen_call(rng, [("l500", 1)], max_scans=2)
        call["cores"] = 2
        fault = faults.gen_fault(rng, alloc=0)
        fault.update(where="lines", exc=rng.pick(sorted(set(faults.EXCEPTIONS) - set(faults.ORDINARY))))
        return {"call": call, "faults": [dict(fault, at=rng.random()) for _ in range(3)], "pool": rng.getrandbits(60),
                "sched": {"seed": rng.getrandbits(62), "max_log2": 4, "min_log2": 0}}
    lazy = rng.chance(0.3)
    call = calls.gen_lazy_call(rng, LAZY, max_scans=2) if lazy else calls.gen_call(rng, WEIGHTS, max_scans=2)
    call["lazy"] = lazy
    small = call["kind"] not in calls.MODIS + ("l250", "l500", "l5to1", "gen5", "metop")
    return {"call": call, "faults": [faults.gen_fault(rng, lazy) for _ in range(12 if small else 6)]}


def doing(spec, arrs, aux):
    """The whole call as a function without arguments."""
    import dask
    if not spec.get("lazy"):
        return lambda: calls.prepare(spec, arrs, aux)()

    def lazily():
        out = dask.compute(*calls.build_lazy(spec, arrs), scheduler="synchronous")
        return [np.asarray(getattr(a, "values", a)) for a in out]
    return lazily


def run(ctx, scen):
    import dask
    spec = scen["call"]
    arrs, aux = calls.inputs(spec), calls.aux_arrays(spec) or None
    if spec.get("cores"):
        return run_cores(ctx, scen, spec, arrs)
    func = doing(spec, arrs, aux)
    with dask.config.set(scheduler="synchronous"):
        try:
            ref = [np.array(a) for a in func()]
        except Exception as exc:
            ctx.probe("raises without a fault: %s" % type(exc).__name__)
            return
        ctx.probe("kind " + spec["kind"] + (" lazy" if spec.get("lazy") else ""))
        points = {}
        for fault in scen["faults"]:
            what = {k: v for k, v in fault.items() if k not in ("at", "exc", "sticky")}
            key = repr(sorted(what.items()))
            if key not in points:
                out, points[key], _ = faults.attempt(func, fault, 0)
                if out[0] == "exc":
                    ctx.must("second call", _raise, out[1])
            if not points[key]:
                continue
            at = 1 + int(fault["at"] * points[key])
            out, _, fired = faults.attempt(func, fault, at)
            judge(ctx, spec, fault, out, fired, ref, points[key])
            ctx.event(fault["kind"], at, points[key], fired, out[0])
            ctx.signature.append((fault["kind"], at))


def judge(ctx, spec, fault, out, fired, ref, points):
    """Raise or the right answer."""
    name = faults.name_of(fault)
    if fired:
        ctx.fault(name)
    ctx.checks += 1
    if out[0] == "exc":
        if not fired:
            ctx.must("call without a fault", _raise, out[1])
        ctx.probe("fault raised" if faults.expected(fault, out[1]) else "fault raised as another exception")
        return
    problem = calls.compare(spec, out[1], ref, 1e-11 if spec.get("cores") else None)
    if problem:
        raise Violation("wrong result after a fault", "%s (of %d points): %s" % (name, points, problem))
    if fired:
        ctx.probe("fault survived with the right result")


def run_cores(ctx, scen, spec, arrs):
    """The parent of worker processes is hit."""
    from gtsim.props.c07 import call_cores
    ref = ctx.must("single core", calls.run, dict(spec, cores=None), [a.copy() for a in arrs])
    count = None
    for fault in [None] + scen["faults"]:
        pools.WORLD = world = pools.PoolWorld(Rng(scen["pool"]), ctx.zygote)
        box = []

        def main():
            try:
                box.append(("ok", call_cores(spec, arrs, spec["cores"])))
            except BaseException as exc:  # noqa
                exc.__traceback__ = None     # keeps the pool alive
                box.append(("exc", exc))
            time.sleep(60.0)
        inject = (faults.LINE, 0, None)
        if fault:
            inject = (faults.LINE, 1 + int(fault["at"] * count), faults.EXCEPTIONS[fault["exc"]])
        try:
            ended = ctx.simulate([main], scen["sched"], inject=inject)[0]
        except SimHang as exc:
            raise Violation("hang after a fault in the calling process", str(exc))
        n, fired, _ = ctx.event_stats
        if not fault:
            count = n
            if ended[0] == "exc":
                raise ended[1]
            ctx.must("call", _raise, box[0][1]) if box[0][0] == "exc" else None
            continue
        judge(ctx, spec, fault, box[0], fired, ref, count)
        if [w for w in world.live if w not in world.stranded]:
            raise Violation("worker processes left running after a fault in the calling process", "")
    ctx.probe("calling process of worker processes hit")


def _raise(exc):
    raise exc
