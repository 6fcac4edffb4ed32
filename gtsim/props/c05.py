"""C05: building a lazy result does no work."""
import numpy as np

from gtsim import boot, calls
from gtsim.core import Violation
from gtsim.dasksim import STORAGE, SimReadError, gen_scheduler, make_scheduler

LISTS = ("nan",)
SIMPLE = {"noise": [None], "scans": [1, 2]}
MIN_RUNS = 150
KERNEL_TICKS = 100_000      # the smallest interpolation of a scan takes several times as many


def gen(rng, tier):
    kinds = calls.MODIS_W + [("sgrid", 2), ("mgrid", 1), ("ggrid", 2), ("sspl", 2), ("mspl", 1), ("gspl", 2)]
    call = calls.gen_lazy_call(rng, kinds)
    for cont in call.get("conts", ()):
        cont["source"] = True
    return {"call": call, "down": rng.chance(0.7), "coords": rng.chance(0.2), "compute": rng.chance(0.5),
            "derive": rng.chance(0.4), "sched": gen_scheduler(rng, faults=rng.chance(0.2), threads_p=0.5)}


def run(ctx, scen):
    import dask
    import scipy.interpolate as si
    spec = scen["call"]
    arrs = calls.inputs(spec)
    computed, evaluated = [], []

    def refuse(dsk, keys, **kwargs):
        computed.append(len(dsk))
        raise SimReadError(5, "simulated: computation while building")
    hooked = hook_scipy(si, evaluated)
    wrapped = None
    if "conts" in spec:
        wrapped = [calls.wrap(a, c, "%s-%d" % (spec["kind"], i)) for i, (a, c) in enumerate(zip(arrs, spec["conts"]))]
        if scen["coords"]:
            wrapped = [w.assign_attrs(units="degrees") if hasattr(w, "dims") else w for w in wrapped]
    obj = None
    if spec["kind"] in calls.GRID:
        obj = ctx.must("construction", calls.grid_interpolator, spec, arrs)
    STORAGE.reset()
    STORAGE.down = scen["down"]
    if scen["down"]:
        ctx.fault("storage down while building")
    evaluated.clear()
    out = []

    def build():
        with dask.config.set(scheduler=refuse):
            if obj is None:
                lazy = calls.build_lazy(spec, arrs, wrapped)
            else:
                klass, fine, opts = obj
                lazy = calls.grid_lazy(spec, klass, fine, opts)
            if scen["derive"]:
                lazy = [(a * 1.0 + 0.0)[..., :].astype(a.dtype) for a in lazy]
                for a in lazy:
                    repr(a)
            out.extend(lazy)
    ended = ctx.simulate([build], {"seed": 1, "max_log2": 60, "min_log2": 60}, ticks=0)[0]
    ticks = boot.simrt.stats()["ticks"]
    ctx.checks += 1
    ctx.nontrivial = True
    ctx.probe("kind " + spec["kind"])
    unhook_scipy(si, hooked)
    reads = [r for r in STORAGE.reads]
    if reads:
        raise Violation("input read while building", "%d reads, first %r" % (len(reads), reads[0]))
    if computed:
        raise Violation("computation started while building", "%d computations" % len(computed))
    if evaluated:
        raise Violation("interpolated while building", "%d evaluations" % len(evaluated))
    if ticks > KERNEL_TICKS:
        raise Violation("interpolated while building", "%d basic blocks executed" % ticks)
    if ended[0] == "exc":
        ctx.must("building", _raise, ended[1])
    for a in out:
        if not hasattr(getattr(a, "data", a), "dask"):
            raise Violation("result is not lazy", type(a).__name__)
    STORAGE.reset()
    if not scen["compute"]:
        return
    try:
        ref = calls.run(spec, [a.copy() for a in arrs])
    except Exception:
        ctx.probe("eager call raises")
        return
    sched = make_scheduler(ctx, scen["sched"])
    got = ctx.must("computing later", dask.compute, *out, scheduler=sched)
    if "conts" in spec and not STORAGE.reads:
        raise Violation("input not read when computing", "")
    problem = calls.compare(spec, [np.asarray(a) for a in got], ref)
    if problem:
        raise Violation("later result differs", problem)
    ctx.probe("computed later")
    ctx.result(spec["kind"], *[np.asarray(a) for a in got])


def _raise(exc):
    raise exc


def hook_scipy(si, evaluated):
    """Count evaluations of scipy interpolators."""
    hooked = []
    for klass in (si.RegularGridInterpolator, si.RectBivariateSpline, si.RectBivariateSpline.__mro__[1],
                  si.RectBivariateSpline.__mro__[2]):
        for name in ("__call__", "ev"):
            if name in klass.__dict__:
                real = klass.__dict__[name]

                def counting(self, *args, _real=real, **kwargs):
                    evaluated.append(type(self).__name__)
                    return _real(self, *args, **kwargs)
                hooked.append((klass, name, real))
                setattr(klass, name, counting)
    return hooked


def unhook_scipy(si, hooked):
    for klass, name, real in hooked:
        setattr(klass, name, real)
