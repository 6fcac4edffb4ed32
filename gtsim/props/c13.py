"""C13: inputs are never modified and may be read-only."""
import numpy as np

from gtsim import boot, calls, faults
from gtsim.core import Violation
from gtsim.dasksim import check_observations, gen_scheduler, make_scheduler
from gtsim.props import c09, c11

LISTS = ("nan",)
SIMPLE = {"noise": [None], "scans": [1], "n": [1], "lazy": [False], "fault": [None], "lines": [1], "ns": [1, 3], "ticks": [1],
          "readonly": [False]}
ZONES = True
MIN_RUNS = 120
MAX_LOOKS = 20000
REAL = c09.REAL
STUB = c09.STUB + ["array allocator", "points at which exceptions arrive"]


def gen(rng, tier):
    lazy = rng.chance(0.25)
    call = calls.gen_lazy_call(rng, c11.LAZY, max_scans=2) if lazy else calls.gen_call(rng, c09.EVEN, max_scans=2)
    call["lazy"] = lazy
    for cont in call.get("conts", ()):
        cont["source"] = False
    big = call["kind"] in calls.MODIS + ("l250", "l500")
    scen = {"call": call, "readonly": rng.chance(0.5), "fault": None, "ticks": rng.pick([1, 1, 3, 9]),
            "sched": {"seed": rng.getrandbits(62), "max_log2": rng.pick([12, 14, 17, 20] if big else [3, 5, 8, 12]), "min_log2": 0}}
    if lazy:
        scen["workers"] = gen_scheduler(rng, threads_p=0.7)
    elif rng.chance(0.4):
        scen["fault"] = faults.gen_fault(rng)
    return scen


def roots(arrays):
    """The memory behind the arrays."""
    out = []
    for a in arrays:
        if isinstance(a, np.ndarray):
            while isinstance(a.base, np.ndarray):
                a = a.base
            out.append(a)
    return out


def face(a):
    """What the caller sees of an argument besides its elements."""
    if isinstance(a, np.ndarray):
        return "array", a.shape, a.strides, a.dtype, a.flags.writeable
    if hasattr(a, "dims"):
        return ("DataArray", a.dims, a.shape, a.dtype, a.chunks, a.name, sorted(map(str, a.coords)), sorted(a.attrs.items()),
                type(a.data).__name__, getattr(a.data, "name", None) if a.chunks else id(a.data))
    if isinstance(a, list):
        return "list", tuple(a)
    return type(a).__name__, getattr(a, "name", None), getattr(a, "chunks", None)


class Watch:
    """The caller's arrays and what they contained."""

    def __init__(self, arrays):
        self.given = list(arrays)
        self.faces = [face(a) for a in arrays]
        self.arrays = roots(arrays)
        self.before = [a.tobytes() for a in self.arrays]
        self.raw = [np.frombuffer(b, dtype=np.uint8) for b in self.before]
        self.looks = 0

    def look(self):
        """None, or which array differs."""
        self.looks += 1
        for n, (a, b) in enumerate(zip(self.arrays, self.before)):
            if a.tobytes() != b:
                was = np.frombuffer(b, dtype=a.dtype).reshape(a.shape)
                where = np.argwhere(~((a == was) | ((a != a) & (was != was))))
                if len(where):
                    at = tuple(int(i) for i in where[0])
                    return "argument %d: %d elements, first %s: %r was %r" % (n, len(where), at, a[at].item(), was[at].item())
                return "argument %d: other bits, equal values" % n
        for n, (a, was) in enumerate(zip(self.given, self.faces)):
            if face(a) != was:
                return "argument %d: %r was %r" % (n, face(a), was)
        return None


def protect(arrays):
    """Make the arrays, and what they are views of, read-only."""
    for a in roots(arrays):
        a.flags.writeable = False
    for a in arrays:
        if isinstance(a, np.ndarray):
            a.flags.writeable = False


def run(ctx, scen):
    import dask
    spec = scen["call"]
    try:
        ref = calls.run(spec)
    except Exception as exc:
        if calls.must_work(spec):
            raise Violation("well-formed call raises", "%s: %s: %s" % (spec["kind"], type(exc).__name__, str(exc)[:300]))
        ctx.probe("raises: %s" % type(exc).__name__)
        return
    arrs, aux = calls.inputs(spec), calls.aux_arrays(spec)
    same = list(arrs)
    if scen["readonly"]:
        protect(arrs + aux)
        ctx.probe("read-only inputs")
    if spec["kind"] in calls.VII and not spec["lazy"]:
        import xarray as xr
        arrs = [xr.DataArray(a, dims=spec["dims"], attrs={"units": "degrees"}, name="data") for a in arrs]
        watch = Watch(arrs + [a.values for a in arrs])
        same = list(arrs)
    else:
        watch = Watch(arrs + aux)
    kind = spec["kind"] + (" lazy" if spec["lazy"] else "")
    ctx.probe("kind " + kind)
    if spec["lazy"]:
        return run_lazy(ctx, scen, spec, arrs, watch, ref)
    seen = []
    state = {"on": True}

    def caller():
        try:
            return ctx.must("call with read-only inputs" if scen["readonly"] else "call",
                            lambda: calls.prepare(spec, arrs, aux or None)())
        finally:
            state["on"] = False

    def observer():
        while state["on"] and not seen and watch.looks < MAX_LOOKS:
            problem = watch.look()
            if problem:
                seen.append(problem)
            boot.simrt.yield_()
    ended = ctx.simulate([caller, observer], scen["sched"], ticks=scen["ticks"])
    for out in ended:
        if out[0] == "exc":
            raise out[1]
    ctx.checks += 1 + watch.looks
    ctx.probe("looks during calls", watch.looks)
    if seen:
        raise Violation("input modified while the call runs", "%s: %s" % (kind, seen[0]))
    got = ended[0][1]
    check_after(spec, arrs, same, watch, "call")
    problem = calls.compare(spec, got, ref)
    if problem:
        raise Violation("read-only inputs give something else" if scen["readonly"] else "observed call gives something else",
                        "%s: %s" % (kind, problem))
    ctx.result(kind, *got)
    for a in got:
        for b in watch.arrays:
            if np.shares_memory(a, b):
                ctx.probe("result shares memory with an input: " + spec["kind"])
    fault = scen["fault"]
    if fault:
        func = c11.doing(spec, arrs, aux or None)
        with dask.config.set(scheduler="synchronous"):
            _, points, _ = faults.attempt(func, fault, 0)
            if points:
                _, _, fired = faults.attempt(func, fault, 1 + int(fault["at"] * points))
                if fired:
                    ctx.fault(faults.name_of(fault))
                ctx.checks += 1
                check_after(spec, arrs, same, watch, "failed call")


def check_after(spec, arrs, same, watch, label):
    problem = watch.look()
    if problem:
        raise Violation("input modified by a " + label, "%s: %s" % (spec["kind"], problem))
    if len(arrs) != len(same) or any(a is not b for a, b in zip(arrs, same)):
        raise Violation("list of inputs modified", spec["kind"])


def run_lazy(ctx, scen, spec, arrs, watch, ref):
    import dask
    sched = make_scheduler(ctx, scen["workers"])
    wrapped = None
    if "conts" in spec:
        wrapped = [calls.wrap(a, c) for a, c in zip(arrs, spec["conts"])]
        if spec["kind"] in calls.VII:
            import xarray as xr
            wrapped = [xr.DataArray(a, dims=spec["dims"], attrs={"units": "degrees"}) for a in wrapped]
        watch.given += wrapped
        watch.faces += [face(a) for a in wrapped]
    lazy = ctx.must("building", calls.build_lazy, spec, arrs, wrapped)
    for _ in range(2):
        got = [np.asarray(getattr(a, "values", a)) for a in ctx.must("computing", dask.compute, *lazy, scheduler=sched)]
        ctx.checks += 1
        check_after(spec, arrs, list(arrs), watch, "lazy call")
    check_observations(sched)
    ctx.nontrivial = True
    if spec["kind"] in calls.VII:
        eps = 4e-6 if spec["dtype"] == "f4" else 1e-14
        got, ref = [g.astype("f8") for g in got], [np.asarray(r).astype("f8") for r in ref]
    else:
        eps = None
    problem = calls.compare(spec, got, ref, eps)
    if problem:
        raise Violation("result differs when computed again", problem)
    ctx.result(spec["kind"], *got)
