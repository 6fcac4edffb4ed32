"""C10: a prepared interpolator object can be shared between threads."""
import numpy as np

from gtsim import boot, calls
from gtsim.core import Violation

LISTS = ("programs",)
SIMPLE = {"ticks": [1], "lazy": [False], "n": [1], "scans": [1], "ns": [1, 2, 5], "lines": [1]}
MIN_RUNS = 120
PROCS = True
REAL = ["geotiepoints (interpolator, geointerpolator, multilinear, basic_interpolator)", "numpy", "scipy", "dask", "pandas"]
STUB = ["thread scheduler (preempts Python lines or instructions and basic blocks of the compiled code)", "clock"]
KINDS = [("sgrid", 2), ("mgrid", 2), ("ggrid", 2), ("sspl", 2), ("mspl", 2), ("gspl", 2), ("interp", 4), ("ginterp", 4),
         ("mlin", 4), ("basic", 2)]


def gen(rng, tier):
    spec = calls.gen_call(rng, KINDS)
    kind = spec["kind"]
    if slow(spec) and spec["ny"] * spec["nx"] > 150:
        spec["init"]["method"] = "slinear"
        spec["call"].pop("method", None)
    variants = [{}]
    for _ in range(rng.pick([0, 1, 2])):
        if kind in calls.GRID:
            var = calls.gen_grid(rng, kind)
            variants.append({"fine": var["fine"], "call": var["call"] if rng.chance(0.3) else spec["call"]})
        elif kind == "mlin":
            variants.append({"ns": rng.logint(1, 400), "sseed": rng.getrandbits(31)})
    if kind in calls.GRID:
        for var in variants:
            if rng.chance(0.3):
                var["chunks"] = dict(calls.gen_chunks(rng), most=3 if slow(spec) else 5)
    if kind == "mlin" and rng.chance(0.4):
        variants.append({"grid": True})
    threads = rng.pick([2, 2, 3, 4])
    return {"call": spec, "variants": variants,
            "programs": [[rng.randint(0, len(variants) - 1) for _ in range(rng.pick([1, 1, 2, 3]))] for _ in range(threads)],
            "ticks": rng.pick([1, 1, 3, 9]), "shared_fine": rng.chance(0.5),
            "sched": {"seed": rng.getrandbits(62), "max_log2": rng.pick([1, 2, 3, 5, 8, 12, 16]), "min_log2": 0}}


def slow(spec):
    """Interpolation in many lines of Python."""
    return "pchip" in (spec.get("init", {}).get("method"), spec.get("call", {}).get("method"))


def build(spec, arrs, aux):
    """Construct and prepare the object."""
    if spec["kind"] in calls.GRID:
        return calls.grid_interpolator(spec, arrs, aux)[0]
    if spec["kind"] == "mlin":
        from geotiepoints.multilinear import MultilinearInterpolator
        return MultilinearInterpolator(arrs[0], arrs[1], spec["orders"], arrs[2], dtype=np.dtype(spec["dtype"]).type)
    if spec["kind"] == "basic":
        from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
        return BasicSatelliteInterpolator(aux[1], aux[0], arrs[1], arrs[0])
    obj = calls.interp_object(spec, arrs, aux)
    calls.fill(spec, obj)
    return obj


def points(spec, arrs, aux, var):
    """What a variant interpolates to."""
    if spec["kind"] in calls.GRID:
        if "fine" not in var:
            return tuple(aux[2:])
        return tuple(calls.fine_points(f, t) for f, t in zip(var["fine"], aux[:2]))
    if spec["kind"] == "mlin" and "sseed" in var:
        return calls.raw_inputs(dict(spec, ns=var["ns"], seed=spec["seed"]))[3] if var["sseed"] % 2 else \
            np.random.default_rng(var["sseed"]).uniform(-1, 1, (spec["d"], var["ns"])).astype(spec["dtype"])
    return arrs[3] if spec["kind"] == "mlin" else None


def use(obj, spec, pts, var):
    """One interpolation with the object."""
    import dask
    if var.get("grid"):
        return [obj.grid]
    if spec["kind"] == "mlin":
        return [obj(pts)]
    if spec["kind"] in calls.GRID:
        opts = var.get("call", spec["call"])
        if "chunks" in var:
            lazy = calls.as_list(obj.interpolate(pts, chunks=calls.resolve_chunks(var["chunks"], tuple(map(len, pts))), **opts))
            return [np.asarray(a) for a in dask.compute(*lazy, scheduler="synchronous")]
        return calls.as_list(obj.interpolate(pts, **opts))
    if spec["kind"] == "basic":
        return [np.asarray(a) for a in obj.interpolate()]
    return calls.as_list(obj.interpolate())


def alone(state, spec, var):
    """The same with an object nobody else uses."""
    arrs, aux = calls.inputs(spec), calls.aux_arrays(spec)
    try:
        return "ok", use(build(spec, arrs, aux), spec, points(spec, arrs, aux, var), var)
    except Exception as exc:
        return "exc", type(exc).__name__


def run(ctx, scen):
    spec, variants = scen["call"], scen["variants"]
    refs = {v: ctx.zygote.once(alone, spec, variants[v]) for v in sorted({v for p in scen["programs"] for v in p})}
    for v, ref in sorted(refs.items()):
        if ref[0] == "exc" and calls.must_work(spec):
            raise Violation("well-formed use raises when it is the only one", "%s: %s" % (spec["kind"], ref[1]))
    arrs, aux = calls.inputs(spec), calls.aux_arrays(spec)
    obj = ctx.must("construction", build, spec, arrs, aux)
    common = [points(spec, arrs, aux, var) for var in variants]
    results = {}

    def thread(t, program, pts):
        def body():
            for step, v in enumerate(program):
                try:
                    got = use(obj, spec, pts[v], variants[v])
                    results[t, step] = "ok", got, [np.array(a) for a in got]
                except Exception as exc:
                    results[t, step] = "exc", exc, None
        return body
    funcs = [thread(t, p, common if scen["shared_fine"] else [points(spec, arrs, aux, var) for var in variants])
             for t, p in enumerate(scen["programs"])]
    for ended in ctx.simulate(funcs, scen["sched"], ticks=scen["ticks"]):
        if ended[0] == "exc":
            raise ended[1]
    ctx.probe("kind " + spec["kind"])
    if boot.simrt.stats()["native_preemptions"]:
        ctx.probe("preempted in compiled code")
    for t, program in enumerate(scen["programs"]):
        for step, v in enumerate(program):
            label = "thread %d, use %d" % (t, step)
            got, ref = results[t, step], refs[v]
            ctx.checks += 1
            if ref[0] == "exc":
                ctx.probe("raises when alone, too: " + ref[1])
                if got[0] == "ok":
                    raise Violation("did not raise on a shared object", label)
                continue
            if got[0] == "exc":
                raise Violation("raised %s on a shared object" % type(got[1]).__name__, "%s: %s" % (label, str(got[1])[:300]))
            for when, value in (("when returned", got[2]), ("later", got[1])):
                problem = compare(spec, variants[v], value, ref[1])
                if problem:
                    raise Violation("differs from the object used alone", "%s, %s: %s" % (label, when, problem))
            ctx.result(label, *got[2])
    # the object is still what it was
    for v, ref in sorted(refs.items()):
        if ref[0] == "ok":
            problem = compare(spec, variants[v], ctx.must("interpolating afterwards", use, obj, spec, common[v], variants[v]), ref[1])
            if problem:
                raise Violation("object changed by concurrent use", problem)


def compare(spec, var, got, ref):
    if var.get("grid"):
        return calls.compare(dict(spec, kind="mlin"), got, ref, 1e-14)
    return calls.compare(spec, got, ref)
