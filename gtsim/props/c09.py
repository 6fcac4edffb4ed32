"""C09: concurrent calls do not interfere."""
import numpy as np

from gtsim import boot, calls, pools
from gtsim.core import Violation
from gtsim.props.c10 import slow
from gtsim.rng import Rng

LISTS = ("nan", "programs", "calls")
SIMPLE = {"noise": [None], "scans": [1], "ticks": [1], "shared": [False], "lazy": [False], "cores": [1]}
MIN_RUNS = 80
PROCS = True
REAL = ["geotiepoints (all modules, compiled from /repo with coverage hooks)", "numpy", "scipy", "dask", "xarray", "pandas"]
STUB = ["thread scheduler (preempts Python lines or instructions and basic blocks of the compiled code)", "clock",
        "process pool scheduling"]
WEIGHTS = calls.MODIS_W + [("sgrid", 1), ("mgrid", 0.5), ("ggrid", 1.5), ("sspl", 1), ("mspl", 0.5), ("gspl", 1.5), ("l500", 0.7),
                           ("l250", 0.4), ("l5to1", 1), ("metop", 1), ("gen5", 1), ("interp", 2), ("ginterp", 2), ("mlin", 4),
                           ("basic", 0.7), ("vtie", 1), ("vgeo", 1.5), ("conv", 1)]
# every entry point about as often
EVEN = [(k, w / 2) for k, w in calls.MODIS_W] + [(k, 2 if k in ("basic", "mlin", "metop", "interp", "ginterp", "conv") else 0.6 if k in ("l250", "l500") else 1)
                                                for k, _ in WEIGHTS[len(calls.MODIS_W):]]


def gen(rng, tier):
    n = rng.pick([1, 2, 2, 3])
    # related calls interfere more easily than unrelated ones
    kinds = WEIGHTS
    if rng.chance(0.5):
        first = rng.weighted(WEIGHTS)
        family = [f for f in (calls.MODIS, calls.GRID, calls.LEGACY + ("interp", "ginterp", "conv"), ("mlin",), ("basic",), calls.VII)
                  if first in f][0]
        kinds = [(k, w) for k, w in WEIGHTS if k in family]
    specs = []
    for _ in range(n):
        kind = rng.weighted(kinds)
        lazy = kind in calls.MODIS + calls.GRID and rng.chance(0.15)
        spec = (calls.gen_lazy_call if lazy else calls.gen_call)(rng, (kind,), max_scans=1)
        spec["lazy"] = lazy
        if slow(spec) and spec["ny"] * spec["nx"] > 150:
            spec["init"]["method"] = "slinear"
            spec["call"].pop("method", None)
        if lazy and kind in calls.GRID:
            spec["chunks"] = dict(spec["chunks"], most=3 if slow(spec) else 6)
        if spec["kind"] in ("l250", "l500") and rng.chance(0.3):
            spec["cores"] = 2
        specs.append(spec)
    if rng.chance(0.5):
        # calls that differ in what is in the arrays only: same sizes, types and options
        twin = vary_values(rng, specs[0])
        specs = ([specs[0], twin] + specs[1:])[:3]
        n = len(specs)
    threads = rng.pick([2, 2, 2, 3, 4])
    programs = [[rng.randint(0, n - 1) for _ in range(rng.pick([1, 1, 2, 3]))] for _ in range(threads)]
    log2 = rng.pick([7, 10, 12, 14, 17, 20])
    if rng.chance(0.06):
        # helpers between the calls that use them
        specs = [calls.gen_call(rng, (k,), max_scans=1) for k in
                 ("conv", rng.pick(["ggrid", "gspl", "ginterp", "ginterp", "vgeo", "metop", "basic", "conv"]))]
        specs[0]["op"] = rng.pick(["l2x", "l2x", "x2l"])
        if slow(specs[1]):
            specs[1]["init"]["method"] = "slinear"
            specs[1]["call"].pop("method", None)
        programs = [[0, 0], [1, 1], [1, 0]][:rng.pick([2, 3])]
        log2 = rng.pick([3, 5, 7, 10])
    elif rng.chance(0.08):
        # a call that warns, while another goes through Python code
        specs = [calls.gen_call(rng, ("a5to500", "a5to250"), max_scans=1),
                 calls.gen_call(rng, [(k, w) for k, w in WEIGHTS if k not in calls.MODIS], max_scans=1)]
        programs = [[1, 1, 1], [0, 0], [1]][:rng.pick([2, 2, 3])]
        log2 = rng.pick([3, 5, 7, 10])
    return {"calls": specs, "programs": programs,
            "shared": rng.chance(0.5), "ticks": rng.pick([1, 1, 3, 9]), "pool": rng.getrandbits(60),
            "sched": {"seed": rng.getrandbits(62), "max_log2": log2, "min_log2": rng.pick([0, 0, 3])}}


def vary_values(rng, spec):
    """The same call with other data."""
    twin = dict(spec)
    if "seed" in twin:
        twin["seed"] = rng.getrandbits(31)
    if "place" in twin:
        twin["place"] = calls.gen_place(rng)
    if "swath" in twin:
        twin["swath"] = dict(twin["swath"], place=calls.gen_place(rng), noise=rng.getrandbits(31))
    return twin


def work(spec, arrs, aux):
    """One call, start to end."""
    import dask
    if spec.get("lazy"):
        lazy = calls.build_lazy(spec, arrs)
        return [np.asarray(a) for a in dask.compute(*lazy, scheduler="synchronous")]
    if spec.get("cores"):
        from gtsim.props.c07 import call_cores
        return call_cores(spec, arrs, spec["cores"])
    return calls.prepare(spec, arrs, aux)()


def outcome(state, spec):
    """The call when it is alone."""
    try:
        return "ok", work(dict(spec, cores=None), calls.inputs(spec), calls.aux_arrays(spec) or None)
    except Exception as exc:
        return "exc", type(exc).__name__


def run(ctx, scen):
    specs = scen["calls"]
    used = sorted({i % len(specs) for p in scen["programs"] for i in p})
    alone = {i: ctx.zygote.once(outcome, specs[i]) for i in used}
    for i in used:
        if alone[i][0] == "exc" and calls.must_work(specs[i]):
            raise Violation("well-formed call raises when it is the only one", "%s: %s" % (specs[i]["kind"], alone[i][1]))
    common = {i: (calls.inputs(specs[i]), calls.aux_arrays(specs[i]) or None) for i in used}
    pools.WORLD = pools.PoolWorld(Rng(scen["pool"]))
    results = {}

    def thread(t, program, data):
        def body():
            for step, i in enumerate(program):
                try:
                    results[t, step] = "ok", work(specs[i], *data[step])
                except Exception as exc:
                    results[t, step] = "exc", exc
        return body
    funcs = []
    for t, program in enumerate(scen["programs"]):
        program = [i % len(specs) for i in program]
        data = [common[i] if scen["shared"] else (calls.inputs(specs[i]), calls.aux_arrays(specs[i]) or None) for i in program]
        funcs.append(thread(t, program, data))
    for ended in ctx.simulate(funcs, scen["sched"], ticks=scen["ticks"]):
        if ended[0] == "exc":
            raise ended[1]
    ctx.probe("granularity %s" % {1: "lines", 3: "instructions", 9: "library lines"}.get(scen["ticks"], scen["ticks"]))
    if boot.simrt.stats()["native_preemptions"]:
        ctx.probe("preempted in compiled code")
    if scen["shared"]:
        ctx.probe("inputs shared between threads")
    for t, program in enumerate(scen["programs"]):
        for step, i in enumerate(program):
            i %= len(specs)
            spec = specs[i]
            ctx.checks += 1
            ctx.probe("kind " + spec["kind"] + (" lazy" if spec.get("lazy") else ""))
            check(ctx, spec, results[t, step], alone[i], "thread %d, call %d (%s)" % (t, step, spec["kind"]))


def check(ctx, spec, got, alone, label):
    """A call among others against the call alone."""
    if got[0] == "exc":
        if alone[0] == "exc" and alone[1] == type(got[1]).__name__:
            ctx.probe("raises when alone, too: %s %s" % (spec["kind"], alone[1]))
            return
        raise Violation("raised %s among other calls" % type(got[1]).__name__, "%s: %s" % (label, str(got[1])[:300]))
    if alone[0] == "exc":
        raise Violation("did not raise among other calls", "%s: %s when alone" % (label, alone[1]))
    problem = calls.compare(spec, got[1], alone[1], 1e-11 if spec.get("cores") else None)
    if problem:
        raise Violation("differs from the call alone", "%s: %s" % (label, problem))
    ctx.result(label, *got[1])
