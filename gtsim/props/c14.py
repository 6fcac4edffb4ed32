"""C14: results depend only on the arguments."""
import numpy as np

from gtsim import boot, calls, faults
from gtsim.core import Violation
from gtsim.props import c09, c11

LISTS = ("nan", "variants", "history")
SIMPLE = {"noise": [None], "scans": [1], "n": [1], "lazy": [False], "fault": [None], "lines": [1], "ns": [1, 3],
          "fill": [-1, 0, 255], "perturb": [0], "stack": [-1], "reuse": [None], "twice": [False], "clock": [0], "state": [1], "cut": [None]}
MIN_RUNS = 80
PROCS = True
REAL = c09.REAL
STUB = ["array allocator (chooses what uninitialised memory contains)", "C heap (M_PERTURB) and stack contents", "clock",
        "random number generators' state", "points at which exceptions arrive in earlier calls"]


def gen(rng, tier):
    lazy = rng.chance(0.2)
    call = calls.gen_lazy_call(rng, c11.LAZY, max_scans=2) if lazy else calls.gen_call(rng, c09.EVEN, max_scans=2)
    call["lazy"] = lazy
    if not lazy and rng.chance(0.15):
        call["cut"] = {"how": rng.pick(["row", "rows", "column", "columns", "wider", "longer", "empty", "no columns", "dtype"]),
                       "which": rng.pick(["first", "last", "last", "all", "all"]), "part": rng.random()}
    longest = 3 if tier == "quick" else 6
    variants = []
    for _ in range(rng.pick([2, 3, 4])):
        var = {"fill": rng.pick([-1, 0, 255, 0x7f, 0x41, 256, 256]), "seed": rng.getrandbits(60),
               "perturb": rng.pick([0, 0, 255, 0x81]), "stack": rng.pick([-1, 0, 255, 0x7f, 0x42]),
               "clock": rng.pick([0, 0, 86400 * 365.0, -1.5e9, 0.123]), "state": rng.getrandbits(31), "history": [],
               "reuse": None, "twice": rng.chance(0.2)}
        if rng.chance(0.6):
            var["history"] = [gen_past(rng, call) for _ in range(rng.randint(1, longest))]
        if rng.chance(0.3):
            var["reuse"] = rng.pick(["scaled", "shifted", "nan", "mirrored"])
        variants.append(var)
    return {"call": call, "variants": variants}


def gen_past(rng, call):
    """An earlier call, often one like the call under test."""
    if rng.chance(0.6):
        family = [f for f in (calls.MODIS, calls.GRID, calls.LEGACY + ("interp", "ginterp", "conv"), ("mlin",), ("basic",), calls.VII)
                  if call["kind"] in f][0]
        kind = call["kind"] if rng.chance(0.5) else rng.pick(family)
    else:
        kind = rng.weighted(c09.EVEN)
    lazy = kind in [k for k, _ in c11.LAZY] and rng.chance(0.2)
    spec = (calls.gen_lazy_call if lazy else calls.gen_call)(rng, (kind,), max_scans=2)
    if rng.chance(0.2) and kind == call["kind"] and not lazy:
        # the same call but for one argument
        spec = {k: v for k, v in call.items() if k not in ("conts", "chunks", "cut")}
        for key, values in (("dtype", ["f4", "f8"]), ("factor", [2, 4, 8]), ("k", [2, 4]), ("seed", [1, 2]), ("alt", [2, 3])):
            if key in spec and rng.chance(0.5):
                spec[key] = rng.pick(values)
        if "swath" in spec:
            spec["swath"] = dict(spec["swath"], dtype=rng.pick(["f4", "f8"]), scans=rng.randint(1, 2))
    past = {"call": dict(spec, lazy=lazy), "fault": None}
    if rng.chance(0.35):
        past["fault"] = faults.gen_fault(rng, lazy)
    return past


def given(spec):
    """The arguments, perhaps of sizes that do not belong together."""
    arrs, cut = calls.inputs(spec), spec.get("cut")
    if not cut:
        return arrs
    part = {"row": lambda a: a[:-1], "rows": lambda a: a[:int(cut["part"] * len(a))], "column": lambda a: a[..., :-1],
            "columns": lambda a: a[..., :int(cut["part"] * a.shape[-1])], "wider": lambda a: np.concatenate([a, a[..., :3]], axis=-1),
            "longer": lambda a: np.concatenate([a, a[:1]]), "empty": lambda a: a[:0], "no columns": lambda a: a[..., :0],
            "dtype": lambda a: a.astype("f8" if a.dtype == "f4" else "f4")}[cut["how"]]
    which = {"first": [0], "last": [len(arrs) - 1], "all": range(len(arrs))}[cut["which"]]
    return [part(a) if i in which else a for i, a in enumerate(arrs)]


def spoil(arrs, how):
    """What the caller's arrays contained before they contained the data."""
    for a in arrs:
        if a.dtype.kind == "i":
            a[...] = a // 2 + 1
        elif how == "nan":
            a[...] = np.nan
        elif how == "scaled":
            a *= 0.5
        elif how == "shifted":
            a += 0.75
        else:
            a[...] = a[..., ::-1].copy()


def variant(state, spec, var):
    """The call in a process with a past."""
    import dask
    import random
    rt = boot.simrt
    faulted = 0
    with dask.config.set(scheduler="synchronous"):
        np.random.seed(var["state"])
        random.seed(var["state"])
        boot.CLOCK_BASE += var["clock"]
        if var["perturb"]:
            rt.perturb(var["perturb"])
        rt.alloc_install()
        rt.alloc_set(var["fill"], var["seed"], 0, 0, 0)
        for past in var["history"]:
            faulted += relive(past)
            rt.alloc_install()
            rt.alloc_set(var["fill"], var["seed"] ^ 77, 0, 0, 0)
        arrs, aux = given(spec), calls.aux_arrays(spec) or None
        func = c11.doing(spec, arrs, aux)
        if var["reuse"]:
            keep = [a.copy() for a in arrs]
            spoil(arrs, var["reuse"])
            try:
                func()
            except Exception:
                pass
            for a, b in zip(arrs, keep):
                a[...] = b
        if var["stack"] >= 0:
            rt.poison_stack(var["stack"], 200_000)
        got = outcome(func)
        if var["twice"] and got[0] == "ok":
            for a in got[1]:
                if a.flags.writeable and not any(np.shares_memory(a, b) for b in arrs):
                    a[...] = -4444       # results are the caller's to overwrite
            got = outcome(func)
    return got, faulted, rt.zones_torn()


def outcome(func):
    try:
        return "ok", [np.asarray(a) for a in func()]
    except Exception as exc:
        return "exc", type(exc).__name__


def relive(past):
    """An earlier call, perhaps failing half-way."""
    spec, fault = past["call"], past["fault"]
    try:
        func = c11.doing(spec, calls.inputs(spec), calls.aux_arrays(spec) or None)
        if not fault:
            func()
            return 0
        _, points, _ = faults.attempt(func, fault, 0)
        if points:
            return int(bool(faults.attempt(func, fault, 1 + int(fault["at"] * points))[2]))
    except Exception:
        pass
    return 0


def plain(state, spec):
    """The call in a process without a past."""
    import dask
    with dask.config.set(scheduler="synchronous"):
        return outcome(c11.doing(spec, given(spec), calls.aux_arrays(spec) or None))


def run(ctx, scen):
    spec = scen["call"]
    ref = ctx.zygote.once(plain, spec)
    if ref[0] == "exc" and calls.must_work(spec) and not spec.get("cut"):
        raise Violation("well-formed call raises without any past", "%s: %s" % (spec["kind"], ref[1]))
    ctx.probe("kind " + spec["kind"] + (" lazy" if spec["lazy"] else ""))
    if spec.get("cut"):
        ctx.probe("arguments of other sizes: %s %s" % ("accepted" if ref[0] == "ok" else "rejected", spec["kind"]))
    ctx.nontrivial = True
    for n, var in enumerate(scen["variants"]):
        got, faulted, torn = ctx.zygote.once(variant, spec, var)
        if torn:
            raise Violation("memory outside of an array overwritten", "%s, variant %d" % (spec["kind"], n))
        if faulted:
            ctx.fault("failed earlier call", faulted)
        if var["fill"] >= 0:
            ctx.fault("poisoned array memory")
        if var["stack"] >= 0:
            ctx.fault("poisoned stack")
        if var["perturb"]:
            ctx.fault("poisoned heap")
        if var["clock"]:
            ctx.fault("clock jump")
        if var["reuse"]:
            ctx.probe("arrays contained something else in an earlier call")
        if var["history"]:
            ctx.probe("earlier calls", len(var["history"]))
        ctx.checks += 1
        ctx.event(n, got[0])
        label = "%s, variant %d" % (spec["kind"], n)
        if got[0] != ref[0] or (got[0] == "exc" and got[1] != ref[1]):
            raise Violation("outcome depends on more than the arguments", "%s: %s instead of %s"
                            % (label, got[1] if got[0] == "exc" else "a result", ref[1] if ref[0] == "exc" else "a result"))
        if ref[0] == "exc":
            ctx.probe("raises: %s %s" % (spec["kind"], ref[1]))
            continue
        problem = calls.compare(spec, got[1], ref[1])
        if problem:
            raise Violation("result depends on more than the arguments", "%s: %s" % (label, problem))
        ctx.result(label, *got[1])
