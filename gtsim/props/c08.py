"""C08: a failing worker surfaces as an error: no hang, no leak, no wrong data."""
import time

from gtsim import calls, pools
from gtsim.core import SimHang, Violation
from gtsim.dasksim import gen_sched
from gtsim.props.c07 import _raise, call_cores
from gtsim.rng import Rng

LISTS = ("faults",)
SIMPLE = {"noise": [None], "scans": [1, 2], "cores": [2], "slow": [0.1], "task": [0, 1], "worker": [0, 1], "every": [0]}
MIN_RUNS = 100
STUB = ["process pool scheduling (workers are real processes forked from the pristine state, or this process)", "clock",
        "thread scheduler"]
KINDS = [("crash_before", 4), ("crash_after", 3), ("exc", 2), ("memory", 1), ("unpicklable", 1), ("stall", 1), ("start", 2)]
STRANDED = "ProcessPoolExecutor leaves the workers it had started"


def gen(rng, tier):
    call = calls.gen_call(rng, [("l250", 1), ("l500", 3)], max_scans=4)
    faults = []
    for _ in range(rng.pick([1, 1, 1, 2, 3])):
        kind = rng.weighted(KINDS)
        where = rng.randint(0, 4)
        faults.append({"kind": kind, "worker": where} if kind == "start" else {"kind": kind, "task": where})
        if rng.chance(0.25):
            faults[-1]["every"] = rng.pick([1, 1, 2, 3])
    return {"call": call, "cores": rng.pick([2, 2, 3, 4, 6]), "slow": rng.pick([0.1, 1.0, 10.0]), "faults": faults,
            "seed": rng.getrandbits(62), "sched": gen_sched(rng, False), "procs": rng.chance(0.5)}


def PROCS(scen):
    return scen["procs"]


def run(ctx, scen):
    spec, cores = scen["call"], scen["cores"]
    arrs = calls.inputs(spec)
    ref = ctx.must("single core", calls.run, spec, [a.copy() for a in arrs])
    pools.WORLD = world = pools.PoolWorld(Rng(scen["seed"]), ctx.zygote if scen["procs"] else None, scen["faults"], scen["slow"])
    seen = {}

    def left():
        return len([n for n in world.live if n not in world.stranded])

    def main():
        started = time.monotonic()
        try:
            seen["first"] = ("ok", call_cores(spec, arrs, cores))
        except Exception as exc:
            seen["first"] = ("exc", exc)
            exc.__traceback__ = None
        seen["took"] = time.monotonic() - started
        time.sleep(60.0)
        seen["live"] = left()
        world.faults = []
        try:
            seen["next"] = ("ok", call_cores(spec, arrs, cores))
        except Exception as exc:
            seen["next"] = ("exc", exc)
            exc.__traceback__ = None
        time.sleep(60.0)
        seen["live after"] = left()
    hang = None
    try:
        ended = ctx.simulate([main], scen["sched"])[0]
        if ended[0] == "exc":
            raise ended[1]
    except SimHang as exc:
        hang = exc
    for kind, n in world.fired.items():
        ctx.fault("worker " + kind, n)
    ctx.checks += 1
    ctx.event("pool", tuple(world.order), sorted(world.fired.items()))
    ctx.signature.append(repr(world.log))
    if "first" not in seen:
        raise Violation("hang", "the call does not return: %s" % (hang,))
    ctx.probe("outcome " + (seen["first"][0] if seen["first"][0] == "ok" else type(seen["first"][1]).__name__))
    if seen["first"][0] == "ok":
        problem = calls.compare(spec, seen["first"][1], ref, 1e-11)
        if problem:
            raise Violation("wrong data after a failure", problem)
    elif not world.fired:
        ctx.must("call without a failure", _raise, seen["first"][1])
    if seen.get("live"):
        raise Violation("worker processes left running", "%d workers" % seen["live"])
    if "next" not in seen:
        raise Violation("hang", "the next call does not return: %s" % (hang,))
    if seen["next"][0] == "exc":
        ctx.must("the next call", _raise, seen["next"][1])
    problem = calls.compare(spec, seen["next"][1], ref, 1e-11)
    if problem:
        raise Violation("wrong data in the next call", problem)
    if seen.get("live after"):
        raise Violation("worker processes left running", "%d workers" % seen["live after"])
    if hang is not None:
        raise Violation("hang", str(hang))
    if world.stranded:
        raise Violation("worker processes left running after a worker could not be started", STRANDED)
    ctx.result(spec["kind"], *seen["next"][1])
