"""C07: multi-core legacy MODIS interpolation equals single-core."""
import geotiepoints

from gtsim import calls, pools
from gtsim.core import Violation
from gtsim.dasksim import gen_sched
from gtsim.rng import Rng

SIMPLE = {"noise": [None], "scans": [1, 2], "cores": [2], "slow": [0.1]}
MIN_RUNS = 100
STUB = ["process pool scheduling (workers are real processes forked from the pristine state, or this process)", "clock",
        "thread scheduler"]


def gen(rng, tier):
    call = calls.gen_call(rng, [("l250", 1), ("l500", 2)], max_scans=5 if tier == "quick" else 9)
    if rng.chance(0.03):      # more parts than ten
        call["swath"]["scans"] = rng.randint(11, 14)
    return {"call": call, "cores": rng.pick([1, 2, 2, 3, 4, 5, 6, 8, 12, 16]), "slow": rng.pick([0.1, 1.0, 10.0]),
            "seed": rng.getrandbits(62), "sched": gen_sched(rng, False), "procs": rng.chance(0.4), "splits": rng.getrandbits(31),
            "repeat": rng.chance(0.25)}


def PROCS(scen):
    return scen["procs"]


def call_cores(spec, arrs, cores):
    func = {"l250": geotiepoints.modis1kmto250m, "l500": geotiepoints.modis1kmto500m}[spec["kind"]]
    return calls.as_list(func(*calls.dress(spec, arrs), cores=cores))



def run(ctx, scen):
    spec, cores = scen["call"], scen["cores"]
    check_splits(ctx, scen)
    arrs = calls.inputs(spec)
    ref = ctx.must("single core", calls.run, spec, [a.copy() for a in arrs])
    pools.WORLD = world = pools.PoolWorld(Rng(scen["seed"]), ctx.zygote if scen["procs"] else None, slow=scen["slow"])

    def main():
        first = call_cores(spec, arrs, cores)
        return [first] + ([call_cores(spec, arrs, cores)] if scen["repeat"] else [])
    ended = ctx.simulate([main], scen["sched"])[0]
    if ended[0] == "exc":
        ctx.must("multi-core call", _raise, ended[1])
    ctx.checks += 1
    ctx.nontrivial = True
    ctx.probe("kind " + spec["kind"])
    ctx.probe("cores %d" % cores)
    ctx.probe("parts %s" % (world.tasks if world.tasks < 6 else ">5"))
    if world.order != sorted(world.order):
        ctx.probe("parts finished out of order")
    if cores > spec["swath"]["scans"]:
        ctx.probe("more cores than scans")
    if spec["swath"]["scans"] % max(1, min(cores, spec["swath"]["scans"])):
        ctx.probe("scans do not divide evenly")
    ctx.event("order", tuple(world.order))
    ctx.signature.append(tuple(world.order))
    for got in ended[1]:
        problem = calls.compare(spec, got, ref, 1e-11)
        if problem:
            raise Violation("multi-core result differs", problem)
    ctx.result(spec["kind"], *ended[1][0])


def check_splits(ctx, scen):
    """The public function that decides where to cut."""
    rng = Rng(scen["splits"])
    for _ in range(40):
        lines_scan = rng.pick([1, 2, 10, 20, 40])
        scans, cpus = rng.logint(1, 400), rng.logint(1, 64)
        splits = list(ctx.must("get_scene_splits", geotiepoints.get_scene_splits, scans * lines_scan, lines_scan, cpus))
        edges = [0] + splits + [scans * lines_scan]
        ctx.checks += 1
        if any(e % lines_scan for e in edges) or any(a >= b for a, b in zip(edges, edges[1:])):
            raise Violation("scene not split between scans", "%d scans of %d lines, %d cores: %r"
                            % (scans, lines_scan, cpus, splits[:20]))


def _raise(exc):
    raise exc
