"""C16: part of a lazy result can be computed, and needs only its own part of the input."""
import numpy as np

from gtsim import calls
from gtsim.core import Violation
from gtsim.dasksim import STORAGE, SimReadError, check_observations, gen_scheduler, make_scheduler
from gtsim.props import c01

LISTS = ("nan", "parts")
SIMPLE = {"noise": [None], "step": [1], "which": ["both"], "n": [1]}
MIN_RUNS = 100
REAL = ["geotiepoints (all modules, compiled from /repo with coverage hooks)", "numpy", "scipy", "dask arrays, slicing and graphs",
        "xarray"]
STUB = ["storage with unreadable chunks", "dask scheduler", "thread scheduler"]
KINDS = calls.MODIS_W + [("sgrid", 1), ("mgrid", 1), ("ggrid", 1.5), ("sspl", 1), ("mspl", 1), ("gspl", 1.5), ("vtie", 1), ("vgeo", 1)]


def gen(rng, tier):
    call = calls.gen_lazy_call(rng, KINDS, max_scans=5 if tier == "quick" else 9, many=0.03)
    if call["kind"] in calls.MODIS:
        for cont in call["conts"]:
            cont["source"] = True
    return {"call": call, "parts": [gen_part(rng, call["kind"]) for _ in range(rng.pick([1, 2, 3]))],
            "sched": gen_scheduler(rng, threads_p=0.7)}


def gen_part(rng, kind):
    """Which part of the result is asked for, and what cannot be read meanwhile."""
    how = rng.weighted([("rows", 4), ("pixel", 1), ("window", 2), ("blocks", 2), ("stride", 1), ("first", 1), ("last", 1), ("all", 0.5)])
    return {"how": how, "a": rng.random(), "b": rng.random(), "c": rng.random(), "d": rng.random(), "step": rng.pick([1, 2, 7, 10]),
            "which": rng.pick(["both", "first", "last"]), "storage": rng.weighted([("dead elsewhere", 5), ("dead here", 2), ("fine", 2)]),
            "seed": rng.getrandbits(31)}


def span(a, b, n):
    """A nonempty range from two fractions."""
    lo, hi = sorted((int(a * n), int(b * n)))
    return lo, max(hi, lo + 1)


def select(part, shape, chunks):
    """The index of a part and its blocks (or None)."""
    rows, cols = span(part["a"], part["b"], shape[0]), span(part["c"], part["d"], shape[1])
    how = part["how"]
    if how == "rows":
        return (slice(*rows), slice(None)), None
    if how == "pixel":
        return (slice(rows[0], rows[0] + 1), slice(cols[0], cols[0] + 1)), None
    if how == "window":
        return (slice(*rows), slice(*cols)), None
    if how == "stride":
        return (slice(rows[0], rows[1], part["step"]), slice(cols[0], cols[1], part["step"])), None
    if how == "first":
        return (slice(0, 1), slice(None)), None
    if how == "last":
        return (slice(shape[0] - 1, shape[0]), slice(None)), None
    if how == "all":
        return (slice(None), slice(None)), None
    i, j = int(part["a"] * len(chunks[0])), int(part["c"] * len(chunks[1]))
    y, x = np.cumsum([0] + list(chunks[0])), np.cumsum([0] + list(chunks[1]))
    return (slice(int(y[i]), int(y[i + 1])), slice(int(x[j]), int(x[j + 1]))), (i, j)


def asked(spec, lazy):
    """Dask array of a result."""
    return lazy.data if hasattr(lazy, "dims") else lazy


def run(ctx, scen):
    import dask
    spec = scen["call"]
    arrs = calls.inputs(spec)
    kind = spec["kind"]
    try:
        ref = calls.run(spec, [a.copy() for a in arrs])
    except Exception as exc:
        if kind in calls.GRID:
            ctx.probe("eager call raises: %s" % type(exc).__name__)
            return
        ctx.must("eager call", _raise, exc)
    STORAGE.reset()
    lazy = ctx.must("building", calls.build_lazy, spec, arrs)
    if kind in calls.MODIS:
        c01.check_form(spec, lazy, ref)
        check_blocks(spec, lazy, ref)
    ctx.nontrivial = True
    ctx.probe("kind " + kind)
    eps = None
    if kind in calls.VII:
        ref = [np.asarray(r).astype("f8") for r in ref]
        eps = 4e-6 if spec["dtype"] == "f4" else 1e-14
    for n, part in enumerate(scen["parts"]):
        do_part(ctx, scen, spec, lazy, ref, part, n, eps)


def check_blocks(spec, lazy, ref):
    """No block of the result needs more rows than the largest input chunk, or one scan."""
    lines = calls.modis_shape(spec)[0]
    factor = ref[0].shape[0] // lines
    most = 2 if spec["swath"]["res"] == 5000 else 10
    for cont in spec["conts"]:
        most = max([most] + (cont["chunks"][0] if cont["kind"] in ("da", "xr") else [lines]))
    for a in lazy:
        tallest = max(asked(spec, a).chunks[0])
        if tallest > most * factor:
            raise Violation("result block larger than the input chunks", "%s: block of %d rows, input chunks of at most %d rows"
                            % (spec["kind"], tallest // factor, most))


def do_part(ctx, scen, spec, lazy, ref, part, n, eps):
    import dask
    kind = spec["kind"]
    shape = ref[0].shape
    index, block = select(part, shape, asked(spec, lazy[0]).chunks)
    which = {"both": list(range(len(lazy))), "first": [0], "last": [len(lazy) - 1]}[part["which"]]
    want = []
    for i in which:
        a = lazy[i]
        if block is not None and asked(spec, a).chunks == asked(spec, lazy[0]).chunks:
            a = asked(spec, a).blocks[block]
        elif hasattr(a, "dims"):
            a = a.isel({d: s for d, s in zip(a.dims, index)})
        else:
            a = a[index]
        want.append(a)
    STORAGE.reset()
    must_fail = False
    if kind in calls.MODIS and part["storage"] != "fine":
        must_fail = kill(ctx, spec, lazy[0], index, shape, part)
    label = "%s, part %d (%s, %s)" % (kind, n, part["how"], part["which"])
    ctx.probe("part " + part["how"])
    ctx.probe("of " + part["which"])
    sched = make_scheduler(ctx, dict(scen["sched"], seed=scen["sched"]["seed"] + n))
    ctx.checks += 1
    try:
        got = dask.compute(*want, scheduler=sched)
    except Exception as exc:
        name = type(exc).__name__
        STORAGE.dead = {}
        if name == "SimReadError" and must_fail:
            ctx.probe("needed chunk missing: raises")
            return
        if name == "SimReadError":
            raise Violation("needs input it has no row in common with", "%s: %s" % (label, exc))
        ctx.must("computing a part", _raise, exc)
    if must_fail:
        raise Violation("result without reading its input", label)
    STORAGE.dead = {}
    check_observations(sched)
    got = [np.asarray(getattr(a, "values", a)) for a in got]
    for i, a in zip(which, got):
        if eps:
            a = a.astype("f8")
        full = ref[i][index]
        if a.shape != full.shape:
            raise Violation("part has another shape", "%s: %s instead of %s" % (label, a.shape, full.shape))
        problem = alike(spec, a, full, ref, i, which, got, index, eps)
        if problem:
            raise Violation("part differs from the whole", "%s: %s" % (label, problem))
    ctx.result(label, *got)


def alike(spec, a, full, ref, i, which, got, index, eps):
    """Compare one result of a part."""
    if not calls.is_geo(spec["kind"]):
        return calls.compare(spec, [a], [full], eps)
    # longitudes need latitudes to know how precise they are
    pair = [r[index] for r in ref]
    mine = list(pair)
    mine[i] = a
    return calls.compare(spec, mine, pair, eps)


def kill(ctx, spec, lazy, index, shape, part):
    """Make chunks unreadable; return whether the part has to fail."""
    rng = np.random.default_rng(part["seed"])
    chunks = asked(spec, lazy).chunks[0]
    lines_in = calls.modis_shape(spec)[0]
    factor = shape[0] // lines_in
    touched = np.arange(shape[0])[index[0]]
    edges = np.cumsum([0] + list(chunks))
    rows = np.zeros(lines_in, dtype=bool)     # rows in common with the touched blocks
    reach = np.arange(shape[0])[slice(index[0].start, index[0].stop)]   # dask may touch a block for an empty piece
    for lo, hi in zip(edges, edges[1:]):
        if ((reach >= lo) & (reach < hi)).any():
            rows[lo // factor:-(-hi // factor)] = True
    scan = 2 if spec["swath"]["res"] == 5000 else 10
    needed = np.zeros(lines_in, dtype=bool)   # rows of the scans that are asked for
    for s in np.unique(touched // (factor * scan)):
        needed[s * scan:(s + 1) * scan] = True
    here, elsewhere = [], []
    for i, cont in enumerate(spec["conts"]):
        if cont["kind"] in ("np", "xrnp"):
            continue
        edges = np.cumsum([0] + list(cont["chunks"][0]))
        for lo, hi in zip(edges, edges[1:]):
            if needed[lo:hi].any():
                here.append(("%s-%d" % (spec["kind"], i), (int(lo), int(hi))))
            if not rows[lo:hi].any():
                elsewhere.append(("%s-%d" % (spec["kind"], i), (int(lo), int(hi))))
    if part["storage"] == "dead here":
        if here:
            name, chunk = here[int(rng.integers(len(here)))]
            STORAGE.dead = {name: [chunk]}
            ctx.fault("needed chunk unreadable")
        return bool(here)
    for name, chunk in elsewhere:
        STORAGE.dead.setdefault(name, []).append(chunk)
    if elsewhere:
        ctx.fault("other chunks unreadable", len(elsewhere))
        if len(chunks) > 1:
            ctx.probe("other blocks' input unreadable")
    return False


def _raise(exc):
    raise exc
