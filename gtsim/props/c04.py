"""C04: lazy results computed together equal the same results computed alone."""
import copy
import json

import numpy as np

from gtsim import calls
from gtsim.core import Violation
from gtsim.dasksim import check_observations, gen_scheduler, make_scheduler

LISTS = ("calls", "nan")
SIMPLE = {"noise": [None], "scans": [1]}
MIN_RUNS = 120


def gen(rng, tier):
    if rng.chance(0.7):
        kinds = [("sgrid", 3), ("mgrid", 1), ("ggrid", 2), ("sspl", 3), ("mspl", 1), ("gspl", 2)]
        base = calls.gen_lazy_call(rng, kinds)
        if rng.chance(0.2):         # more values than numpy prints
            base.update(ny=rng.randint(33, 60), nx=rng.randint(33, 60))
        if base["dtype"] == "f8" and rng.chance(0.3):
            base["numbers"] = "single"      # numbers that single precision can hold, too
        vary = vary_grid
    else:
        base = calls.gen_lazy_call(rng, [("a250", 1), ("a500", 2), ("a5to1", 3), ("a5to500", 2), ("a5to250", 1), ("s250", 1), ("s500", 2)],
                                   max_scans=2)
        for cont in base["conts"]:
            cont["source"] = True
        vary = vary_modis
    out = [base]
    for _ in range(rng.randint(1, 3)):
        new = copy.deepcopy(rng.pick(out))
        new["change"] = vary(rng, new)
        if vary is vary_grid:
            new["reuse"] = rng.chance(0.4)      # ask the interpolator there is
        out.append(new)
    if rng.chance(0.2):
        for spec in out:
            if spec["kind"] in ("sspl", "mspl", "gspl", "ggrid"):
                spec["buffer"] = True       # new data in the memory of the ones before
    if rng.chance(0.3):
        out.append(calls.gen_lazy_call(rng, calls.GRID + calls.VII))
    return {"calls": out, "sched": gen_scheduler(rng, faults=rng.chance(0.25), threads_p=0.5, native=rng.chance(0.3)),
            "mode": rng.pick(["together", "together", "together", "combined", "twice"]), "order": rng.getrandbits(31)}


def vary_grid(rng, spec):
    """Change one thing that may change the result."""
    kind = spec["kind"]
    what = rng.weighted([("option", 3), ("call option", 2), ("kind", 2.5), ("fine", 2), ("values", 2), ("ties", 1), ("chunks", 1),
                         ("dtype", 2.5 if spec.get("numbers") else 1), ("nothing", 0.5), ("one value", 2.5), ("fine type", 0.7), ("swap", 1),
                         ("one coordinate", 2.5), ("way", 0.7)])
    if what == "option":
        if kind.endswith("grid"):
            rng.pick([lambda: spec["init"].update(method=rng.pick(["linear", "nearest", "slinear", "cubic"])),
                      lambda: spec["init"].update(bounds_error=False, fill_value=rng.pick([None, "nan", -999.0, 0.0])),
                      lambda: spec["init"].update(bounds_error=False)])()
        else:
            spec["init"][rng.pick(["kx", "ky"])] = rng.pick([1, 2, 3])
            if rng.chance(0.2):
                spec["init"]["s"] = rng.pick([0, 0.5, 5.0])
    elif what == "call option":
        if kind.endswith("grid"):
            spec["call"] = {"method": rng.pick(["linear", "nearest", "slinear"])}
        elif kind != "gspl":
            name = rng.pick(["dx", "dy"])
            if spec["init"]["k" + name[1]] > 1:
                spec["call"][name] = 1
    elif what == "kind":
        families = [("sgrid", "mgrid"), ("sspl", "mspl"), ("sgrid", "sspl"), ("mgrid", "mspl"), ("ggrid", "gspl")]
        pairs = [a if b == kind else b for a, b in families if kind in (a, b)]
        new = rng.pick(pairs)
        if new.endswith("grid") != kind.endswith("grid"):
            spec["init"] = {} if new.endswith("grid") else {"kx": 1, "ky": 1}
            if new.endswith("grid"):
                spec["init"].update(bounds_error=False, fill_value=None)
            spec["call"] = {}
            spec["fine"] = [calls.gen_fine(rng, False) for _ in range(2)] if not new.endswith("grid") else spec["fine"]
        spec["kind"] = new
        spec.pop("via", None)
        spec.pop("form", None)
        spec["n"] = 1 if new in ("sgrid", "sspl") else spec.get("n", 1)
    elif what == "fine":
        spec["fine"][rng.randint(0, 1)] = calls.gen_fine(rng, kind.endswith("grid"))
    elif what == "way":
        spec["via"] = rng.pick(["", "dask"] if kind in ("sgrid", "sspl") else ["", "shape"])
        if rng.chance(0.5):
            spec["form"] = calls.gen_form(rng, kind)
        spec["tie_list"] = rng.chance(0.5)
    elif what == "fine type":
        spec["fine_float"] = True
    elif what == "values":
        spec["seed"] += 1
        spec["place"] = dict(spec["place"], lon=spec["place"]["lon"] + 0.5)
    elif what == "one value":
        spec["touch"] = gen_touch(rng)
        spec["touch_by"] = rng.pick([0.01, 0.01, 1e-6, 1e-9])
    elif what == "swap":
        spec["touch"] = gen_touch(rng) + [rng.random(), rng.random()]
    elif what == "one coordinate":
        # leaves number, type and (mostly) first, last, smallest and largest as they are
        spec["coord"] = [rng.weighted([(0, 1), (1, 1), (2, 2), (3, 2)]), rng.random(), rng.pick(["middle", "between", "last", "swap"]),
                         rng.random()]
    elif what == "ties":
        spec["tie_off"] += 1
    elif what == "chunks":
        spec["chunks"] = calls.gen_chunks(rng)
    elif what == "dtype":
        spec["dtype"] = "f4" if spec["dtype"] == "f8" else "f8"
    return what


def vary_modis(rng, spec):
    kind = spec["kind"]
    what = rng.weighted([("function", 4), ("values", 2), ("width", 1.5), ("one value", 2), ("chunks", 1), ("dtype", 1), ("nothing", 0.5)])
    if what == "function":
        same = [k for k in calls.MODIS if calls.RES[k][0] == calls.RES[kind][0] and k != kind
                and (k[0] == "s" or "columns" not in spec["swath"])]
        new = rng.pick(same)
        if new[0] == "a" and kind[0] == "s":
            spec["conts"] = spec["conts"] + [dict(spec["conts"][0])]
        spec["kind"] = new
    elif what == "width" and spec["swath"]["res"] == 5000:
        spec["swath"]["width"] = 541 - spec["swath"]["width"]
        for cont in spec["conts"]:
            cont["chunks"][1] = [spec["swath"]["width"]]
    elif what == "values" or what == "width":
        spec["swath"]["place"] = dict(spec["swath"]["place"], lon=spec["swath"]["place"]["lon"] + 1.0)
    elif what == "one value":
        spec["touch"] = gen_touch(rng) + ([rng.random(), rng.random()] if rng.chance(0.3) else [])
    elif what == "chunks":
        shape = calls.modis_shape(spec)
        for cont in spec["conts"]:
            cont["chunks"] = [calls.split_chunks(rng, shape[0]), [shape[1]]]
    elif what == "dtype":
        spec["swath"]["dtype"] = "f4" if spec["swath"]["dtype"] == "f8" else "f8"
    return what


def gen_touch(rng):
    """One element: which array, where."""
    return [rng.random(), rng.random(), rng.random()]


def arrays(spec):
    arrs = calls.inputs(spec)
    if spec.get("numbers") == "single":
        arrs = [a.astype("f4").astype(a.dtype) for a in arrs]
    if "touch" in spec:
        which, *where = spec["touch"]
        a = arrs[int(which * len(arrs))]
        at = [(int(u * a.shape[0]), int(v * a.shape[1])) for u, v in zip(where[::2], where[1::2])]
        if len(at) == 1:
            by = spec.get("touch_by", 0.01)
            a[at[0]] = a[at[0]] * (1 - by) + by
        else:
            # the same numbers in another order
            a[at[0]], a[at[1]] = a[at[1]].copy(), a[at[0]].copy()
    return arrs


def aux(spec):
    vectors = calls.aux_arrays(spec)
    if spec.get("fine_float"):
        vectors[2:] = [np.asarray(v, dtype="f8") for v in vectors[2:]]
    if "coord" in spec:
        axis, u, how, frac = spec["coord"]
        v = np.array(vectors[axis], dtype="f8")
        n = len(v)
        if n > 2:
            i = 1 + int(u * (n - 2))
            if how == "last":
                v[-1] = v[-1] - (0.25 + 0.5 * frac) * (v[-1] - v[-2])
            elif how == "swap" and axis >= 2 and spec["kind"].endswith("grid"):
                k = int(frac * n)
                v[i], v[k] = v[k], v[i]
            elif how == "middle":
                v[1:-1] = v[1:-1] + (0.1 + 0.3 * frac) * (v[2:] - v[1:-1])
            else:
                v[i] = v[i] + (0.1 + 0.6 * frac) * (v[i + 1] - v[i])
        vectors[axis] = v
    return vectors


NOT_OF_OBJECT = ("fine", "chunks", "call", "via", "change", "reuse", "buffer", "fine_float")


def build(spec, arrs, objects, buffers):
    if spec["kind"] not in calls.GRID:
        return calls.build_lazy(spec, arrs)
    vectors = aux(spec)
    known = {k: v for k, v in spec.items() if k not in NOT_OF_OBJECT}
    if known.get("coord", [0])[0] >= 2:
        del known["coord"]
    known = json.dumps(known, sort_keys=True)
    if spec.get("reuse") and known in objects:
        return calls.grid_lazy(spec, objects[known], tuple(vectors[2:]), dict(spec["call"]))
    if spec.get("buffer"):
        for i, a in enumerate(arrs):
            held = buffers.setdefault((i, a.shape, a.dtype.str), a)
            if held is not a:
                held[...] = a
                arrs[i] = held
    obj, fine, opts = calls.grid_interpolator(spec, arrs, vectors)
    if not spec.get("buffer"):
        objects[known] = obj
    return calls.grid_lazy(spec, obj, fine, opts)


def eager(spec, arrs):
    if spec["kind"] in calls.GRID:
        return calls.prepare(spec, arrs, aux(spec))()
    return calls.prepare(spec, arrs)()


def run(ctx, scen):
    import dask
    from gtsim.dasksim import ThreadedScheduler
    from gtsim.rng import Rng
    rng = Rng(scen["order"])
    quiet = ThreadedScheduler(ctx, Rng(1), 1, check_inputs=False)
    quiet_calc = lambda *a: dask.compute(*a, scheduler=lambda d, k, **kw: _sequential(quiet, d, k))  # noqa: E731
    groups, alone, objects, buffers = [], [], {}, {}
    for spec in scen["calls"]:
        arrs = arrays(spec)
        try:
            ref = eager(spec, [a.copy() for a in arrs])
        except Exception:
            continue          # options that do not go together
        with dask.config.set(scheduler=lambda d, k, **kw: _sequential(quiet, d, k)):
            lazy = ctx.must("building", build, spec, arrs, objects, buffers)
        got = [np.asarray(ctx.must("computing alone", quiet_calc, a)[0]) for a in lazy]
        groups.append((spec, lazy))
        alone.append((got, ref))
        ctx.probe("change " + spec.get("change", "-"))
    if not groups:
        return
    flat = [(g, i, a) for g, (_, lazy) in enumerate(groups) for i, a in enumerate(lazy)]
    # names
    names = {}
    for g, i, a in flat:
        name = getattr(a, "data", a).name
        for g2, i2 in names.get(name, ()):
            ctx.checks += 1
            if not same(alone[g][0][i], alone[g2][0][i2]):
                raise Violation("two different results share the name of their tasks",
                                "%s: call %d result %d, call %d result %d" % (name.split("-")[0], g2, i2, g, i))
        names.setdefault(name, []).append((g, i))
    rng.shuffle(flat)
    sched = make_scheduler(ctx, scen["sched"])
    ctx.nontrivial = True
    if scen["mode"] == "combined":
        import dask.array as da
        parts = [getattr(a, "data", a) for _, _, a in flat]
        sums = [da.nansum(p.astype("f8") * 1.25) for p in parts]
        total = ctx.must("combining", lambda: da.stack(sums).compute(scheduler=sched))
        ctx.checks += 1
        for (g, i, _), value in zip(flat, total):
            want = np.nansum(alone[g][0][i].astype("f8") * 1.25)
            if not (abs(value - want) <= 1e-9 * max(1.0, np.nansum(np.abs(alone[g][0][i].astype("f8"))))):
                raise Violation("combined graph gives something else", "call %d result %d: %r instead of %r" % (g, i, value, want))
        check_observations(sched)
        return
    for _ in range(2 if scen["mode"] == "twice" else 1):
        got = ctx.must("computing together", dask.compute, *[a for _, _, a in flat], scheduler=sched)
        table = {}
        for (g, i, _), value in zip(flat, got):
            table.setdefault(g, {})[i] = np.asarray(value)
        for g, (spec, lazy) in enumerate(groups):
            ctx.checks += 1
            mine = [table[g][i] for i in range(len(lazy))]
            problem = calls.compare(spec, mine, alone[g][0])
            if problem:
                raise Violation("together differs from alone", "call %d (%s): %s" % (g, spec["kind"], problem))
            ctx.result(g, *mine)
        sched = make_scheduler(ctx, dict(scen["sched"], seed=scen["sched"]["seed"] + 1)) if scen["mode"] == "twice" else sched
    check_observations(sched)


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return bool(np.allclose(a, b, rtol=1e-6 if a.dtype.itemsize == 4 else 1e-12, atol=0, equal_nan=True))


def _sequential(quiet, dsk, keys):
    from gtsim.dasksim import materialise, nest
    nodes, deps, wanted = materialise(dsk, keys)
    return nest(keys, quiet._sequential(nodes, deps, wanted))
