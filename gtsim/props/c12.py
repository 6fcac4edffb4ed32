"""C12: after a failed operation, retrying gives the correct result."""
import copy

import numpy as np

from gtsim import calls, faults
from gtsim.core import Violation
from gtsim.dasksim import SimReadError, digest
from gtsim.props import c10, c11

LISTS = ("nan", "ops")
SIMPLE = {"noise": [None], "scans": [1], "n": [1], "lazy": [False], "fault": [None], "scribble": [False], "lines": [1],
          "ns": [1, 3]}
MIN_RUNS = 120
PROCS = staticmethod(lambda scen: scen["what"] == "calls")
REAL = c11.REAL
STUB = c11.STUB
OBJECTS = [("interp", 5), ("ginterp", 4), ("mlin", 5), ("basic", 1), ("sgrid", 1), ("mgrid", 1), ("ggrid", 1), ("sspl", 1),
           ("mspl", 1), ("gspl", 1)]


def gen(rng, tier):
    longest = 8 if tier == "quick" else 16
    if rng.chance(0.35):
        n = rng.pick([1, 1, 2, 3])
        specs = []
        for _ in range(n):
            lazy = rng.chance(0.3)
            spec = calls.gen_lazy_call(rng, c11.LAZY, max_scans=1) if lazy else calls.gen_call(rng, c11.WEIGHTS, max_scans=1)
            spec["lazy"] = lazy
            specs.append(spec)
        ops = []
        for _ in range(rng.randint(2, longest)):
            i = rng.randint(0, n - 1)
            ops.append({"call": i, "fault": faults.gen_fault(rng, specs[i]["lazy"]) if rng.chance(0.6) else None})
        return {"what": "calls", "calls": specs, "ops": ops}
    spec = calls.gen_call(rng, OBJECTS)
    ops = []
    for _ in range(rng.randint(2, longest)):
        op = gen_op(rng, spec)
        if rng.chance(0.45):
            op["fault"] = faults.gen_fault(rng)
            if op["op"] in ("fill", "set") and op["fault"].get("where") not in (None, "direct calls"):
                op["fault"]["where"] = "library calls"      # what the operation uses fails
        op["scribble"] = rng.chance(0.25)
        ops.append(op)
    ops.append({"op": "use", "var": {}, "scribble": False})
    return {"what": "object", "call": spec, "ops": ops}


def gen_op(rng, spec):
    kind = spec["kind"]
    if kind in ("interp", "ginterp"):
        if rng.chance(0.45) and spec["family"] in ("fine", "coarse5"):
            return {"op": "fill", "dims": rng.pick([["y", "x"], ["y", "x"], ["y"], ["x"], ["x", "y"], ["y", "z"], ["q"], []])}
        return {"op": "use", "var": {}}
    if kind == "mlin":
        how = rng.weighted([("set", 3), ("bad set", 1), ("use", 4), ("bad use", 0.7), ("grid", 0.7)])
        if how == "set":
            return {"op": "set", "seed": rng.getrandbits(31), "nv": rng.pick([1, 1, 2, 3]), "dtype": rng.pick(["f4", "f8", "i8"]),
                    "layout": rng.pick(["C", "F", "strided"])}
        if how == "use":
            return {"op": "use", "var": {"ns": rng.logint(1, 50), "sseed": rng.getrandbits(31)} if rng.chance(0.6) else {}}
        if how == "bad set":
            return {"op": how, "var": {}, "seed": rng.getrandbits(31), "nv": rng.pick([1, 2, 3, spec["nv"], spec["nv"]]),
                    "bad": rng.pick(["words", "last", "some", "not an array"])}
        return {"op": how, "var": {"grid": True}}
    if kind in calls.GRID:
        how = rng.weighted([("use", 5), ("bad method", 1), ("bad points", 1)])
        if how == "use":
            var = {} if rng.chance(0.4) else {"fine": [calls.gen_fine(rng, kind.endswith("grid")) for _ in range(2)]}
            if rng.chance(0.3):
                var["chunks"] = calls.gen_chunks(rng)
            return {"op": "use", "var": var}
        return {"op": how, "var": {}}
    return {"op": "use", "var": {}}


class NotAnArray:
    """An argument that looks like an array until it is read."""

    def __init__(self, shape):
        self.shape, self.ndim, self.dtype = shape, 2, np.dtype("f8")

    def __array__(self, *args, **kwargs):
        raise SimReadError(5, "simulated: cannot be read")


def bad_values(op, n):
    """Values that cannot be set."""
    if op.get("bad", "words") == "words":
        return [["not"], ["a", "number"]]
    if op["bad"] == "not an array":
        return NotAnArray((op["nv"], n))
    rng = np.random.default_rng(op["seed"])
    values = rng.normal(0, 5, (op["nv"], n)).astype(object)
    if op["bad"] == "last":
        values[-1, -1] = "x"
    else:
        values[rng.integers(op["nv"]), rng.integers(n)] = "x"
    return values


class Obj:
    """An object with the data it was made from."""

    def __init__(self, spec):
        self.spec = spec
        self.arrs, self.aux = calls.inputs(spec), calls.aux_arrays(spec)
        kind = spec["kind"]
        if kind in ("interp", "ginterp"):
            self.obj = calls.interp_object(spec, self.arrs, self.aux)
        else:
            self.obj = c10.build(spec, self.arrs, self.aux)

    def do(self, op, obj=None):
        """Perform an operation; return what it gives."""
        obj = self.obj if obj is None else obj
        what, spec = op["op"], self.spec
        if what == "fill":
            return obj.fill_borders(*op["dims"]) or []
        if what == "set":
            values = np.random.default_rng(op["seed"]).normal(0, 5, (op["nv"], int(np.prod(spec["orders"])))) * 10
            return obj.set_values(calls.data.lay_out(values.astype(op["dtype"]), op["layout"])) or []
        if what == "bad set":
            return obj.set_values(bad_values(op, int(np.prod(spec["orders"])))) or []
        if what == "bad use":
            return [obj(object())]
        if what == "grid":
            return [obj.grid]
        pts = c10.points(spec, self.arrs, self.aux, op["var"])
        if what == "bad method":
            return calls.as_list(obj.interpolate(pts, method="none such"))
        if what == "bad points":
            return calls.as_list(obj.interpolate(("a", "b")))
        return c10.use(obj, spec, pts, op["var"])


CHANGING = ("fill", "set", "bad set")


def run(ctx, scen):
    import dask
    with dask.config.set(scheduler="synchronous"):
        if scen["what"] == "calls":
            return run_calls(ctx, scen)
        return run_object(ctx, scen)


def run_object(ctx, scen):
    spec = scen["call"]
    subject = ctx.must("construction", Obj, spec)
    done = []       # the operations that succeeded and may change the object
    kept = []       # results handed out: (label, array, digest)
    ctx.probe("kind " + spec["kind"])
    for step, op in enumerate(scen["ops"]):
        label = "operation %d (%s)" % (step, op["op"])
        fault = op.get("fault")
        fired = 0
        if fault:
            twin = copy.deepcopy(subject.obj)
            _, points, _ = faults.attempt(lambda: subject.do(op, twin), fault, 0)
            if points:
                out, _, fired = faults.attempt(lambda: subject.do(op), fault, 1 + int(fault["at"] * points))
            else:
                fault = None
        if not fault:
            out, _, _ = faults.attempt(lambda: subject.do(op), {"kind": "read"}, 0)
        if fired:
            ctx.fault(faults.name_of(fault) + " during " + op["op"])
        ctx.event(op["op"], fired, out[0])
        ctx.checks += 1
        fresh = Obj(spec)
        for earlier in done:
            ctx.must("operation on a fresh object", fresh.do, earlier)
        ref, _, _ = faults.attempt(lambda: fresh.do(op), {"kind": "read"}, 0)
        if ref[0] == "exc" and op["op"] in ("use", "grid", "set") and calls.must_work(spec) and not (
                done and "family" in spec):     # tie points that were filled twice need not make sense
            raise Violation("well-formed operation raises without any fault", "%s: %s" % (label, type(ref[1]).__name__))
        if out[0] == "exc":
            if not fired and ref[0] == "ok":
                raise Violation("raised %s because of what happened before" % type(out[1]).__name__,
                                "%s: %s" % (label, str(out[1])[:300]))
            ctx.probe("failed: " + op["op"] + (" (fault)" if fired else " (bad arguments)"))
        elif ref[0] == "exc":
            raise Violation("did not raise because of what happened before", "%s: %s" % (label, type(ref[1]).__name__))
        else:
            if op["op"] in CHANGING:
                done.append(op)
            problem = c10.compare(spec, op.get("var", {}), out[1], ref[1]) if out[1] else None
            if problem:
                raise Violation("wrong result after this history", "%s: %s" % (label, problem))
            ctx.result(op["op"], *out[1])
        for name, arrs, digs in kept:
            if [digest(a) for a in arrs] != digs:
                raise Violation("earlier result changed", "result of %s changed in %s" % (name, label))
        if out[0] == "ok" and op["op"] not in ("grid",):
            if op["scribble"]:
                for n, arr in enumerate(out[1]):
                    if arr.flags.writeable:
                        arr[...] = -12345
                        ctx.probe("caller overwrote a result")
                    out[1][n] = None        # the list is the caller's, too
            else:
                kept.append((label, out[1], [digest(a) for a in out[1]]))


def run_calls(ctx, scen):
    specs = scen["calls"]
    from gtsim.props.c09 import outcome
    alone = {}
    data = {}
    for op in scen["ops"]:
        i = op["call"] % len(specs)
        spec = specs[i]
        if i not in alone:
            alone[i] = ctx.zygote.once(outcome, spec)
            arrs, aux = calls.inputs(spec), calls.aux_arrays(spec) or None
            data[i] = c11.doing(spec, arrs, aux), {}
            ctx.probe("kind " + spec["kind"] + (" lazy" if spec["lazy"] else ""))
            if alone[i][0] == "exc" and calls.must_work(spec):
                raise Violation("well-formed call raises without any history", "%s: %s" % (spec["kind"], alone[i][1]))
        func, points = data[i]
        fault = op["fault"]
        fired = 0
        out = None
        if fault:
            key = repr(sorted((k, v) for k, v in fault.items() if k not in ("at", "exc", "sticky")))
            if key not in points:
                first, points[key], _ = faults.attempt(func, fault, 0)
                check_call(ctx, spec, first, alone[i], 0)
            if points[key]:
                out, _, fired = faults.attempt(func, fault, 1 + int(fault["at"] * points[key]))
        if out is None:
            out, _, _ = faults.attempt(func, {"kind": "read"}, 0)
        if fired:
            ctx.fault(faults.name_of(fault))
        ctx.event(i, fired, out[0])
        check_call(ctx, spec, out, alone[i], fired)
    # everything works in the end
    for i, (func, _) in sorted(data.items()):
        check_call(ctx, specs[i], faults.attempt(func, {"kind": "read"}, 0)[0], alone[i], 0)


def check_call(ctx, spec, out, alone, fired):
    ctx.checks += 1
    if out[0] == "exc":
        if not fired and alone[0] == "ok":
            raise Violation("raised %s because of what happened before" % type(out[1]).__name__,
                            "%s: %s" % (spec["kind"], str(out[1])[:300]))
        return
    if alone[0] == "exc":
        raise Violation("did not raise because of what happened before", "%s: %s when alone" % (spec["kind"], alone[1]))
    problem = calls.compare(spec, out[1], alone[1])
    if problem:
        raise Violation("wrong result after this history", "%s: %s" % (spec["kind"], problem))
    ctx.result(spec["kind"], *out[1])
