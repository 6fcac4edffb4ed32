"""C18: results belong to the caller."""
import gc
import weakref

import numpy as np

from gtsim import boot, calls
from gtsim.core import Violation
from gtsim.dasksim import digest
from gtsim.props import c09, c10, c12

LISTS = ("nan", "programs")
SIMPLE = {"noise": [None], "scans": [1], "ticks": [1], "lazy": [False], "object": [False], "n": [1], "lines": [1], "ns": [1, 3]}
MIN_RUNS = 80
PROCS = True
REAL = c09.REAL
STUB = ["thread scheduler (preempts Python lines or instructions and basic blocks of the compiled code)", "clock",
        "what the caller does with results and arguments"]
OBJECTS = [k for k, _ in c12.OBJECTS]
GARBAGE = -31337


def gen(rng, tier):
    n = rng.pick([1, 1, 2, 2, 3])
    kinds = c09.EVEN
    if rng.chance(0.5):
        first = rng.weighted(c09.EVEN)
        kinds = [(k, w) for k, w in c09.EVEN if k in family(first)]
    specs = []
    for _ in range(n):
        kind = rng.weighted(kinds)
        lazy = kind in calls.MODIS + calls.GRID + calls.VII and rng.chance(0.25)
        spec = (calls.gen_lazy_call if lazy else calls.gen_call)(rng, (kind,), max_scans=1)
        spec["lazy"] = lazy
        if c10.slow(spec) and spec["ny"] * spec["nx"] > 150:
            spec["init"]["method"] = "slinear"
            spec["call"].pop("method", None)
        if lazy and kind in calls.GRID:
            spec["chunks"] = dict(spec["chunks"], most=3 if c10.slow(spec) else 6)
        spec["object"] = not lazy and kind in OBJECTS and rng.chance(0.6)
        specs.append(spec)
    if rng.chance(0.5) and not (specs[0]["object"] and rng.chance(0.5)):
        specs = ([specs[0], c09.vary_values(rng, specs[0])] + specs[1:])[:3]
    quick = all(s["kind"] not in calls.MODIS and not s["lazy"] for s in specs)
    longest = 8 if tier == "quick" else 14
    programs = []
    for _ in range(rng.pick([1, 1, 2, 2, 3])):
        program = [["call", rng.randint(0, len(specs) - 1)]]
        for _ in range(rng.randint(1, longest)):
            op = rng.weighted([("call", 4), ("again", 2), ("overwrite result", 3), ("overwrite arguments", 2), ("drop", 0.7)])
            program.append([op, rng.randint(0, len(specs) - 1) if op == "call" else rng.randint(0, 9)])
        programs.append(program)
    return {"calls": specs, "programs": programs, "ticks": rng.pick([1, 1, 3, 9]),
            "sched": {"seed": rng.getrandbits(62), "max_log2": rng.pick([2, 3, 5, 8, 12, 14] if quick else [5, 7, 10, 12, 14, 17]),
                      "min_log2": rng.pick([0, 0, 3])}}


def family(kind):
    return [f for f in (calls.MODIS, calls.GRID, calls.LEGACY + ("interp", "ginterp", "conv"), ("mlin",), ("basic",), calls.VII)
            if kind in f][0]


class Use:
    """A call that can be made again."""

    def __init__(self, spec, made=None):
        self.spec, self.spoilt = spec, False
        obj, self.arrs, self.aux = made or (None, calls.inputs(spec), calls.aux_arrays(spec))
        if spec["object"]:
            pts = c10.points(spec, self.arrs, self.aux, {})
            self.func = lambda: c10.use(obj, spec, pts, {})
        elif spec["lazy"]:
            import dask
            lazy = calls.build_lazy(spec, self.arrs)
            self.func = lambda: [np.asarray(getattr(a, "values", a)) for a in dask.compute(*lazy, scheduler="synchronous")]
        else:
            self.func = lambda: calls.prepare(spec, self.arrs, self.aux or None)()

    def arguments(self):
        """The caller's arrays."""
        return [a for a in list(self.arrs) + list(self.aux or []) if isinstance(a, np.ndarray)]

    def over(self):
        """Those that the caller may write to because the call is over."""
        return [] if self.spec["object"] or self.spec["lazy"] else [a for a in self.arguments() if a.flags.writeable]


def make(spec):
    """An object and what it was made from."""
    arrs, aux = calls.inputs(spec), calls.aux_arrays(spec)
    return c10.build(spec, arrs, aux), arrs, aux


def alone(state, spec):
    """The call, or the object used once, when nothing else happens."""
    if spec["object"]:
        return c10.alone(state, spec, {})
    try:
        return "ok", [np.array(a) for a in Use(spec).func()]
    except Exception as exc:
        return "exc", type(exc).__name__


class Kept:
    """A result the caller holds."""

    def __init__(self, use, got, label):
        self.use, self.got, self.label = use, got, label
        self.note()

    def note(self):
        self.results = [digest(a) for a in self.got]
        self.args = [digest(a) for a in self.use.arguments()]

    def check(self, when):
        if [digest(a) for a in self.got] != self.results:
            raise Violation("result changed in the caller's hands", "%s, %s" % (self.label, when))
        if [digest(a) for a in self.use.arguments()] != self.args:
            raise Violation("arguments changed in the caller's hands", "%s, %s" % (self.label, when))


class Caller:
    """A thread's program."""

    def __init__(self, ctx, num, program, specs, objs, refs):
        self.ctx, self.num, self.program, self.specs, self.objs, self.refs = ctx, num, program, specs, objs, refs
        self.kept = []

    def __call__(self):
        for step, (op, arg) in enumerate(self.program):
            label = "thread %d, step %d (%s)" % (self.num, step, op)
            if op == "call":
                i = arg % len(self.specs)
                self.call(i, lambda: Use(self.specs[i], self.objs.get(i)), label)
            elif self.kept:
                getattr(self, op.replace(" ", "_"))(self.kept[arg % len(self.kept)], label)
            self.ctx.event(self.num, op, arg)
            self.ctx.signature.append((self.num, op, arg))
            for kept in self.kept:
                self.ctx.checks += 1
                kept.check("after " + label)

    def call(self, i, make, label):
        spec, ref = self.specs[i], self.refs[i]
        try:
            use = make()
            got = use.func()
        except Exception as exc:
            if ref[0] == "exc" and ref[1] == type(exc).__name__:
                return
            raise Violation("raised %s because of what the caller did before" % type(exc).__name__,
                            "%s (%s): %s" % (label, spec["kind"], str(exc)[:300]))
        if ref[0] == "exc":
            raise Violation("did not raise because of what the caller did before", "%s (%s)" % (label, spec["kind"]))
        problem = calls.compare(spec, got, ref[1])
        if problem:
            raise Violation("differs because of what the caller did before", "%s (%s): %s" % (label, spec["kind"], problem))
        use.number = i
        self.kept.append(Kept(use, got, "%s (%s)" % (label, spec["kind"])))

    def again(self, kept, label):
        if not kept.use.spoilt:
            self.call(kept.use.number, lambda: kept.use, label)

    def overwrite_result(self, kept, label):
        for a in kept.got:
            if a.flags.writeable:
                a[...] = GARBAGE
                self.ctx.fault("caller overwrites a result")
            else:
                raise Violation("result cannot be written", kept.label)
        kept.results = [digest(a) for a in kept.got]

    def overwrite_arguments(self, kept, label):
        if not kept.use.over():
            return
        for a in kept.use.over():
            a[...] = GARBAGE
        self.ctx.fault("caller overwrites the arguments")
        kept.use.spoilt = True
        for other in self.kept:
            if other.use is kept.use:
                other.args = [digest(a) for a in kept.use.arguments()]

    def drop(self, kept, label):
        self.kept = [k for k in self.kept if k is not kept]


def run(ctx, scen):
    specs = scen["calls"]
    used = sorted({arg % len(specs) for p in scen["programs"] for op, arg in p if op == "call"})
    refs = {i: ctx.zygote.once(alone, specs[i]) for i in used}
    objs = {}
    for i in used:
        spec = specs[i]
        if refs[i][0] == "exc" and calls.must_work(spec):
            raise Violation("well-formed call raises when it is the only one", "%s: %s" % (spec["kind"], refs[i][1]))
        if spec["object"]:
            objs[i] = ctx.must("construction", make, spec)
        ctx.probe("kind %s%s" % (spec["kind"], " lazy" if spec["lazy"] else " object" if spec["object"] else ""))
    callers = [Caller(ctx, t, p, specs, objs, refs) for t, p in enumerate(scen["programs"])]
    for ended in ctx.simulate(callers, scen["sched"], ticks=scen["ticks"]):
        if ended[0] == "exc":
            raise ended[1]
    if boot.simrt.stats()["native_preemptions"]:
        ctx.probe("preempted in compiled code")
    for caller in callers:
        for kept in caller.kept:
            ctx.checks += 1
            kept.check("in the end")
            ctx.result(kept.label, *kept.got)
    # everything still gives what it gave
    for i in used:
        Caller(ctx, -1, [["call", i]], specs, objs, refs)()
    del callers, objs
    for i in used:
        released(ctx, specs[i], refs[i])


def released(ctx, spec, ref):
    """What the caller has dropped is gone."""
    if ref[0] == "exc":
        return
    use = Use(spec, make(spec) if spec["object"] else None)
    got = use.func()
    gone = [("argument", weakref.ref(a)) for a in roots(list(use.arrs) + list(use.aux or []))]
    gone += [("result", weakref.ref(a)) for a in roots(got)]
    del use, got
    gc.collect()
    ctx.checks += 1
    for what, ref in gone:
        if ref() is not None:
            raise Violation("%s kept after the caller dropped it" % what, spec["kind"])


def roots(arrs):
    """The arrays and what owns their memory."""
    out = []
    for a in arrs:
        while isinstance(a, np.ndarray):
            out.append(a)
            a = a.base
    return out
