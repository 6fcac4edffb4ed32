"""C17: a call leaves the process as it found it."""
import os
import shutil
import signal
import tempfile
import threading
import time
import warnings

import numpy as np

from gtsim import boot, calls, faults, pools, surroundings
from gtsim.core import Violation
from gtsim.props import c08, c09, c11
from gtsim.rng import Rng

LISTS = ("nan", "calls", "programs", "workers")
SIMPLE = {"noise": [None], "scans": [1], "ticks": [1], "lazy": [False], "trouble": [None], "n": [1], "cores": [None], "which": ["all"], "environment": [0]}
ZONES = True
MIN_RUNS = 80
REAL = c09.REAL
STUB = ["thread scheduler", "process pool scheduling", "clock", "array allocator (fails on request)", "points at which exceptions arrive",
        "storage"]
PRELOAD = ("cloudpickle", "dask.threaded", "dask.local", "dask.blockwise", "json", "socket", "copy", "tempfile", "datetime", "logging",
           "concurrent.futures.process", "concurrent.futures.thread", "multiprocessing.pool")
# exceptions do not strike where settings are being restored
SETTING = ("_ufunc_config", "arrayprint", os.sep + "config.py", "options.py", "_pytesttester", "errstate", "contextlib", "dask/utils.py")


HOWS = ("words", "none", "row", "column", "flat", "cube", "empty", "complex", "int", "bool", "swapped", "nan")
WHICH = ("all", "all", "first", "last")


def gen(rng, tier):
    together = rng.chance(0.35)
    specs = []
    for _ in range(rng.pick([1, 1, 2, 3]) if not together else rng.pick([1, 2, 2])):
        lazy = rng.chance(0.15)
        spec = calls.gen_lazy_call(rng, c11.LAZY, max_scans=2) if lazy else calls.gen_call(rng, c09.EVEN, max_scans=2)
        spec["lazy"] = lazy
        spec["trouble"] = None
        if spec["kind"] in ("l250", "l500") and rng.chance(0.6):
            spec["cores"] = rng.pick([2, 3])
            if rng.chance(0.4):
                spec["trouble"] = dict(how=rng.pick(HOWS), which=rng.pick(WHICH))
            elif rng.chance(0.5):
                spec["workers"] = [dict({"kind": kind}, **{"worker" if kind == "start" else "task": rng.randint(0, 2)})
                                   for kind in [rng.weighted(c08.KINDS)]]
        elif not together or rng.chance(0.3):
            spec["trouble"] = gen_trouble(rng, lazy, spec, together)
        if c09.slow(spec) and spec["ny"] * spec["nx"] > 150:
            spec["init"]["method"] = "slinear"
            spec["call"].pop("method", None)
        specs.append(spec)
    scen = {"calls": specs, "pool": rng.getrandbits(60), "environment": rng.getrandbits(31) if rng.chance(0.7) else 0}
    if together:
        scen["programs"] = [[rng.randint(0, len(specs) - 1) for _ in range(rng.pick([1, 1, 2]))] for _ in range(rng.pick([2, 2, 3]))]
        scen["ticks"] = rng.pick([1, 3])
        scen["sched"] = {"seed": rng.getrandbits(62), "max_log2": rng.pick([3, 5, 7, 10, 14, 17]), "min_log2": 0}
    return scen


def gen_trouble(rng, lazy, spec, together):
    what = rng.weighted([("", 3), ("arguments", 3), ("fault", 0 if together else 5)])
    if not what:
        return None
    if what == "arguments":
        if spec["kind"] == "mlin" or lazy:
            return {"how": rng.pick(["words", "none", "swapped"]), "which": rng.pick(WHICH)}
        how = {"how": rng.pick(HOWS), "which": rng.pick(WHICH)}
        if rng.chance(0.4):       # one unusual, one impossible
            how = {"how": rng.pick(("swapped", "cube", "nan", "int", "complex")), "which": rng.pick(("all", "first")),
                   "then": (rng.pick(("words", "none", "row", "flat")), rng.pick(("last", "last", "first")))}
        return how
    fault = faults.gen_fault(rng, lazy)
    if fault["kind"] == "exc":
        fault.update(exc=rng.pick(sorted(faults.ORDINARY) + ["MemoryError", "RuntimeError", "OSError", "SimError"] * 2), where="direct calls")
    return {"fault": fault}


def spoiled(arrs, trouble):
    """Arguments that are not what they should be."""
    changes = {"words": lambda a: np.full(a.shape, "north"), "none": lambda a: None, "row": lambda a: a[:-1], "column": lambda a: a[..., :-1],
               "flat": lambda a: a.ravel(), "cube": lambda a: a[np.newaxis], "empty": lambda a: a[:0], "complex": lambda a: a.astype("c16"),
               "int": lambda a: np.nan_to_num(a).astype("i4"), "bool": lambda a: a > 0, "swapped": lambda a: a.astype(a.dtype.newbyteorder()),
               "nan": lambda a: np.full(a.shape, np.nan)}
    for how, which in [(trouble["how"], trouble.get("which", "all"))] + [trouble[k] for k in ("then",) if k in trouble]:
        hit = {"all": range(len(arrs)), "first": [0], "last": [len(arrs) - 1]}[which]
        arrs = [changes[how](a) if i in hit and isinstance(a, np.ndarray) and a.ndim <= 3 and (a.ndim > 1 or how != "column")
                and a.dtype.kind in "fi" else a for i, a in enumerate(arrs)]
    return arrs


def unusual(seed):
    """Settings of somebody's own, which a call that restores the usual ones would lose."""
    import decimal
    import random
    import sys
    import dask
    import xarray as xr
    rng = Rng(seed)
    for name in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "TZ", "HOME", "PYTHONWARNINGS"):
        if rng.chance(0.5):
            os.environ.pop(name, None)
        else:
            os.environ[name] = rng.pick(["3", "", "UTC"])
    random.seed(rng.getrandbits(30))
    np.random.seed(rng.getrandbits(30))
    for action in ([lambda: sys.setrecursionlimit(sys.getrecursionlimit() + 13), lambda: sys.setswitchinterval(0.25),
                    lambda: os.umask(0o27), lambda: warnings.simplefilter("ignore", UserWarning),
                    lambda: warnings.simplefilter("always", RuntimeWarning), lambda: warnings.simplefilter("error", DeprecationWarning),
                    lambda: dask.config.set({"array.chunk-size": "64MiB"}), lambda: dask.config.set({"array.rechunk.threshold": 7}),
                    lambda: xr.set_options(keep_attrs=False), lambda: xr.set_options(arithmetic_join="exact")]):
        if rng.chance(0.3):
            action()

    def of_thread():
        own = Rng(seed ^ 1)
        np.seterr(**{k: own.pick(["ignore", "ignore", "warn", "raise"]) for k in ("divide", "over", "under", "invalid")})
        if own.chance(0.5):
            np.setbufsize(own.pick([4096, 16384]))
        if own.chance(0.3):
            np.set_printoptions(precision=3)
        if own.chance(0.3):
            decimal.getcontext().prec = 11
    return of_thread


class Signals:
    """Signal handlers of a process whose main thread is a simulated one."""

    def __init__(self):
        self.handlers = {s: signal.getsignal(s) for s in surroundings.SIGNALS}
        self.main = None
        self.real = signal.signal, signal.getsignal, threading.main_thread
        signal.signal, signal.getsignal, threading.main_thread = self.set, self.get, lambda: self.main or self.real[2]()

    def set(self, which, handler):
        if threading.current_thread() is not self.main:
            raise ValueError("signal only works in main thread of the main interpreter")
        old, self.handlers[signal.Signals(which)] = self.handlers[signal.Signals(which)], handler
        return old

    def get(self, which):
        return self.handlers[signal.Signals(which)]

    def undo(self):
        signal.signal, signal.getsignal, threading.main_thread = self.real


class Spare:
    """What has to be the same afterwards."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.process = surroundings.of_process(scratch)
        self.code = surroundings.code()

    def check(self, label, but=()):
        now = surroundings.of_process(self.scratch)
        found = surroundings.difference({k: v for k, v in self.process.items() if k not in but}, now)
        if found:
            raise Violation("left behind: " + found[0], "%s: %s" % (label, found[1]))
        found = surroundings.replaced(self.code)
        if found:
            raise Violation("left behind: replaced " + found, label)


def perform(ctx, spec):
    """One call, with or without trouble; None, or where a fault struck."""
    import dask
    from gtsim.props.c07 import call_cores
    trouble = spec["trouble"] or {}
    arrs, aux = calls.inputs(spec), calls.aux_arrays(spec) or None
    if "how" in trouble:
        arrs = spoiled(arrs, trouble)
    if spec.get("cores"):
        world = pools.WORLD
        world.faults = [dict(f, **{k: f[k] + getattr(world, k + "s") for k in ("task", "worker") if k in f}) for f in spec.get("workers", ())]
        before = sum(world.fired.values())
        func = lambda: call_cores(spec, arrs, spec["cores"])  # noqa: E731
    else:
        func = c11.doing(spec, arrs, aux)
    if "fault" in trouble:
        fault = trouble["fault"]
        out, points, _ = faults.attempt(func, fault, 0)
        if not points:
            return "ended" if out[0] == "ok" else "raised"
        out, _, fired = faults.attempt(func, fault, 1 + int(fault["at"] * points))
        where = boot.simrt.event_stats()[2] if fault["kind"] == "exc" else None
        if fired and where and any(s in where for s in SETTING):
            return None
        if fired:
            ctx.fault(faults.name_of(fault))
        return "ended" if out[0] == "ok" else "raised"
    try:
        func()
        return "ended"
    except Exception:
        if "how" in trouble:
            ctx.fault("malformed arguments: " + trouble["how"])
        return "raised"
    finally:
        if spec.get("cores"):
            world.faults = []
            if sum(world.fired.values()) > before:
                ctx.fault("worker " + spec["workers"][0]["kind"])


def run(ctx, scen):
    import dask
    pools.WORLD = pools.PoolWorld(Rng(scen["pool"]))
    home = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="gtsim-")
    old_tmp = os.environ.get("TMPDIR"), tempfile.tempdir
    signals = Signals()
    warnings.showwarning = lambda *args, **kwargs: None
    try:
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = None
        tempfile.gettempdir()
        os.chdir(scratch)
        dask.config.set(scheduler="synchronous")
        settle = unusual(scen["environment"]) if scen["environment"] else lambda: None
        (together if "programs" in scen else one_by_one)(ctx, scen, scratch, signals, settle)
    finally:
        signals.undo()
        os.chdir(home)
        if old_tmp[0] is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = old_tmp[0]
        tempfile.tempdir = old_tmp[1]
        shutil.rmtree(scratch, ignore_errors=True)


def one_by_one(ctx, scen, scratch, signals, settle):
    def main():
        settle()
        signals.main = threading.current_thread()
        threads = set(threading.enumerate())
        spare, mine = Spare(scratch), surroundings.of_thread()
        for n, spec in enumerate(scen["calls"]):
            how = perform(ctx, spec)
            if how is None:
                ctx.probe("struck while settings were restored")
                break
            label = "call %d (%s%s), which %s" % (n, spec["kind"], " lazy" if spec["lazy"] else "", how)
            ctx.probe("kind %s %s" % (spec["kind"], how))
            ctx.event(n, how)
            ctx.checks += 1
            spare.check(label)
            found = surroundings.difference(mine, surroundings.of_thread())
            if found:
                raise Violation("left behind: " + found[0], "%s: %s" % (label, found[1]))
        time.sleep(60)
        spare.check("a minute later")
        left = sorted(t.name for t in threading.enumerate() if t not in threads and not isinstance(t, threading._DummyThread))
        if left:
            raise Violation("left behind: threads", str(left[:4]))
        live = [n for n in pools.WORLD.live if n not in pools.WORLD.stranded]     # (see C08)
        if live:
            raise Violation("left behind: worker processes", str(live[:4]))
    ctx.nontrivial = True
    ended = ctx.simulate([main], {"seed": scen["pool"], "max_log2": 20, "min_log2": 10})[0]
    if ended[0] == "exc":
        raise ended[1]


def together(ctx, scen, scratch, signals, settle):
    specs = scen["calls"]

    def thread(t, program):
        def body():
            settle()
            if t == 0:
                signals.main = threading.current_thread()
            mine = surroundings.of_thread()
            for step, i in enumerate(program):
                spec = specs[i % len(specs)]
                how = perform(ctx, spec)
                ctx.probe("kind %s %s together" % (spec["kind"], how))
                found = surroundings.difference(mine, surroundings.of_thread())
                if found:
                    raise Violation("left behind: " + found[0], "thread %d, call %d (%s), which %s: %s"
                                    % (t, step, spec["kind"], how, found[1]))
        return body
    threads = set(threading.enumerate())
    spare = Spare(scratch)
    for out in ctx.simulate([thread(t, p) for t, p in enumerate(scen["programs"])], scen["sched"], ticks=scen["ticks"]):
        if out[0] == "exc":
            raise out[1]
    ctx.checks += 1
    # dask changes these for a moment, in a way that threads disturb each other
    spare.check("calls at the same time", ("warning filters", "garbage collection") if any(s["lazy"] for s in specs) else ())
    left = sorted(t.name for t in threading.enumerate() if t not in threads and not isinstance(t, threading._DummyThread))
    if left:
        raise Violation("left behind: threads", str(left[:4]))
