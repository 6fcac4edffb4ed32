"""Faults at a chosen point of a call: an allocation that fails, an exception out of nowhere, data that cannot be read."""
from gtsim import boot
from gtsim.dasksim import STORAGE, SimReadError

LINE, LIBCALL, LIBLINE, DIRECT = boot.LINE, boot.LIBCALL, boot.LIBLINE, boot.DIRECT


class SimAbort(BaseException):
    """An asynchronous exception that is nobody's business, as raised by a watchdog."""


class SimError(Exception):
    """An error of a dependency."""


EXCEPTIONS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
              "OSError": OSError, "SimAbort": SimAbort, "SimError": SimError}
# what a dependency may raise: only where the package itself calls it (libraries catch some of these from each other)
ORDINARY = {e.__name__: e for e in (ValueError, TypeError, KeyError, IndexError, FloatingPointError, ZeroDivisionError,
                                    NotImplementedError, TimeoutError, EOFError, UserWarning)}
EXCEPTIONS.update(ORDINARY, SystemExit=SystemExit)
WHERE = {"lines": LINE, "library calls": LIBCALL, "library lines": LIBLINE, "direct calls": DIRECT, "anywhere": LINE | LIBLINE}


def gen_fault(rng, lazy=False, alloc=3.0):
    """Describe a fault; 'at' is where in the call, as a fraction of what can be hit."""
    kind = rng.weighted([("alloc", alloc), ("exc", 3)] + ([("read", 2)] if lazy else []))
    fault = {"kind": kind, "at": rng.random()}
    if kind == "alloc":
        fault["sticky"] = int(rng.chance(0.3))
        fault["min"] = rng.pick([0, 0, 0, 2000, 100000])
    elif kind == "exc":
        fault["exc"] = rng.weighted([("KeyboardInterrupt", 3), ("MemoryError", 2), ("RuntimeError", 1), ("OSError", 1),
                                     ("SimAbort", 1), ("SystemExit", 0.5), ("SimError", 1)])
        fault["where"] = rng.weighted([("lines", 4), ("library calls", 2), ("library lines", 1), ("anywhere", 1)])
        if rng.chance(0.25):
            fault.update(exc=rng.pick(sorted(ORDINARY)), where="direct calls")
    return fault


def name_of(fault):
    if fault["kind"] == "exc":
        return "%s in %s" % (fault["exc"], fault["where"])
    if fault["kind"] == "alloc":
        return "failing allocation" + (" and all later ones" if fault["sticky"] else "")
    return "unreadable input"


def _arm(fault, at):
    rt = boot.simrt
    if fault["kind"] == "alloc":
        rt.alloc_install()
        rt.alloc_set(-2, 1, at, fault["sticky"], fault["min"], 1)
    elif fault["kind"] == "exc":
        boot.events(count=WHERE[fault["where"]], at=at, exc=EXCEPTIONS[fault["exc"]] if at else None)
    else:
        STORAGE.reset()
        STORAGE.fail_on = at


def _disarm(fault):
    """Stop; return how many points were passed and whether the fault struck."""
    rt = boot.simrt
    if fault["kind"] == "alloc":
        count, _, failed = rt.alloc_stats()
        rt.alloc_set(-2, 1, 0, 0, 0)
        return count, failed
    if fault["kind"] == "exc":
        count, fired, _ = rt.event_stats()
        boot.events()
        return count, fired
    count, failed = len(STORAGE.reads), STORAGE.failed
    STORAGE.reset()
    return count, failed


def attempt(func, fault, at):
    """Call func with the fault at its at-th point (0: never); return outcome, points passed, fault struck."""
    _arm(fault, at)
    try:
        out = "ok", func()
    except BaseException as exc:  # noqa
        out = "exc", exc
    count, fired = _disarm(fault)
    if out[0] == "exc":
        out[1].__traceback__ = None
    return out, count, fired


def expected(fault, exc):
    """Is this how the fault shows itself?"""
    if fault["kind"] == "alloc":
        return isinstance(exc, MemoryError)
    if fault["kind"] == "read":
        return isinstance(exc, SimReadError)
    return isinstance(exc, EXCEPTIONS[fault["exc"]])
