"""Runs: one seed, one process, one exactly repeatable execution; and what is done with many of them."""
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import traceback

from gtsim import boot
from gtsim.rng import Rng, derive

PY_CAP = 40_000_000
NATIVE_CAP = 60_000_000_000
TIME_CAP = 1.0e5
MAX_SLICES = 60000         # after that many preemptions a run continues without


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    """The simulator itself is at fault."""


class SimHang(Exception):
    """Nobody can ever run again, or the run does not end."""


class Ctx:
    """What a run may use and what it reports."""

    def __init__(self, prop_id, scenario, tier):
        self.prop_id, self.scenario, self.tier = prop_id, scenario, tier
        self.faults, self.probes = {}, {}
        self.hash = hashlib.sha256()
        self.sim_time = 0.0
        self.switches = 0
        self.native_preemptions = 0
        self.ticks = 0
        self.sim_index = 0
        self.logs = []
        self.signature = []     # what makes this run different from others
        self.nontrivial = False
        self.checks = 0
        self.trace = []
        self._zygote = None
        self.n_events = 0

    # -- history
    def event(self, *what):
        """Record something that happened."""
        self.n_events += 1
        self.hash.update(repr(what).encode())
        if len(self.trace) < 400:
            self.trace.append(what)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def result(self, label, *arrays):
        """Make results part of the history."""
        from gtsim.dasksim import digest
        self.event("result", label, *[digest(a) for a in arrays])

    def must(self, label, func, *args, **kwargs):
        """Do something that the code under test has to manage without an exception."""
        from gtsim.pools import UnsupportedByHarness
        try:
            return func(*args, **kwargs)
        except (SimHang, Violation, UnsupportedByHarness, HarnessError):
            raise
        except Exception as exc:
            name = getattr(exc, "name", None) if type(exc).__name__ == "RemoteError" else type(exc).__name__
            raise Violation("%s raised %s" % (label, name), str(exc)[:600])

    # -- processes
    @property
    def zygote(self):
        if self._zygote is None:
            raise RuntimeError("this property does not ask for processes")
        return self._zygote

    # -- threads
    def simulate(self, funcs, sched=None, ticks=None, caps=True, inject=None):
        """Run the functions as simulated threads; return [("ok", value) or ("exc", exception)]."""
        rt = boot.simrt
        sched = sched or {}
        idx = self.sim_index
        self.sim_index += 1
        plan = self.scenario.get("plans", {}).get(str(idx))
        rt.reset(seed=sched.get("seed", 0), max_log2=sched.get("max_log2", 14), min_log2=sched.get("min_log2", 0),
                 cap_ticks=NATIVE_CAP, plan=plan, cap_py=PY_CAP if caps else 0, cap_time=TIME_CAP,
                 max_slices=MAX_SLICES)
        import _thread
        out = [None] * len(funcs)

        def body(num, func, ident):
            rt.enter(ident)
            rt.alloc_install()
            try:
                out[num] = ("ok", func())
            except BaseException as exc:  # noqa
                out[num] = ("exc", exc)
            rt.leave()
        idents = [rt.new_thread() for _ in funcs]
        for num, (func, ident) in enumerate(zip(funcs, idents)):
            _thread.start_new_thread(body, (num, func, ident))
        count, at, exc = inject or (0, 0, None)
        boot.events(tick=boot.LINE if ticks is None else ticks, count=count, at=at, exc=exc)
        try:
            ended = rt.run()
        finally:
            self.event_stats = rt.event_stats()
            boot.events()
        stats = rt.stats()
        self.sim_time += stats["now"]
        boot.CLOCK_BASE += stats["now"]
        self.switches += stats["switches"]
        self.native_preemptions += stats["native_preemptions"]
        self.ticks += stats["ticks"]
        self.event("schedule", stats["order_hash"], stats["slices"], stats["ticks"])
        self.signature.append(stats["order_hash"])
        self.logs.append(rt.log() if stats["slices"] <= 60000 else None)
        if stats["switches"] > len(funcs):
            self.nontrivial = True
        if ended["deadlock"]:
            raise SimHang("deadlock: every thread waits")
        if ended["over_cap"]:
            raise SimHang("no end after %d ticks, %.0f simulated seconds" % (stats["ticks"], stats["now"]))
        return out


def load_prop(prop_id):
    return importlib.import_module("gtsim.props." + prop_id.lower())


def scenario_of(prop_id, seed, tier):
    prop = load_prop(prop_id)
    scen = prop.gen(Rng(seed), tier)
    scen = json.loads(json.dumps(scen))
    scen["run_seed"] = seed
    return scen


def _blame(exc):
    """Name of the exception if it came out of the code under test."""
    from gtsim.pools import UnsupportedByHarness
    if not isinstance(exc, Exception) or isinstance(exc, (SimHang, UnsupportedByHarness, HarnessError)):
        return None
    inside = os.path.join(boot.BUILD_DIR, "geotiepoints")
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(inside) or name.startswith("geotiepoints/"):
            return type(exc).__name__
        tb = tb.tb_next
    return None


def execute(prop_id, scenario, tier, full=False):
    """Run a scenario in this process; return the report."""
    prop = load_prop(prop_id)
    ctx = Ctx(prop_id, scenario, tier)
    gc.disable()
    collector = [True]            # dask turns it on again; when it runs depends on how real threads start
    gc.enable, gc.disable, gc.isenabled = (lambda: collector.__setitem__(0, True)), (lambda: collector.__setitem__(0, False)), \
        (lambda: collector[0])
    boot.set_identity(scenario.get("run_seed", 0))
    boot.set_memory(scenario.get("run_seed", 0))
    report = {"status": "ok"}
    loaded = set(sys.modules)
    try:
        if getattr(prop, "PROCS", False) is True or (callable(getattr(prop, "PROCS", None)) and prop.PROCS(scenario)):
            from gtsim.procs import Zygote
            ctx._zygote = Zygote()
        try:
            prop.run(ctx, scenario)
            if getattr(prop, "ZONES", False) and boot.simrt.zones_torn():
                raise Violation("memory outside of an array overwritten", "%d arrays" % boot.simrt.zones_torn())
        except SimHang as exc:
            if getattr(prop, "HANG_IS_VIOLATION", True):
                raise Violation("hang", str(exc))
            raise
    except Violation as exc:
        report = {"status": "violation", "kind": exc.kind, "detail": exc.detail}
        full = True
    except BaseException as exc:  # noqa
        name = _blame(exc)
        report = {"status": "violation", "kind": "raised " + name, "detail": str(exc)[:600],
                  "traceback": traceback.format_exc()[-6000:]} if name else {"status": "error", "error": "%s: %s" % (type(exc).__name__, exc),
                  "traceback": traceback.format_exc()[-6000:]}
    for name in sorted(set(sys.modules) - loaded):
        if not name.startswith("gtsim."):
            ctx.probe("first import during a run: " + name)
    ctx.hash.update(repr(sorted(ctx.faults.items())).encode())
    sig = getattr(prop, "signature", None)
    base = sig(scenario) if sig else {k: v for k, v in scenario.items() if k not in ("run_seed",)}
    shape = hashlib.sha256((json.dumps(base, sort_keys=True, default=str) + repr(ctx.signature)).encode()).hexdigest()[:16]
    report.update(faults=ctx.faults, probes=ctx.probes, sim_time=ctx.sim_time, switches=ctx.switches,
                  native=ctx.native_preemptions, ticks=ctx.ticks, checks=ctx.checks, n_events=ctx.n_events,
                  digest=ctx.hash.hexdigest(), shape=shape, orders=[str(s) for s in ctx.signature[:8]],
                  nontrivial=bool(ctx.nontrivial))
    if full:
        report["scenario"] = scenario
        report["logs"] = ctx.logs
        report["trace"] = ctx.trace[-120:]
    return report


# ---- many runs, each in a process of its own --------------------------------------------------------------------------
_libc = ctypes.CDLL(None)


class Runner:
    """Forks one child per run from this warm process."""

    def __init__(self, jobs=8, timeout=150.0):
        self.jobs, self.timeout = jobs, timeout
        self.active = {}
        self.poll = select.poll()

    def start(self, token, func, *args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                _libc.prctl(1, signal.SIGKILL)       # not to outlive the check
                os.close(r)
                for other in list(self.active):
                    os.close(other)
                gc.disable()
                data = pickle.dumps(func(*args))
                with os.fdopen(w, "wb") as stream:
                    stream.write(struct.pack("<Q", len(data)) + data)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        self.active[r] = [token, pid, boot.real_monotonic(), bytearray()]
        self.poll.register(r, select.POLLIN | select.POLLHUP)

    def _finish(self, fd, timed_out=False):
        token, pid, started, buf = self.active.pop(fd)
        self.poll.unregister(fd)
        os.close(fd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        _, status = os.waitpid(pid, 0)
        if timed_out:
            return token, {"status": "timeout"}
        if len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
            return token, pickle.loads(bytes(buf[8:]))
        if os.WIFSIGNALED(status):
            return token, {"status": "crash", "signal": os.WTERMSIG(status)}
        return token, {"status": "crash", "exit": os.WEXITSTATUS(status)}

    def wait(self):
        """Yield (token, report) of runs that ended."""
        done = []
        while not done and self.active:
            for fd, ev in self.poll.poll(500):
                data = b""
                if ev & select.POLLIN:
                    data = os.read(fd, 1 << 20)
                if data:
                    self.active[fd][3].extend(data)
                else:
                    done.append(self._finish(fd))
            now = boot.real_monotonic()
            for fd in [f for f, a in self.active.items() if now - a[2] > self.timeout]:
                done.append(self._finish(fd, True))
        return done

    def stop(self):
        for fd in list(self.active):
            self._finish(fd, True)

    def map(self, func, argslist):
        """Run all, return the reports in order."""
        out = [None] * len(argslist)
        todo = list(enumerate(argslist))
        while todo or self.active:
            while todo and len(self.active) < self.jobs:
                i, args = todo.pop(0)
                self.start(i, func, *args)
            for i, rep in self.wait():
                out[i] = rep
        return out


def run_seed(prop_id, seed, tier, full=False):
    """Generate and run the scenario of a seed."""
    try:
        scen = scenario_of(prop_id, seed, tier)
    except BaseException as exc:  # noqa
        return {"status": "error", "error": "generator: %r" % (exc,), "traceback": traceback.format_exc()}
    return execute(prop_id, scen, tier, full)


def classify(report):
    """What a report means: ok, violation kind, or an error of the harness."""
    status = report["status"]
    if status == "violation":
        return "violation", report["kind"]
    if status == "crash":
        if report.get("signal") in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            return "violation", "process crashed with signal %d" % report["signal"]
        if report.get("exit") == 86:
            return "violation", "hang"
        return "error", "child ended: %s" % report
    if status == "ok":
        return "ok", ""
    return "error", report.get("error", status)


# ---- minimising ------------------------------------------------------------------------------------------------------
def _paths(obj, prefix=()):
    if isinstance(obj, dict):
        for key in sorted(obj):
            yield from _paths(obj[key], prefix + (key,))
    elif isinstance(obj, list):
        yield prefix, obj
        for i, item in enumerate(obj):
            yield from _paths(item, prefix + (i,))
    else:
        yield prefix, obj


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def _with(scen, path, value):
    new = json.loads(json.dumps(scen))
    if not path:
        return value
    target = _get(new, path[:-1])
    target[path[-1]] = value
    return new


def generic_shrinks(scen, prop):
    """Candidate simpler scenarios."""
    keep = {"run_seed", "seed"}
    for path, value in list(_paths(scen)):
        if not path or path[0] in keep | {"plans"}:
            continue
        name = path[-1]
        if isinstance(value, list):
            n = len(value)
            if name in ("texture",) + tuple(getattr(prop, "LISTS", ())):
                if n > 2:
                    yield _with(scen, path, value[:n // 2])
                    yield _with(scen, path, value[n // 2:])
                for i in range(n):
                    yield _with(scen, path, value[:i] + value[i + 1:])
        elif name in getattr(prop, "SIMPLE", {}):
            for simple in prop.SIMPLE[name]:
                if value == simple:
                    break
                yield _with(scen, path, simple)
    extra = getattr(prop, "shrink", None)
    if extra:
        yield from extra(scen)


def minimise(prop_id, scenario, kind, tier, runner, seconds):
    """Shrink scenario, faults and schedule while the same kind of violation remains."""
    prop = load_prop(prop_id)
    end = boot.real_monotonic() + seconds
    tried = 0

    def first_failing(cands):
        nonlocal tried
        for i in range(0, len(cands), runner.jobs):
            if boot.real_monotonic() > end:
                return None
            batch = cands[i:i + runner.jobs]
            tried += len(batch)
            reports = runner.map(execute, [(prop_id, c, tier, True) for c in batch])
            for cand, rep in zip(batch, reports):
                what, k = classify(rep)
                if what == "violation" and k == kind:
                    return cand, rep
        return None

    current, best = scenario, None
    seen = set()
    progress = True
    while progress and boot.real_monotonic() < end:
        progress = False
        cands = []
        for cand in generic_shrinks(current, prop):
            key = json.dumps(cand, sort_keys=True)
            if key not in seen:
                seen.add(key)
                cands.append(cand)
        hit = first_failing(cands[:600])
        if hit:
            current, best = hit
            progress = True
    # the schedule: make it explicit, then remove preemptions
    if best is None:
        rep = runner.map(execute, [(prop_id, current, tier, True)])[0]
        if classify(rep) != ("violation", kind):
            return current, rep, tried
        best = rep
    logs = best.get("logs") or []
    if logs and all(log is not None for log in logs) and sum(map(len, logs)) <= 60000:
        explicit = dict(current, plans={str(i): log for i, log in enumerate(logs)})
        hit = first_failing([explicit])
        if hit:
            current, best = hit
            current = _shrink_plans(current, first_failing, end) or current
            rep = runner.map(execute, [(prop_id, current, tier, True)])[0]
            if classify(rep) == ("violation", kind):
                best = rep
    return current, best, tried


def merge_plan(plan):
    """Join consecutive slices of one thread."""
    out = []
    for t, b in plan:
        if out and out[-1][0] == t and out[-1][1] and b:
            out[-1][1] += b
        else:
            out.append([t, b])
    return out


def _shrink_plans(scen, first_failing, end):
    for key in sorted(scen["plans"], key=int):
        cand = _with(scen, ("plans", key), [])
        hit = first_failing([cand])
        if hit:
            scen = cand
            continue
        # shortest failing prefix, by bisection, then dropping pieces
        plan = scen["plans"][key]
        lo, hi = 0, len(plan)
        while lo < hi and boot.real_monotonic() < end:
            mid = (lo + hi) // 2
            cand = _with(scen, ("plans", key), plan[:mid])
            if first_failing([cand]):
                hi = mid
            else:
                lo = mid + 1
        cand = _with(scen, ("plans", key), plan[:hi])
        if first_failing([cand]):
            scen, plan = cand, plan[:hi]
        size = max(1, len(plan) // 2)
        while boot.real_monotonic() < end:
            cands = [_with(scen, ("plans", key), plan[:i] + plan[i + size:]) for i in range(0, len(plan), size)]
            hit = first_failing(cands[:200])
            if hit:
                scen = hit[0]
                plan = scen["plans"][key]
                size = min(size, max(1, len(plan) // 2))
            elif size == 1 or not plan:
                break
            else:
                size = max(1, size // 2)
    return scen


def seed_of(base, prop_id, i):
    return derive("run", base, prop_id, i)
