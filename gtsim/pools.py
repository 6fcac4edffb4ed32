"""Stand-ins for the process pools of the standard library.

Workers are simulated threads; each executes its tasks in a real process of its own (or in this one, with arguments and
results pickled), when the simulator says so.  What a real pool does when a worker dies, cannot be started, or returns
something that cannot be pickled is reproduced: multiprocessing.Pool loses the task and waits for ever, the executor
breaks.
"""
import concurrent.futures
import concurrent.futures.process
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import pickle
import queue
import threading
import weakref
from concurrent.futures.process import BrokenProcessPool
from functools import partial

WORLD = None   # the PoolWorld of the running simulation


class UnsupportedByHarness(Exception):
    """The code uses something the simulator does not simulate."""


class WorkerFailure(RuntimeError):
    """Raised by a task that the fault plan makes fail."""


class PoolWorld:
    """Faults, delays and observations of all pools of a run."""

    def __init__(self, rng, zygote=None, faults=(), slow=1.0):
        self.rng = rng
        self.zygote = zygote
        self.faults = [dict(f) for f in faults]   # {"kind": ..., "task": n} or {"kind": "start", "worker": n}; "every": strikes repeatedly
        self.slow = slow
        self.tasks = 0
        self.workers = 0
        self.live = {}
        self.stranded = set()   # workers of an executor that failed to start
        self.fired = {}
        self.log = []
        self.order = []
        self.pools = 0
        self.crashed = 0

    def note(self, *what):
        self.log.append(what)

    def fault_for_task(self, n):
        for fault in self.faults:
            if fault["kind"] != "start" and fault.get("every") and n % fault["every"] == fault["task"] % fault["every"]:
                return fault["kind"]    # strikes again and again
            if fault.get("task") == n and fault["kind"] != "start" and not fault.get("done"):
                fault["done"] = True
                return fault["kind"]
        return None

    def start_worker(self, pool):
        n = self.workers
        self.workers += 1
        for fault in self.faults:
            if fault["kind"] == "start" and not fault.get("done") and (
                    fault.get("worker") == n or fault.get("every") and n >= fault["worker"]):
                fault["done"] = not fault.get("every")
                self.fire("start")
                raise OSError(11, "Resource temporarily unavailable (simulated)")
        self.live[n] = pool
        return n

    def stop_worker(self, n):
        self.live.pop(n, None)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


def run_pickled(state, blob):
    """Execute one task in a worker process."""
    fn, args, kwargs = pickle.loads(blob)
    try:
        value = fn(*args, **kwargs)
    except Exception as exc:
        try:
            return "exc", pickle.dumps(exc)
        except Exception as err:
            return "exc", pickle.dumps(RuntimeError("cannot pickle exception: %r" % (err,)))
    try:
        return "ok", pickle.dumps(value)
    except Exception as err:
        return "bad", str(err)


class _Crash(Exception):
    pass


class _Worker:
    """One worker process, driven by a simulated thread."""

    def __init__(self, world, pool_id, pickled=True):
        self.world = world
        self.n = world.start_worker(pool_id)
        self.proc = None
        self.pickled = pickled

    def execute(self, number, blob):
        import time
        world = self.world
        fault = world.fault_for_task(number)
        world.note("take", self.n, number)
        time.sleep(world.rng.random() * world.slow)
        if fault == "crash_before":
            raise _Crash(fault)
        if fault == "exc":
            world.fire(fault)
            return "exc", pickle.dumps(WorkerFailure("simulated failure of task %d" % number))
        if fault == "memory":
            world.fire(fault)
            return "exc", pickle.dumps(MemoryError("simulated"))
        if not self.pickled:
            fn, args, kwargs = blob
            try:
                out = "ok", fn(*args, **kwargs)
            except Exception as exc:
                out = "exc", exc
        elif world.zygote is not None:
            if self.proc is None:
                self.proc = world.zygote.spawn()
            out = self.proc.call(run_pickled, blob)
        else:
            out = run_pickled(None, blob)
        time.sleep(world.rng.random() * world.slow * (50 if fault == "stall" else 1))
        if fault == "stall":
            world.fire(fault)
        if fault == "crash_after":
            raise _Crash(fault)
        if fault == "unpicklable":
            world.fire(fault)
            return "bad", "simulated"
        world.note("done", self.n, number)
        world.order.append(number)
        return out

    def gone(self, crashed=None):
        if crashed:
            self.world.fire(crashed)
            self.world.crashed += 1
            self.world.note("crash", self.n)
        if self.proc is not None:
            self.proc.kill() if crashed else self.proc.close()
            self.proc = None
        self.world.stop_worker(self.n)


def _world():
    if WORLD is None:
        raise UnsupportedByHarness("process pool outside a simulation")
    return WORLD


class _Core:
    """State shared by an executor and its workers; keeps no reference to the executor."""

    def __init__(self, world):
        self.world = world
        self.cond = threading.Condition()
        self.items = []
        self.closed = False
        self.broken = False
        self.running = {}
        self.threads = []
        self.launched = []
        world.pools += 1
        self.id = world.pools


def _executor_worker(core, worker):
    crashed = None
    while True:
        with core.cond:
            while not core.items and not core.closed and not core.broken:
                core.cond.wait()
            if core.broken or not core.items:
                break
            number, future, blob = core.items.pop(0)
            if not future.set_running_or_notify_cancel():
                continue
            core.running[worker.n] = future
        try:
            status, value = worker.execute(number, blob)
        except _Crash as exc:
            crashed = str(exc)
            with core.cond:
                core.broken = True
                lost = list(core.running.values()) + [f for _, f, _ in core.items]
                core.items = []
                core.running = {}
                core.cond.notify_all()
            for fut in lost:
                try:
                    fut.set_exception(BrokenProcessPool("A process in the process pool was terminated abruptly while "
                                                        "the future was running or pending."))
                except concurrent.futures.InvalidStateError:
                    pass
            break
        with core.cond:
            core.running.pop(worker.n, None)
            dead = core.broken
        if dead:
            break
        if status == "ok":
            future.set_result(pickle.loads(value))
        elif status == "exc":
            future.set_exception(pickle.loads(value))
        else:
            future.set_exception(pickle.PicklingError(value))
    worker.gone(crashed)


def _close_core(core):
    with core.cond:
        core.closed = True
        core.cond.notify_all()


class SimProcessPoolExecutor(concurrent.futures.Executor):
    """concurrent.futures.ProcessPoolExecutor under the simulator."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is None:
            max_workers = 8
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self._init = (initializer, initargs)
        self._core = _Core(_world())
        weakref.finalize(self, _close_core, self._core).atexit = False

    def submit(self, fn, /, *args, **kwargs):
        core = self._core
        with core.cond:
            if core.broken:
                raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
            if core.closed:
                raise RuntimeError("cannot schedule new futures after shutdown")
        future = concurrent.futures.Future()
        number = core.world.tasks
        core.world.tasks += 1
        core.world.note("submit", number)
        # with the fork start method all workers are launched at the first submit, before anything watches over them:
        # when one cannot be started those before it stay
        try:
            while len(core.launched) < self._max_workers:
                core.launched.append(_Worker(core.world, core.id))
        except OSError:
            core.world.stranded.update(w.n for w in core.launched)
            raise
        for worker in core.launched[len(core.threads):]:
            core.world.stranded.discard(worker.n)
            thread = threading.Thread(target=_executor_worker, args=(core, worker))
            core.threads.append(thread)
            thread.start()
        try:
            blob = pickle.dumps((fn, args, kwargs))
        except Exception as exc:
            future.set_running_or_notify_cancel()
            future.set_exception(exc)
            return future
        with core.cond:
            core.items.append((number, future, blob))
            core.cond.notify()
        return future

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        results = super().map(partial(_process_chunk, fn), _chunks(chunksize, *iterables), timeout=timeout)
        return _flat(results)

    def shutdown(self, wait=True, *, cancel_futures=False):
        core = self._core
        with core.cond:
            if cancel_futures:
                for _, future, _ in core.items:
                    future.cancel()
                core.items = []
            core.closed = True
            core.cond.notify_all()
        if wait:
            for thread in core.threads:
                thread.join()


def _process_chunk(fn, chunk):
    return [fn(*args) for args in chunk]


def _chunks(size, *iterables):
    import itertools
    it = zip(*iterables)
    while chunk := tuple(itertools.islice(it, size)):
        yield chunk


def _flat(results):
    for chunk in results:
        chunk.reverse()
        while chunk:
            yield chunk.pop()


# ---- multiprocessing.Pool --------------------------------------------------------------------------------------------
class SimAsyncResult:
    """Result of a task; never set when the task was lost with its worker."""

    def __init__(self, core, callback=None, error_callback=None):
        self._core = core
        self._event = threading.Event()
        self._callback, self._error_callback = callback, error_callback

    def ready(self):
        return self._event.is_set()

    def successful(self):
        if not self.ready():
            raise ValueError("{0!r} not ready".format(self))
        return self._ok

    def wait(self, timeout=None):
        self._event.wait(timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._value
        raise self._value

    def _set(self, ok, value):
        self._ok, self._value = ok, value
        if ok and self._callback:
            self._callback(value)
        if not ok and self._error_callback:
            self._error_callback(value)
        self._event.set()


class _GroupResult(SimAsyncResult):
    def __init__(self, core, parts, flatten, callback, error_callback):
        self._parts, self._flatten = parts, flatten
        self._done = False
        self._callbacks = (callback, error_callback)

    def ready(self):
        return all(p.ready() for p in self._parts) or any(p.ready() and not p._ok for p in self._parts)

    def wait(self, timeout=None):
        for part in self._parts:
            part.wait(timeout)
            if part.ready() and not part._ok:
                break

    def successful(self):
        if not self.ready():
            raise ValueError("{0!r} not ready".format(self))
        return all(p.ready() and p._ok for p in self._parts)

    def get(self, timeout=None):
        values = []
        for part in self._parts:
            values.append(part.get(timeout))
        if self._flatten:
            values = [v for chunk in values for v in chunk]
        if self._callbacks[0]:
            self._callbacks[0](values)
        return values


def _pool_worker(core, worker):
    while True:
        with core.cond:
            while not core.items and not core.closed and not core.broken:
                core.cond.wait()
            if core.broken or (core.closed and not core.items):
                break
            number, result, blob = core.items.pop(0)
        try:
            status, value = worker.execute(number, blob)
        except _Crash as exc:
            # the pool starts a new worker, but nobody will ever set the result of the lost task
            worker.gone(str(exc))
            with core.cond:
                core.lost += 1
                if core.broken:
                    return
            worker = _Worker(core.world, core.id, core.pickled)
            continue
        if core.broken:
            break
        if not core.pickled:
            result._set(status == "ok", value)
        elif status == "ok":
            result._set(True, pickle.loads(value))
        elif status == "exc":
            result._set(False, pickle.loads(value))
        else:
            result._set(False, multiprocessing.pool.MaybeEncodingError("simulated", value))
        with core.cond:
            core.pending -= 1
            core.cond.notify_all()
    worker.gone()


class SimPool:
    """multiprocessing.Pool under the simulator."""

    _pickled = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = 8
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._core = core = _Core(_world())
        core.pickled = self._pickled
        core.pending = core.lost = 0
        started = []
        try:
            for _ in range(processes):
                started.append(_Worker(core.world, core.id, self._pickled))
        except OSError:
            for worker in started:
                worker.gone()
            raise
        for worker in started:
            thread = threading.Thread(target=_pool_worker, args=(core, worker))
            core.threads.append(thread)
            thread.start()
        weakref.finalize(self, _terminate_core, core).atexit = False

    def _check_running(self):
        if self._core.closed or self._core.broken:
            raise ValueError("Pool not running")

    def _submit(self, fn, args, kwargs, callback=None, error_callback=None):
        core = self._core
        result = SimAsyncResult(core, callback, error_callback)
        number = core.world.tasks
        core.world.tasks += 1
        core.world.note("submit", number)
        if core.pickled:
            try:
                blob = pickle.dumps((fn, args, kwargs))
            except Exception as exc:
                result._set(False, exc)
                return result
        else:
            blob = (fn, args, kwargs)
        with core.cond:
            core.pending += 1
            core.items.append((number, result, blob))
            core.cond.notify_all()
        return result

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check_running()
        return self._submit(func, tuple(args), dict(kwds), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _map_async(self, wrapper, func, iterable, chunksize, callback=None, error_callback=None):
        self._check_running()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), len(self._core.threads) * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        parts = [self._submit(wrapper, (func, items[i:i + chunksize]), {}) for i in range(0, len(items), chunksize)]
        return _GroupResult(self._core, parts, True, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(_mapstar, func, iterable, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(_starmapstar, func, iterable, chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        self._check_running()
        parts = [self._submit(func, (item,), {}) for item in iterable]
        return (part.get() for part in parts)

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check_running()
        parts = [self._submit(func, (item,), {}) for item in iterable]

        def results():
            waiting = list(parts)
            while waiting:
                ready = [p for p in waiting if p.ready()]
                if not ready:
                    with self._core.cond:
                        if not any(p.ready() for p in waiting):
                            self._core.cond.wait()
                    continue
                waiting.remove(ready[-1])
                yield ready[-1].get()
        return results()

    def close(self):
        with self._core.cond:
            self._core.closed = True
            self._core.cond.notify_all()

    def terminate(self):
        _terminate_core(self._core)

    def join(self):
        core = self._core
        if not core.closed and not core.broken:
            raise ValueError("Pool is still running")
        with core.cond:
            while core.pending and not core.broken:
                core.cond.wait()
        for thread in core.threads:
            thread.join()

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *exc):
        self.terminate()


class SimThreadPool(SimPool):
    """multiprocessing.pool.ThreadPool under the simulator."""

    _pickled = False

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


def _terminate_core(core):
    with core.cond:
        core.broken = True
        core.items = []
        core.cond.notify_all()


def _mapstar(func, items):
    return [func(item) for item in items]


def _starmapstar(func, items):
    return [func(*item) for item in items]


def _context_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def _no_process(self, *args, **kwargs):
    raise UnsupportedByHarness("multiprocessing.Process is not simulated")


def install():
    """Replace the pools; must happen before the package is imported."""
    queue.SimpleQueue = queue._PySimpleQueue
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPoolExecutor
    multiprocessing.context.BaseContext.Pool = _context_pool
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.process.BaseProcess.start = _no_process
