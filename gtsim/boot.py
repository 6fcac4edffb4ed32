"""Put every source of nondeterminism behind a seam, then load the instrumented package.

Must be imported before numpy, scipy, dask, xarray and geotiepoints: locks, threads, clocks, sleeping, uuids and process
pools are replaced by stand-ins that behave like the real thing until a simulation is running.
"""
import _thread
import builtins
import importlib
import os
import random
import sys
import threading
import time
import uuid

real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep
simrt = None
BUILD_DIR = None
SIM_CLOCK = False          # True in simulated processes: the clock is simulated time
CLOCK_BASE = 1_600_000_000.0
_uuid_rng = random.Random(0)


def set_identity(seed, clock_base=1_600_000_000.0):
    """Seed everything a process could draw randomness from, and start its simulated clock."""
    global SIM_CLOCK, CLOCK_BASE
    SIM_CLOCK = True
    CLOCK_BASE = clock_base
    _uuid_rng.seed(seed)
    random.seed(seed)
    if "numpy" in sys.modules:
        sys.modules["numpy"].random.seed(seed & 0xFFFFFFFF)


def set_memory(seed):
    """From here on new arrays contain what the seed says until they are written."""
    simrt.alloc_install()
    simrt.alloc_set((256, 256, 255, 0x41, 0)[seed % 5], seed | 1, 0, 0, 0)


# ---- locks -----------------------------------------------------------------------------------------------------------
class SimLock:
    """A lock that lets the simulator run somebody else instead of blocking."""

    __slots__ = ("_lock", "_waiters", "__weakref__")

    def __init__(self):
        self._lock = _thread.allocate_lock()
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if self._lock.acquire(False):
            return True
        if not blocking:
            return False
        me = simrt.me() if simrt is not None else -1
        if me < 0:
            return self._lock.acquire(True, timeout)
        deadline = -1.0 if timeout is None or timeout < 0 else simrt.now() + timeout
        while True:
            self._waiters.append(me)
            woken = simrt.block(deadline)
            if me in self._waiters:
                self._waiters.remove(me)
            if self._lock.acquire(False):
                return True
            if not woken:
                return False

    def release(self):
        self._lock.release()
        if self._waiters:
            waiting, self._waiters = self._waiters, []
            for who in waiting:
                simrt.unblock(who)

    def locked(self):
        return self._lock.locked()

    def _at_fork_reinit(self):
        self._lock = _thread.allocate_lock()
        self._waiters = []

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class SimRLock:
    """Reentrant variant of SimLock."""

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        got = self._block.acquire(blocking, timeout)
        if got:
            self._owner = me
            self._count = 1
        return got

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


# ---- threads started by the code under test --------------------------------------------------------------------------
_real_start = threading.Thread.start
_real_join = threading.Thread.join
threads_started = 0


def _start(self):
    global threads_started
    if simrt is None or simrt.me() < 0:
        return _real_start(self)
    if not self._initialized or self._started.is_set():
        raise RuntimeError("threads can only be started once")
    threads_started += 1
    idx = simrt.new_thread()
    self._sim_waiters = []
    self._sim_done = False
    with threading._active_limbo_lock:
        threading._limbo[self] = self

    def body():
        simrt.enter(idx)
        try:
            self._bootstrap()
        finally:
            self._sim_done = True
            for who in self._sim_waiters:
                simrt.unblock(who)
            simrt.leave()

    _thread.start_new_thread(body, ())
    self._started.wait()


def _join(self, timeout=None):
    if simrt is None or simrt.me() < 0 or not hasattr(self, "_sim_done"):
        return _real_join(self, timeout)
    deadline = -1.0 if timeout is None else simrt.now() + max(timeout, 0)
    while not self._sim_done:
        self._sim_waiters.append(simrt.me())
        if not simrt.block(deadline):
            return None
    return _real_join(self)


# ---- clocks ----------------------------------------------------------------------------------------------------------
def _sim_or(real, offset):
    def clock():
        if SIM_CLOCK:
            return (CLOCK_BASE if offset else 1000.0) + simrt.now()
        return real()
    return clock


def _sleep(seconds):
    if not SIM_CLOCK:
        return real_sleep(seconds)
    if simrt.me() >= 0:
        simrt.block(simrt.now() + max(float(seconds), 0.0))
    else:
        simrt.advance(max(float(seconds), 0.0))


def _uuid4():
    if SIM_CLOCK:
        return uuid.UUID(int=_uuid_rng.getrandbits(128), version=4)
    return _real_uuid4()


_real_uuid4 = uuid.uuid4


def _find_and_load(name, import_):
    """Import a module for the first time, without being preempted: the locks of the import system are real ones."""
    if simrt is None or simrt.me() < 0:
        return _real_find_and_load(name, import_)
    simrt.hold(1)
    try:
        return _real_find_and_load(name, import_)
    finally:
        simrt.hold(-1)


_real_find_and_load = importlib._bootstrap._find_and_load


def install_seams():
    importlib._bootstrap._find_and_load = _find_and_load
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading.Thread.start = _start
    threading.Thread.join = _join
    time.time = _sim_or(real_time, True)
    time.monotonic = _sim_or(real_monotonic, False)
    time.perf_counter = _sim_or(time.perf_counter, False)
    time.sleep = _sleep
    uuid.uuid4 = _uuid4


def load(build_dir):
    """Install the seams and import the runtime, the libraries and the instrumented package."""
    global simrt, BUILD_DIR
    assert "numpy" not in sys.modules and "geotiepoints" not in sys.modules
    BUILD_DIR = build_dir
    for var in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[var] = "1"
    install_seams()
    sys.path.insert(0, build_dir)
    flags = sys.getdlopenflags()
    sys.setdlopenflags(os.RTLD_GLOBAL | os.RTLD_NOW)
    import simrt as runtime
    sys.setdlopenflags(flags)
    simrt = runtime
    from gtsim import pools
    pools.install()
    import warnings
    warnings.simplefilter("ignore")
    _warm_libraries()
    import geotiepoints
    import geotiepoints.basic_interpolator
    import geotiepoints.geointerpolator
    import geotiepoints.interpolator
    import geotiepoints.modisinterpolator
    import geotiepoints.multilinear
    import geotiepoints.simple_modis_interpolator
    import geotiepoints.viiinterpolator  # noqa: F401
    if not geotiepoints.__file__.startswith(build_dir):
        raise ImportError("not the instrumented package: " + geotiepoints.__file__)
    _configure_events()


def _warm_libraries():
    """Trigger the libraries' lazy imports, without touching the package under test."""
    import cloudpickle  # noqa: F401
    import dask.array as da
    import numpy as np
    import pandas  # noqa: F401
    import scipy.interpolate
    import scipy.ndimage
    import xarray as xr
    import dask
    arr = xr.DataArray(da.ones((4, 4), chunks=2), dims=("y", "x"), coords={"y": np.arange(4), "x": np.arange(4)})
    dask.config.set(scheduler="synchronous")     # never threads that are not simulated
    arr.interp(y=[0, 0.5], assume_sorted=True).interp(x=[0.5], assume_sorted=True).compute()
    da.map_blocks(np.add, da.ones(3, chunks=1), 1, dtype=float).compute()
    np.max(np.fabs(arr)) > 0.5
    arr.load().interp(y=[0.5], assume_sorted=True)
    scipy.ndimage.map_coordinates(np.ones((3, 3)), np.ones((2, 1, 1)), order=1)
    scipy.interpolate.RectBivariateSpline([0, 1], [0, 1], np.ones((2, 2)), kx=1, ky=1)([0], [0])
    scipy.interpolate.RegularGridInterpolator(([0, 1], [0, 1]), np.ones((2, 2)))((0, 0))
    scipy.interpolate.splev([0], scipy.interpolate.splrep([0, 1, 2, 3], [0, 1, 2, 3]))
    from dask.base import tokenize
    tokenize(np.ones(3), {"a": 1}, int, (np.arange(3),))
    import numpy.ma.mrecords  # noqa: F401
    import pyresample.geometry  # noqa: F401
    import xarray.namedarray._array_api  # noqa: F401


TOOL = 3


def _configure_events():
    import dask
    import numpy
    import scipy
    import xarray
    place = {m.__name__: os.path.dirname(m.__file__) for m in (numpy, scipy, dask, xarray)}
    # 1: the package; 2: libraries; 3: libraries in which no allocation fails
    prefixes = [(os.path.join(BUILD_DIR, "geotiepoints"), 1), (os.path.join(place["dask"], "_task_spec"), 2)]
    prefixes += [(p, 3 if name in ("scipy", "dask") else 2) for name, p in sorted(place.items())]
    mon = sys.monitoring
    simrt.configure(prefixes, mon.DISABLE)
    mon.use_tool_id(TOOL, "gtsim")
    mon.register_callback(TOOL, mon.events.LINE, simrt.ev_line)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, simrt.ev_instr)
    mon.register_callback(TOOL, mon.events.PY_START, simrt.ev_start)


LINE, INSTR, LIBCALL, LIBLINE, DIRECT = 1, 2, 4, 8, 16


def events(tick=0, count=0, at=0, exc=None):
    """Choose which Python events are ticks, which are counted, and at which one an exception is raised."""
    mon = sys.monitoring
    want = 0
    mask = tick | count
    if mask & (LINE | LIBLINE):
        want |= mon.events.LINE
    if mask & INSTR:
        want |= mon.events.INSTRUCTION
    if mask & (LIBCALL | DIRECT):
        want |= mon.events.PY_START
    simrt.events(tick, count, at, exc)
    mon.set_events(TOOL, want)
    mon.restart_events()


builtins.__gtsim__ = True
