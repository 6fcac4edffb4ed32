"""What a process has that does not belong to any one call: settings, random streams, files, threads, other people's code."""
import ctypes
import decimal
import gc
import hashlib
import locale
import logging
import multiprocessing
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import time
import warnings

_libc = ctypes.CDLL(None)
_libm = ctypes.CDLL("libm.so.6")
TINY = float("5e-324")
SIGNALS = [s for s in signal.Signals if s not in (signal.SIGKILL, signal.SIGSTOP)]
LIMITS = [getattr(resource, n) for n in dir(resource) if n.startswith("RLIMIT_")]
LOGGERS = ("", "geotiepoints", "numpy", "dask", "xarray", "scipy", "py.warnings")
MODULES = ("builtins", "os", "os.path", "sys", "time", "math", "warnings", "random", "threading", "multiprocessing", "concurrent.futures",
           "pickle", "functools", "itertools", "operator", "logging", "signal", "gc", "tempfile", "copy", "json", "datetime", "socket",
           "numpy", "numpy.linalg", "numpy.random", "numpy.ma", "scipy.interpolate", "scipy.ndimage", "dask", "dask.array",
           "dask.base", "dask.config", "dask.threaded", "dask.local", "dask.blockwise", "dask.array.core", "xarray", "pandas", "cloudpickle")
CLASSES = (("xarray", "DataArray"), ("xarray", "Dataset"), ("dask.array", "Array"), ("scipy.interpolate", "RegularGridInterpolator"),
           ("scipy.interpolate", "RectBivariateSpline"), ("numpy.ma", "MaskedArray"), ("pandas", "Index"))


def _hash(value):
    return hashlib.sha256(repr(value).encode()).hexdigest()


def _copy(config):
    if isinstance(config, dict):
        return {k: _copy(v) for k, v in config.items()}
    return list(config) if isinstance(config, list) else config


def of_thread():
    """Settings that each thread has of its own."""
    import numpy as np
    one = float("1")
    return {"numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(), "numpy buffer size": np.getbufsize(),
            "numpy print options": repr(np.get_printoptions()), "rounding of floating-point numbers": _libm.fegetround(),
            "denormal numbers": TINY * one != 0.0, "decimal context": repr(decimal.getcontext()),
            "trace function": sys.gettrace(), "profile function": sys.getprofile(),
            "memory handler of numpy": np._core.multiarray.get_handler_name(),
            "blocked signals": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))}


def of_process(scratch):
    """Everything else."""
    import dask
    import numpy as np
    import pandas
    import xarray as xr
    umask = os.umask(0o77)
    os.umask(umask)
    filters = [(a, getattr(m, "pattern", m), c, getattr(mod, "pattern", mod), n) for a, m, c, mod, n in warnings.filters]
    out = {"warning filters": filters, "warning output": (warnings.showwarning, warnings.formatwarning),
           "random numbers of Python": _hash(random.getstate()),
           "random numbers of numpy": _hash([(a, a.tobytes()) if hasattr(a, "tobytes") else a for a in np.random.get_state()]),
           "environment variables": dict(os.environ), "working directory": os.getcwd(), "umask": umask,
           "signal handlers": [signal.getsignal(s) for s in SIGNALS], "timers": [signal.getitimer(t)[1] for t in (0, 1, 2)],
           "dask configuration": _copy(dask.config.config), "xarray options": dict(xr.get_options()),
           "pandas options": _hash(pandas._config.config._global_config),
           "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "import path": list(sys.path),
           "import hooks": [id(f) for f in sys.meta_path + sys.path_hooks], "dlopen flags": sys.getdlopenflags(),
           "standard streams": (sys.stdin, sys.stdout, sys.stderr),
           "exception hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook),
           "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
           "locale": locale.setlocale(locale.LC_ALL), "time zone": time.tzname,
           "resource limits": [resource.getrlimit(r) for r in LIMITS], "processors": os.sched_getaffinity(0),
           "priority": os.getpriority(os.PRIO_PROCESS, 0), "directory of temporary files": tempfile.tempdir,
           "start method of processes": multiprocessing.get_start_method(allow_none=True),
           "stack size of threads": threading.stack_size(),
           "logging": [(logging.getLogger(n).level, list(logging.getLogger(n).handlers), logging.getLogger(n).propagate,
                        logging.getLogger(n).disabled, list(logging.getLogger(n).filters)) for n in LOGGERS]
           + [logging.Logger.manager.disable, logging.raiseExceptions, logging.getLogRecordFactory(), logging.getLoggerClass()],
           "open files": sorted(_links()), "files": sorted(_files(scratch))}
    return out


def _links():
    for fd in os.listdir("/proc/self/fd"):
        try:
            yield fd, os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass          # the directory being listed


def _files(scratch):
    for where, dirs, names in os.walk(scratch):
        for name in dirs + names:
            yield os.path.relpath(os.path.join(where, name), scratch)


def code():
    """The functions and classes of other people's modules."""
    out = {}
    for name in MODULES:
        for key, value in list(vars(sys.modules[name]).items()):
            if callable(value):
                out[name, key] = value
    for module, klass in CLASSES:
        for key, value in list(vars(getattr(sys.modules[module], klass)).items()):
            if callable(value) or isinstance(value, (property, classmethod, staticmethod)):
                out[module, klass, key] = value
    return out


def difference(before, after):
    """None, or what is not as it was."""
    for key, was in before.items():
        now = after[key]
        if now != was and not (was is now):
            if isinstance(was, dict):
                keys = [k for k in sorted(set(was) | set(now), key=str) if was.get(k, "-") != now.get(k, "-")]
                return key, "%s: %s instead of %s" % (keys[0], now.get(keys[0], "nothing"), was.get(keys[0], "nothing"))
            if isinstance(was, list) and isinstance(now, list):
                new, gone = [v for v in now if v not in was], [v for v in was if v not in now]
                return key, "new %s, gone %s" % (new[:2], gone[:2]) if new or gone else "in another order or number"
            return key, "%s instead of %s" % (str(now)[:200], str(was)[:200])
    return None


def replaced(before):
    """None, or whose code is not what it was."""
    now = code()
    for key, was in before.items():
        if now.get(key) is not was:
            return ".".join(key)
    return None
