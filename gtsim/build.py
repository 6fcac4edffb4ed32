"""Build an instrumented copy of /repo's geotiepoints and the simulator runtime, keyed on content.

The compiled modules are the repository's own sources, translated by Cython with the directives of setup.py and compiled
with -fsanitize-coverage=trace-pc, so that every basic block is a possible preemption point for the simulator.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GTSIM_REPO", "/repo")
BUILD = os.environ.get("GTSIM_BUILD", os.path.join(VERIF, "build"))
CFLAGS = ["-O1", "-g0", "-fPIC", "-shared", "-fwrapv", "-w"]
COVERAGE = ["-fsanitize-coverage=trace-pc"]
CYTHON = ["-3", "-X", "freethreading_compatible=True"]
KEEP = 6


class BuildError(Exception):
    """The tree does not build: no verdict on any property."""


def _sources():
    root = os.path.join(REPO, "geotiepoints")
    found = []
    for dirpath, dirnames, filenames in os.walk(root):
        dirnames[:] = sorted(d for d in dirnames if d not in ("tests", "__pycache__"))
        for name in sorted(filenames):
            if name.endswith((".py", ".pyx", ".pxd", ".pxi", ".h")):
                found.append(os.path.join(dirpath, name))
    return root, found


def tree_hash():
    """Hash everything the build depends on."""
    from importlib.metadata import version
    root, files = _sources()
    digest = hashlib.sha256()
    for path in files + [os.path.join(HERE, "simrt.c"), os.path.abspath(__file__)]:
        with open(path, "rb") as stream:
            digest.update(os.path.relpath(path, root).encode() + b"\0" + stream.read() + b"\0")
    digest.update(repr((version("numpy"), version("cython"), sys.version)).encode())
    return digest.hexdigest()[:20]


def _run(cmd, cwd):
    res = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + res.stdout[-4000:])


def _compile(stage, pyx, inc, suffix):
    cfile = pyx[:-4] + ".c"
    _run([sys.executable, "-m", "cython", *CYTHON, pyx, "-o", cfile], stage)
    _run(["gcc", *CFLAGS, *COVERAGE, "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", *inc, cfile,
          "-o", pyx[:-4] + suffix, "-lm"], stage)
    os.unlink(os.path.join(stage, cfile))


def ensure():
    """Return the directory with the instrumented package, building it if necessary."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, tree_hash())
    done = os.path.join(target, "DONE")
    if os.path.exists(done):
        os.utime(done)
        return target
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return target
        stage = target + ".stage"
        shutil.rmtree(stage, ignore_errors=True)
        root, files = _sources()
        for path in files:
            dest = os.path.join(stage, "geotiepoints", os.path.relpath(path, root))
            os.makedirs(os.path.dirname(dest), exist_ok=True)
            shutil.copyfile(path, dest)
        include = subprocess.run([sys.executable, "-c", "import numpy; print(numpy.get_include())"], check=True,
                                 stdout=subprocess.PIPE, text=True).stdout.strip()
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + include]
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        pyxs = sorted(os.path.relpath(p, stage) for p in glob.glob(os.path.join(stage, "**/*.pyx"), recursive=True))
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            jobs = [pool.submit(_compile, stage, p, inc, suffix) for p in pyxs]
            jobs.append(pool.submit(_run, ["gcc", *CFLAGS, *inc, os.path.join(HERE, "simrt.c"),
                                           "-o", os.path.join(stage, "simrt.so")], stage))
            for job in jobs:
                job.result()
        with open(os.path.join(stage, "DONE"), "w") as stream:
            stream.write(time.strftime("%F %T\n"))
        shutil.rmtree(target, ignore_errors=True)
        os.rename(stage, target)
        _prune(target)
    return target


def _prune(keep):
    dirs = [d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.exists(os.path.join(d, "DONE")) and d != keep]
    dirs.sort(key=lambda d: os.path.getmtime(os.path.join(d, "DONE")), reverse=True)
    for old in dirs[KEEP:]:
        shutil.rmtree(old, ignore_errors=True)


if __name__ == "__main__":
    print(ensure())
