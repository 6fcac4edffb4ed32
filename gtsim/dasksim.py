"""Simulated dask schedulers: threads of one process, and a cluster of worker processes.

Both take any dask graph; which task runs where and when, and what goes wrong, is drawn from the run's random stream.
"""
import hashlib
import heapq
import pickle
import sys
import weakref
from collections.abc import Mapping

import cloudpickle
import numpy as np

from gtsim import boot
from gtsim.core import HarnessError
from gtsim.rng import Rng


class SimReadError(OSError):
    """The simulated storage could not deliver."""


class GraphError(Exception):
    """The graph cannot be executed (missing key, cycle)."""


# ---- storage ---------------------------------------------------------------------------------------------------------
class Storage:
    """What the sources of one process do; there is one per process."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.reads = []            # (source, ((y0, y1), (x0, x1)))
        self.fail_next = 0         # transient failures to come
        self.dead = {}             # source -> [row ranges that cannot be read]
        self.down = False          # nothing can be read
        self.fail_on = 0           # the read that fails, counted from 1
        self.failed = 0


STORAGE = Storage()


class Recycler:
    """Gives out the same array object again once nobody has it any more, as an allocator does with its memory."""

    def __init__(self):
        self.held = {}

    def take(self, value, readonly):
        known = self.held.setdefault((value.shape, value.dtype.str), [])
        for arr in known:
            # known, arr and the argument of getrefcount
            if sys.getrefcount(arr) == 3 and not weakref.getweakrefcount(arr):
                arr.flags.writeable = True
                break
        else:
            arr = np.empty(value.shape, value.dtype)
            if len(known) < 8:
                known.append(arr)
        arr[...] = value
        arr.flags.writeable = not readonly
        return arr


MEMORY = Recycler()


class SimSource:
    """Array-like stored data, read chunk by chunk."""

    def __init__(self, name, data, readonly=False, recycle=False):
        self.name, self.data, self.readonly, self.recycle = name, data, readonly, recycle
        self.shape, self.dtype, self.ndim = data.shape, data.dtype, data.ndim

    def __dask_tokenize__(self):
        return ("SimSource", self.name, self.shape, str(self.dtype),
                hashlib.sha256(np.ascontiguousarray(self.data).tobytes()).hexdigest())

    def __getitem__(self, index):
        if not isinstance(index, tuple):
            index = (index,)
        box = tuple(s.indices(n)[:2] for s, n in zip(index, self.shape))
        if 0 not in [b - a for a, b in box]:
            STORAGE.reads.append((self.name, box))
            if STORAGE.down:
                STORAGE.failed += 1
                raise SimReadError(5, "simulated: storage unavailable")
            if STORAGE.fail_on and len(STORAGE.reads) == STORAGE.fail_on:
                STORAGE.failed += 1
                raise SimReadError(5, "simulated: unreadable block")
            if STORAGE.fail_next > 0:
                STORAGE.fail_next -= 1
                STORAGE.failed += 1
                raise SimReadError(11, "simulated: transient read failure")
            for lo, hi in STORAGE.dead.get(self.name, ()):
                if box[0][0] < hi and lo < box[0][1]:
                    STORAGE.failed += 1
                    raise SimReadError(5, "simulated: unreadable rows %d:%d of %s" % (lo, hi, self.name))
        part = self.data[index]
        if self.recycle and type(part) is np.ndarray:
            return MEMORY.take(part, self.readonly)
        if self.readonly:
            part = part.copy()
            part.flags.writeable = False
            return part
        return part.copy()


# ---- graphs ----------------------------------------------------------------------------------------------------------
def materialise(dsk, keys):
    """Return {key: node}, {key: [dependencies]}, culled to what the keys need, in a reproducible order."""
    from dask._task_spec import convert_legacy_graph
    from dask.core import flatten
    if not isinstance(dsk, Mapping):
        dsk = dsk.__dask_graph__()
    dsk = convert_legacy_graph(dict(dsk))
    wanted = list(flatten([keys])) if isinstance(keys, list) else [keys]
    nodes, deps = {}, {}
    stack = [(k, False) for k in reversed(wanted)]
    on_path = set()
    while stack:
        key, seen = stack.pop()
        if seen:
            on_path.discard(key)
            nodes[key] = dsk[key]
            continue
        if key in nodes:
            continue
        if key in on_path:
            raise GraphError("cycle through %r" % (key,))
        if key not in dsk:
            raise GraphError("missing key %r" % (key,))
        on_path.add(key)
        deps[key] = _ordered_dependencies(dsk[key])
        stack.append((key, True))
        for dep in reversed(deps[key]):
            if dep not in nodes:
                stack.append((dep, False))
    return nodes, deps, wanted


def _ordered_dependencies(node):
    """Dependencies in the order in which the task uses them: it is the same whatever the tokens are."""
    from dask._task_spec import Alias, GraphNode, Task, TaskRef
    found, inside = [], set()
    wanted = node.dependencies

    def visit(key, inner):
        if key in inner:
            if key not in inside:
                inside.add(key)
                walk(inner[key], inner)
        elif key in wanted and key not in found:
            found.append(key)

    def walk(obj, inner):
        if isinstance(obj, TaskRef):
            visit(obj.key, inner)
        elif isinstance(obj, Alias):
            visit(obj.target, inner)
        elif isinstance(obj, Task):
            args = obj.args
            if len(args) > 1 and isinstance(args[0], dict) and all(isinstance(v, GraphNode) for v in args[0].values()):
                visit(args[1], args[0])     # a fused piece of graph, from its result backwards
            for a in args:
                walk(a, inner)
            for name in sorted(obj.kwargs or ()):
                walk(obj.kwargs[name], inner)
        elif isinstance(obj, (list, tuple)):
            for a in obj:
                walk(a, inner)
        elif isinstance(obj, dict):
            for name in sorted(obj, key=str):
                walk(obj[name], inner) if not isinstance(obj[name], GraphNode) else None
    walk(node, {})
    return found + sorted((d for d in wanted if d not in found), key=_key_order)


def _key_order(key):
    """Order of keys that does not depend on tokens when it can be avoided."""
    if isinstance(key, tuple):
        return (str(key[0]).rsplit("-", 1)[0], tuple(k if isinstance(k, int) else -1 for k in key[1:]), str(key[0]))
    return (str(key).rsplit("-", 1)[0], (), str(key))


def nest(keys, values):
    if isinstance(keys, list):
        return [nest(k, values) for k in keys]
    return values[keys]


def digest(value):
    """Content hash of whatever tasks exchange."""
    h = hashlib.sha256()
    _feed(h, value)
    return h.hexdigest()


def _feed(h, value):
    if isinstance(value, np.ndarray):
        h.update(str((value.shape, value.dtype)).encode())
        if value.dtype == object:
            h.update(pickle.dumps(value))
        else:
            h.update(np.ascontiguousarray(value).tobytes())
    elif isinstance(value, (tuple, list)):
        h.update(str(len(value)).encode())
        for item in value:
            _feed(h, item)
    elif isinstance(value, SimSource):
        h.update(value.name.encode() + value.data.tobytes())
    else:
        try:
            h.update(cloudpickle.dumps(value))
        except Exception:
            h.update(type(value).__name__.encode())


def _node_constants(node):
    """Arrays that are part of the task itself (fine points, tie points): sharing them is sharing an input."""
    found = []

    def walk(obj, depth=0):
        if depth > 6:
            return
        if isinstance(obj, np.ndarray):
            found.append(obj)
        elif isinstance(obj, (tuple, list)):
            for item in obj:
                walk(item, depth + 1)
        elif isinstance(obj, dict):
            for item in obj.values():
                walk(item, depth + 1)
        else:
            for attr in ("args", "kwargs", "value", "func", "keywords"):
                if hasattr(obj, attr) and not isinstance(obj, type):
                    try:
                        sub = getattr(obj, attr)
                    except Exception:
                        continue
                    if sub is not obj and not callable(sub) or hasattr(sub, "keywords"):
                        walk(sub, depth + 1)
    walk(node)
    return found


# ---- one process, several threads ------------------------------------------------------------------------------------
class ThreadedScheduler:
    """dask's threaded scheduler: tasks of one graph overlap in one process and share memory."""

    def __init__(self, ctx, rng, threads=2, sched=None, check_inputs=True, ticks=None):
        self.ctx, self.rng, self.n, self.sched = ctx, rng, threads, sched or {}
        self.check_inputs = check_inputs
        self.ticks = ticks
        self.calls = 0
        self.mutations = []

    def __call__(self, dsk, keys, **kwargs):
        self.calls += 1
        nodes, deps, wanted = materialise(dsk, keys)
        if boot.simrt.me() >= 0:
            values = self._sequential(nodes, deps, wanted)
        else:
            values = self._parallel(nodes, deps, wanted)
        return nest(keys, values)

    def _sequential(self, nodes, deps, wanted):
        values = _Released(deps, wanted)
        missing = {k: set(d) for k, d in deps.items()}
        ready = [k for k in nodes if not missing[k]]
        users = _users(deps)
        while ready:
            key = ready.pop(int(self.rng.random() * len(ready)))
            values[key] = self._execute(nodes[key], {d: values[d] for d in deps[key]})
            values.done(key)
            for user in users.get(key, ()):
                missing[user].discard(key)
                if not missing[user]:
                    ready.append(user)
        return values

    def _execute(self, node, inputs):
        if not self.check_inputs:
            return node(inputs)
        before = {k: digest(v) for k, v in inputs.items()}
        consts = _node_constants(node)
        cbefore = [digest(c) for c in consts]
        value = node(inputs)
        for k, v in inputs.items():
            if digest(v) != before[k]:
                self.mutations.append(str(k))
        for c, b in zip(consts, cbefore):
            if digest(c) != b:
                self.mutations.append("constant of " + str(getattr(node, "key", "?")))
        return value

    def _parallel(self, nodes, deps, wanted):
        values = _Released(deps, wanted)
        missing = {k: set(d) for k, d in deps.items()}
        users = _users(deps)
        state = {"ready": [k for k in nodes if not missing[k]], "left": len(nodes), "error": None}
        waiting = []
        rt = boot.simrt

        def work():
            while state["left"] and state["error"] is None:
                if not state["ready"]:
                    waiting.append(rt.me())
                    rt.block(-1.0)
                    continue
                key = state["ready"].pop(int(self.rng.random() * len(state["ready"])))
                self.ctx.event("run", _key_order(key)[:2])
                try:
                    value = nodes[key]({d: values[d] for d in deps[key]})
                except BaseException as exc:  # noqa
                    if state["error"] is None:
                        state["error"] = exc
                    value = None
                values[key] = value
                value = None
                values.done(key)
                state["left"] -= 1
                for user in users.get(key, ()):
                    missing[user].discard(key)
                    if not missing[user]:
                        state["ready"].append(user)
                while waiting:
                    rt.unblock(waiting.pop())
        before = None
        if self.check_inputs:
            consts = [c for node in nodes.values() for c in _node_constants(node)]
            before = [(c, digest(c)) for c in consts]
        self.ctx.simulate([work] * self.n, self.sched, ticks=self.ticks)
        if state["error"] is not None:
            raise state["error"]
        if before:
            self.mutations += ["constant"] * sum(digest(c) != b for c, b in before)
        return values


class _Released(dict):
    """Values that are let go when the last task that needs them is done, as dask's own scheduler does."""

    def __init__(self, deps, wanted):
        super().__init__()
        self.deps, self.wanted = deps, set(wanted)
        self.left = {k: len(u) for k, u in _users(deps).items()}

    def done(self, key):
        for d in self.deps[key]:
            self.left[d] -= 1
            if not self.left[d] and d not in self.wanted:
                del self[d]


def _users(deps):
    users = {}
    for key, ds in deps.items():
        for d in ds:
            users.setdefault(d, []).append(key)
    return users


# ---- a cluster -------------------------------------------------------------------------------------------------------
def worker_run(state, key, node_blob, missing_blobs, have, fail_reads, keep=False):
    """Execute one task in a worker process; data received from others is read-only.

    A worker that keeps its tasks executes the same object again when it is asked again.
    """
    store = state.setdefault("store", {})
    for dep, blob, readonly in missing_blobs:
        store[dep] = thaw(blob, readonly)
        if keep and type(store[dep]) is np.ndarray:
            store[dep] = MEMORY.take(store[dep], readonly)
    kept = state.setdefault("nodes", {}) if keep else {}
    if key not in kept:
        kept[key] = pickle.loads(node_blob)
    node = kept[key]
    inputs = {d: store[d] for d in have}
    before = {d: digest(v) for d, v in inputs.items()}
    STORAGE.fail_next = fail_reads
    reads = len(STORAGE.reads)
    value = node(inputs)
    STORAGE.fail_next = 0
    mutated = [str(d) for d, v in inputs.items() if digest(v) != before[d]]
    frozen = freeze(value)
    store[key] = value
    return mutated, len(STORAGE.reads) - reads, digest(value), len(frozen[0])


def worker_get(state, key):
    return freeze(state["store"][key])


def worker_forget(state, key):
    state["store"].pop(key, None)


def freeze(value):
    """Serialise with the buffers apart, as a cluster sends them."""
    buffers = []
    head = cloudpickle.dumps(value, protocol=5, buffer_callback=buffers.append)
    return head, [bytes(b.raw()) for b in buffers]


def thaw(frozen, readonly=True):
    """Deserialise; buffers are immutable unless asked otherwise."""
    head, buffers = frozen
    return pickle.loads(head, buffers=[b if readonly else bytearray(b) for b in buffers])


class LocalProc:
    """A worker that lives in this process."""

    def __init__(self):
        self.state = {}

    def call(self, func, *args):
        return func(self.state, *args)

    def kill(self):
        self.state = {}

    close = kill


class TaskFailed(Exception):
    """A task raised and there are no retries left."""


class ClusterScheduler:
    """A scheduler, several workers and the network between them, as a discrete-event simulation."""

    def __init__(self, ctx, rng, workers=3, slots=2, zygote=None, faults=None, retries=3, readonly=True,
                 keep=False, release=True):
        self.keep, self.release = keep, release
        self.ctx, self.rng, self.n, self.slots, self.zygote = ctx, rng, workers, slots, zygote
        self.f = dict(faults or {})   # rates: crash, lose, dup, spec, read, slow, spill
        self.retries, self.readonly = retries, readonly
        self.now = 0.0
        self.calls = 0
        self.mutations = []
        self.differing = []
        self.unpicklable = None
        self.fault_log = []
        self.executed = 0
        self.reads = 0

    # events
    def _at(self, delay, fn, *args):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + delay, self.seq, fn, args))

    def _latency(self):
        base = 0.001 + self.rng.random() * 0.05
        if self.rng.random() < self.f.get("slow", 0):
            self._fault("delay")
            base += self.rng.random() * 20
        return base

    def _fault(self, kind, *what):
        self.ctx.fault(kind)
        self.fault_log.append((round(self.now, 4), kind) + tuple(str(w) for w in what))

    def _roll(self, kind):
        return self.f.get("budget", 10 ** 9) > 0 and self.rng.random() < self.f.get(kind, 0)

    def _spend(self):
        self.f["budget"] = self.f.get("budget", 10 ** 9) - 1

    def __call__(self, dsk, keys, **kwargs):
        self.calls += 1
        nodes, deps, wanted = materialise(dsk, keys)
        self.nodes, self.deps, self.users = nodes, deps, _users(deps)
        self.index = {k: i for i, k in enumerate(nodes)}
        self.heap, self.seq = [], 0
        self.blobs = {}
        for key, node in nodes.items():
            try:
                self.blobs[key] = cloudpickle.dumps(node)
            except Exception as exc:
                self.unpicklable = (str(key), repr(exc))
                raise
        self.workers = {}
        for w in range(self.n):
            self._start_worker(w)
        self.has = {k: {} for k in nodes}       # key -> {worker: epoch}
        self.proc_on = {k: [] for k in nodes}   # key -> [(worker, epoch)]
        self.tries = {k: 0 for k in nodes}
        self.first = {}
        self.error = None
        self.need = set(wanted)
        self._at(0.0, self._schedule)
        steps = 0
        try:
            while True:
                if self.error is not None:
                    raise self.error
                if all(self._alive_holders(k) for k in wanted):
                    gathered = self._gather(wanted)
                    if gathered is not None:
                        self.ctx.sim_time += self.now
                        return nest(keys, gathered)
                if not self.heap:
                    raise HarnessError("cluster simulation ran dry")
                steps += 1
                if steps > 20000 + 40 * len(nodes):
                    raise HarnessError("cluster simulation does not end: %d tasks, %d done" % (
                        len(nodes), sum(bool(v) for v in self.has.values())))
                when, _, fn, args = heapq.heappop(self.heap)
                self.now = max(self.now, when)
                fn(*args)
        finally:
            for w in self.workers.values():
                w["proc"].close()

    def _start_worker(self, w):
        proc = self.zygote.spawn() if self.zygote is not None else LocalProc()
        epoch = self.workers[w]["epoch"] + 1 if w in self.workers else 0
        self.workers[w] = {"alive": True, "epoch": epoch, "proc": proc, "busy": 0}

    def _alive_holders(self, key):
        return [w for w, e in sorted(self.has[key].items())
                if self.workers[w]["alive"] and self.workers[w]["epoch"] == e]

    def _known_holders(self, key):
        return sorted(self.has[key].items())

    def _schedule(self):
        todo = self._todo()
        free = [w for w, s in sorted(self.workers.items()) if s["alive"] and s["busy"] < self.slots]
        while todo and free:
            key = todo.pop(int(self.rng.random() * len(todo)))
            w = free[int(self.rng.random() * len(free))]
            self._assign(key, w)
            free = [w for w, s in sorted(self.workers.items()) if s["alive"] and s["busy"] < self.slots]

    def _todo(self):
        """Tasks that are needed, not available, not being run, and whose inputs are available."""
        out, seen = [], set()
        stack = sorted(self.need, key=self.index.get)
        while stack:
            key = stack.pop()
            if key in seen or self.has[key]:
                continue
            seen.add(key)
            if self.proc_on[key]:
                continue
            lacking = [d for d in self.deps[key] if not self.has[d]]
            if lacking:
                stack.extend(lacking)
            else:
                out.append(key)
        return sorted(out, key=self.index.get)

    def _assign(self, key, w):
        s = self.workers[w]
        s["busy"] += 1
        self.proc_on[key].append((w, s["epoch"]))
        delay = self._latency()
        if self._roll("lose"):
            self._spend()
            self._fault("message lost", key)
            delay += 5.0          # the connection is found broken and the message sent again
        if self._roll("dup"):
            self._spend()
            self._fault("message duplicated", key)
            self._at(delay + self._latency(), self._arrive, key, w, s["epoch"], True)
        if self._roll("spec"):
            self._spend()
            others = [o for o, t in sorted(self.workers.items()) if o != w and t["alive"]]
            if others:
                o = others[int(self.rng.random() * len(others))]
                self._fault("speculative duplicate", key)
                self.workers[o]["busy"] += 1
                self.proc_on[key].append((o, self.workers[o]["epoch"]))
                self._at(self._latency(), self._arrive, key, o, self.workers[o]["epoch"], False)
        self._at(delay, self._arrive, key, w, s["epoch"], False)

    def _arrive(self, key, w, epoch, extra):
        s = self.workers[w]
        if not s["alive"] or s["epoch"] != epoch:
            return
        if self._roll("crash"):
            self._spend()
            self._crash(w, "before")
            return
        duration = 0.01 + self.rng.random()
        if self.rng.random() < self.f.get("slow", 0):
            self._fault("slow worker", w)
            duration += 30 * self.rng.random()
        self._at(duration, self._finish, key, w, epoch, extra)

    def _finish(self, key, w, epoch, extra):
        s = self.workers[w]
        if not s["alive"] or s["epoch"] != epoch:
            return
        fetched = []
        here = s.setdefault("here", set()) if s.get("here_epoch") == epoch else set()
        s["here"], s["here_epoch"] = here, epoch
        for dep in self.deps[key]:
            if dep in here:
                continue
            holders = self._alive_holders(dep)
            if not holders:
                self._at(self._latency(), self._report, key, w, epoch, "missing", None, extra)
                return
            src = holders[int(self.rng.random() * len(holders))]
            blob = self.workers[src]["proc"].call(worker_get, dep)
            if self.rng.random() < self.f.get("spill", 0):
                self._fault("spilled to disk and back")
                blob = pickle.loads(pickle.dumps(blob))
            fetched.append((dep, blob, self.readonly))
        if self._roll("crash"):
            self._spend()
            self._crash(w, "during")
            return
        fail = 0
        if self.tries[key] < self.retries and self._roll("read"):
            self._spend()
            fail = 1
        self.executed += 1
        self.ctx.event("exec", w, _key_order(key)[:2])
        here.update(dep for dep, _, _ in fetched)
        from gtsim.procs import RemoteError
        try:
            mutated, reads, dig, size = s["proc"].call(worker_run, key, self.blobs[key], fetched, self.deps[key], fail,
                                                       self.keep)
        except RemoteError as exc:
            self._failed(key, w, epoch, exc.name, exc, extra)
            return
        except Exception as exc:
            self._failed(key, w, epoch, type(exc).__name__, exc, extra)
            return
        here.add(key)
        self.reads += reads
        self.mutations += mutated
        if key in self.first:
            self.ctx.probe("task executed more than once")
            if self.first[key][0] != dig:
                again = thaw(s["proc"].call(worker_get, key))
                if not close_enough(thaw(self.first[key][1]), again):
                    self.differing.append(str(key))
        else:
            self.first[key] = (dig, s["proc"].call(worker_get, key) if size < 50_000_000 else None)
        if self._roll("crash"):
            self._spend()
            self._crash(w, "after")
            return
        delay = self._latency()
        if self._roll("lose"):
            self._spend()
            self._fault("report lost", key)
            delay += 5.0
        self._at(delay, self._report, key, w, epoch, "done", None, extra)

    def _failed(self, key, w, epoch, name, exc, extra):
        if name == "SimReadError":
            self._fault("read failure", key)
        self._at(self._latency(), self._report, key, w, epoch, "error", (name, exc), extra)

    def _report(self, key, w, epoch, what, info, extra):
        s = self.workers[w]
        if not extra and (w, epoch) in self.proc_on[key]:
            self.proc_on[key].remove((w, epoch))
            if s["alive"] and s["epoch"] == epoch:
                s["busy"] -= 1
        if not s["alive"] or s["epoch"] != epoch:
            pass
        elif what == "done" and key not in s["here"]:
            self.ctx.probe("report of a result that was released meanwhile")
        elif what == "done":
            self.has[key][w] = epoch
            if self.release:
                self._release(key)
        elif what == "error":
            name, exc = info
            if name == "SimReadError" and self.tries[key] < self.retries:
                self.tries[key] += 1
                self.ctx.probe("task retried")
            elif not self.has[key]:
                self.error = exc
        self._at(0.0, self._schedule)

    def _release(self, key):
        """Let go what only this task was waiting for."""
        for dep in self.deps[key]:
            if dep in self.need or not all(self.has[u] for u in self.users[dep]):
                continue
            self.has[dep].clear()
            self.ctx.probe("result released")
            for s in self.workers.values():
                if s["alive"] and s.get("here_epoch") == s["epoch"] and dep in s.get("here", ()):
                    s["here"].discard(dep)
                    s["proc"].call(worker_forget, dep)

    def _crash(self, w, when):
        self._fault("worker crash " + when, w)
        s = self.workers[w]
        s["proc"].kill()
        s["alive"] = False
        self._at(0.5 + self.rng.random() * 5, self._detect, w, s["epoch"])

    def _detect(self, w, epoch):
        for key in self.nodes:
            if self.has[key].get(w) == epoch:
                del self.has[key][w]
                self.ctx.probe("result lost with its worker")
            if (w, epoch) in self.proc_on[key]:
                self.proc_on[key].remove((w, epoch))
        self._at(0.1 + self.rng.random(), self._restart, w)
        self._at(0.0, self._schedule)

    def _restart(self, w):
        self._start_worker(w)
        self.ctx.probe("worker restarted")
        self._at(0.0, self._schedule)

    def _gather(self, wanted):
        out = {}
        for key in wanted:
            holders = self._alive_holders(key)
            src = holders[int(self.rng.random() * len(holders))]
            out[key] = thaw(self.workers[src]["proc"].call(worker_get, key), self.readonly)
        if self._roll("crash"):
            self._spend()
            self._crash(self._alive_holders(wanted[0])[0], "while gathering")
            return None
        return out


def close_enough(a, b):
    """The same value up to rounding."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in "fc":
            return bool(np.array_equal(a, b))
        scale = np.nanmax(np.abs(a)) if a.size and np.isfinite(a).any() else 1.0
        tol = 1e-4 if a.dtype.itemsize == 4 else 1e-8
        return bool(np.allclose(a, b, rtol=tol, atol=tol * scale, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close_enough(x, y) for x, y in zip(a, b))
    return digest(a) == digest(b)


def make_scheduler(ctx, spec, zygote=None):
    """Build a scheduler from its description in a scenario."""
    rng = Rng(spec["seed"])
    if spec["kind"] == "threads":
        return ThreadedScheduler(ctx, rng, spec.get("n", 2), spec.get("sched"), ticks=spec.get("ticks"))
    return ClusterScheduler(ctx, rng, spec.get("n", 3), spec.get("slots", 2),
                            zygote if spec.get("procs") else None, spec.get("faults"), spec.get("retries", 3),
                            spec.get("readonly", True), release=spec.get("release", True))


def gen_scheduler(rng, faults=False, procs=False, threads_p=0.5, native=True):
    """Describe a scheduler."""
    seed = rng.getrandbits(62)
    if rng.chance(threads_p):
        return {"kind": "threads", "seed": seed, "n": rng.pick([1, 2, 2, 3, 4]), "sched": gen_sched(rng, native)}
    spec = {"kind": "cluster", "seed": seed, "n": rng.pick([1, 2, 3, 4]), "slots": rng.pick([1, 2, 4]),
            "procs": procs, "retries": 3, "readonly": rng.chance(0.9), "faults": {}}
    if faults:
        kinds = {"crash": 0.06, "lose": 0.08, "dup": 0.1, "spec": 0.1, "read": 0.1, "slow": 0.1, "spill": 0.3}
        on = {k: round(v * (0.3 + 1.7 * rng.random()), 4) for k, v in kinds.items() if rng.chance(0.55)}
        on["budget"] = rng.pick([1, 2, 3, 5, 8])
        spec["faults"] = on
    return spec


def gen_sched(rng, native=True):
    """Describe how a simulated thread schedule is drawn."""
    if native:
        return {"seed": rng.getrandbits(62), "max_log2": rng.pick([6, 10, 14, 17, 20, 22]),
                "min_log2": rng.pick([0, 0, 4, 8])}
    return {"seed": rng.getrandbits(62), "max_log2": rng.pick([1, 2, 3, 5, 8]), "min_log2": 0}


def check_observations(sched):
    """Raise what a scheduler noticed while executing."""
    from gtsim.core import Violation
    if getattr(sched, "mutations", None):
        raise Violation("task modified its input", str(sched.mutations[0])[:300])
    if getattr(sched, "differing", None):
        raise Violation("executing a task again gives something else", str(sched.differing[0])[:300])
