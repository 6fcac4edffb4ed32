/* Runtime of the simulator: the baton scheduler for threads, the event counter used to place interrupts, and the
 * array allocator used to poison and to fail allocations.
 *
 * Exactly one simulated thread runs at any time.  It gives up the baton only here: when its budget of ticks is used up
 * (a tick is a basic block of the instrumented compiled code, or a line / instruction of monitored Python code), when
 * it blocks on a simulated lock or timer, or when it ends.  Who runs next and for how long is drawn from one splitmix64
 * stream, or read from a recorded plan.
 */
#define PY_SSIZE_T_CLEAN
#define _GNU_SOURCE
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <alloca.h>
#include <unistd.h>

#define MAXT 64
#define FOREVER ((int64_t)1 << 62)
enum { UNUSED = 0, RUNNABLE, BLOCKED, DONE };

typedef struct {
    sem_t sem;
    int state;
    double deadline; /* < 0: none */
    int timed_out;
} simthread;

static simthread T[MAXT];
static int n_threads = 0, n_alive = 0, cur = -1, active = 0;
static sem_t main_sem;
static __thread int my_idx = -1;

static volatile int64_t left_ = FOREVER;  /* ticks left in this slice */
static int64_t slice_budget = 0;
static uint64_t total_ticks = 0;
static uint64_t cap_ticks = 0, cap_py = 0, py_ticks = 0;
static double cap_time = 0;
static int64_t rest_ = 0;
#define PIECE 100000000LL
static int over_cap = 0, deadlock = 0, diverged = 0;
static double now_ = 0.0;
static uint64_t n_switch = 0, n_native_switch = 0, n_py_switch = 0, n_deferred = 0;
static uint64_t order_hash = 0;

static uint64_t rng_state = 0;
static int max_log2 = 12, min_log2 = 0;
static int plan_mode = 0;
static int32_t *plan_t = NULL; static int64_t *plan_b = NULL; static Py_ssize_t plan_n = 0, plan_i = 0;
static int32_t *log_t = NULL; static int64_t *log_b = NULL; static Py_ssize_t log_n = 0, log_cap = 0;
static Py_ssize_t max_slices = 400000;

static uint64_t next_u64(void) {
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static void log_slice(int t, int64_t b) {
    if (log_n == log_cap) {
        log_cap = log_cap ? 2 * log_cap : 4096;
        log_t = realloc(log_t, log_cap * sizeof *log_t);
        log_b = realloc(log_b, log_cap * sizeof *log_b);
    }
    log_t[log_n] = t; log_b[log_n] = b; log_n++;
    order_hash = (order_hash ^ (uint64_t)(t + 1)) * 0x100000001B3ULL;
}

/* account the ticks used so far in the current slice */
static void settle(void) {
    int64_t used = slice_budget - left_;
    if (used > 0) total_ticks += (uint64_t)used;
    slice_budget = left_;
}
static int capped(void) {
    return (cap_ticks && total_ticks > cap_ticks) || (cap_py && py_ticks > cap_py) || (cap_time > 0 && now_ > cap_time);
}
/* long slices are handed out in pieces, so that runs without end are noticed */
static void grant(int64_t b) {
    int64_t c = b < PIECE ? b : PIECE;
    rest_ = b - c; slice_budget = left_ = c;
}

/* choose the next thread; returns -1 when nobody can run */
static int choose(int prev) {
    int run[MAXT], n = 0, i;
    for (i = 0; i < n_threads; i++) if (T[i].state == RUNNABLE) run[n++] = i;
    if (n == 0) {
        int best = -1;
        for (i = 0; i < n_threads; i++)
            if (T[i].state == BLOCKED && T[i].deadline >= 0 && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
        if (best < 0) return -1;
        if (T[best].deadline > now_) now_ = T[best].deadline;
        T[best].timed_out = 1;
        T[best].state = RUNNABLE;
        run[n++] = best;
    }
    int t; int64_t b;
    if (plan_mode) {
        if (plan_i < plan_n) {
            t = plan_t[plan_i]; b = plan_b[plan_i]; plan_i++;
            if (t < 0 || t >= n_threads || T[t].state != RUNNABLE) { diverged++; t = run[0]; }
            if (b <= 0) b = FOREVER;
        } else {
            t = (prev >= 0 && T[prev].state == RUNNABLE) ? prev : run[0];
            b = FOREVER;
        }
    } else if (log_n >= max_slices) {
        t = (prev >= 0 && T[prev].state == RUNNABLE) ? prev : run[0];
        b = FOREVER;
    } else {
        t = run[next_u64() % (uint64_t)n];
        int e = min_log2 + (int)(next_u64() % (uint64_t)(max_log2 - min_log2 + 1));
        b = ((int64_t)1 << e) + (int64_t)(next_u64() % ((uint64_t)1 << e));
    }
    log_slice(t, b == FOREVER ? 0 : b);
    grant(b);
    return t;
}

static void fatal_stop(void) {
    /* park this thread for ever and wake the controller */
    sem_post(&main_sem);
    for (;;) { sem_t s; sem_init(&s, 0, 0); sem_wait(&s); }
}

static void wait_sem(sem_t *s) { while (sem_wait(s) != 0) {} }

/* called by the running thread, without the GIL */
static void hand_over(int from, int self_continues) {
    settle();
    if (capped()) { over_cap = 1; fatal_stop(); }
    int t = choose(from);
    if (t < 0) {
        if (n_alive == 0) { active = 0; left_ = FOREVER; sem_post(&main_sem); return; }
        deadlock = 1;
        fatal_stop();
    }
    if (t == from && self_continues) { cur = t; return; }
    n_switch++;
    cur = t;
    sem_post(&T[t].sem);
    if (self_continues) wait_sem(&T[from].sem);
}

__attribute__((noinline)) static void native_slow(void) {
    if (!active || my_idx < 0 || my_idx != cur) { left_ = FOREVER; slice_budget = FOREVER; rest_ = 0; return; }
    if (PyGILState_Check()) {  /* compiled code that holds the GIL cannot be preempted */
        settle(); n_deferred++;
        if (capped()) _exit(86);
        if (rest_ > 0) grant(rest_); else slice_budget = left_ = 1;
        return;
    }
    if (rest_ > 0) {
        settle();
        if (capped()) { over_cap = 1; fatal_stop(); }
        grant(rest_);
        return;
    }
    n_native_switch++;
    hand_over(my_idx, 1);
}

void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void) {
    if (--left_ <= 0) native_slow();
}

/* nobody is preempted half-way through an import: the import locks are not simulated */
static int hold_ = 0;
static PyObject *rt_hold(PyObject *self, PyObject *arg) {
    long d = PyLong_AsLong(arg);
    if (d == -1 && PyErr_Occurred()) return NULL;
    if (active && my_idx >= 0) hold_ += (int)d;
    Py_RETURN_NONE;
}

static void py_tick(int force) {
    if (!active || my_idx < 0 || my_idx != cur) return;
    py_ticks++;
    if (!force && --left_ > 0 && !(cap_py && py_ticks > cap_py)) return;
    if (!force && rest_ > 0 && left_ <= 0) { settle(); if (!capped()) { grant(rest_); return; } }
    if (!force && hold_ > 0) { settle(); if (!capped()) { slice_budget = left_ = 1; return; } }
    n_py_switch++;
    int me = my_idx;
    Py_BEGIN_ALLOW_THREADS
    hand_over(me, 1);
    Py_END_ALLOW_THREADS
}

/* ---- thread API ---------------------------------------------------------------------------------------------- */
static PyObject *rt_reset(PyObject *self, PyObject *args, PyObject *kw) {
    static char *kwl[] = {"seed", "max_log2", "min_log2", "cap_ticks", "plan", "max_slices", "cap_py", "cap_time", NULL};
    unsigned long long seed = 0, cap = 0, cpy = 0; double ct = 0; PyObject *plan = Py_None; int ml = 12, mi = 0; Py_ssize_t ms = 400000;
    if (!PyArg_ParseTupleAndKeywords(args, kw, "K|iiKOnKd", kwl, &seed, &ml, &mi, &cap, &plan, &ms, &cpy, &ct)) return NULL;
    if (active) { PyErr_SetString(PyExc_RuntimeError, "simulation is active"); return NULL; }
    rng_state = seed; max_log2 = ml; min_log2 = mi; if (max_log2 < min_log2) max_log2 = min_log2;
    cap_ticks = cap; max_slices = ms; cap_py = cpy; cap_time = ct; py_ticks = 0; rest_ = 0;
    n_threads = n_alive = 0; cur = -1; left_ = FOREVER; slice_budget = FOREVER; hold_ = 0;
    total_ticks = 0; over_cap = deadlock = diverged = 0; now_ = 0.0;
    n_switch = n_native_switch = n_py_switch = n_deferred = 0; order_hash = 0xcbf29ce484222325ULL;
    log_n = 0; plan_mode = 0; plan_i = plan_n = 0;
    if (plan != Py_None) {
        PyObject *seq = PySequence_Fast(plan, "plan"); if (!seq) return NULL;
        plan_n = PySequence_Fast_GET_SIZE(seq);
        plan_t = realloc(plan_t, (plan_n + 1) * sizeof *plan_t);
        plan_b = realloc(plan_b, (plan_n + 1) * sizeof *plan_b);
        for (Py_ssize_t i = 0; i < plan_n; i++) {
            PyObject *it = PySequence_Fast_GET_ITEM(seq, i);
            PyObject *a = PySequence_GetItem(it, 0), *b = PySequence_GetItem(it, 1);
            plan_t[i] = (int32_t)PyLong_AsLong(a); plan_b[i] = PyLong_AsLongLong(b);
            Py_XDECREF(a); Py_XDECREF(b);
        }
        Py_DECREF(seq);
        if (PyErr_Occurred()) return NULL;
        plan_mode = 1;
    }
    sem_init(&main_sem, 0, 0);
    Py_RETURN_NONE;
}

static PyObject *rt_new_thread(PyObject *self, PyObject *noargs) {
    if (n_threads >= MAXT) { PyErr_SetString(PyExc_RuntimeError, "too many simulated threads"); return NULL; }
    int i = n_threads++;
    sem_init(&T[i].sem, 0, 0);
    T[i].state = RUNNABLE; T[i].deadline = -1; T[i].timed_out = 0;
    n_alive++;
    return PyLong_FromLong(i);
}

static PyObject *rt_enter(PyObject *self, PyObject *arg) {
    long i = PyLong_AsLong(arg); if (PyErr_Occurred()) return NULL;
    Py_BEGIN_ALLOW_THREADS
    wait_sem(&T[i].sem);
    Py_END_ALLOW_THREADS
    my_idx = (int)i;
    Py_RETURN_NONE;
}

static PyObject *rt_leave(PyObject *self, PyObject *noargs) {
    int me = my_idx; if (me < 0) Py_RETURN_NONE;
    my_idx = -1; T[me].state = DONE; n_alive--;
    Py_BEGIN_ALLOW_THREADS
    hand_over(me, 0);
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}

static PyObject *rt_run(PyObject *self, PyObject *noargs) {
    if (n_threads == 0) Py_RETURN_NONE;
    active = 1;
    Py_BEGIN_ALLOW_THREADS
    int t = choose(-1);
    cur = t;
    sem_post(&T[t].sem);
    wait_sem(&main_sem);
    Py_END_ALLOW_THREADS
    active = 0; left_ = FOREVER; slice_budget = FOREVER;
    return Py_BuildValue("{s:i,s:i,s:i}", "deadlock", deadlock, "over_cap", over_cap, "diverged", diverged);
}

static PyObject *rt_me(PyObject *self, PyObject *noargs) {
    return PyLong_FromLong(active && my_idx == cur ? my_idx : -1);
}

static PyObject *rt_yield(PyObject *self, PyObject *noargs) { py_tick(1); Py_RETURN_NONE; }

/* block(deadline): returns True when woken, False when the deadline passed */
static PyObject *rt_block(PyObject *self, PyObject *arg) {
    double d = PyFloat_AsDouble(arg); if (PyErr_Occurred()) return NULL;
    int me = my_idx;
    if (!active || me < 0) { PyErr_SetString(PyExc_RuntimeError, "block outside the simulation"); return NULL; }
    T[me].state = BLOCKED; T[me].deadline = d; T[me].timed_out = 0;
    Py_BEGIN_ALLOW_THREADS
    hand_over(me, 0);
    wait_sem(&T[me].sem);
    Py_END_ALLOW_THREADS
    T[me].deadline = -1;
    return PyBool_FromLong(!T[me].timed_out);
}

static PyObject *rt_unblock(PyObject *self, PyObject *arg) {
    long i = PyLong_AsLong(arg); if (PyErr_Occurred()) return NULL;
    if (i >= 0 && i < n_threads && T[i].state == BLOCKED) { T[i].state = RUNNABLE; T[i].timed_out = 0; }
    Py_RETURN_NONE;
}

static PyObject *rt_now(PyObject *self, PyObject *noargs) { return PyFloat_FromDouble(now_); }
static PyObject *rt_advance(PyObject *self, PyObject *arg) {
    double d = PyFloat_AsDouble(arg); if (PyErr_Occurred()) return NULL; now_ += d; Py_RETURN_NONE;
}

static PyObject *rt_stats(PyObject *self, PyObject *noargs) {
    return Py_BuildValue("{s:K,s:K,s:K,s:K,s:K,s:K,s:n,s:d,s:K}",
        "ticks", (unsigned long long)total_ticks, "switches", (unsigned long long)n_switch,
        "native_preemptions", (unsigned long long)n_native_switch, "py_preemptions", (unsigned long long)n_py_switch,
        "deferred", (unsigned long long)n_deferred, "order_hash", (unsigned long long)order_hash,
        "slices", log_n, "now", now_, "py_ticks", (unsigned long long)py_ticks);
}

static PyObject *rt_log(PyObject *self, PyObject *noargs) {
    PyObject *l = PyList_New(log_n); if (!l) return NULL;
    for (Py_ssize_t i = 0; i < log_n; i++)
        PyList_SET_ITEM(l, i, Py_BuildValue("(iL)", (int)log_t[i], (long long)log_b[i]));
    return l;
}

/* ---- monitored Python code ------------------------------------------------------------------------------------ */
#define FN_TAB 8192
static PyObject *fn_key[FN_TAB]; static signed char fn_cls[FN_TAB];
static PyObject *prefixes = NULL;  /* list of (prefix, class) */
static PyObject *mon_disable = NULL;
static int tick_mask = 0, count_mask = 0;  /* bit: 1 package line, 2 package instruction, 4 library call, 8 library line,
                                              16 library call by the package */
static uint64_t ev_count = 0, inject_at = 0, inject_fired = 0; static PyObject *inject_exc = NULL;
static PyObject *inject_where = NULL;

static int classify(PyObject *code) {
    PyObject *fn = ((PyCodeObject *)code)->co_filename;
    size_t h = ((uintptr_t)fn >> 4) * 0x9E3779B1u % FN_TAB;
    for (size_t k = 0; k < 64; k++) {
        size_t j = (h + k) % FN_TAB;
        if (fn_key[j] == fn) return fn_cls[j];
        if (fn_key[j] == NULL) {
            int cls = 0;
            for (Py_ssize_t i = 0; prefixes && i < PyList_GET_SIZE(prefixes); i++) {
                PyObject *p = PyList_GET_ITEM(prefixes, i);
                if (PyUnicode_Tailmatch(fn, PyTuple_GET_ITEM(p, 0), 0, PY_SSIZE_T_MAX, -1) == 1) {
                    cls = (int)PyLong_AsLong(PyTuple_GET_ITEM(p, 1)); break;
                }
            }
            Py_INCREF(fn); fn_key[j] = fn; fn_cls[j] = (signed char)cls;
            return cls;
        }
    }
    return 0;
}

static PyObject *event(PyObject *code, PyObject *arg, int bit_pkg, int bit_lib) {
    int cls = classify(code);
    int bit = cls == 1 ? bit_pkg : cls >= 2 ? bit_lib : 0;
    if (!bit || !((tick_mask | count_mask) & bit)) { Py_INCREF(mon_disable); return mon_disable; }
    if (my_idx >= 0 && my_idx != cur) Py_RETURN_NONE;
    if (count_mask & bit) {
        ev_count++;
        if (inject_at && ev_count == inject_at && inject_exc) {
            inject_fired++;
            Py_XDECREF(inject_where);
            inject_where = PyUnicode_FromFormat("%U:%S:%U", ((PyCodeObject *)code)->co_qualname, arg, ((PyCodeObject *)code)->co_filename);
            PyErr_Format(inject_exc, "simulated fault");
            return NULL;
        }
    }
    if ((tick_mask & bit) && active) py_tick(0);
    Py_RETURN_NONE;
}
static PyObject *ev_line(PyObject *self, PyObject *const *a, Py_ssize_t n) { return event(a[0], a[1], 1, 8); }
static PyObject *ev_instr(PyObject *self, PyObject *const *a, Py_ssize_t n) { return event(a[0], a[1], 2, 0); }
static PyObject *ev_start(PyObject *self, PyObject *const *a, Py_ssize_t n) {
    if (((tick_mask | count_mask) & 16) && classify(a[0]) >= 2) {   /* called by the package's own code? */
        PyFrameObject *f = PyEval_GetFrame(), *back = f ? PyFrame_GetBack(f) : NULL;
        PyCodeObject *by = back ? PyFrame_GetCode(back) : NULL;
        int direct = by && classify((PyObject *)by) == 1;
        Py_XDECREF(by); Py_XDECREF(back);
        if (!direct) Py_RETURN_NONE;
        return event(a[0], a[1], 0, 16);
    }
    return event(a[0], a[1], 0, 4);
}

static PyObject *rt_events(PyObject *self, PyObject *args) {
    int tm, cm; unsigned long long at; PyObject *exc;
    if (!PyArg_ParseTuple(args, "iiKO", &tm, &cm, &at, &exc)) return NULL;
    tick_mask = tm; count_mask = cm; ev_count = 0; inject_at = at; inject_fired = 0;
    Py_XDECREF(inject_exc); inject_exc = NULL;
    if (exc != Py_None) { Py_INCREF(exc); inject_exc = exc; }
    Py_RETURN_NONE;
}
static PyObject *rt_event_stats(PyObject *self, PyObject *noargs) {
    return Py_BuildValue("(KKO)", (unsigned long long)ev_count, (unsigned long long)inject_fired,
                         inject_where ? inject_where : Py_None);
}
static PyObject *rt_configure(PyObject *self, PyObject *args) {
    PyObject *p, *d;
    if (!PyArg_ParseTuple(args, "O!O", &PyList_Type, &p, &d)) return NULL;
    Py_INCREF(p); Py_XDECREF(prefixes); prefixes = p; Py_INCREF(d); Py_XDECREF(mon_disable); mon_disable = d;
    for (int i = 0; i < FN_TAB; i++) { Py_XDECREF(fn_key[i]); fn_key[i] = NULL; }
    Py_RETURN_NONE;
}

/* ---- arrays: poison, failing allocations ----------------------------------------------------------------------- */
static int fill_mode = -1;  /* -1: leave alone, 0..255: byte, 256: pseudo random */
static uint64_t fill_state = 1;
static uint64_t al_count = 0, al_bytes = 0, al_fail_at = 0, al_failed = 0, al_min = 0; static int al_sticky = 0, al_on = 0;

__attribute__((noinline)) static void stack_fill(int byte, size_t n) {
    volatile char *p = alloca(n);
    for (size_t i = 0; i < n; i++) p[i] = (char)byte;
}
static void poison(void *p, size_t n) {
    if (fill_mode < 0 || !p) return;
    stack_fill(fill_mode & 255, 6000);
    if (fill_mode < 256) { memset(p, fill_mode, n); return; }
    uint64_t s = fill_state; unsigned char *c = p;
    for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; } c[i] = (unsigned char)(s >> (8 * (i & 7))); }
    fill_state = s ? s : 1;
}
/* not everything in the libraries survives failing allocations, which is not the business of the code under test */
static int in_library(void) {
    if (!PyGILState_Check()) return 0;
    PyFrameObject *f = PyThreadState_GetFrame(PyThreadState_Get());
    if (!f) return 0;
    PyCodeObject *c = PyFrame_GetCode(f);
    int cls = classify((PyObject *)c);
    Py_DECREF(c); Py_DECREF(f);
    return cls >= 3;
}
static int refuse(size_t n) {
    if (!al_on || n < al_min || in_library()) return 0;
    al_count++; al_bytes += n;
    if (al_fail_at && (al_count == al_fail_at || (al_sticky && al_count > al_fail_at))) { al_failed++; return 1; }
    return 0;
}
/* every array lies between two zones, whose contents nobody may change and no result may depend on */
#define ZONE 64
typedef struct block { struct block *next, *prev; size_t n; uint64_t seed; } block;      /* 32 bytes of the zone in front */
static block live = {&live, &live, 0, 0};
static uint64_t zone_state = 88172645463325252ull, zones_torn = 0;

static unsigned char zone_byte(uint64_t seed, size_t i) {
    switch (seed % 3) { case 0: return 0xff; case 1: return 0; }     /* NaN, nothing, anything */
    uint64_t s = seed + (i >> 3) * 0x9e3779b97f4a7c15ull;
    s ^= s >> 30; s *= 0xbf58476d1ce4e5b9ull; s ^= s >> 27; s *= 0x94d049bb133111ebull; s ^= s >> 31;
    return (unsigned char)(s >> (8 * (i & 7)));
}
static void *fenced(void *base, size_t n) {
    if (!base) return NULL;
    block *b = base; unsigned char *c = base;
    b->n = n; b->seed = zone_state;
    b->next = live.next; b->prev = &live; live.next->prev = b; live.next = b;
    for (size_t i = sizeof *b; i < ZONE; i++) c[i] = zone_byte(b->seed, i);
    for (size_t i = 0; i < ZONE; i++) c[ZONE + n + i] = zone_byte(b->seed, i);
    return c + ZONE;
}
static int torn(block *b) {
    unsigned char *c = (void *)b;
    for (size_t i = sizeof *b; i < ZONE; i++) if (c[i] != zone_byte(b->seed, i)) return 1;
    for (size_t i = 0; i < ZONE; i++) if (c[ZONE + b->n + i] != zone_byte(b->seed, i)) return 1;
    return 0;
}
static block *taken_out(void *p) {
    block *b = (void *)((char *)p - ZONE);
    zones_torn += torn(b);
    b->next->prev = b->prev; b->prev->next = b->next;
    return b;
}
static void *h_malloc(void *c, size_t n) {
    if (refuse(n) || n > (size_t)1 << 60) return NULL;
    void *p = fenced(malloc(n + 2 * ZONE), n);
    poison(p, n);
    return p;
}
static void *h_calloc(void *c, size_t k, size_t n) {
    size_t all;
    if (refuse(k * n) || __builtin_mul_overflow(k, n, &all) || all > (size_t)1 << 60) return NULL;
    return fenced(calloc(1, all + 2 * ZONE), all);
}
static void *h_realloc(void *c, void *o, size_t n) {
    if (refuse(n) || n > (size_t)1 << 60) return NULL;
    if (!o) return h_malloc(c, n);
    block *b = taken_out(o);
    size_t old = b->n;
    void *base = realloc(b, n + 2 * ZONE);
    if (!base) { fenced(b, old); return NULL; }
    void *p = fenced(base, n);
    if (n > old) poison((char *)p + old, n - old);
    return p;
}
static void h_free(void *c, void *p, size_t n) { if (p) free(taken_out(p)); }
static PyObject *rt_zones_torn(PyObject *self, PyObject *noargs) {
    uint64_t count = zones_torn;
    for (block *b = live.next; b != &live; b = b->next) count += torn(b);
    return PyLong_FromUnsignedLongLong(count);
}
static PyDataMem_Handler handler = {"gtsim", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};
static PyObject *handler_capsule = NULL;

static PyObject *rt_alloc_install(PyObject *self, PyObject *noargs) {
    if (!handler_capsule) { handler_capsule = PyCapsule_New(&handler, "mem_handler", NULL); if (!handler_capsule) return NULL; }
    PyObject *old = PyDataMem_SetHandler(handler_capsule);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *rt_alloc_set(PyObject *self, PyObject *args) {
    int fm, sticky, on = 0; unsigned long long at, seed, mn;
    if (!PyArg_ParseTuple(args, "iKKiK|i", &fm, &seed, &at, &sticky, &mn, &on)) return NULL;
    al_on = on;
    if (fm > -2) { fill_mode = fm; fill_state = seed | 1; zone_state = seed; }
    al_fail_at = at; al_sticky = sticky; al_min = mn;
    al_count = al_bytes = al_failed = 0;
    Py_RETURN_NONE;
}
static PyObject *rt_alloc_stats(PyObject *self, PyObject *noargs) {
    return Py_BuildValue("(KKK)", (unsigned long long)al_count, (unsigned long long)al_bytes, (unsigned long long)al_failed);
}
static PyObject *rt_poison_stack(PyObject *self, PyObject *args) {
    int b; Py_ssize_t n;
    if (!PyArg_ParseTuple(args, "in", &b, &n)) return NULL;
    stack_fill(b, (size_t)n);
    Py_RETURN_NONE;
}
static PyObject *rt_perturb(PyObject *self, PyObject *arg) {
    long b = PyLong_AsLong(arg); if (PyErr_Occurred()) return NULL;
    return PyLong_FromLong(mallopt(M_PERTURB, (int)b));
}

static PyMethodDef methods[] = {
    {"reset", (PyCFunction)(void (*)(void))rt_reset, METH_VARARGS | METH_KEYWORDS, ""},
    {"new_thread", rt_new_thread, METH_NOARGS, ""}, {"enter", rt_enter, METH_O, ""},
    {"leave", rt_leave, METH_NOARGS, ""}, {"run", rt_run, METH_NOARGS, ""}, {"me", rt_me, METH_NOARGS, ""},
    {"yield_", rt_yield, METH_NOARGS, ""}, {"block", rt_block, METH_O, ""}, {"unblock", rt_unblock, METH_O, ""},
    {"now", rt_now, METH_NOARGS, ""}, {"advance", rt_advance, METH_O, ""}, {"stats", rt_stats, METH_NOARGS, ""},
    {"log", rt_log, METH_NOARGS, ""},
    {"ev_line", (PyCFunction)(void (*)(void))ev_line, METH_FASTCALL, ""},
    {"ev_instr", (PyCFunction)(void (*)(void))ev_instr, METH_FASTCALL, ""},
    {"ev_start", (PyCFunction)(void (*)(void))ev_start, METH_FASTCALL, ""},
    {"events", rt_events, METH_VARARGS, ""}, {"event_stats", rt_event_stats, METH_NOARGS, ""},
    {"configure", rt_configure, METH_VARARGS, ""},
    {"alloc_install", rt_alloc_install, METH_NOARGS, ""}, {"alloc_set", rt_alloc_set, METH_VARARGS, ""},
    {"alloc_stats", rt_alloc_stats, METH_NOARGS, ""}, {"zones_torn", rt_zones_torn, METH_NOARGS, ""}, {"poison_stack", rt_poison_stack, METH_VARARGS, ""},
    {"perturb", rt_perturb, METH_O, ""}, {"hold", rt_hold, METH_O, ""},
    {NULL, NULL, 0, NULL}};

static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simrt", NULL, -1, methods};

PyMODINIT_FUNC PyInit_simrt(void) {
    import_array();
    return PyModule_Create(&mod);
}
