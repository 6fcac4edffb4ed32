#!/opt/venv/bin/python
"""Decide one property by many simulated runs.

check.py C01 [--tier quick|thorough]     search; exit 0 held, 1 violation, 2 no answer
check.py --replay replays/x.json         run a recorded violation again
check.py C01 --one SEED                  run a single seed and print its report
check.py selftest [C01 ...]              same seed, same execution: in fresh processes, with other hash seeds and load
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

if os.environ.get("GTSIM_CHILD") != "1":
    env = dict(os.environ, GTSIM_CHILD="1", PYTHONHASHSEED=os.environ.get("GTSIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPATH=VERIF, PYTHONUNBUFFERED="1", TZ="UTC",
               MALLOC_ARENA_MAX="2")
    env.pop("PYTHONSTARTUP", None)
    os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, VERIF)
import argparse  # noqa: E402
import time  # noqa: E402

START = time.monotonic()
ASSUMPTIONS = [
    "sampled, not enumerated: a quiet batch is evidence for the seeds that ran",
    "the extensions are compiled from /repo with gcc -O1 and coverage callbacks instead of the shipped flags; threads change "
    "places at basic blocks of compiled code and at Python lines, instructions or library lines, not inside numpy or scipy",
    "memory is sequentially consistent: one simulated thread runs at a time",
]


def say(*what):
    print(*what, flush=True)


def known_findings(prop_id):
    """Listed findings of a property: (what identifies them, text)."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as stream:
            for line in stream:
                if line.startswith("finding: property=%s " % prop_id):
                    rest = line.split(" ", 2)[2].strip()
                    ident, _, text = rest.partition(" | ")
                    out.append((ident, text))
    return out


def boot_up():
    from gtsim import boot, build
    try:
        where = build.ensure()
    except build.BuildError as exc:
        say("the tree does not build:\n%s" % exc)
        sys.exit(2)
    boot.load(where)
    # every run is forked from here: the package is loaded but nothing has been called yet
    import gtsim.calls
    import gtsim.core
    import gtsim.dasksim
    import gtsim.procs  # noqa: F401
    import gc
    gc.collect()
    gc.freeze()
    return where


class Tally:
    def __init__(self):
        self.runs = self.checks = self.nontrivial = self.switches = self.native = self.ticks = 0
        self.sim_time = 0.0
        self.faults, self.probes, self.shapes, self.orders, self.errors = {}, {}, set(), set(), []
        self.samples = []

    def add(self, seed, rep):
        self.runs += 1
        self.checks += rep.get("checks", 0)
        self.switches += rep.get("switches", 0)
        self.native += rep.get("native", 0)
        self.ticks += rep.get("ticks", 0)
        self.sim_time += rep.get("sim_time", 0.0)
        for k, v in rep.get("faults", {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in rep.get("probes", {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        if rep.get("nontrivial"):
            if rep["shape"] not in self.shapes:
                self.shapes.add(rep["shape"])
        for o in rep.get("orders", ()):
            self.orders.add(o)
        if len(self.samples) < 5 and rep.get("nontrivial"):
            self.samples.append({"seed": seed, "digest": rep.get("digest"), "faults": rep.get("faults"),
                                 "switches": rep.get("switches"), "events": rep.get("n_events")})


def search(prop_id, tier, base, seconds, min_runs, max_runs, jobs):
    from gtsim import boot, core
    prop = core.load_prop(prop_id)
    for mod in getattr(prop, "PRELOAD", ()):
        __import__(mod)
    runner = core.Runner(jobs, timeout=getattr(prop, "TIMEOUT", 150.0))
    tally = Tally()
    known = known_findings(prop_id)
    seen_known = {}
    bad = None
    late = []
    i = 0
    t0 = boot.real_monotonic()
    while True:
        elapsed = boot.real_monotonic() - t0
        more = (elapsed < seconds or i < min_runs) and i < max_runs and bad is None
        while more and len(runner.active) < jobs and i < max_runs:
            seed = core.seed_of(base, prop_id, i)
            runner.start((i, seed), core.run_seed, prop_id, seed, tier)
            i += 1
        if not runner.active:
            break
        for (num, seed), rep in runner.wait():
            what, kind = core.classify(rep)
            if what == "violation":
                ident = [k for k, _ in known if k == "%s: %s" % (rep.get("kind", kind), rep.get("detail", ""))]
                if ident:
                    seen_known[ident[0]] = seen_known.get(ident[0], 0) + 1
                elif bad is None or num < bad[0]:
                    bad = (num, seed, rep, kind)
            elif rep["status"] == "timeout":
                late.append((num, seed))
            elif what == "error":
                tally.errors.append((seed, kind, rep.get("traceback", "")))
            tally.add(seed, rep)
        if len(tally.errors) > 20 or len(late) > 20:
            break
    runner.stop()
    if late and bad is None:
        # once more, with the machine to itself: does it end at all?
        num, seed = min(late)
        alone = core.Runner(1, timeout=240.0)
        rep = alone.map(core.run_seed, [(prop_id, seed, tier)])[0]
        if rep["status"] == "timeout":
            rep = {"status": "timeout", "kind": "does not end", "detail": "no result after 240 s of a run that takes seconds"}
            bad = (num, seed, rep, "does not end")
        elif core.classify(rep)[0] == "violation":
            bad = (num, seed, rep, rep.get("kind", core.classify(rep)[1]))
        else:
            tally.errors += [(s, "timeout", "") for _, s in late]
    return runner, tally, bad, seen_known, boot.real_monotonic() - t0


def write_evidence(prop_id, tier, base, tally, wall, violations, where, jobs):
    from gtsim import core
    prop = core.load_prop(prop_id)
    hours = max(wall, 1e-9) / 3600.0
    coverage = {
        "evaluations": tally.runs,
        "distinct_nontrivial": len(tally.shapes),
        "rule": getattr(prop, "RULE", "one case is one simulated run: inputs, options, faults and schedule are drawn from its seed; "
                                      "it is non-trivial when the scheduler switched threads, a fault fired or a lazy result was "
                                      "computed chunk by chunk; two are distinct when scenario or schedule (hash of every switch) "
                                      "differ"),
        "samples": [dict(smp, scenario=core.scenario_of(prop_id, smp["seed"], tier)) for smp in tally.samples],
        "seeds_per_hour": round(tally.runs / hours),
        "oracle_comparisons": tally.checks,
        "simulated_seconds": round(tally.sim_time, 3),
        "thread_switches": tally.switches, "preemptions_in_compiled_code": tally.native, "scheduling_points": tally.ticks,
        "faults_injected": dict(sorted(tally.faults.items())),
        "distinct_schedules": len(tally.orders),
        "reached": dict(sorted(tally.probes.items())),
        "components": {
            "real": getattr(prop, "REAL", ["geotiepoints (all modules, compiled from /repo with coverage hooks)", "numpy", "scipy",
                                           "dask arrays and graphs", "xarray", "cloudpickle"]),
            "stub": getattr(prop, "STUB", ["dask scheduler and workers", "storage", "clock", "thread scheduler"]),
        },
        "harness_errors": [{"seed": s, "error": e} for s, e, _ in tally.errors[:20]],
        "jobs": jobs, "build": os.path.basename(where),
    }
    ev = {"property": prop_id, "tier": tier, "seed": base, "level": "exploration", "coverage": coverage,
          "assumptions": ASSUMPTIONS + getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop_id + ".json")
    with open(path + ".tmp", "w") as stream:
        json.dump(ev, stream, indent=1, default=str)
        stream.write("\n")
    os.replace(path + ".tmp", path)


def report_violation(prop_id, tier, bad, runner, seconds):
    from gtsim import core
    num, seed, rep, kind = bad
    say("violation in run %d, seed %d: %s %s" % (num, seed, kind, rep.get("detail", "")))
    scen = rep.get("scenario") or core.scenario_of(prop_id, seed, tier)
    if kind == "does not end":
        small, best, tried = scen, rep, 0
    else:
        small, best, tried = core.minimise(prop_id, scen, kind, tier, runner, seconds)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%x.json" % (prop_id, seed))
    doc = {"property": prop_id, "tier": tier, "seed": seed, "violation": kind, "detail": best.get("detail", ""),
           "digest": best.get("digest"), "minimised_in": tried, "scenario": small, "trace": best.get("trace"),
           "faults": best.get("faults"), "original_scenario": scen}
    with open(path, "w") as stream:
        json.dump(doc, stream, indent=1, default=str)
        stream.write("\n")
    if kind == "does not end":
        return path
    again = [runner.map(core.execute, [(prop_id, small, tier, True)])[0] for _ in range(2)]
    same = all(core.classify(r) == ("violation", kind) and r.get("digest") == best.get("digest") for r in again)
    say("minimised (%d candidates): %s" % (tried, best.get("detail", "")))
    say("replay %s" % ("reproduces exactly" if same else "REPRODUCES DIFFERENTLY: %s" % [core.classify(r) for r in again]))
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("GTSIM_JOBS", "8")))
    ap.add_argument("--one", type=int)
    ap.add_argument("--nth", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--no-minimise", action="store_true")
    args = ap.parse_args()
    if args.replay:
        sys.exit(replay(args.replay))
    if args.what and args.what[0] == "selftest":
        from gtsim import selftest
        sys.exit(selftest.main(args.what[1:], args))
    if args.what and args.what[0] == "digests":
        where = boot_up()
        from gtsim import selftest
        sys.exit(selftest.digests(args.what[1], args))
    if args.what and args.what[0] == "prebuild":
        say(boot_up())
        sys.exit(0)
    prop_id = args.what[0].upper()
    where = boot_up()
    from gtsim import core
    if args.one is not None or args.nth is not None:
        seed = args.one if args.one is not None else core.seed_of(args.seed, prop_id, args.nth)
        runner = core.Runner(1, 600)
        rep = runner.map(core.run_seed, [(prop_id, seed, args.tier, True)])[0]
        if not args.show:
            rep.pop("trace", None)
            rep.pop("logs", None)
        tb = rep.pop("traceback", "")
        say(json.dumps(rep, indent=1, default=str)[:6000 if not args.show else 10**7])
        say(tb)
        sys.exit({"ok": 0, "violation": 1}.get(core.classify(rep)[0], 2))
    thorough = args.tier == "thorough"
    prop = core.load_prop(prop_id)
    seconds = args.seconds or (getattr(prop, "THOROUGH_S", 700.0) if thorough else getattr(prop, "QUICK_S", 45.0))
    min_runs = 0 if args.runs or args.seconds else getattr(prop, "MIN_RUNS", 60)
    max_runs = args.runs or 10 ** 9
    if args.runs:
        seconds = args.seconds or 10 ** 9
    runner, tally, bad, seen_known, wall = search(prop_id, args.tier, args.seed, seconds, min_runs, max_runs, args.jobs)
    for ident, text in known_findings(prop_id):
        say("KNOWN-FINDING: property=%s %s" % (prop_id, text or ident))
    path = None
    if bad is not None:
        path = report_violation(prop_id, args.tier, bad, runner, 0 if args.no_minimise else (60 if not thorough else 150))
    write_evidence(prop_id, args.tier, args.seed, tally, wall, 1 if bad else 0, where, args.jobs)
    say("%s: %d runs in %.1f s (%.0f per hour), %d distinct, %d comparisons, %d thread switches, faults %s"
        % (prop_id, tally.runs, wall, tally.runs / max(wall, 1e-9) * 3600, len(tally.shapes), tally.checks, tally.switches,
           dict(sorted(tally.faults.items()))))
    if args.show:
        for k, v in sorted(tally.probes.items()):
            say("   %-50s %d" % (k, v))
    for seed, err, tb in tally.errors[:5]:
        say("harness error, seed %d: %s\n%s" % (seed, err, tb))
    if bad is not None:
        say("VIOLATION property=%s replay=%s" % (prop_id, path))
        sys.exit(1)
    # a few lost runs do not change the verdict, many mean that nothing was decided
    if len(tally.errors) > max(2, 0.02 * tally.runs) or tally.runs - len(tally.errors) < 10:
        say("%d runs without a verdict" % len(tally.errors))
        sys.exit(2)
    sys.exit(0)


def replay(path):
    with open(path) as stream:
        doc = json.load(stream)
    boot_up()
    from gtsim import core
    runner = core.Runner(1, 600)
    rep = runner.map(core.execute, [(doc["property"], doc["scenario"], doc["tier"], True)])[0]
    what, kind = core.classify(rep)
    if rep["status"] == "timeout" and doc["violation"] == "does not end":
        what, kind = "violation", "does not end"
    say("%s %s %s" % (what, kind, rep.get("detail", rep.get("traceback", ""))))
    if what == "violation" and kind == doc["violation"]:
        say("same execution: %s" % (rep.get("digest") == doc.get("digest")))
        say("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return 0 if what == "ok" else 2


if __name__ == "__main__":
    main()
