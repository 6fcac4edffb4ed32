"""Is one seed one execution?  The same seeds in fresh processes and under other loads.

check.py always runs under PYTHONHASHSEED=0; dask orders fused tasks by hash(), so other hash seeds may give other (as valid)
executions: there only the verdicts are compared and the share of identical histories is reported.
"""
import json
import os
import subprocess
import sys

from gtsim import core

ALL = ["C%02d" % i for i in range(1, 17)]
VARIANTS = [("8 jobs", "0", 8), ("8 jobs, again", "0", 8), ("3 jobs", "0", 3), ("16 jobs", "0", 16),
            ("hash seed 1", "1", 8), ("hash seed 4242", "4242", 8)]


def digests(prop_id, args):
    """Print one line per seed: what happened in it."""
    runner = core.Runner(args.jobs, 300)
    seeds = [core.seed_of(args.seed, prop_id, i) for i in range(args.runs or 40)]
    for seed, rep in zip(seeds, runner.map(core.run_seed, [(prop_id, s, args.tier) for s in seeds])):
        print(json.dumps([seed, rep["status"], rep.get("kind", rep.get("error", "")), rep.get("digest"), rep.get("shape"),
                          rep.get("ticks"), rep.get("n_events")]))
    return 0


def main(props, args):
    """Compare the histories of many seeds; exit 1 if any differs."""
    bad = 0
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for prop_id in props or ALL:
        outs = []
        for _, hashseed, jobs in VARIANTS:
            env = dict(os.environ, GTSIM_HASHSEED=hashseed)
            env.pop("GTSIM_CHILD", None)
            out = subprocess.run([sys.executable, os.path.join(here, "check.py"), "digests", prop_id, "--runs", str(args.runs or 40),
                                  "--jobs", str(jobs), "--seed", str(args.seed), "--tier", args.tier], env=env,
                                 capture_output=True, text=True)
            outs.append([line for line in out.stdout.splitlines() if line.startswith("[")])
        n = len(outs[0])
        rows = [[json.loads(o[i]) if i < len(o) else None for o in outs] for i in range(n)]
        same = [k for k, (_, hashseed, _) in enumerate(VARIANTS) if hashseed == "0"]
        diff = [i for i, row in enumerate(rows) if any(row[k] != row[0] for k in same)]
        verdict = [i for i, row in enumerate(rows) if any(r is None or r[1:3] != row[0][1:3] for r in row)]
        other = sum(all(r == row[0] for r in row) for row in rows)
        print("%s: %d seeds x %d processes, %d differ; under other hash seeds %d histories are the same, %d verdicts differ"
              % (prop_id, n, len(same), len(diff), other, len(verdict)), flush=True)
        for i in (diff + verdict)[:3]:
            for (name, _, _), r in zip(VARIANTS, rows[i]):
                print("    %-28s %s" % (name, r))
        bad += len(diff) + len(verdict) + (n == 0)
    return 1 if bad else 0
