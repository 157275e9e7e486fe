"""Determinism self-test: one seed is one exactly repeatable execution.

For every property the first N cases are executed (a) twice in one process, one
worker, (b) in another process with eight workers, in another order of cases and
(c) in a process with another hash seed.  Verdict, schedule signature and all
counters (runs, steps, events, faults) must be identical in (a) and (b); the verdict
also in (c) (another hash seed may change the order in which the package visits sets, hence schedules).
"""
import hashlib
import json
import os
import subprocess
import sys

import runner
from runner import RMONO, h64

SIM = os.path.dirname(os.path.abspath(__file__))


def digest(v):
    s = v["stats"]
    full = [v["viol"], v["sig"], v["nontrivial"], s["runs"], s["steps"], s["events"], round(s["sim_s"], 6), sorted(s["faults"].items()), sorted(s["probes"].items()), v.get("sample")]
    part = [v["viol"], v["nontrivial"]]
    return [hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode("utf-8", "surrogateescape")).hexdigest()[:12] for x in (full, part)]


def cases(prop, n, workers, rev):
    idx = list(range(n))
    if rev:
        idx = idx[::-1]
    res, errors = runner.run_pool(prop, 1, "quick", idx, RMONO() + 900, workers)
    if errors:
        raise SystemExit("errors: %s" % (errors[:2],))
    return {i: digest(v) for i, v in res.items()}


def sub(pid, n, workers, rev, hashseed=None):
    env = dict(os.environ)
    env.pop("L2J_SIM_CLEAN", None)
    if hashseed:
        env["L2J_HASHSEED"] = hashseed
    p = subprocess.run([sys.executable, os.path.join(SIM, "main.py"), "digest", "%s:%d:%d" % (pid, workers, rev), "--n", str(n)],
                       env=env, stdout=subprocess.PIPE, timeout=1800)
    return {int(k): v for k, v in json.loads(p.stdout.decode().strip().splitlines()[-1]).items()}


def main(n, what):
    ids = [what.upper()] if what else sorted(f[:-3].upper() for f in os.listdir(os.path.join(SIM, "props")) if f.startswith("c") and f.endswith(".py"))
    bad = 0
    for pid in ids:
        a = sub(pid, n, 1, 0)
        b = sub(pid, n, 1, 0)
        c = sub(pid, n, 8, 1)
        d = sub(pid, n, 4, 0, "4711")
        d1 = [i for i in a if a[i] != b[i]]
        d2 = [i for i in a if a[i] != c[i]]
        d3 = [i for i in a if a[i][1] != d[i][1]]
        print("%s: %d cases, repeat differs in %s, other workers/order in %s, other hash seed in %s" % (pid, n, d1, d2, d3), flush=True)
        bad += len(d1) + len(d2) + len(d3)
    print("selftest %s" % ("ok" if not bad else "FAILED"))
    return 1 if bad else 0
