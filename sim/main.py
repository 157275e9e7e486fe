"""Driver:  main.py check <ID> [--tier quick|thorough]   run the check of one property
            main.py replay <file>                         re-execute a recorded violation
            main.py selftest [--n N]                      determinism self-test
            main.py --serve                               (internal) interpreter server
"""
import os
import sys

SIM = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, SIM)

if len(sys.argv) > 1 and sys.argv[1] != "--serve" and os.environ.get("L2J_SIM_CLEAN") != "1":
    # a known process environment: fixed hash seed and locale, no stray settings
    env = {k: v for k, v in os.environ.items() if not (k.startswith("PYTHON") or k.startswith("LC_") or k == "LANG")}
    env.update({"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "L2J_SIM_CLEAN": "1", "PYTHONDONTWRITEBYTECODE": "1"})
    if "L2J_HASHSEED" in os.environ:
        env["PYTHONHASHSEED"] = os.environ["L2J_HASHSEED"]
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

import boot  # noqa: E402

boot.boot()

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import time  # noqa: E402

import runner  # noqa: E402
from runner import RMONO, VERIF, h64  # noqa: E402


def warm():
    """Build the lazily initialised tables once, before any run is forked."""
    from latex2json.tex_reader import TexReader
    TexReader()


def load(pid):
    return importlib.import_module("props." + pid.lower())


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("property") == pid]


def jsonable(case):
    def default(o):
        if isinstance(o, (bytes, bytearray)):
            return {"__bytes__": bytes(o).hex()}
        raise TypeError(type(o))
    return json.dumps(case, default=default, sort_keys=True, ensure_ascii=True)


def unjson(s):
    def hook(d):
        if set(d) == {"__bytes__"}:
            return bytes.fromhex(d["__bytes__"])
        return d
    return json.loads(s, object_hook=hook)


def check(pid, tier):
    t0 = RMONO()
    prop = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if getattr(prop, "WARM", True):
        warm()
    n = int(os.environ.get("L2J_N", prop.COUNTS[tier]))
    cap = float(os.environ.get("L2J_CAP", getattr(prop, "CAP", {"quick": 240, "thorough": 3000})[tier]))
    workers = int(os.environ.get("L2J_WORKERS", os.cpu_count() or 4))
    start = int(os.environ.get("L2J_START", "0"))
    print("check %s tier=%s seed=%d cases=%d workers=%d" % (pid, tier, seed, n, workers), flush=True)
    results, errors = runner.run_pool(prop, seed, tier, list(range(start, start + n)), t0 + cap, workers)
    if not results:
        print("HARNESS ERROR: no case completed")
        for i, e in errors[:3]:
            print("case %d: %s" % (i, e))
        return 2
    viols = sorted(i for i, v in results.items() if v["viol"])
    kf = known_findings(pid)
    known_hit, new = {}, []
    for i in viols:
        v = results[i]
        rest = []
        for x in v["viol"]:
            m = [k for k in kf if prop.matches_finding(k, x, v.get("case"))] if hasattr(prop, "matches_finding") else []
            if m:
                known_hit[m[0]["id"]] = m[0]
            else:
                rest.append(x)
        if rest:
            new.append((i, rest))
    rc = 0
    replay_path = None
    for i, vs in new[:4]:
        case = results[i].get("case") or prop.gen(h64(pid, seed, i), tier, i)
        print("case %d violates %s (%s); minimising ..." % (i, pid, vs[0]["class"]), flush=True)
        left = max(20.0, min(getattr(prop, "MINIMISE", 120.0), 700.0 - (RMONO() - t0)))
        whole, found = case, vs
        case, vs, runs = runner.minimise(prop, case, vs, tier, wall=left)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", "%s-seed%d-case%d.json" % (pid, seed, i))
        for case, vs in ((case, vs), (whole, found)):
            again = [runner.run_one(prop, unjson(jsonable(case)), tier) for _ in range(2)]
            # the replay decides what is reported: the same case, run again, twice
            same = all(a["viol"] for a in again) and again[0]["viol"][0]["class"] == again[1]["viol"][0]["class"]
            if same:
                vs = again[0]["viol"]
                break
        with open(replay_path, "w") as f:
            f.write(jsonable({"property": pid, "tier": tier, "seed": seed, "case_index": i, "violation": vs, "case": case}))
        exact = same and all(a["viol"] == again[0]["viol"] for a in again)
        for x in vs[:3]:
            print("  %s: %s" % (x["class"], x["detail"][:1500]))
        if same:
            print("  minimised in %d runs; replay reproduces %s" % (runs, "exactly" if exact else "the same class"))
            print("VIOLATION property=%s replay=%s" % (pid, replay_path), flush=True)
            rc = 1
            break
        else:
            # not reproducible from its own trace: a defect of the machinery
            print("HARNESS ERROR: case %d did not replay (%s)" % (i, [a["viol"] for a in again]))
            rc = 2
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if errors and rc == 0:
        # one retry, serially: a loaded machine must not look like a defect
        bad = []
        for i, e in errors[:20]:
            try:
                v = runner.run_one(prop, prop.gen(h64(pid, seed, i), tier, i), tier)
                if v["viol"]:
                    bad.append((i, "late violation %s" % v["viol"][:1]))
                else:
                    results[i] = v
            except Exception as e2:
                bad.append((i, str(e2)))
        if bad:
            print("HARNESS ERROR in %d case(s): case %d: %s" % (len(bad), bad[0][0], bad[0][1]))
            rc = 2
    evidence(prop, pid, tier, seed, results, len(new), t0, n, workers)
    print("%s %s: %d cases, %d violating, %.1f s" % (pid, {0: "held", 1: "VIOLATED", 2: "error"}[rc], len(results),
                                                       len(new), RMONO() - t0))
    return rc


def evidence(prop, pid, tier, seed, results, nviol, t0, asked, workers):
    wall = RMONO() - t0
    runs = steps = events = 0
    sim_s = 0.0
    faults, probes, sigs, inter, samples = {}, {}, set(), set(), []
    nontriv = 0
    for i in sorted(results):
        v = results[i]
        s = v["stats"]
        runs += s["runs"]
        steps += s["steps"]
        events += s["events"]
        sim_s += s["sim_s"]
        for k, c in s["faults"].items():
            faults[k] = faults.get(k, 0) + c
        for k, c in s["probes"].items():
            probes[k] = probes.get(k, 0) + c
        if v["nontrivial"]:
            nontriv += 1
            sigs.add(v["sig"])
        for x in v.get("inter", ()):
            inter.add(x)
        if v.get("sample") is not None and len(samples) < 3 and v["nontrivial"]:
            samples.append(dict(v["sample"], case=i))
    cov = {
        "evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": prop.RULE if hasattr(prop, "RULE") else prop.__doc__,
        "samples": samples, "cases_requested": asked, "nontrivial_cases": nontriv,
        "simulated_runs": runs, "simulated_runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "seeds_per_hour": int(len(results) / wall * 3600) if wall else 0,
        "simulated_time_s": round(sim_s, 3), "simulated_steps": steps, "simulated_fs_events": events,
        "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
        "workers": workers,
        "real_components": "all of latex2json, pydantic, chardet, json, tarfile, zipfile, gzip, shutil, tempfile run for real",
        "stub_components": "thread scheduling, file-system call results, listing order, clock, entropy and temporary names "
                           "are decided by the simulator; file bytes live in a private scratch directory",
    }
    if inter:
        cov["distinct_interleavings"] = len(inter)
    if hasattr(prop, "extra_evidence"):
        cov.update(prop.extra_evidence(results))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=True)
        f.write("\n")


def replay(path):
    with open(path) as f:
        d = unjson(f.read())
    prop = load(d["property"])
    if getattr(prop, "WARM", True):
        warm()
    v = runner.run_one(prop, d["case"], d.get("tier", "quick"))
    hit = [x for x in v["viol"] if x["class"] == d["violation"][0]["class"]]
    for x in v["viol"]:
        print("  %s: %s" % (x["class"], x["detail"][:3000]))
    if hit:
        print("exact: %s" % (hit[0] == d["violation"][0]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", nargs="?")
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--serve", action="store_true")
    ap.add_argument("--n", type=int, default=40)
    a = ap.parse_args()
    if a.serve:
        if os.environ.get("L2J_COLD") != "1":
            warm()
        runner.serve()
        return 0
    if a.cmd == "check":
        return check(a.what.upper(), a.tier)
    if a.cmd == "replay":
        return replay(a.what)
    if a.cmd == "setup":
        warm()
        print("latex2json imports from %s; nothing to build" % boot.PKG)
        return 0
    if a.cmd == "selftest":
        import selftest
        return selftest.main(a.n, a.what)
    if a.cmd == "digest":
        import selftest
        pid, workers, rev = a.what.split(":")
        prop = load(pid)
        warm()
        print(json.dumps(selftest.cases(prop, a.n, int(workers), int(rev))))
        return 0
    ap.error("what?")


if __name__ == "__main__":
    sys.exit(main())
