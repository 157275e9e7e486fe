"""Verdict helpers shared by the property modules."""
import hashlib
import json


def verdict():
    return {"viol": [], "sig": "", "nontrivial": False, "stats": {"runs": 0, "steps": 0, "events": 0, "sim_s": 0.0,
            "faults": {}, "probes": {}}}


def add(v, res):
    """Accumulate the statistics of one simulated run into a verdict."""
    s = v["stats"]
    s["runs"] += 1
    if isinstance(res, dict):
        s["steps"] += res.get("steps", 0)
        s["events"] += res.get("events", 0)
        s["sim_s"] += res.get("sim_s", 0.0)
        for f in res.get("fired", ()):
            k = "%s:%s" % (f[0], f[3])
            s["faults"][k] = s["faults"].get(k, 0) + 1
    return res


def probe(v, name, n=1):
    p = v["stats"]["probes"]
    p[name] = p.get(name, 0) + n


def fail(v, cls, detail, case=None):
    v["viol"].append({"class": cls, "detail": detail})
    if case is not None:
        v["case"] = case


def stuck(v, res, cls, what, case):
    """Uniform treatment of runs that did not come back. Returns True if so."""
    if isinstance(res, dict) and ("__budget__" in res or "__hang__" in res):
        fail(v, cls, "%s did not finish: %s" % (what, "work budget of %s exceeded" % res["__budget__"]
             if "__budget__" in res else res["__hang__"]), case)
        return True
    return False


def sig(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode("utf-8", "surrogateescape")).hexdigest()[:16]
