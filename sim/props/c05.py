"""C05 - a failed main input is never reported as a success.

Every case takes one project in one packaging and one entry point, records the
file operations of the fault-free conversion, and re-runs it under faults
placed at recorded operations on the main input (its stat, listing, open,
n-th read, extraction write ...).  Each run must end in a documented error or
in exactly the fault-free output; the reader must stay usable.
"""
import os
import random

import docgen
import faults
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from runner import shrink_text

ID = "C05"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 900, "thorough": 9000}
PER = 8
RULE = __doc__
ASSUMPTIONS = ["while the main document is searched for, it is the only one that could be found (a candidate that cannot be read is passed over); other documents lie in the folder only when the failure hits the last reading of the main document", "faults are those listed in faults_injected; memory exhaustion is not injected"]


def gen(seed, tier, i):
    r = random.Random("C05/%s" % seed)
    pk = r.choice(["file", "file", "folder", "folder", "tar.gz", "tgz", "zip", "gz"])
    if pk == "gz" or r.random() < 0.35:
        d = {"files": {"main.tex": docgen.single(seed)}, "main": "main.tex"}
    else:
        p = docgen.project(seed)
        d = {"files": p["files"], "main": p["main"]}
    if r.random() < 0.25:
        # a document larger than one read-ahead buffer
        d["files"][d["main"]] = d["files"][d["main"]].replace(
            "\\end{document}", "\n\n".join("Filler %d %s." % (k, "lorem ipsum " * 40) for k in range(r.randrange(10, 60)))
            + "\n\\end{document}")
    if pk not in ("file", "gz") and r.random() < 0.3:
        # other documents, which the search for the main one would find later
        top = os.path.dirname(d["main"])
        for k in range(r.randrange(1, 3)):
            n = os.path.join(top, r.choice(["zz-supp.tex", "zz/other.tex", "zzz.tex"]))
            d["files"].setdefault(n, docgen.single("%s/o%d" % (seed, k), tag="o%d" % k))
        d["others"] = True
    d["pack"] = pk
    d["pack_seed"] = r.randrange(1000)
    docgen.flavour(d, r)
    # file-system block size: how the raw reads are split
    return {"doc": d, "how": r.choice(ops.hows_for(d)), "order": r.choice(["sorted", "reversed", seed % 97]),
            "seed": seed & 0xFFFF, "pick": r.randrange(1 << 30)}


def is_main(doc):
    main = "/" + doc["main"]
    pack = doc["pack"]

    def f(op, rel, n):
        if op == "listdir" and n > 1:
            return False  # the search for a fallback bibliography: C06
        if pack == "file":
            return rel.endswith(main)
        if pack == "folder":
            return rel.endswith(main) or op in ("listdir",) or rel == "in/d"
        if rel.startswith("in/"):
            return True
        if not rel.startswith("tmp"):
            return False
        if op in ("unlink", "rmdir", "opendir", "lstat"):
            return False  # removal of the temporary folder: C04
        if op in ("open_w", "write", "close_w", "mkdir", "listdir"):
            return True
        if pack == "gz":
            return True
        return rel.endswith(main)
    return f


def late(doc, trace):
    """Operations on the main document that belong to its last reading."""
    main = "/" + doc["main"]
    opens = [k for k, (op, rel, n) in enumerate(trace) if op == "open_r" and rel.endswith(main)]
    if len(opens) < 3:
        return set()
    return {t for k, t in enumerate(trace) if k >= opens[-1] and t[1].endswith(main) and t[0] in ("open_r", "read")}


def go(root, case, plan):
    doc = case["doc"]
    run = ops.Run(root, case["seed"], case["order"])
    path = ops.place(run.w, doc, "in/d")
    run.w.set_plan(plan)
    box = {}

    def one():
        rd = box.get("rd") or ops.reader()
        box["rd"] = rd
        return ops.to_out(rd, ops.process(rd, path, case["how"]))
    out = run.active(one)
    trace = run.w.trace
    nf = len(run.w.fired)
    d = {"out": out, "trace": trace if not plan else None, "hit": nf,
         "other": any(x[0] == "listdir" and x[2] > 1 for x in run.w.fired)}
    if plan and not ("ok" in out and not nf):
        run.w.set_plan([])
        d["again"] = run.active(one)
    d.update(run.stats())
    return d


def documented(o, how):
    if "err" not in o:
        return False
    if o["err"] == "TexProcessingError" or "TexProcessingError" in o["mro"]:
        return True
    if o["err"] == "FileNotFoundError" or "FileNotFoundError" in o["mro"]:
        return True
    return how == "process_compressed" and o["err"] == "RuntimeError"


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(go, case, []))
    if stuck(v, ref, "reference-stuck", "the conversion", case):
        return v
    if "ok" not in ref["out"]:
        v["sig"] = "ref-error"
        return v
    plans = case.get("plans")
    if plans is None:
        r = random.Random("C05p/%s" % case["pick"])
        allow, sticky = is_main(case["doc"]), 0.25
        if case["doc"].get("others"):
            ok, sticky = late(case["doc"], [tuple(t) for t in ref["trace"]]), 0
            allow = lambda op, rel, n: (op, rel, n) in ok or (rel.startswith("in/") and case["doc"]["pack"] != "folder" and op in ("open_r", "read"))
            probe(v, "other_documents")
        plans = [[f] for f in faults.picks(r, ref["trace"], PER, allow=allow, sticky=sticky)]
    hit = 0
    for plan in plans:
        res = add(v, ctx.fork(go, case, plan))
        one = dict(case, plans=[plan])
        what = "%s of a %s under %s" % (case["how"], case["doc"]["pack"], faults.describe(plan))
        if stuck(v, res, "stuck-under-fault", what, one):
            return v
        if not res["hit"]:
            probe(v, "fault_not_reached")
            continue
        if res["other"]:
            # also struck the later search for a fallback bibliography: C06
            probe(v, "left_to_C06")
            continue
        hit += 1
        o = res["out"]
        if "ok" in o:
            if not ops.same(ref["out"], o):
                fail(v, "false-success", "%s returned a different result as a success: %s" % (what, ops.diff_brief(ref["out"], o)), one)
                return v
            probe(v, "tolerated")
        elif not documented(o, case["how"]):
            fail(v, "undocumented-error", "%s raised %s" % (what, ops.brief(o)), one)
            return v
        else:
            probe(v, "reported")
        if "again" in res and not ops.same(ref["out"], res["again"]):
            fail(v, "unusable-after-fault", "after %s the same conversion without fault gives: %s"
                 % (what, ops.diff_brief(ref["out"], res["again"])), one)
            return v
    v["nontrivial"] = hit > 0
    v["sig"] = sig([case["doc"], case["how"], case["order"]])
    v["sample"] = {"how": case["how"], "pack": case["doc"]["pack"], "files": sorted(case["doc"]["files"]), "plans": plans[:3]}
    return v


def shrinks(case):
    for k, p in enumerate(case.get("plans") or []):
        if len(p) > 1:
            for j in range(len(p)):
                yield dict(case, plans=[p[:j] + p[j + 1:]])
    d = case["doc"]
    for f in sorted(d["files"]):
        if f != d["main"]:
            yield dict(case, doc=dict(d, files={k: x for k, x in d["files"].items() if k != f}))
    for f in sorted(d["files"]):
        for t in shrink_text(d["files"][f]):
            yield dict(case, doc=dict(d, files=dict(d["files"], **{f: t})))
