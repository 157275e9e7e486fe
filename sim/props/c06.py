"""C06 - a failing secondary file costs only its own content.

Every case is a project with included documents, packages, classes and
bibliographies.  The fault-free conversion is recorded; then it is re-run with
faults on one or two secondary files (missing, unreadable, failing at the n-th
read, vanishing from some operation on).  Each run must give one of: the full
output, the output with the failed file(s) absent, or with them empty -- as
computed by the same code on such a project without any fault.
"""
import itertools
import os
import random

import docgen
import faults
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from runner import shrink_text

ID = "C06"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 560, "thorough": 6000}
PER = 8
RULE = __doc__
ASSUMPTIONS = ["each secondary file is referenced once", "faults hit reads of secondary files (extraction failures belong to C05)"]
EMPTY = {"tex": "", "sty": "", "cls": "", "bib": "%\n"}


def gen(seed, tier, i):
    r = random.Random("C06/%s" % seed)
    k = 0
    while True:
        p = docgen.project("%s/%d" % (seed, k))
        if p["secondary"]:
            break
        k += 1
    d = {"files": p["files"], "main": p["main"], "secondary": p["secondary"],
         "pack": r.choice(["file", "file", "file", "folder", "folder", "tar.gz", "zip"]), "pack_seed": r.randrange(1000)}
    if r.random() < 0.5:
        docgen.flavour(d, r)
    for f in sorted(d["secondary"]):
        if d["secondary"][f] == "tex" and isinstance(d["files"][f], str) and r.random() < 0.12:
            # more than one read-ahead buffer, so that there is a second and a third read
            d["files"][f] += "\n\n".join("Long %s %d %s." % (f[:-4].replace("/", "x"), k, "dolor sit " * 60) for k in range(r.randrange(20, 80))) + "\n"
        elif d["secondary"][f] in ("sty", "cls") and isinstance(d["files"][f], str) and r.random() < 0.2:
            x = d["files"][f].rstrip("\n").split("\n")
            k = r.randrange(len(x) + 1)
            m = d["files"][d["main"]]
            if isinstance(m, str) and "\\end{document}" in m and "tex" not in f[:-4] and r.random() < 0.8:
                # something on either side that shows
                a, b = "pre" + "abcdef"[r.randrange(6)] * 3, "post" + "abcdef"[r.randrange(6)] * 3
                if a not in m and b not in m:
                    x = ["\\newtheorem{%s}{First}" % a] + x + ["\\newtheorem{%s}{Last}" % b]
                    k = r.randrange(1, len(x))
                    d["files"][d["main"]] = m.replace("\\end{document}", "\\begin{%s} one \\end{%s}\n\n\\begin{%s} two \\end{%s}\n\\end{document}" % (a, a, b, b))
            d["files"][f] = "\n".join(x[:k] + ["%% remark %d of the package" % k for k in range(r.choice([500, 1500, 4000]))] + x[k:]) + "\n"
    return {"doc": d, "how": r.choice(ops.hows_for(d)), "order": r.choice(["sorted", "reversed", seed % 97]),
            "seed": seed & 0xFFFF, "pick": r.randrange(1 << 30)}


def go(root, case, plan):
    doc = case["doc"]
    run = ops.Run(root, case["seed"], case["order"])
    path = ops.place(run.w, doc, "in/d")
    run.w.set_plan(plan)

    def one():
        rd = ops.reader()
        return ops.to_out(rd, ops.process(rd, path, case["how"]))
    d = {"out": run.active(one), "trace": None if plan else run.w.trace}
    d.update(run.stats())
    return d


def target(doc, op, rel, n):
    """The group of secondary files an operation belongs to, or None."""
    if op in ("open_w", "write", "close_w", "mkdir", "unlink", "rmdir", "opendir", "lstat", "chmod", "utime"):
        return None
    pack = doc["pack"]
    if pack in ("file", "folder"):
        if not rel.startswith("in/d/"):
            if op == "listdir" and rel == "in/d" and (pack == "file" or n > 1):
                return "*bbl"
            return None
        sub = rel[5:]
    else:
        if not rel.startswith("tmp/"):
            return None
        sub = rel.split("/", 2)[2] if rel.count("/") >= 2 else None
        if sub is None:
            return None
    if op == "listdir":
        if pack not in ("file", "folder"):
            return None
        return "*bbl" if sub == os.path.dirname(doc["main"]) and (pack == "file" or n > 1) else None
    if sub in doc["secondary"]:
        return sub
    for ext in (".tex", ".bib", ".bbl"):
        if sub + ext in doc["secondary"]:
            return sub + ext
    return None


def groups(doc, t):
    if t == "*bbl":
        return [f for f in doc["secondary"] if f.endswith(".bbl")]
    return [t]


def variant(doc, assign):
    files = dict(doc["files"])
    for f, how in assign.items():
        if how == "absent":
            files.pop(f, None)
        else:
            files[f] = EMPTY[doc["secondary"][f]]
    return dict(doc, files=files)


def absent_kinds(root, case, name, kind):
    """The project with one file missing in a particular way."""
    doc = case["doc"]
    run = ops.Run(root, case["seed"], case["order"])
    path = ops.place(run.w, doc, "in/d")
    p = os.path.join(run.w.root, "in/d", name)
    if kind != "intact":
        os.unlink(p)
    if kind == "directory":
        os.mkdir(p)
    elif kind == "dangling":
        os.symlink("nowhere-to-be-found", p)
    elif kind == "loop":
        os.symlink(os.path.basename(p), p)
    elif kind == "empty":
        W.put(os.path.dirname(p), {os.path.basename(p): EMPTY[doc["secondary"][name]]})

    def one():
        rd = ops.reader()
        return ops.to_out(rd, ops.process(rd, path, case["how"]))
    d = {"out": run.active(one)}
    d.update(run.stats())
    return d


def missing(v, case, ctx):
    """A missing file costs the same as an empty one, however it is missing."""
    doc = case["doc"]
    todo = case.get("missing")
    if todo is None:
        if "plans" in case:
            return True
        r = random.Random("C06m/%s" % case["pick"])
        todo = [(f, r.choice(["absent", "absent", "directory", "dangling", "loop"]))
                for f in sorted(doc["secondary"]) if r.random() < 0.5]
    if doc["pack"] not in ("file", "folder"):
        return True
    fallback = any(f.endswith(".bbl") for f in doc["secondary"])
    for f, kind in todo:
        if doc["secondary"][f] == "bib" and (fallback or kind == "directory"):
            continue
        one = dict(case, missing=[(f, kind)], plans=[])
        a = add(v, ctx.fork(absent_kinds, case, f, kind))
        b = add(v, ctx.fork(absent_kinds, case, f, "empty"))
        what = "%s of a %s with %s missing (%s)" % (case["how"], doc["pack"], f, kind)
        if stuck(v, a, "stuck-missing", what, one):
            return False
        probe(v, "missing_" + kind)
        if not ops.same(b["out"], a["out"]):
            fail(v, "missing-not-local", "%s differs from the project with that file empty: %s" % (what, ops.diff_brief(b["out"], a["out"])), one)
            return False
    return True


def execute(case, ctx):
    v = verdict()
    doc = case["doc"]
    if not missing(v, case, ctx):
        return v
    ref = add(v, ctx.fork(go, case, []))
    if stuck(v, ref, "stuck", "the conversion", case):
        return v
    if "ok" not in ref["out"]:
        v["sig"] = "ref-error"
        return v
    plans = case.get("plans")
    if plans is None:
        r = random.Random("C06p/%s" % case["pick"])
        plans = []
        tr = [(op, rel, n) for op, rel, n in ref["trace"] if op in W.FAULTS and target(doc, op, rel, n)]
        for _ in range(PER):
            names = sorted({target(doc, *t) for t in tr})
            if not names:
                break
            plan = []
            for t in r.sample(names, min(len(names), 2 if r.random() < 0.25 else 1)):
                f = faults.pick(r, ref["trace"], allow=lambda op, rel, n: target(doc, op, rel, n) == t,
                                sticky=0.35 if t != "*bbl" and doc["pack"] in ("file", "folder") else 0.0)
                if f is not None:
                    plan.append(f)
            if plan:
                plans.append(plan)
    hit = 0
    for plan in plans:
        res = add(v, ctx.fork(go, case, plan))
        one = dict(case, plans=[plan])
        what = "%s of a %s under %s" % (case["how"], doc["pack"], faults.describe(plan))
        if stuck(v, res, "stuck-under-fault", what, one):
            return v
        if not res["fired"]:
            probe(v, "fault_not_reached")
            continue
        hit += 1
        if ops.same(ref["out"], res["out"]):
            probe(v, "no_effect")
            continue
        hard = [f for f in plan if f["kind"] != "short"]
        affected = []
        for f in hard:
            # nth 0 / "*" entries lose their occurrence: classify by path alone
            t = target(doc, "stat" if f["op"] == "*" else f["op"], f["path"], max(2, f["nth"]))
            for g in groups(doc, t) if t else []:
                if g in doc["files"] and g not in affected:
                    affected.append(g)
        ok = False
        refs = []
        if len(affected) <= 3:
            for combo in itertools.product(("full", "absent", "empty"), repeat=len(affected)):
                assign = {a: c for a, c in zip(affected, combo) if c != "full"}
                if not assign:
                    continue
                var = dict(case, doc=variant(doc, assign))
                key = ("C06", var["doc"]["files"], case["how"], case["order"], case["seed"], doc["pack"], doc["pack_seed"])
                x = add(v, ctx.ref(key, go, var, []))
                if isinstance(x, dict) and "out" in x:
                    refs.append(x["out"])
                    if ops.same(x["out"], res["out"]):
                        ok = True
                        probe(v, "as_" + "_".join(combo))
                        break
        else:
            ok = True
            probe(v, "too_many_affected")
        if not ok:
            cls = "conversion-failed" if "ok" not in res["out"] else ("short-read-visible" if not hard else "collateral-loss")
            fail(v, cls, "%s: the output is none of full / %s absent / empty: %s; compared with full: %s" % (
                what, affected, ops.brief(res["out"])[:100], ops.diff_brief(refs[0] if refs else ref["out"], res["out"])), one)
            return v
    v["nontrivial"] = hit > 0
    v["sig"] = sig([doc, case["how"], case["order"]])
    v["sample"] = {"how": case["how"], "pack": doc["pack"], "secondary": doc["secondary"], "plans": plans[:3]}
    return v


def shrinks(case):
    for k, p in enumerate(case.get("plans") or []):
        if len(p) > 1:
            for j in range(len(p)):
                yield dict(case, plans=[p[:j] + p[j + 1:]])
    d = case["doc"]
    hitp = " ".join(f["path"] for p in case.get("plans") or [] for f in p)
    for f in sorted(d["files"]):
        if f != d["main"] and f not in hitp:
            yield dict(case, doc=dict(d, files={k: x for k, x in d["files"].items() if k != f},
                                      secondary={k: x for k, x in d["secondary"].items() if k != f}))
    for f in sorted(d["files"]):
        for t in shrink_text(d["files"][f]):
            yield dict(case, doc=dict(d, files=dict(d["files"], **{f: t})))
