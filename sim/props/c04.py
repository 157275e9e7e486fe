"""C04 - temporary work folders never outlive their owner.

A simulated process performs a seeded history of attempts to process archives
(healthy, damaged, without a main file, missing) through every entry point and
clean-up setting.  In each history one attempt is disturbed: an I/O failure at
a recorded operation, or an interrupt at a recorded operation or at the n-th
line of the parser; or a clean-up meets a failure or an interrupt, and is
repeated.  After every step the system temporary folder must contain
exactly the folders owned by live results.
"""
import os
import random

import docgen
import faults
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from boot import PKG
from runner import Interrupter, shrink_list, shrink_text

ID = "C04"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 1800, "thorough": 14400}
PER = 6
RULE = __doc__
ASSUMPTIONS = ["faults are injected into an attempt before it begins to remove its folder; in a clean-up asked for they are injected anywhere, and it must then report them and succeed when repeated",
               "interrupts arrive at file operations or while the document is parsed"]
SUB = ("parser/", "structure/", "utils/")


def gen_arc(r, seed, k):
    pk = r.choice(["tar.gz", "tgz", "zip", "gz", "tar.gz", "zip"])
    if pk == "gz" or r.random() < 0.5:
        d = {"files": {"main.tex": docgen.single("%s/%d" % (seed, k))}, "main": "main.tex"}
    else:
        p = docgen.project("%s/%d" % (seed, k))
        d = {"files": p["files"], "main": p["main"]}
    d["pack"] = pk
    d["pack_seed"] = r.randrange(1000)
    d["modes"] = r.choice([None, None, None, 0o000, 0o444, 0o111, 0o500, 0o7777])
    x = r.random()
    d["state"] = "ok"
    if x < 0.12:
        d["state"] = "nomain"
        d["files"] = {f: t.replace("\\documentclass", "%").replace("\\begin{document}", "").replace("\\end{document}", "")
                      for f, t in d["files"].items()}
    elif x < 0.24:
        d["state"] = "truncated"
        d["cut"] = r.random()
    elif x < 0.30:
        d["state"] = "garbage"
    elif x < 0.34:
        d["state"] = "missing"
    return d


def gen(seed, tier, i):
    r = random.Random("C04/%s" % seed)
    arcs = [gen_arc(r, seed, k) for k in range(r.randrange(1, 4))]
    steps = []
    for _ in range(r.randrange(2, 6)):
        x = r.random()
        if x < 0.75 or not steps:
            steps.append({"op": "try", "arc": r.randrange(len(arcs)), "how": r.choice(["process", "process", "process_compressed", "extract", "extract_raise"]),
                          "cleanup": r.random() < 0.5, "rd": r.randrange(2)})
        else:
            steps.append({"op": r.choice(["cleanup", "cleanup", "vanish", "drop"]), "i": r.randrange(4)})
    for k in range(2):
        steps.append({"op": "cleanup", "i": k})
    return {"arcs": arcs, "steps": steps, "seed": seed & 0xFFFF, "order": r.choice(["sorted", seed % 97]),
            "dup": 0, "unpriv": r.random() < 0.3, "pick": r.randrange(1 << 30)}


def _place(w, d, base):
    data = d.get("bytes")
    if data is None:
        data = ops.pack(d["files"] if d["pack"] != "gz" else {d["main"]: d["files"][d["main"]]}, d["pack"], d["pack_seed"], modes=d.get("modes"))
        if d["state"] == "truncated":
            data = data[:int(len(data) * d["cut"])]
        elif d["state"] == "garbage":
            data = b"\x1f\x8b garbage" * 20
    path = os.path.join(w.root, base, "paper." + d["pack"])
    if d["state"] != "missing":
        W.put(os.path.dirname(path), {os.path.basename(path): data})
    return path


class Boom(Exception):
    pass


def hist(root, case, dist):
    """dist: None or {"step": k, "faults": [...]} or {"step": k, "int": n}"""
    run = ops.Run(root, case["seed"], case["order"])
    w = run.w
    import tempfile
    tempfile._name_sequence = W.SimNames(case["seed"], case["dup"])
    paths = [_place(w, d, "in/a%d" % k) for k, d in enumerate(case["arcs"])]
    put_by_others = os.path.join(w.root, "tmp", "other")
    os.mkdir(put_by_others)
    W.put(put_by_others, {"keep.txt": "x"})
    if case.get("unpriv"):
        run.unpriv()
    readers, results, log = {}, [], []
    traces = []
    tmp = os.path.join(w.root, "tmp")
    for k, st in enumerate(case["steps"]):
        w.reset_counts()
        w.set_plan([])
        it = None
        ent = {"k": k}
        me = dist is not None and dist["step"] == k
        if me and "faults" in dist:
            w.set_plan(dist["faults"])
        nf = len(w.fired)
        if st["op"] == "try":
            rd = readers.get(st["rd"]) or ops.reader()
            readers[st["rd"]] = rd
            path = paths[st["arc"]]
            box = []

            def go():
                if st["how"] == "process":
                    box.append(rd.process(path, cleanup=st["cleanup"]))
                elif st["how"] == "process_compressed":
                    box.append(rd.process_compressed(path, cleanup=st["cleanup"]))
                else:
                    from latex2json.tex_file_extractor import TexFileExtractor
                    with TexFileExtractor.from_compressed(path, cleanup=st["cleanup"]) as (m, t):
                        W.REAL["lstat"](os.path.join(t, m))
                        if st["how"] == "extract_raise":
                            raise Boom("by the caller")
                        box.append(t)
            if me and "int" in dist:
                it = Interrupter(dist["int"], PKG, SUB, KeyboardInterrupt)
            o = run.active(go)
            if it:
                ent["int_fired"] = it.fired
                it.stop()
            ent["o"] = {x: y for x, y in o.items() if x != "ok"} or {"ok": o["ok"]}
            if box:
                res = box[0]
                if isinstance(res, str):
                    td = res if not st["cleanup"] else None
                    results.append({"res": None, "dir": td})
                else:
                    td = str(res.temp_dir) if res.temp_dir else None
                    results.append({"res": res, "dir": td if not st["cleanup"] else None, "attr": td})
                    ent["main_ok"] = (st["cleanup"] or (td is not None and os.path.exists(str(res.main_tex_path))))
        else:
            if st["i"] < len(results):
                x = results[st["i"]]
                if st["op"] == "vanish":
                    # someone else removed the folder (a temp cleaner)
                    if x["dir"]:
                        import shutil
                        shutil.rmtree(x["dir"], ignore_errors=True)
                        x["dir"] = None
                elif st["op"] == "drop":
                    pass
                else:
                    def go():
                        if x["res"] is not None:
                            x["res"].cleanup()
                        elif x["dir"]:
                            import shutil
                            shutil.rmtree(x["dir"])
                    o = run.active(go)
                    ent["o"] = {a: b for a, b in o.items() if a != "ok"}
                    ent["cleanup"] = True
                    if len(w.fired) > nf and ent["o"]:
                        # reported: the clean-up can be repeated
                        w.set_plan([])
                        o = run.active(go)
                        if "ok" not in o:
                            ent["again"] = o
                    x["dir"] = None
        ent["fired"] = len(w.fired) - nf
        w.set_plan([])
        have = sorted(os.listdir(tmp))
        want = sorted({"other"} | {os.path.basename(x["dir"]) for x in results if x["dir"]})
        ent["have"], ent["want"] = have, want
        if not os.path.exists(os.path.join(put_by_others, "keep.txt")):
            ent["have"] = ["(foreign folder damaged)"]
        log.append(ent)
        traces.append(list(w.trace))
    d = {"log": log, "traces": traces if dist is None else None}
    d.update(run.stats())
    return d


def judge(v, case, dist, res, what):
    one = dict(case, dists=[dist])
    for ent in res["log"]:
        st = case["steps"][ent["k"]]
        if ent["have"] != ent["want"]:
            extra = [x for x in ent["have"] if x not in ent["want"]]
            lost = [x for x in ent["want"] if x not in ent["have"]]
            fail(v, "leaked-temp" if extra else "lost-temp",
                 "%s: after step %d (%s) the temporary folder holds %s, owned by results: %s; outcome %s"
                 % (what, ent["k"], st, extra or "-", lost or "-", ops.brief(ent.get("o", {}))), one)
            return False
        if ent.get("cleanup") and ent["o"] and not ent["fired"]:
            fail(v, "cleanup-error", "%s: clean-up in step %d (%s) raised %s" % (what, ent["k"], st, ops.brief(ent["o"])), one)
            return False
        if ent.get("again"):
            fail(v, "cleanup-error", "%s: clean-up in step %d (%s) failed and fails again without fault: %s" % (what, ent["k"], st, ops.brief(ent["again"])), one)
            return False
        if ent.get("main_ok") is False:
            fail(v, "no-folder", "%s: the result of step %d does not own its extracted folder" % (what, ent["k"]), one)
            return False
    return True


def before_removal(trace):
    """Operations of an attempt up to the point where removal of its folder begins."""
    out = []
    for op, rel, n in trace:
        if rel.startswith("tmp/") and op in ("opendir", "unlink", "rmdir"):
            break
        out.append((op, rel, n))
    # rmtree stats the folder just before opening it
    while out and out[-1][0] in ("lstat",):
        out.pop()
    return out


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(hist, case, None))
    if stuck(v, ref, "stuck", "the undisturbed history", case):
        return v
    if not judge(v, case, None, ref, "no fault"):
        return v
    dists = case.get("dists")
    if dists is None:
        r = random.Random("C04p/%s" % case["pick"])
        dists = []
        tries = [k for k, s in enumerate(case["steps"]) if s["op"] == "try"]
        cleans = [k for k, s in enumerate(case["steps"]) if s["op"] == "cleanup" and ref["traces"][k]]
        for _ in range(PER):
            if cleans and r.random() < 0.2:
                # a clean-up that cannot remove something, or is interrupted
                k = r.choice(cleans)
                f = faults.pick(r, ref["traces"][k], allow=lambda op, rel, n: op in ("opendir", "unlink", "rmdir", "listdir", "lstat", "stat"), sticky=0.0, short=False)
                if f is not None:
                    if r.random() < 0.3:
                        f["kind"] = "interrupt"
                        f.pop("arg", None)
                    dists.append({"step": k, "faults": [f]})
                continue
            k = r.choice(tries)
            tr = before_removal(ref["traces"][k])
            if r.random() < 0.3:
                dists.append({"step": k, "int": int(2 ** r.uniform(0, 14))})
                continue
            f = faults.pick(r, tr, allow=lambda op, rel, n: not (op in ("lstat",) and rel.startswith("tmp/")),
                            sticky=0.0, short=False)
            if f is None:
                continue
            if r.random() < 0.3:
                f["kind"] = "interrupt"
                f.pop("arg", None)
            elif f["path"].startswith("in/") and r.random() < 0.3:
                f["nth"] = 0
            dists.append({"step": k, "faults": [f]})
    if dists == [None]:
        dists = []
    hit = 0
    for dist in dists:
        res = add(v, ctx.fork(hist, case, dist))
        what = ("interrupt at line %d of step %d" % (dist["int"], dist["step"])) if "int" in dist else \
            "step %d under %s" % (dist["step"], faults.describe(dist["faults"]))
        if stuck(v, res, "stuck", what, dict(case, dists=[dist])):
            return v
        if not judge(v, case, dist, res, what):
            return v
        ent = res["log"][dist["step"]]
        if ent["fired"] or ent.get("int_fired"):
            hit += 1
            if ent.get("int_fired"):
                v["stats"]["faults"]["line:interrupt"] = v["stats"]["faults"].get("line:interrupt", 0) + 1
            probe(v, "disturbed_" + ("ok" if "ok" in ent["o"] else "failed"))
    for ent in ref["log"]:
        if "o" in ent and not ent.get("cleanup"):
            probe(v, "clean_" + ("ok" if "ok" in ent["o"] else "failed"))
    v["nontrivial"] = hit > 0
    v["sig"] = sig([case["arcs"], case["steps"]])
    v["sample"] = {"steps": case["steps"], "arcs": [[a["pack"], a["state"]] for a in case["arcs"]], "disturbances": dists[:3]}
    return v


def shrinks(case):
    ds = case.get("dists")
    keep = ds[0]["step"] if ds and ds[0] else None
    for k in range(len(case["steps"]) - 1, -1, -1):
        if k == keep or len(case["steps"]) == 1:
            continue
        c = dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
        if ds and ds[0]:
            c["dists"] = [dict(ds[0], step=keep - (k < keep))]
        yield c
    for k, d in enumerate(case["arcs"]):
        for f in sorted(d["files"]):
            if f != d["main"]:
                a = dict(d, files={x: y for x, y in d["files"].items() if x != f})
                yield dict(case, arcs=case["arcs"][:k] + [a] + case["arcs"][k + 1:])
        for f in sorted(d["files"]):
            for t in shrink_text(d["files"][f]):
                a = dict(d, files=dict(d["files"], **{f: t}))
                yield dict(case, arcs=case["arcs"][:k] + [a] + case["arcs"][k + 1:])
