"""C09 - a reported save is complete, a failed save is reported.

A simulated process converts documents and saves results in a seeded history of
saves to new, existing, shared and nested targets.  Saves are disturbed by I/O
faults at recorded operations (mkdir, open, n-th write failing, torn or short,
close, rename, fsync ...) or interrupts, and retried.  After every save that
returned normally the target must hold exactly the serialisation (checked at
once, through the real file system); a save whose target does not must have
raised the documented error.
"""
import os
import random

import docgen
import faults
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from runner import shrink_list, shrink_text

ID = "C09"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 850, "thorough": 9000}
PER = 6
RULE = __doc__
ASSUMPTIONS = ["a save is not required to be atomic: only a save that returns normally promises the content of the target"]
TARGETS = ["out/a.json", "out/b.json", "out/new/c.json", "out/x/y/z/d.json", "out/pre.json", "out/prelong.json", "out/link.json", "out/\u00fc b.json", "out/dir.json", "out/file.txt/e.json"]


PRE = ["flip", "flip", "longer", "half", "equal", "empty", "hard"]


def occupied(p, kind, exp):
    """What an earlier version of the target may look like."""
    if os.path.isdir(p) or not os.path.isdir(os.path.dirname(p)) or exp is None:
        return
    if kind == "flip":
        # same size, other content
        data = exp[:len(exp) // 2] + bytes(b ^ 1 if 48 <= b < 58 else b for b in exp[len(exp) // 2:])
        if data == exp:
            data = exp[:-1] + b" "
    elif kind == "longer":
        data = exp + b" old tail" * 99
    elif kind == "half":
        data = exp[:len(exp) // 2]
    elif kind == "empty":
        data = b""
    else:
        data = exp
    if kind == "hard":
        if os.path.lexists(p):
            os.unlink(p)
        W.put(os.path.dirname(p), {"other-name.txt": b"shared"})
        os.link(os.path.join(os.path.dirname(p), "other-name.txt"), p)
        return
    with W.REAL_OPEN(p, "wb") as f:
        f.write(data)
    os.utime(p, (1_600_000_000, 1_600_000_000))


def gen(seed, tier, i):
    r = random.Random("C09/%s" % seed)
    docs = []
    for k in range(r.randrange(1, 4)):
        t = docgen.single("%s/%d" % (seed, k), tag="t%d" % k)
        x = r.random()
        if x < 0.3:
            t = t.replace("\\end{document}", "\n\n".join("Filler %d %s" % (j, r.choice(docgen.NONASCII) * 9 + " lorem ipsum" * 30)
                                                        for j in range(r.randrange(5, 80))) + "\n\\end{document}")
        if r.random() < 0.15:
            t = t.replace("\\end{document}", "\U0001d54f \U0001f600 \u2028 \x7f \\end{document}")
        if r.random() < 0.08:
            t = t.replace("\\end{document}", "\\unichar{\"D800} \\u{d800} \\u" + "d835 x\n\\end{document}")
        docs.append(docgen.flavour({"files": {"main.tex": t}, "main": "main.tex", "pack": "file"}, r))
    steps = [{"op": "read", "doc": k, "rd": r.randrange(2)} for k in range(len(docs))]
    for _ in range(r.randrange(2, 6)):
        x = r.random()
        if x < 0.85:
            steps.append({"op": "save", "res": r.randrange(len(docs)), "to": r.choice(TARGETS), "rd": r.randrange(2),
                          "as": r.choice(["str", "path", "rel"]), "pre": r.choice(PRE) if r.random() < 0.35 else None})
        else:
            steps.append({"op": "read", "doc": r.randrange(len(docs)), "rd": r.randrange(2)})
    if not any(s["op"] == "save" for s in steps):
        steps.append({"op": "save", "res": 0, "to": "out/a.json", "rd": 0, "as": "str"})
    return {"docs": docs, "steps": steps, "seed": seed & 0xFFFF, "pick": r.randrange(1 << 30)}


def hist(root, case, dist):
    run = ops.Run(root, case["seed"])
    w = run.w
    W.put(w.root, {"out/pre.json": "{}", "out/prelong.json": "old " * 60000, "out/file.txt": "not a folder", "out/real.json": "linked"})
    os.symlink("real.json", os.path.join(w.root, "out/link.json"))
    os.mkdir(os.path.join(w.root, "out/dir.json"))
    for k, d in enumerate(case["docs"]):
        ops.place(w, d, "in/d%d" % k)
    os.chdir(w.root)
    rds = [ops.reader(), ops.reader()]
    held = []
    log, traces = [], []
    for k, st in enumerate(case["steps"]):
        w.reset_counts()
        w.set_plan([])
        nf = len(w.fired)
        ent = {"k": k}
        if st["op"] == "read":
            box = []
            o = run.active(lambda: box.append(rds[st["rd"]].process(os.path.join(w.root, "in/d%d/main.tex" % st["doc"]))))
            if box:
                s = run.active(lambda: rds[st["rd"]].to_json(box[0]))
                held.append((box[0], s))
            else:
                ent["o"] = o
        elif held:
            res, s0 = held[st["res"] % len(held)]
            p = os.path.join(w.root, st["to"])
            target = st["to"] if st["as"] == "rel" else (p if st["as"] == "str" else __import__("pathlib").Path(p))
            if st.get("pre"):
                occupied(p, st["pre"], s0["ok"].encode("utf-8", "surrogatepass") if "ok" in s0 else None)
            if dist is not None and dist["step"] == k:
                w.set_plan(dist["faults"])
            o = run.active(lambda: rds[st["rd"]].save_to_json(res, target))
            ent["fired"] = w.fired[nf:]
            w.set_plan([])
            ent["trace"] = list(w.trace)
            ent["o"] = {a: b for a, b in o.items() if a != "ok"} or {"ok": o["ok"]}
            try:
                with W.REAL_OPEN(p, "rb") as f:
                    data = f.read()
            except OSError as e:
                data = None
                ent["noread"] = type(e).__name__
            exp = s0["ok"].encode("utf-8", "surrogatepass") if "ok" in s0 else None
            ent["exact"] = data is not None and data == exp
            if data is not None and not ent["exact"]:
                ent["have"], ent["want"] = len(data), len(exp or b"")
            # the result must still serialise as before, and a retry must work
            s1 = run.active(lambda: rds[st["rd"]].to_json(res))
            ent["same"] = ops.same(s0, s1)
            if ent["fired"]:
                o2 = run.active(lambda: rds[st["rd"]].save_to_json(res, target))
                ent["retry"] = {a: b for a, b in o2.items() if a != "ok"} or {"ok": o2["ok"]}
                try:
                    with W.REAL_OPEN(p, "rb") as f:
                        ent["retry_exact"] = f.read() == exp
                except OSError:
                    ent["retry_exact"] = False
            ent["sane"] = sorted(os.listdir(os.path.join(w.root, "in")))
        log.append(ent)
    d = {"log": log}
    d.update(run.stats())
    return d


def judge(v, case, dist, ref, res, what):
    one = dict(case, dists=[dist])
    for ent in res["log"]:
        st = case["steps"][ent["k"]]
        if st["op"] != "save" or "o" not in ent:
            continue
        fs = [f for f in ent.get("fired", ())]
        d = "%s, step %d (save to %s)" % (what, ent["k"], st["to"])
        o = ent["o"]
        if "ok" in o:
            if o["ok"] is not None:
                pass
            if not ent["exact"]:
                fail(v, "false-save", "%s returned normally but the target %s" % (
                    d, "holds %s of %s bytes" % (ent.get("have"), ent.get("want")) if "have" in ent else "cannot be read: %s" % ent.get("noread")), one)
                return False
        elif "interrupt" in o:
            if not any(f[3] == "interrupt" for f in fs):
                fail(v, "undocumented-error", "%s: %s" % (d, ops.brief(o)), one)
                return False
        elif "err" in o:
            if not ({"TexProcessingError", "FileNotFoundError"} & set(o["mro"])):
                fail(v, "undocumented-error", "%s raised %s" % (d, ops.brief(o)), one)
                return False
        else:
            fail(v, "undocumented-error", "%s: %s" % (d, ops.brief(o)), one)
            return False
        if not ent["same"]:
            fail(v, "result-changed", "%s: the result serialises differently afterwards" % d, one)
            return False
        if "retry" in ent and ref is not None:
            r0 = ref["log"][ent["k"]]["o"]
            if not ops.same(r0, ent["retry"]) or ("ok" in r0 and not ent["retry_exact"]):
                fail(v, "retry-fails", "%s: saving again without fault gives %s (content exact: %s), expected %s"
                     % (d, ops.brief(ent["retry"]), ent["retry_exact"], ops.brief(r0)), one)
                return False
        if any(f[3] == "interrupt" for f in fs) and "interrupt" not in o:
            fail(v, "interrupt-swallowed", "%s: the interrupt did not reach the caller: %s" % (d, ops.brief(o)), one)
            return False
    return True


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(hist, case, None))
    if stuck(v, ref, "stuck", "the undisturbed history", case):
        return v
    if not judge(v, case, None, None, ref, "no fault"):
        return v
    # undisturbed saves to healthy targets must succeed
    for ent in ref["log"]:
        st = case["steps"][ent["k"]]
        if st["op"] == "save" and "o" in ent and "ok" not in ent["o"] and st["to"] not in ("out/dir.json", "out/file.txt/e.json") \
                and "surrogates" not in ent["o"].get("msg", ""):
            fail(v, "save-fails", "saving to %s without any fault gives %s" % (st["to"], ops.brief(ent["o"])), dict(case, dists=[None]))
            return v
    dists = case.get("dists")
    if dists is None:
        r = random.Random("C09p/%s" % case["pick"])
        dists = []
        saves = [k for k, s in enumerate(case["steps"]) if s["op"] == "save" and "trace" in ref["log"][k]]
        for _ in range(PER if saves else 0):
            k = r.choice(saves)
            f = faults.pick(r, ref["log"][k]["trace"], allow=lambda op, rel, n: rel.startswith("out"), sticky=0.1)
            if f is None:
                continue
            if f["op"] == "*":
                f["op"], f["nth"] = "write", 0
                f["kind"] = "ENOSPC"
            fs = [f]
            if r.random() < 0.15:
                f["kind"] = "interrupt"
                f.pop("arg", None)
            elif r.random() < 0.2:
                g = faults.pick(r, ref["log"][k]["trace"], allow=lambda op, rel, n: rel.startswith("out"), sticky=0.0)
                if g is not None and (g["op"], g["nth"]) != (f["op"], f["nth"]):
                    fs.append(g)
            dists.append({"step": k, "faults": fs})
    hit = 0
    for dist in dists:
        if dist is None:
            continue
        res = add(v, ctx.fork(hist, case, dist))
        what = "under %s" % faults.describe(dist["faults"])
        if stuck(v, res, "stuck", what, dict(case, dists=[dist])):
            return v
        if not judge(v, case, dist, ref, res, what):
            return v
        ent = res["log"][dist["step"]]
        if ent.get("fired"):
            hit += 1
            probe(v, "faulted_save_" + ("ok" if "ok" in ent["o"] else "reported"))
    for ent in ref["log"]:
        if "exact" in ent:
            if case["steps"][ent["k"]].get("pre"):
                probe(v, "target_" + case["steps"][ent["k"]]["pre"])
            probe(v, "clean_save_" + ("ok" if "ok" in ent["o"] else "reported"))
    v["nontrivial"] = hit > 0
    v["sig"] = sig([case["docs"], case["steps"]])
    v["sample"] = {"steps": case["steps"], "disturbances": dists[:3]}
    return v


def shrinks(case):
    ds = case.get("dists")
    keep = ds[0]["step"] if ds and ds[0] else None
    if ds and ds[0] and len(ds[0]["faults"]) > 1:
        for f in ds[0]["faults"]:
            yield dict(case, dists=[dict(ds[0], faults=[f])])
    for k in range(len(case["steps"]) - 1, -1, -1):
        if k == keep or len(case["steps"]) == 1:
            continue
        c = dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
        if ds and ds[0]:
            c["dists"] = [dict(ds[0], step=keep - (k < keep))]
        yield c
    for k, d in enumerate(case["docs"]):
        for t in shrink_text(d["files"]["main.tex"]):
            yield dict(case, docs=case["docs"][:k] + [dict(d, files={"main.tex": t})] + case["docs"][k + 1:])
