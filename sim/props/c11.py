"""C11 - an interrupt stops the conversion and harms nothing.

A simulated process converts documents and serialises and saves their results.
A recording run numbers every source line executed in the package and every
file operation; then keyboard interrupts are delivered at seeded points of
these (rare lines as likely as frequent ones), one or two per run, in warm and
in cold interpreters.  The interrupt must reach the caller after a bounded
number of further lines, and every operation performed afterwards with the same
objects must give what it gives in a fresh process.
"""
import os
import random
import sys

import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from boot import PKG
from props import c01
from runner import shrink_text

ID = "C11"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 300, "thorough": 7000}
PER = 8
PROMPT = 3000
RULE = __doc__
ASSUMPTIONS = ["an interrupt is delivered where CPython delivers it: between source lines of the package, or out of a file operation"]


class Lines:
    """Counts executed package lines; optionally raises at one of them."""
    TOOL = 5

    def __init__(self, w, record=False):
        self.w = w
        self.n = 0
        self.at = 0
        self.fired = None
        self.post = 0
        self.rec = {} if record else None
        mon = sys.monitoring
        self.mon = mon
        npkg = len(PKG)

        def cb(code, line):
            fn = code.co_filename
            if not fn.startswith(PKG):
                return mon.DISABLE
            if self.fired or w.fired:
                self.post += 1
                return
            self.n += 1
            if self.rec is not None:
                k = "%s:%d" % (fn[npkg:], line)
                e = self.rec.get(k)
                if e is None:
                    self.rec[k] = [self.n]
                elif len(e) < 6 or self.n % 97 == 0:
                    e.append(self.n)
            if self.n == self.at:
                self.fired = "%s:%d" % (fn[npkg:], line)
                raise KeyboardInterrupt()
        mon.use_tool_id(self.TOOL, "l2jlines")
        mon.register_callback(self.TOOL, mon.events.LINE, cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()

    def arm(self, at):
        self.n = 0
        self.at = at
        self.fired = None
        self.post = 0
        if self.rec is not None:
            self.rec = {}

    def stop(self):
        self.mon.set_events(self.TOOL, 0)
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, None)
        self.mon.free_tool_id(self.TOOL)


def gen(seed, tier, i):
    r = random.Random("C11/%s" % seed)
    nd = r.randrange(1, 4)
    docs = [c01.gen_doc(r, seed, k) for k in range(nd)]
    steps = []
    for _ in range(r.randrange(1, 4)):
        di = r.randrange(nd)
        steps.append({"doc": di, "how": r.choice(ops.hows_for(docs[di])), "rd": 0 if r.random() < 0.8 else 1,
                      "save": r.random() < 0.4})
    for di in range(nd):
        steps.append({"doc": di, "how": ops.hows_for(docs[di])[0], "rd": r.choice([0, 0, 1]), "save": False})
    return {"docs": docs, "steps": steps, "seed": seed & 0xFFFF, "cold": r.random() < 0.08, "pick": r.randrange(1 << 30)}


def one(root, doc, how, save, cold):
    """Reference: the same step in a fresh process."""
    r = ops.Run(root, 0)
    path = ops.place(r.w, doc, "in/d")

    def go():
        rd = ops.reader()
        res = ops.process(rd, path, how)
        s = ops.to_out(rd, res)
        if save:
            rd.save_to_json(res, os.path.join(r.w.root, "out/s/x.json"))
        return s
    out = r.active(go)
    d = {"out": out}
    d.update(r.stats())
    return d


def hist(root, case, dists):
    """dists: {step index: {"line": n} | {"fault": plan entry}}"""
    run = ops.Run(root, case["seed"])
    w = run.w
    paths = [ops.place(w, d, "in/a%d" % k) for k, d in enumerate(case["docs"])]
    rds = {}
    log = []
    rec = not dists
    ln = Lines(w, rec)
    for k, st in enumerate(case["steps"]):
        w.reset_counts()
        d = dists.get(k)
        w.set_plan([d["fault"]] if d and "fault" in d else [])
        w.fired.clear()
        ln.arm(d["line"] if d and "line" in d else 0)

        def go():
            rd = rds.get(st["rd"])
            if rd is None:
                rd = rds[st["rd"]] = ops.reader()
            res = ops.process(rd, paths[st["doc"]], st["how"])
            s = ops.to_out(rd, res)
            if st["save"]:
                rd.save_to_json(res, os.path.join(w.root, "out/s%d/x.json" % k))
            return s
        o = run.active(go)
        e = {"o": o, "fired": ln.fired or (str(w.fired[0]) if w.fired else None), "post": ln.post}
        if rec:
            e["lines"] = ln.rec
            e["n"] = ln.n
            e["trace"] = list(w.trace)
        log.append(e)
    ln.stop()
    d = {"log": log}
    d.update(run.stats())
    return d


def call(ctx, case, fn, *args):
    if case.get("cold"):
        root = ctx.scratch.new()
        try:
            return ctx.interp("cold").call("props.c11", fn.__name__, (root,) + args)
        finally:
            ctx.scratch.drop(root)
    return ctx.fork(fn, *args)


def execute(case, ctx):
    v = verdict()
    refs = []
    for st in case["steps"]:
        doc = case["docs"][st["doc"]]
        x = add(v, ctx.ref(("C11", doc, st["how"], st["save"]), one, doc, st["how"], st["save"], False))
        if stuck(v, x, "stuck", "the reference run", case):
            return v
        refs.append(x["out"])
    ds = case.get("dists")
    if ds is None:
        rec = add(v, call(ctx, case, hist, case, {}))
        if stuck(v, rec, "stuck", "the uninterrupted history", case):
            return v
        r = random.Random("C11p/%s" % case["pick"])
        last = len(case["steps"]) - 1
        ds = []
        for _ in range(PER if not case.get("cold") else 5):
            d = {}
            for k in sorted({r.randrange(max(1, last)) for _ in range(r.choice([1, 1, 2]))}):
                e = rec["log"][k]
                if r.random() < 0.15:
                    c = [t for t in e["trace"] if t[0] in W.FAULTS]
                    if c:
                        op, rel, n = r.choice(c)
                        d[k] = {"fault": {"op": op, "path": rel, "nth": n, "kind": "interrupt"}}
                        continue
                if e["lines"] and r.random() < 0.75:
                    ks = sorted(e["lines"])
                    if case.get("cold") and r.random() < 0.6:
                        ks = [x for x in ks if x.startswith("latex_maps/")] or ks
                    d[k] = {"line": r.choice(e["lines"][r.choice(ks)])}
                elif e["n"]:
                    d[k] = {"line": r.randrange(1, e["n"] + 1)}
            if d:
                ds.append(d)
    ds = [{int(k): x for k, x in d.items()} for d in ds]
    hit = 0
    for d in ds:
        one_case = dict(case, dists=[{str(k): x for k, x in d.items()}])
        res = add(v, call(ctx, case, hist, case, d))
        what = "interrupts %s" % d
        if stuck(v, res, "stuck", what, one_case):
            return v
        before = False
        for k, e in enumerate(res["log"]):
            st = case["steps"][k]
            if e["fired"]:
                hit += 1
                before = True
                key = "line:interrupt" if "line" in d[k] else "op:interrupt"
                v["stats"]["faults"][key] = v["stats"]["faults"].get(key, 0) + 1
                v.setdefault("inter", []).append(e["fired"])
                if "interrupt" not in e["o"]:
                    fail(v, "swallowed", "step %d (%s): the interrupt at %s did not reach the caller, who got %s"
                         % (k, st["how"], e["fired"], ops.brief(e["o"])), one_case)
                    return v
                if e["post"] > PROMPT:
                    fail(v, "not-prompt", "step %d: %d lines of the package ran after the interrupt at %s" % (k, e["post"], e["fired"]), one_case)
                    return v
                probe(v, "post_lines_max_%d" % (10 ** len(str(e["post"]))))
            elif not ops.same(e["o"], refs[k]):
                fail(v, "state-damaged" if before else "history", "step %d (document %d, reader %d) after %s: %s" % (
                    k, st["doc"], st["rd"], [x["fired"] for x in res["log"][:k] if x["fired"]], ops.diff_brief(refs[k], e["o"])), one_case)
                return v
    v["nontrivial"] = hit > 0
    v["sig"] = sig([case["docs"], case["steps"]])
    v["sample"] = {"steps": case["steps"], "interrupts": ds[:3], "cold": case.get("cold")}
    return v


def shrinks(case):
    ds = case.get("dists")
    if ds and len(ds[0]) > 1:
        for k in sorted(ds[0]):
            yield dict(case, dists=[{a: b for a, b in ds[0].items() if a != k}])
    for k in range(len(case["steps"]) - 1, -1, -1):
        if not ds or str(k) in ds[0]:
            continue
        c = dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
        c["dists"] = [{str(int(a) - (int(a) > k)): b for a, b in ds[0].items()}]
        yield c
    for k, st in enumerate(case["steps"]):
        if st["save"]:
            s = [dict(x) for x in case["steps"]]
            s[k]["save"] = False
            yield dict(case, steps=s)
    hit = {case["steps"][int(a)]["doc"] for a in (ds[0] if ds else {})}
    for k, d in enumerate(case["docs"]):
        if k in hit:
            continue
        for f in sorted(d["files"]):
            if f != d["main"] and d.get("pack") != "gz":
                yield dict(case, docs=case["docs"][:k] + [dict(d, files={x: y for x, y in d["files"].items() if x != f})] + case["docs"][k + 1:])
        for f in sorted(d["files"]):
            for t in shrink_text(d["files"][f]):
                yield dict(case, docs=case["docs"][:k] + [dict(d, files=dict(d["files"], **{f: t}))] + case["docs"][k + 1:])
