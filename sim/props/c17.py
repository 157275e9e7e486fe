"""C17 - running out of memory or stack is never a success.

A simulated process converts documents and serialises and saves their results.
A recording run numbers every source line executed in the package and measures
the depth of the stack; then, at seeded points, an allocation fails (rare lines
as likely as frequent ones), or the caller leaves the operation too little
stack, or a file operation runs out of memory, once, several times or each time, in
warm and in cold interpreters.  A disturbed operation must raise an
out-of-memory, recursion or documented error or give exactly the undisturbed
result (in a project of several files one that lacks content of a secondary
file); every operation performed afterwards with the same objects must give what
it gives in a fresh process, and no handle may stay open.
"""
import dis
import os
import random
import sys

import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from boot import PKG
from props import c01, c11

ID = "C17"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 500, "thorough": 12000}
PER = 8
RULE = __doc__
ASSUMPTIONS = ["an allocation fails at the beginning of a source line of the package or in a file operation; failures inside extension modules are not injected",
               "which content of a secondary file is lost when memory runs out while it is read is not judged"]
DOCUMENTED = {"TexProcessingError", "RuntimeError", "FileNotFoundError", "MemoryError", "RecursionError"}


GUARDED = {}


def guarded(code):
    """Lines of a function whose failure some handler in it sees."""
    g = GUARDED.get(code)
    if g is None:
        g = GUARDED[code] = set()
        if code.co_exceptiontable:
            line = {}
            cur = None
            starts = dict(dis.findlinestarts(code))
            for off in range(0, len(code.co_code), 2):
                cur = starts.get(off, cur)
                line[off] = cur
            for e in dis._parse_exception_table(code):
                if not e.lasti:
                    g.update(line[o] for o in range(e.start, e.end, 2) if o in line)
    return g


class Lines(c11.Lines):
    """Raises MemoryError instead of KeyboardInterrupt, `times` times in a row."""

    def __init__(self, w, record=False):
        self.w = w
        self.n = 0
        self.at = 0
        self.fired = None
        self.hits = 0
        self.times = 1
        self.depth = 0
        self.again = False
        self.place = None
        self.rec = {} if record else None
        self.base = 0
        mon = sys.monitoring
        self.mon = mon
        npkg = len(PKG)

        def cb(code, line):
            fn = code.co_filename
            if not fn.startswith(PKG):
                return mon.DISABLE
            self.n += 1
            if self.rec is not None:
                k = "%s:%d" % (fn[npkg:], line)
                if line in guarded(code):
                    k += "!"
                e = self.rec.get(k)
                if e is None:
                    self.rec[k] = [self.n]
                elif len(e) < 6 or self.n % 97 == 0:
                    e.append(self.n)
                if self.n % 7 == 0:
                    d = 0
                    f = sys._getframe(1)
                    while f is not None:
                        d += 1
                        f = f.f_back
                    if d > self.depth:
                        self.depth = d
            if self.at and self.at <= self.n and self.hits < self.times:
                self.hits += 1
                self.at = self.n + 1
                if not self.fired:
                    self.fired = "%s:%d" % (fn[npkg:], line)
                    self.place = (code, line) if self.again else None
                raise MemoryError()
            if self.place and line == self.place[1] and code is self.place[0]:
                raise MemoryError()
        mon.use_tool_id(self.TOOL, "l2jlines")
        mon.register_callback(self.TOOL, mon.events.LINE, cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()

    def arm(self, at, times=1, again=False):
        self.again = again
        self.place = None
        self.n = 0
        self.at = at
        self.times = times
        self.hits = 0
        self.fired = None
        self.depth = 0
        if self.rec is not None:
            self.rec = {}


def gen(seed, tier, i):
    c = c11.gen(seed, tier, i)
    r = random.Random("C17/%s" % seed)
    c["cold"] = r.random() < 0.08
    # a single file: every success must be exact
    for d in c["docs"]:
        if r.random() < 0.5 and d.get("pack") != "gz":
            d["files"] = {d["main"]: d["files"][d["main"]]}
    return c


def fds():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            out.add((int(f), W.REAL["readlink"]("/proc/self/fd/" + f)))
        except OSError:
            pass
    return out


def depth():
    d = 0
    f = sys._getframe(1)
    while f is not None:
        d += 1
        f = f.f_back
    return d


def hist(root, case, dists):
    """dists: {step index: {"line": n, "times": k, "again": bool} | {"stack": n} | {"fault": plan entry}}"""
    run = ops.Run(root, case["seed"])
    w = run.w
    paths = [ops.place(w, d, "in/a%d" % k) for k, d in enumerate(case["docs"])]
    rds = {}
    log = []
    rec = not dists
    ln = Lines(w, rec)
    limit = sys.getrecursionlimit()
    for k, st in enumerate(case["steps"]):
        w.reset_counts()
        d = dists.get(k) or {}
        w.set_plan([d["fault"]] if "fault" in d else [])
        w.fired.clear()
        before = fds()
        ln.arm(d.get("line", 0), d.get("times", 1), d.get("again", False))
        base = [0]

        def go():
            base[0] = depth()
            rd = rds.get(st["rd"])
            if rd is None:
                rd = rds[st["rd"]] = ops.reader()
            target = os.path.join(w.root, "out/s%d/x.json" % k)

            def work():
                res = ops.process(rd, paths[st["doc"]], st["how"])
                s = ops.to_out(rd, res)
                if st["save"]:
                    rd.save_to_json(res, target)
                return s
            if "stack" in d:
                sys.setrecursionlimit(depth() + d["stack"])
                try:
                    s = work()
                finally:
                    sys.setrecursionlimit(limit)
            else:
                s = work()
            if st["save"]:
                with W.REAL_OPEN(target, encoding="utf-8", newline="") as f:
                    s += "\0" + f.read()
            return s
        o = run.active(go)
        sys.setrecursionlimit(limit)
        after = fds()
        e = {"o": o, "fired": ln.fired or (str(w.fired[0]) if w.fired else None), "n": ln.n,
             "fds": sorted(str(x[1]).replace(w.root, "$ROOT") for x in after - before)}
        if rec:
            e["lines"] = ln.rec
            e["depth"] = ln.depth - base[0]
            e["trace"] = list(w.trace)
        log.append(e)
    ln.stop()
    d = {"log": log}
    d.update(run.stats())
    return d


def one(root, doc, how, save, cold):
    r = ops.Run(root, 0)
    path = ops.place(r.w, doc, "in/d")

    def go():
        rd = ops.reader()
        res = ops.process(rd, path, how)
        s = ops.to_out(rd, res)
        if save:
            t = os.path.join(r.w.root, "out/s/x.json")
            rd.save_to_json(res, t)
            with W.REAL_OPEN(t, encoding="utf-8", newline="") as f:
                s += "\0" + f.read()
        return s
    out = r.active(go)
    d = {"out": out}
    d.update(r.stats())
    return d


def call(ctx, case, fn, *args):
    if case.get("cold"):
        root = ctx.scratch.new()
        try:
            return ctx.interp("cold").call("props.c17", fn.__name__, (root,) + args)
        finally:
            ctx.scratch.drop(root)
    return ctx.fork(fn, *args)


def execute(case, ctx):
    v = verdict()
    refs = []
    for st in case["steps"]:
        doc = case["docs"][st["doc"]]
        x = add(v, ctx.ref(("C17", doc, st["how"], st["save"]), one, doc, st["how"], st["save"], False))
        if stuck(v, x, "stuck", "the reference run", case):
            return v
        refs.append(x["out"])
    ds = case.get("dists")
    if ds is None:
        rec = add(v, call(ctx, case, hist, case, {}))
        if stuck(v, rec, "stuck", "the undisturbed history", case):
            return v
        r = random.Random("C17p/%s" % case["pick"])
        last = len(case["steps"]) - 1
        ds = []
        for _ in range(PER if not case.get("cold") else 5):
            d = {}
            for k in sorted({r.randrange(max(1, last)) for _ in range(r.choice([1, 1, 2]))}):
                e = rec["log"][k]
                x = r.random()
                if x < 0.25:
                    # too little stack: anywhere from almost none to just enough
                    d[k] = {"stack": r.randrange(3, max(6, e["depth"] + 12))}
                    continue
                if x < 0.35:
                    c = [t for t in e["trace"] if t[0] in ("open_r", "open_w", "read", "write", "listdir", "mkdir", "stat")]
                    if c:
                        op, rel, n = r.choice(c)
                        d[k] = {"fault": {"op": op, "path": rel, "nth": n, "kind": "memory"}}
                        continue
                if e["lines"] and r.random() < 0.75:
                    ks = sorted(e["lines"])
                    if case.get("cold") and r.random() < 0.6:
                        ks = [x for x in ks if x.startswith("latex_maps/")] or ks
                    elif r.random() < 0.4:
                        ks = [x for x in ks if x.endswith("!")] or ks
                    d[k] = {"line": r.choice(e["lines"][r.choice(ks)])}
                elif e["n"]:
                    d[k] = {"line": r.randrange(1, e["n"] + 1)}
                if k in d and r.random() < 0.2:
                    # the same allocation fails every time it is tried
                    d[k]["again"] = True
                elif k in d and r.random() < 0.2:
                    d[k]["times"] = r.choice([2, 3, 5, 50])
            if d:
                ds.append(d)
    ds = [{int(k): x for k, x in d.items()} for d in ds]
    hit = 0
    for d in ds:
        one_case = dict(case, dists=[{str(k): x for k, x in d.items()}])
        res = add(v, call(ctx, case, hist, case, d))
        what = "disturbances %s" % d
        if stuck(v, res, "stuck", what, one_case):
            return v
        before = []
        for k, e in enumerate(res["log"]):
            st = case["steps"][k]
            same = ops.same(e["o"], refs[k])
            # (an allocation failing at the `with` line itself, on the way out, keeps a file from being closed; that is
            # an artefact of injecting at lines)
            if e["fds"] and "line" not in d.get(k, ()):
                fail(v, "handle", "step %d (%s) with %s left open: %s" % (k, st["how"], d.get(k), e["fds"]), one_case)
                return v
            if k in d:
                key = "stack:exhausted" if "stack" in d[k] else ("line:memory" if "line" in d[k] else "op:memory")
                if e["fired"] or ("stack" in d[k] and not same):
                    hit += 1
                    v["stats"]["faults"][key] = v["stats"]["faults"].get(key, 0) + 1
                    v.setdefault("inter", []).append(e["fired"] or "stack:%d" % d[k]["stack"])
                before.append("%s at step %d" % (e["fired"] or d[k], k))
                if same:
                    probe(v, "unaffected")
                    continue
                if "ok" in e["o"]:
                    doc = case["docs"][st["doc"]]
                    if len(doc["files"]) == 1:
                        fail(v, "shortened", "step %d (%s), %s: returned another result: %s"
                             % (k, st["how"], e["fired"] or d[k], ops.diff_brief(refs[k], e["o"])), one_case)
                        return v
                    probe(v, "secondary_lost")
                    continue
                if not DOCUMENTED & set(e["o"].get("mro", ())):
                    fail(v, "undocumented", "step %d (%s), %s: %s" % (k, st["how"], e["fired"] or d[k], ops.brief(e["o"])), one_case)
                    return v
                probe(v, "reported_" + e["o"]["err"])
            elif not same:
                fail(v, "state-damaged" if before else "history", "step %d (document %d, reader %d) after %s: %s" % (
                    k, st["doc"], st["rd"], before, ops.diff_brief(refs[k], e["o"])), one_case)
                return v
    v["nontrivial"] = hit > 0
    v["sig"] = sig([case["docs"], case["steps"]])
    v["sample"] = {"steps": case["steps"], "disturbances": ds[:3], "cold": case.get("cold")}
    return v


shrinks = c11.shrinks
