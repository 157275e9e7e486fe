"""C02 - concurrent conversions behave as if each ran alone.

Two to four threads run seeded programs (conversions of files, folders and
archives, serialisations, saves), each with readers of its own, under a
scheduler that owns every switch: at each source line of the package and of a
few library modules it uses, each file operation and each lock operation.
Interleavings come from random and priority-based policies and from guided
search, which preempts a thread at a place chosen among those it was seen to
execute (rare places as likely as frequent ones), lets another thread go on, and
extends the schedule by further preemptions.  Some programs meet I/O faults on
their own files; some share their input or the folder they save to; a third of
the cases start in a process that has not used the package yet.  Every
operation of every thread must give what it gives when the thread's program
runs alone in a fresh process; no run may deadlock, and the process-wide state
must be as before.
"""
import gc
import locale
import logging
import os
import random
import sys
import tempfile
import warnings

import faults
import ops
import shared
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import c01, c13
from runner import shrink_list, shrink_text
from sched import Scheduler

ID = "C02"
COUNTS = {"quick": 260, "thorough": 6000}
RULE = __doc__
ASSUMPTIONS = ["threads switch between source lines of the package, of warnings.py, tempfile.py, shutil.py and contextlib.py, at file operations and lock operations; switches inside one line, inside extension modules and inside imports are not explored",
               "an operation that gives up waiting for a lock by timeout is treated as not obtaining it at once"]
EXTRA = ("/warnings.py", "/tempfile.py", "/shutil.py")
NSCHED = 7
IGNORED_STATE = {"threads"}


def gen(seed, tier, i):
    r = random.Random("C02/%s" % seed)
    nt = r.choice([2, 2, 2, 3, 3, 4])
    docs = [small(r, seed, k) for k in range(r.randrange(1, nt + 1))]
    if r.random() < 0.15:
        import docgen
        for k, d in enumerate(docs):
            docgen.rich(d, r, "t%s" % k)
    shared = r.random() < 0.3
    progs = []
    for t in range(nt):
        prog = []
        nread = r.choice([1, 1, 2])
        for _ in range(r.choice([1, 1, 2])):
            di = r.randrange(len(docs))
            prog.append({"doc": di, "how": r.choice(ops.hows_for(docs[di])), "rd": r.randrange(nread), "keep": r.random() < 0.15,
                         "save": r.choice([None, None, None, "out/new/deep/t%d.json" % t, "out/t%d/r.json" % t]), "json": r.choice([1, 1, 2])})
        progs.append(prog)
    if r.random() < 0.3:
        # twins: every thread does the same thing, so that what only the first
        # one executes is set-up that they share
        docs = docs[:1]
        if r.random() < 0.6:
            import docgen
            docs = [{"files": {"main.tex": docgen.sink(seed)}, "main": "main.tex", "pack": "file"}]
            nt = 2
        st = {"doc": 0, "how": r.choice(ops.hows_for(docs[0])), "rd": 0, "keep": False, "save": None, "json": 1}
        progs = [[dict(st)] for _ in range(nt)]
    return {"docs": docs, "progs": progs, "shared": shared, "cold": r.random() < 0.33, "seed": seed & 0xFFFF,
            "faulty": r.random() < 0.25, "pick": r.randrange(1 << 30)}


def small(r, seed, k):
    import docgen
    x = r.random()
    if x < 0.6:
        text = docgen.single("%s/%s" % (seed, k), tag="t%s" % k, size=(r.randrange(0, 4), r.randrange(1, 5)))
        d = {"files": {"main.tex": text}, "main": "main.tex", "pack": r.choice(["file", "file", "folder", "gz", "zip", "tar.gz"])}
    else:
        d = c01.gen_doc(r, seed, k, long=False, deep=False)
    d["pack_seed"] = r.randrange(1000)
    return d


def prepare(run, case, only=None):
    paths = {}
    if case["shared"]:
        ps = [ops.place(run.w, d, "in/s%d" % k) for k, d in enumerate(case["docs"])]
        for t in range(len(case["progs"])):
            for k in range(len(case["docs"])):
                paths[t, k] = ps[k]
    else:
        for t, prog in enumerate(case["progs"]):
            if only is None or t == only:
                for k in sorted({st["doc"] for st in prog}):
                    paths[t, k] = ops.place(run.w, case["docs"][k], "in/t%d/d%d" % (t, k))
    return paths


def body(run, case, t, paths, kept):
    w = run.w

    def go():
        out = []
        rds = {}
        for k, st in enumerate(case["progs"][t]):
            def one():
                rd = rds.get(st["rd"])
                if rd is None:
                    rd = rds[st["rd"]] = ops.reader()
                kw = {"cleanup": not st["keep"]} if st["how"] in ("process", "process_compressed") else {}
                res = ops.process(rd, paths[t, st["doc"]], st["how"], **kw)
                s = "".join(ops.to_out(rd, res) for _ in range(st["json"]))
                if st["save"]:
                    rd.save_to_json(res, os.path.join(w.root, st["save"]))
                    with open(os.path.join(w.root, st["save"]), encoding="utf-8") as f:
                        s += f.read()
                if st["keep"] and res.temp_dir is not None:
                    s += "|%s" % os.path.isdir(str(getattr(res.temp_dir, "name", res.temp_dir)))
                    kept.append(res)
                    res.cleanup()
                return s
            out.append(ops.outcome(one))
        return out
    return go


def solo(root, case, t, plan):
    run = ops.Run(root, case["seed"])
    paths = prepare(run, case, t)
    run.w.set_plan(plan)
    st0 = c13.proc_state()
    run.w.active = True
    out = body(run, case, t, paths, [])()
    run.w.active = False
    st1 = c13.proc_state()
    d = {"out": out, "trace": run.w.trace, "state": [k for k in st0 if st0[k] != st1[k]]}
    d.update(run.stats())
    return d


def wide():
    """What a thread can change for all others, as far as it is cheap to look at."""
    um = os.umask(0)
    os.umask(um)
    return (W.REAL["getcwd"](), um, sys.getrecursionlimit(), gc.isenabled(), tempfile.tempdir, warnings.filters[:], warnings.showwarning,
            sys.getswitchinterval(), len(os.environ), sys.stdout, sys.stderr, logging.root.manager.disable, logging.root.level,
            locale.setlocale(locale.LC_ALL))


def conc(root, case, plan, policy, rec):
    run = ops.Run(root, case["seed"])
    w = run.w
    paths = prepare(run, case)
    w.set_plan(plan)
    kept = []
    fns = [body(run, case, t, paths, kept) for t in range(len(case["progs"]))]
    s = Scheduler(fns, policy, extra_files=EXTRA, max_steps=9_000_000, on_overrun=run.b.overrun, rec=rec)
    st0 = c13.proc_state()
    if rec:
        s.probe = wide
        snap0 = shared.snap()
    w.active = True
    res = s.run()
    w.active = False
    st1 = c13.proc_state()
    d = {"res": res, "deadlock": s.deadlock, "switches": s.switches, "nsteps": s.steps, "cover": s.cover,
         "state": sorted(k for k in st0 if st0[k] != st1[k] and k not in IGNORED_STATE), "values": {},
         "tmp": len(os.listdir(os.path.join(w.root, "tmp"))), "locals": [t.local for t in s.threads], "last": s.last_switch}
    for k in d["state"]:
        d["values"][k] = [repr(st0[k])[:200], repr(st1[k])[:200]]
    if rec:
        d["rec"] = s.rec
        d["hot"] = s.hot
        d["shared"] = shared.places(snap0, shared.snap())
    d.update(run.stats())
    return d


def call(ctx, case, fn, *args):
    if case.get("cold"):
        root = ctx.scratch.new()
        try:
            return ctx.interp("cold").call("props.c02", fn.__name__, (root,) + args)
        finally:
            ctx.scratch.drop(root)
    return ctx.fork(fn, *args)


def judge(v, case, plan, refs, res, what):
    one = dict(case, plan=plan, scheds=[{"kind": "explicit", "switches": [list(x) for x in res["switches"]]}])
    if res["deadlock"] is not None:
        fail(v, "deadlock", "%s: deadlock, blocked threads (thread, step): %s" % (what, res["deadlock"]), one)
        return False
    for t, r in enumerate(res["res"]):
        if r is None or r[0] != "ok":
            fail(v, "thread-died", "%s: thread %d ended with %s" % (what, t, r), one)
            return False
        for k, (a, b) in enumerate(zip(refs[t], r[1])):
            if not ops.same(a, b):
                fail(v, "result", "%s: thread %d operation %d differs from running alone: %s" % (what, t, k, ops.diff_brief(a, b)), one)
                return False
    if res["state"]:
        fail(v, "process-state", "%s: process-wide state changed: %s" % (what, res["values"]), one)
        return False
    if res["tmp"]:
        fail(v, "temp", "%s: %d temporary folders left" % (what, res["tmp"]), one)
        return False
    return True


def guided(r, res, base, start=None):
    """Extend a schedule by one preemption at a place some thread executed."""
    rec = res["rec"]
    if start is not None:
        # places which only the first of the threads executed: what is set up
        # on first use
        once = sorted(set(rec[start]).difference(*(rec[t] for t in range(len(rec)) if t != start)))
        if once:
            f = r.choice(sorted({k.split(":")[0] for k in once}))
            local, step = r.choice(rec[start][r.choice([k for k in once if k.split(":")[0] == f])])
            return base + [[start, local, r.choice([x for x in range(len(rec)) if x != start])]], step
    nt = len(rec)
    late = r.random() < 0.75
    if res["shared"] and r.random() < 0.6:
        # functions that use what conversions change for each other
        c = [(t, k) for t in range(nt) for k in res["shared"] if k in rec[t]]
        if c:
            t, key = r.choice(c)
            c = [x for x in rec[t][key] if not late or x[1] > res["last_explicit"]]
            if c:
                local, step = r.choice(c)
                return base + [[t, local, r.choice([x for x in range(nt) if x != t])]], step
    hot = [(t, k) for t in range(nt) for k in sorted(res["hot"][t])]
    if hot and r.random() < 0.6:
        # places at which a thread has changed something process-wide
        t, key = r.choice(hot)
        c = [x for x in res["hot"][t][key] if not late or x[1] > res["last_explicit"]]
        if c:
            local, step = r.choice(c)
            return base + [[t, local, r.choice([x for x in range(nt) if x != t])]], step
    for _ in range(20):
        t = r.randrange(nt)
        if not rec[t]:
            continue
        if r.random() < 0.5:
            key = r.choice(sorted(rec[t]))
        else:
            files = sorted({k.split(":")[0] for k in rec[t]})
            f = r.choice(files)
            key = r.choice(sorted(k for k in rec[t] if k.split(":")[0] == f))
        c = [x for x in rec[t][key] if not late or x[1] > res["last_explicit"]]
        if not c:
            continue
        local, step = r.choice(c)
        others = [x for x in range(nt) if x != t]
        return base + [[t, local, r.choice(others)]], step
    return None, None


def execute(case, ctx):
    v = verdict()
    r = random.Random("C02p/%s" % case["pick"])
    refs = []
    plan = case.get("plan")
    rr = []
    for t in range(len(case["progs"])):
        rr.append(add(v, ctx.fork(solo, case, t, [])))
        if stuck(v, rr[-1], "stuck", "a thread's program alone", case):
            return v
    if plan is None:
        plan = []
        if case["faulty"] and not case["shared"]:
            t = r.randrange(len(rr))
            plan = faults.picks(r, rr[t]["trace"], r.choice([1, 2]), allow=lambda op, rel, n: rel.startswith("in/t%d/" % t))
    for t in range(len(rr)):
        if plan and any(f["path"].startswith("in/t%d/" % t) for f in plan):
            x = add(v, ctx.fork(solo, case, t, plan))
            if stuck(v, x, "stuck", "a thread's program alone", case):
                return v
            rr[t] = x
        if [x for x in rr[t]["state"] if x not in IGNORED_STATE]:
            probe(v, "solo_state_change")
        refs.append(rr[t]["out"])
    scheds = case.get("scheds")
    preempted = 0
    covers = set()

    def run(policy, rec, what):
        nonlocal preempted
        res = add(v, call(ctx, case, conc, case, plan, policy, rec))
        what = "%d threads, %s%s%s" % (len(refs), what, ", first use" if case["cold"] else "", ", faults: " + faults.describe(plan) if plan else "")
        if stuck(v, res, "stuck", what, dict(case, plan=plan, scheds=[policy])):
            return None
        if not judge(v, case, plan, refs, res, what):
            return None
        preempted += sum(1 for x in res["switches"] if x[1] >= 0)
        covers.add(res["cover"])
        return res
    if scheds is not None:
        for p in scheds:
            if run(p, False, "schedule of %d switches" % len(p.get("switches", ()))) is None:
                return v
    else:
        nt = len(refs)
        start = r.randrange(nt)
        base = [[-1, -1, start]]
        res = run({"kind": "explicit", "switches": base}, True, "one after the other")
        if res is None:
            return v
        first = dict(res, last_explicit=0)
        total = res["nsteps"]
        k = 0
        cur, sw = first, base
        while k < NSCHED:
            k += 1
            x = r.random()
            if x < 0.14:
                p = {"kind": "rand", "seed": r.randrange(1 << 30), "p": r.choice([0.3, 0.05, 0.01, 0.002, 50 / max(60, total)])}
                if run(p, False, "random schedule") is None:
                    return v
                continue
            if x < 0.28:
                p = {"kind": "pct", "seed": r.randrange(1 << 30), "len": total, "d": r.choice([1, 2, 3, 5])}
                if run(p, False, "priority schedule") is None:
                    return v
                continue
            if cur is None or len(sw) > r.choice([2, 3, 3, 4, 6]):
                cur, sw = first, base
            twins = case["progs"].count(case["progs"][0]) == nt
            sw2, step = guided(r, cur, sw, start if cur is first and r.random() < (0.6 if twins else 0.15) else None)
            if sw2 is None:
                cur, sw = first, base
                continue
            res = run({"kind": "explicit", "switches": sw2}, True, "guided schedule of %d preemptions" % (len(sw2) - 1))
            if res is None:
                return v
            sw = sw2
            cur = dict(res, last_explicit=step)
    probe(v, "preemptions", preempted)
    probe(v, "cold_cases", int(case["cold"]))
    probe(v, "faulty_cases", int(bool(plan)))
    probe(v, "distinct_interleavings", len(covers))
    v["nontrivial"] = preempted > 0
    v["sig"] = sig([case["docs"], case["progs"], sorted(covers)])
    v["sample"] = {"progs": case["progs"], "cold": case["cold"], "plan": plan, "interleavings": len(covers), "preemptions": preempted}
    return v


def shrinks(case):
    sc = case.get("scheds")
    if sc and sc[0]["kind"] == "explicit":
        # drop preemptions first
        s = sc[0]["switches"]
        for x in shrink_list(s):
            yield dict(case, scheds=[dict(sc[0], switches=x)])
    if case.get("plan"):
        for x in shrink_list(case["plan"]):
            yield dict(case, plan=x)
    if case["cold"]:
        yield dict(case, cold=False)
    for t, prog in enumerate(case["progs"]):
        for k, st in enumerate(prog):
            if len(prog) > 1:
                yield dict(case, progs=case["progs"][:t] + [prog[:k] + prog[k + 1:]] + case["progs"][t + 1:])
            if st["save"]:
                yield dict(case, progs=case["progs"][:t] + [prog[:k] + [dict(st, save=None)] + prog[k + 1:]] + case["progs"][t + 1:])
            if st["json"] > 1:
                yield dict(case, progs=case["progs"][:t] + [prog[:k] + [dict(st, json=1)] + prog[k + 1:]] + case["progs"][t + 1:])
    for k, d in enumerate(case["docs"]):
        for f in sorted(d["files"]):
            if f != d["main"] and d["pack"] != "gz":
                yield dict(case, docs=case["docs"][:k] + [dict(d, files={x: y for x, y in d["files"].items() if x != f})] + case["docs"][k + 1:])
        for f in sorted(d["files"]):
            for t in shrink_text(d["files"][f]):
                yield dict(case, docs=case["docs"][:k] + [dict(d, files=dict(d["files"], **{f: t}))] + case["docs"][k + 1:])
