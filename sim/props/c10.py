"""C10 - results are independent snapshots.

A simulated process holds the results of many conversions (files, folders,
archives, several readers, direct parser/builder use) while it keeps on
converting, clearing, serialising, saving, cleaning up, failing on injected
faults, and modifying *other* results it holds.  After every step each held,
unmodified result must still serialise and dump exactly as right after it was
produced, and each new conversion must equal the same conversion in a fresh
process.  A changed result must serialise as what it has become.
"""
import copy
import gc
import json
import os
import pickle
import random

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import c01
from runner import shrink_list, shrink_text

ID = "C10"
COUNTS = {"quick": 3000, "thorough": 24000}
RULE = __doc__


def gen(seed, tier, i):
    r = random.Random("C10/%s" % seed)
    nd = r.randrange(1, 4)
    docs = [c01.gen_doc(r, seed, k) for k in range(nd)]
    steps = []
    for _ in range(r.randrange(4, 10)):
        x = r.random()
        if x < 0.45 or len(steps) < 1:
            di = r.randrange(nd)
            s = {"op": "read", "r": r.randrange(2), "doc": di, "how": r.choice(ops.hows_for(docs[di]))}
            if r.random() < 0.12:
                s["fault_seed"] = r.randrange(1 << 30)
        elif x < 0.55:
            s = {"op": "json", "r": r.randrange(2), "res": r.randrange(8), "times": r.randrange(1, 4)}
        elif x < 0.62:
            s = {"op": "save", "r": r.randrange(2), "res": r.randrange(8), "fault": r.random() < 0.4}
        elif x < 0.70:
            s = {"op": "clear", "r": r.randrange(2)}
        elif x < 0.75:
            s = {"op": "cleanup", "res": r.randrange(8)}
        elif x < 0.86:
            s = {"op": "mutate", "res": r.randrange(8), "seed": r.randrange(1 << 20)}
        elif x < 0.90:
            s = {"op": "drop", "res": r.randrange(8)}
        else:
            s = {"op": "parse", "doc": r.randrange(nd), "mutate": r.random() < 0.5, "p": r.randrange(2),
                 "build": r.randrange(3), "b": r.randrange(2)}
        steps.append(s)
    return {"docs": docs, "steps": steps, "seed": seed & 0xFFFFFF, "order": "sorted"}


def dump(res):
    """Everything a caller can see in a result (beyond to_json)."""
    return scrubbed([ [type(t).__name__, t.model_dump(mode="python")] if hasattr(t, "model_dump") else repr(t) for t in res.tokens], res.color_map)


def rawdump(toks):
    return json.dumps(toks, default=lambda o: [type(o).__name__, o.model_dump(mode="python", warnings=False)] if hasattr(o, "model_dump") else repr(type(o)),
                      ensure_ascii=False)


def scrubbed(a, b):
    return json.dumps([a, b], default=repr, sort_keys=False, ensure_ascii=False)


def walk(o, seen, depth=0):
    """All mutable objects reachable from a result."""
    if id(o) in seen or depth > 60:
        return
    if isinstance(o, dict):
        seen[id(o)] = o
        for x in o.values():
            walk(x, seen, depth + 1)
    elif isinstance(o, (list, set)):
        seen[id(o)] = o
        for x in o:
            walk(x, seen, depth + 1)
    elif isinstance(o, tuple):
        for x in o:
            walk(x, seen, depth + 1)
    elif hasattr(o, "model_dump"):
        seen[id(o)] = o
        walk(o.__dict__, seen, depth + 1)
        ex = getattr(o, "__pydantic_extra__", None)
        if ex:
            walk(ex, seen, depth + 1)


def spoil(objs, r):
    """Caller-side modification of (some of) the mutable objects of a result."""
    n = 0
    for o in list(objs.values()):
        if r.random() > 0.7:
            continue
        try:
            if isinstance(o, dict):
                for k in list(o):
                    if isinstance(o[k], str) and r.random() < 0.7:
                        o[k] = "SPOILED" + o[k]
                o["spoiled_key"] = "SPOILED"
            elif isinstance(o, list):
                x = r.random()
                if x < 0.4:
                    o.append("SPOILED")
                elif x < 0.7:
                    o.clear()
                else:
                    o.reverse()
            elif isinstance(o, set):
                o.add("SPOILED")
            n += 1
        except Exception:
            pass
    return n


def hist(root, case):
    run, paths = c01.setup(root, case)
    w = run.w
    rds = {}
    held = []  # [result, json, dump, spoiled]
    raw = []  # what parsers and builders returned: [object, dump, step, what]
    ps, bs = {}, {}
    log = []

    def rd(i):
        if i not in rds:
            rds[i] = ops.reader()
        return rds[i]
    for k, st in enumerate(case["steps"]):
        w.reset_counts()
        w.set_plan([])
        ent = {}
        nf = len(w.fired)
        if st["op"] == "read":
            doc = case["docs"][st["doc"]]
            if "fault_seed" in st:
                w.set_plan(c01.plan_for(st["fault_seed"], doc, st["doc"]))
            box = []

            def go():
                x = ops.process(rd(st["r"]), paths[st["doc"]], st["how"], cleanup=False if (k % 2 and st["how"] != "process_file" and st["how"] != "process_folder") else None)
                box.append(x)
                return rd(st["r"]).to_json(x)
            o = run.active(go)
            ent["o"] = o
            ent["faulted"] = len(w.fired) > nf
            if box and "ok" in o:
                held.append([box[0], o["ok"], dump(box[0]), False, k])
        elif st["op"] == "parse":
            doc = case["docs"][st["doc"]]
            toks = []

            def go():
                from latex2json.structure.builder import TokenBuilder
                p = ps.get(st["p"])
                if p is None:
                    p = ps[st["p"]] = ops.lib.LatexParser()
                else:
                    p.clear()
                t = p.parse(docgen.as_text(doc["files"][doc["main"]]), preprocess=True)
                toks.append(t)
                toks.append(p.get_colors())
                raw.append([t, rawdump(t), k, "the parser"])
                outs = []
                for _ in range(st["build"]):
                    b = bs.get(st["b"])
                    if b is None:
                        b = bs[st["b"]] = TokenBuilder()
                    x = b.build(t)
                    raw.append([x, rawdump(x), k, "the builder"])
                    outs.append(raw[-1][1])
                if len(outs) == 2 and outs[0] != outs[1]:
                    ent["rebuilt"] = outs
            run.active(go)
            if st["mutate"] and toks:
                s = {}
                walk(toks, s)
                spoil(s, random.Random(k))
                raw[:] = [x for x in raw if x[2] != k]
        elif st["op"] == "clear":
            run.active(lambda: rd(st["r"]).clear())
        elif held:
            h = held[st["res"] % len(held)]
            if st["op"] == "json":
                for _ in range(st["times"]):
                    o = run.active(lambda: rd(st["r"]).to_json(h[0]))
                    if not h[3] and o.get("ok") != h[1]:
                        ent["json_changed"] = [h[4], h[1], ops.brief(o), o]
            elif st["op"] == "save":
                p = os.path.join(w.root, "out", "f%d.json" % k)
                if st["fault"]:
                    w.set_plan([{"op": "open_w", "path": "out/f%d.json" % k, "nth": 1, "kind": "ENOSPC"}])
                run.active(lambda: rd(st["r"]).save_to_json(h[0], p))
            elif st["op"] == "cleanup":
                run.active(h[0].cleanup)
            elif st["op"] == "mutate":
                s = {}
                walk(h[0].tokens, s)
                walk(h[0].color_map, s)
                ent["spoiled"] = spoil(s, random.Random(st["seed"]))
                h[3] = True
            elif st["op"] == "drop":
                held.remove(h)
                raw[:] = []
                h = None
                gc.collect()
            if h is not None and h[3]:
                # a changed result serialises as what it is now
                try:
                    c = copy.deepcopy(h[0])
                except Exception:
                    c = None
                if c is not None:
                    a = run.active(lambda: ops.reader().to_json(c))
                    b = run.active(lambda: rd(st.get("r", 0)).to_json(h[0]))
                    if ("ok" in a) != ("ok" in b) or a.get("ok") != b.get("ok"):
                        ent["stale"] = [h[4], a, b]
        w.set_plan([])
        for x in raw:
            d = rawdump(x[0])
            if d != x[1]:
                ent["raw_changed"] = [x[2], x[3], x[1], d]
                break
        for h in held:
            if h[3]:
                continue
            d = dump(h[0])
            j = run.active(lambda: rd(0).to_json(h[0]))
            if d != h[2] or j.get("ok") != h[1]:
                ent["changed"] = [h[4], h[1] if j.get("ok") != h[1] else h[2], j["ok"] if "ok" in j and j["ok"] != h[1] else d]
                break
        log.append(ent)
    # no two held results may share anything mutable
    share = None
    owner = {}
    for h in held:
        s = {}
        walk(h[0].tokens, s)
        walk(h[0].color_map, s)
        for i, o in s.items():
            if i in owner and owner[i] is not h:
                share = [owner[i][4], h[4], repr(o)[:200]]
                break
            owner[i] = h
    d = {"log": log, "share": share, "held": len(held)}
    d.update(run.stats())
    return d


def execute(case, ctx):
    v = verdict()
    h = add(v, ctx.fork(hist, case))
    if stuck(v, h, "stuck", "the history", case):
        return v
    spoiled = 0
    for k, (st, ent) in enumerate(zip(case["steps"], h["log"])):
        if "json_changed" in ent:
            a = ent["json_changed"]
            fail(v, "not-repeatable", "serialising the result of step %d again in step %d: %s" % (
                a[0], k, ops.diff_brief({"ok": a[1]}, a[3])), case)
            return v
        if "stale" in ent:
            a = ent["stale"]
            fail(v, "stale-text", "step %d (%s): the result of step %d, changed by its owner, serialises differently with a used and a new reader: %s" % (
                k, st, a[0], ops.diff_brief(a[1], a[2])), case)
            return v
        if "rebuilt" in ent:
            a = ent["rebuilt"]
            fail(v, "rebuilt", "step %d: building the same tokens twice: %s" % (k, ops.diff_brief({"ok": a[0]}, {"ok": a[1]})), case)
            return v
        if "raw_changed" in ent:
            a = ent["raw_changed"]
            fail(v, "tokens-changed", "step %d (%s) changed what %s returned in step %d: %s" % (
                k, st, a[1], a[0], ops.diff_brief({"ok": a[2]}, {"ok": a[3]})), case)
            return v
        if "changed" in ent:
            a = ent["changed"]
            fail(v, "result-changed", "step %d (%s) changed the result returned by step %d: %s" % (
                k, {x: y for x, y in st.items()}, a[0], ops.diff_brief({"ok": a[1]}, {"ok": a[2]})), case)
            return v
        spoiled += ent.get("spoiled", 0)
        if st["op"] == "read" and not ent["faulted"] and k:
            one = {"docs": [case["docs"][st["doc"]]], "ops": [{"op": "read", "doc": 0, "how": st["how"], "r": 0}], "seed": case["seed"], "order": "sorted"}
            ref = add(v, ctx.ref(("C10", one), c01.alone, one, 0))
            if not ops.same(ref["o"], ent["o"]):
                fail(v, "result-tainted", "step %d (%s): the conversion differs from the same one in a fresh process: %s" % (
                    k, st, ops.diff_brief(ref["o"], ent["o"])), case)
                return v
            probe(v, "conversions_compared")
    if h["share"]:
        fail(v, "shared-state", "the results of steps %s and %s share a mutable object: %s" % tuple(h["share"]), case)
        return v
    probe(v, "results_held", h["held"])
    probe(v, "objects_modified", spoiled)
    v["nontrivial"] = h["held"] >= 1 and len(case["steps"]) >= 3
    v["sig"] = sig([case["docs"], case["steps"]])
    v["sample"] = {"steps": case["steps"][:8]}
    return v


def shrinks(case):
    for sub in shrink_list(case["steps"]):
        if sub:
            yield dict(case, steps=sub)
    for k, d in enumerate(case["docs"]):
        for f in sorted(d["files"]):
            if f != d["main"]:
                c = copy.deepcopy(case)
                del c["docs"][k]["files"][f]
                yield c
        for f in sorted(d["files"]):
            for t in shrink_text(d["files"][f]):
                c = copy.deepcopy(case)
                c["docs"][k]["files"][f] = t
                yield c
