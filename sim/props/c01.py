"""C01 - history isolation.

A simulated process lives through a history of operations: several readers and
parsers convert several documents in a seeded order, some of them failing on
injected I/O faults; each conversion's result must equal the result of the very
same conversion performed alone in a fresh process.
"""
import copy
import json
import os
import random

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from runner import shrink_list, shrink_text

ID = "C01"
COUNTS = {"quick": 2500, "thorough": 20000}


def gen_doc(r, seed, k, faulty=True, **fl):
    x = r.random()
    if x < 0.55:
        text = docgen.single("%s/%s" % (seed, k), tag="t%s" % k)
        d = {"files": {"main.tex": text}, "main": "main.tex"}
        d["pack"] = r.choice(["file", "file", "file", "folder", "gz", "zip"])
    else:
        p = docgen.project("%s/%s" % (seed, k), tag="t%s" % k)
        d = {"files": p["files"], "main": p["main"], "pack": r.choice(["file", "file", "folder", "tar.gz", "tgz", "zip"])}
    d["pack_seed"] = r.randrange(1000)
    return docgen.flavour(d, r, **dict({"tag": "t%s" % k}, **fl))


def gen(seed, tier, i):
    r = random.Random("C01/%s" % seed)
    nd = r.randrange(2, 5)
    docs = [gen_doc(r, seed, k) for k in range(nd)]
    if r.random() < 0.2:
        for k, d in enumerate(docs):
            docgen.rich(d, r, "t%s" % k)
    nops = r.randrange(3, 8)
    opl = []
    nread = r.choice([1, 1, 2, 3])
    for _ in range(nops):
        di = r.randrange(nd)
        x = r.random()
        if x < 0.62:
            op = {"op": "read", "r": r.randrange(nread), "doc": di, "how": r.choice(ops.hows_for(docs[di]))}
            if r.random() < 0.25:
                op["fault_seed"] = r.randrange(1 << 30)
            op["json"] = r.choice([1, 1, 2])
            op["save"] = r.random() < 0.2
        elif x < 0.74:
            op = {"op": "parse_text", "p": r.randrange(2), "doc": di}
        elif x < 0.84:
            op = {"op": "parse_file", "p": r.randrange(2), "doc": di}
        elif x < 0.90:
            op = {"op": "sty", "doc": di}
        elif x < 0.94:
            op = {"op": "bib", "doc": di}
        elif x < 0.97:
            op = {"op": "preamble", "doc": di}
        else:
            op = {"op": "build", "doc": di}
        opl.append(op)
    case = {"docs": docs, "ops": opl, "seed": seed & 0xFFFFFF, "order": r.choice(["sorted", "reversed", seed % 97])}
    if r.random() < 0.3:
        # the documents take turns at one and the same path, with one and the same time stamp
        case["slot"] = True
        pk = r.choice(["file", "file", docs[0]["pack"]])
        for d in docs:
            if "gz" in (pk, d["pack"]) and len(d["files"]) > 1:
                d["pack"] = "file"
                continue
            if pk != "file" and d.get("flavour", "").startswith(("enc:utf-16", "enc:utf-32", "fragment")):
                continue
            d["pack"] = pk
        for o in opl:
            if o["op"] == "read":
                o["how"] = r.choice(ops.hows_for(docs[o["doc"]]))
    return case


def _dump(x):
    return json.dumps(x, default=lambda o: o.model_dump(mode="json") if hasattr(o, "model_dump") else repr(o),
                      ensure_ascii=False)


class Live:
    """The long-lived objects of the simulated process."""

    def __init__(self, w, slot=False):
        self.w = w
        self.slot = slot
        self.readers, self.parsers = {}, {}
        self.sty = self.bib = self.pre = self.builder = None

    def do(self, op, doc, path, idx):
        k = op["op"]
        main_dir = os.path.join(self.w.root, "src0" if self.slot else "src%d" % op["doc"])
        main = os.path.join(main_dir, doc["main"])
        if k == "read":
            rd = self.readers.get(op["r"])
            if rd is None:
                rd = self.readers[op["r"]] = ops.reader()
            res = ops.process(rd, path, op["how"])
            s = ops.to_out(rd, res)
            for _ in range(op.get("json", 1) - 1):
                s = ops.to_out(rd, res)
            if op.get("save"):
                rd.save_to_json(res, os.path.join(self.w.root, "out", "o%d" % op["doc"], "x.json"))
            return s
        if k in ("parse_text", "parse_file"):
            p = self.parsers.get(op["p"])
            if p is None:
                p = self.parsers[op["p"]] = ops.lib.LatexParser()
            p.clear()
            if k == "parse_text":
                toks = p.parse(docgen.as_text(doc["files"][doc["main"]]), preprocess=True)
            else:
                toks = p.parse_file(main)
            return _dump([toks, p.get_colors(), sorted(map(str, p.labels))])
        if k == "sty":
            if self.sty is None:
                from latex2json.parser.sty_parser import LatexStyParser
                self.sty = LatexStyParser()
            self.sty.clear()
            f = sorted(f for f in doc["files"] if f.endswith((".sty", ".cls")))
            out = [self.sty.parse(docgen.as_text(doc["files"][doc["main"]]))]
            for x in f:
                out.append(self.sty.parse_file(os.path.join(main_dir, x)))
            return _dump(out)
        if k == "bib":
            if self.bib is None:
                from latex2json.parser.bib.bib_parser import BibParser
                self.bib = BibParser()
            self.bib.clear()
            f = sorted(f for f in doc["files"] if f.endswith((".bib", ".bbl")))
            return repr([[vars(e) for e in self.bib.parse_file(os.path.join(main_dir, x))] for x in f])
        if k == "preamble":
            if self.pre is None:
                from latex2json.parser.tex_preamble import LatexPreamble
                self.pre = LatexPreamble()
            self.pre.clear()
            return _dump([self.pre.get_preamble(docgen.as_text(doc["files"][doc["main"]])), self.pre.get_preamble_from_file(main)])
        if k == "build":
            if self.builder is None:
                from latex2json.structure.builder import TokenBuilder
                self.builder = TokenBuilder()
            p = ops.lib.LatexParser()
            # (it prepares itself for each document; clear() is not needed)
            return _dump(self.builder.build(p.parse(docgen.as_text(doc["files"][doc["main"]]), preprocess=True)))
        raise ValueError(k)


def setup(root, case):
    run = ops.Run(root, case["seed"], case["order"])
    paths = {}
    if case.get("slot"):
        return run, paths
    for k, d in enumerate(case["docs"]):
        paths[k] = ops.place(run.w, d, "in/d%d" % k)
        W.put(os.path.join(run.w.root, "src%d" % k), d["files"])
    return run, paths


def occupy(w, doc):
    """Put a document where the previous one was."""
    import shutil
    for d in ("in/d0", "src0"):
        shutil.rmtree(os.path.join(w.root, d), ignore_errors=True)
    path = ops.place(w, doc, "in/d0")
    W.put(os.path.join(w.root, "src0"), doc["files"])
    for d in ("in/d0", "src0"):
        for dp, dn, fn in os.walk(os.path.join(w.root, d)):
            for n in fn:
                os.utime(os.path.join(dp, n), (1_600_000_000, 1_600_000_000))
    return path


def plan_for(fseed, doc, di):
    """A transient fault on the operation's own input."""
    r = random.Random("flt/%s" % fseed)
    files = sorted(doc["files"])
    pack = doc.get("pack") or "file"
    if pack in ("file", "folder"):
        rels = ["in/d%d/%s" % (di, f) for f in files]
    else:
        rels = ["in/d%d/paper.%s" % (di, pack)]
    rel = r.choice(rels) if r.random() < 0.6 else rels[0]
    main = "in/d%d/%s" % (di, doc["main"])
    if main in rels and r.random() < 0.5:
        rel = main
    op = r.choice(["open_r", "read", "stat", "open_r"])
    return [{"op": op, "path": rel, "nth": r.randrange(1, 4) if op != "stat" else 1,
             "kind": r.choice([k for k in W.FAULTS[op] if k != "short"])}]


def history(root, case):
    run, paths = setup(root, case)
    slot = case.get("slot")
    live = Live(run.w, slot)
    outs = []
    for i, op in enumerate(case["ops"]):
        doc = case["docs"][op["doc"]]
        if slot:
            paths[op["doc"]] = occupy(run.w, doc)
        run.w.reset_counts()
        plan = op.get("faults")
        if plan is None and "fault_seed" in op:
            plan = plan_for(op["fault_seed"], doc, 0 if slot else op["doc"])
        run.w.set_plan(plan or [])
        before = len(run.w.fired)
        o = run.active(lambda: live.do(op, doc, paths[op["doc"]], i))
        outs.append({"o": o, "faulted": len(run.w.fired) > before})
    d = {"outs": outs}
    d.update(run.stats())
    return d


def alone(root, case, i):
    run, paths = setup(root, case)
    op = case["ops"][i]
    live = Live(run.w, case.get("slot"))
    if case.get("slot"):
        paths[op["doc"]] = occupy(run.w, case["docs"][op["doc"]])
    o = run.active(lambda: live.do(op, case["docs"][op["doc"]], paths[op["doc"]], i))
    d = {"o": o}
    d.update(run.stats())
    return d


def execute(case, ctx):
    v = verdict()
    refs = {}
    for i, op in enumerate(case["ops"]):
        d = case["docs"][op["doc"]]
        core = {k: x for k, x in op.items() if k not in ("fault_seed", "faults")}
        core["doc"] = 0
        core.update({k: 0 for k in ("r", "p") if k in core})
        one = {"docs": [d], "ops": [core], "seed": case["seed"], "order": case["order"], "slot": case.get("slot")}
        refs[i] = add(v, ctx.ref(("C01", one), alone, one, 0))
        if stuck(v, refs[i], "reference-stuck", "a single conversion (%s)" % op["op"], case):
            return v
    h = add(v, ctx.fork(history, case))
    if stuck(v, h, "history-stuck", "the history", case):
        return v
    prev_err = 0
    clean = 0
    for i, (op, o) in enumerate(zip(case["ops"], h["outs"])):
        if o["faulted"]:
            probe(v, "faulted_op")
            prev_err += "err" in o["o"]
            continue
        ref = refs[i]["o"]
        if not ops.same(ref, o["o"]):
            fail(v, "history-dependence",
                 "operation %d (%s of document %d) after %d earlier operations differs from the same operation in a "
                 "fresh process: %s" % (i, op["op"], op["doc"], i, ops.diff_brief(ref, o["o"])), case)
            return v
        if "ok" in ref and i:
            clean += 1
        if prev_err:
            probe(v, "compared_after_failed_op")
    probe(v, "ops_compared", clean)
    if case.get("slot"):
        probe(v, "one_path_for_all")
    for d in case["docs"]:
        if d.get("flavour"):
            probe(v, "flavour_" + d["flavour"])
    v["nontrivial"] = clean >= 2
    v["sig"] = sig([case["docs"], case["ops"]])
    v["sample"] = {"ops": [[o["op"], o["doc"], o.get("how"), "fault" if "fault_seed" in o else ""] for o in case["ops"]]}
    return v


def shrinks(case):
    for sub in shrink_list(case["ops"]):
        if sub:
            yield dict(case, ops=sub)
    if case.get("slot"):
        yield dict(case, slot=None)
    used = sorted({o["doc"] for o in case["ops"]})
    if len(used) < len(case["docs"]):
        m = {d: k for k, d in enumerate(used)}
        yield dict(case, docs=[case["docs"][d] for d in used], ops=[dict(o, doc=m[o["doc"]]) for o in case["ops"]])
    for i, o in enumerate(case["ops"]):
        if o.get("save") or o.get("json", 1) > 1:
            c = copy.deepcopy(case)
            c["ops"][i]["save"] = False
            c["ops"][i]["json"] = 1
            yield c
        if "fault_seed" in o:
            c = copy.deepcopy(case)
            del c["ops"][i]["fault_seed"]
            yield c
    for k, d in enumerate(case["docs"]):
        if d.get("pack") not in (None, "file"):
            c = copy.deepcopy(case)
            c["docs"][k]["pack"] = "file"
            for o in c["ops"]:
                if o["doc"] == k and "how" in o:
                    o["how"] = "process_file"
            yield c
        for f in sorted(d["files"]):
            if f != d["main"]:
                c = copy.deepcopy(case)
                del c["docs"][k]["files"][f]
                yield c
        for f in sorted(d["files"]):
            for t in shrink_text(d["files"][f]):
                c = copy.deepcopy(case)
                c["docs"][k]["files"][f] = t
                yield c
