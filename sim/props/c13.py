"""C13 - inputs are read-only and every handle is returned.

A simulated process performs a seeded history of conversions, extractions,
serialisations, saves and clean-ups on projects and archives, some disturbed by
I/O faults.  Around every operation the input tree is compared byte for byte
(content, mode, times, links), every file-system mutation seen by the
interpreter's audit hook is checked against the operation's own territory (its
temporary folder, the requested output file), and the descriptor table and the
process-wide state are compared.
"""
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import faults
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import c01
from runner import shrink_text

ID = "C13"
COUNTS = {"quick": 800, "thorough": 9000}
PER = 5
RULE = __doc__
ASSUMPTIONS = ["descriptors are counted without forcing a garbage collection: a handle that only a collection would close counts as open"]


def gen(seed, tier, i):
    r = random.Random("C13/%s" % seed)
    nd = r.randrange(1, 4)
    docs = []
    for k in range(nd):
        d = c01.gen_doc(r, seed, k, enc=False, abyss=True)
        x = r.random()
        if x < 0.12:
            # other encodings take other paths through the reading code
            f = r.choice(sorted(d["files"]))
            d["files"] = dict(d["files"])
            d["files"][f] = d["files"][f].encode("utf-8") + b"\n% \xe9\xff\xfe \x81\n"
        elif x < 0.2:
            f = r.choice(sorted(d["files"]))
            d["files"] = dict(d["files"], **{f: b"" if r.random() < 0.5 else d["files"][f].encode("utf-16")})
        elif x < 0.3:
            d["state"] = r.choice(["nomain", "garbage", "truncated"])
            if d["state"] == "nomain":
                d["files"] = {f: (t.replace("\\documentclass", "%").replace("\\begin{document}", "") if isinstance(t, str) else t)
                              for f, t in d["files"].items()}
        d["ro"] = r.random() < 0.15
        docs.append(d)
    steps = []
    for _ in range(r.randrange(2, 6)):
        x = r.random()
        di = r.randrange(nd)
        if x < 0.62:
            steps.append({"op": "read", "doc": di, "how": r.choice(ops.hows_for(docs[di])), "rd": r.randrange(2), "cleanup": r.random() < 0.6})
        elif x < 0.7:
            steps.append({"op": "json", "res": r.randrange(4), "rd": r.randrange(2)})
        elif x < 0.8:
            steps.append({"op": "save", "res": r.randrange(4), "to": r.choice(["out/a.json", "out/n/b.json", "in/same.json"]), "rd": r.randrange(2)})
        elif x < 0.86:
            steps.append({"op": "cleanup", "res": r.randrange(4)})
        elif x < 0.93:
            steps.append({"op": "extract", "doc": di, "cleanup": r.random() < 0.6})
        else:
            steps.append({"op": r.choice(["sty", "bib", "enc"]), "doc": di})
    return {"docs": docs, "steps": steps, "seed": seed & 0xFFFF, "order": r.choice(["sorted", seed % 97]), "pick": r.randrange(1 << 30),
            "unpriv": r.random() < 0.25, "cwd": r.choice(["out", "in", "cwd"])}


def proc_state():
    lg = []
    for n in sorted([""] + [x for x in logging.root.manager.loggerDict]):
        o = logging.getLogger(n) if n else logging.root
        if n in logging.root.manager.loggerDict and not isinstance(logging.root.manager.loggerDict[n], logging.Logger):
            continue
        if o is not logging.root and (o.level, o.handlers, o.propagate, o.disabled, o.filters) == (0, [], True, False, []):
            continue  # a pristine logger configures nothing
        lg.append((n, o.level, [(id(h), h.level, id(h.formatter), len(h.filters)) for h in o.handlers], o.propagate, o.disabled, len(o.filters)))
    um = os.umask(0)
    os.umask(um)
    return {
        "cwd": W.REAL["getcwd"](), "umask": um, "environ": sorted(os.environ.items()),
        "warnings": [repr(f) for f in warnings.filters], "showwarning": id(warnings.showwarning), "formatwarning": id(warnings.formatwarning),
        "recursionlimit": sys.getrecursionlimit(), "logging": lg, "logdisable": logging.root.manager.disable,
        "streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr), sys.stdout.closed, sys.stderr.closed,
                    [[str(getattr(x, a, None)) for a in ("encoding", "errors", "line_buffering", "write_through", "newlines")] for x in (sys.stdin, sys.stdout, sys.stderr)]),
        "logglobals": (logging.raiseExceptions, id(logging.getLogRecordFactory()), logging.getLoggerClass().__name__, logging._nameToLevel.copy()),
        "tz": __import__("time").tzname, "rlimits": [__import__("resource").getrlimit(x) for x in range(10)], "fsize": __import__("csv").field_size_limit(),
        "sockets": (__import__("socket").getdefaulttimeout(), (lambda c: (c.prec, c.rounding, [str(k) for k, x in c.traps.items() if x]))(__import__("decimal").getcontext())),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook)),
        "signals": [str(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "locale": locale.setlocale(locale.LC_ALL), "gc": (gc.isenabled(), gc.get_threshold()),
        "path": list(sys.path), "switch": sys.getswitchinterval(), "trace": sys.gettrace() is None, "random": hash(random.getstate()),
        "tempdir": __import__("tempfile").tempdir, "threads": threading.active_count(), "rlimit": __import__("resource").getrlimit(7),
        "argv": list(sys.argv), "bytecode": sys.dont_write_bytecode, "maxint": sys.get_int_max_str_digits(),
    }


def fds():
    out = {}
    for n in W.REAL["listdir"]("/proc/self/fd"):
        try:
            t = W.REAL["readlink"]("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith("/proc/") and t.endswith("/fd"):
            continue
        out[int(n)] = t
    return out


def hist(root, case, dist):
    run = ops.Run(root, case["seed"], case["order"])
    w = run.w
    os.makedirs(os.path.join(w.root, "cwd"), exist_ok=True)
    paths = []
    for k, d in enumerate(case["docs"]):
        d = dict(d)
        if d.get("state") in ("garbage", "truncated") and d["pack"] not in ("file", "folder"):
            data = ops.pack(d["files"] if d["pack"] != "gz" else {d["main"]: d["files"][d["main"]]}, d["pack"], d["pack_seed"])
            d["bytes"] = data[:len(data) * 2 // 3] if d["state"] == "truncated" else b"\x1f\x8bnot really" * 9
        p = ops.place(w, d, "in/d%d" % k)
        paths.append(p)
        if d.get("ro"):
            for dp, dn, fn in os.walk(os.path.join(w.root, "in/d%d" % k)):
                for f in fn:
                    os.chmod(os.path.join(dp, f), 0o444)
    for dp, dn, fn in os.walk(os.path.join(w.root, "in")):
        for f in fn:
            os.utime(os.path.join(dp, f), (1.5e9, 1.5e9))
    os.chdir(os.path.join(w.root, case["cwd"]))
    src = os.path.join(w.root, "in")
    if case.get("unpriv"):
        run.unpriv()
    snap0 = W.snapshot(src)
    rds = [None, None]
    held = []
    log, traces = [], []
    state0, fd0 = proc_state(), fds()
    saved_in = False
    w.watch_mut = True
    for k, st in enumerate(case["steps"]):
        w.reset_counts()
        w.set_plan(dist["faults"] if dist is not None and dist["step"] == k else [])
        nf = len(w.fired)
        w.mutations = []
        before = set(os.listdir(os.path.join(w.root, "tmp")))
        target = None
        doc = case["docs"][st["doc"]] if "doc" in st else None

        def go():
            if st["op"] == "read":
                if rds[st["rd"]] is None:
                    rds[st["rd"]] = ops.reader()
                held.append(ops.process(rds[st["rd"]], paths[st["doc"]], st["how"], st["cleanup"]))
            elif st["op"] in ("json", "save"):
                if not held:
                    return
                rd = rds[st["rd"]] = rds[st["rd"]] or ops.reader()
                res = held[st["res"] % len(held)]
                if st["op"] == "json":
                    rd.to_json(res)
                else:
                    rd.save_to_json(res, os.path.join(w.root, st["to"]))
            elif st["op"] == "cleanup":
                if held:
                    held[st["res"] % len(held)].cleanup()
            elif st["op"] == "extract":
                from latex2json.tex_file_extractor import TexFileExtractor
                if doc["pack"] == "folder":
                    TexFileExtractor.from_folder(paths[st["doc"]])
                elif doc["pack"] != "file":
                    with TexFileExtractor.from_compressed(paths[st["doc"]], cleanup=st["cleanup"]):
                        pass
            else:
                d0 = os.path.join(w.root, "in/d%d" % st["doc"])
                fs = sorted(doc["files"])
                if st["op"] == "sty":
                    from latex2json.parser.sty_parser import LatexStyParser
                    for f in fs:
                        LatexStyParser().parse_file(os.path.join(d0, f))
                elif st["op"] == "bib":
                    from latex2json.parser.bib.bib_parser import BibParser
                    for f in fs:
                        BibParser().parse_file(os.path.join(d0, f))
                else:
                    from latex2json.utils.encoding import detect_encoding, read_file
                    for f in fs:
                        detect_encoding(os.path.join(d0, f))
                        read_file(os.path.join(d0, f))
        own_cleanup = st["op"] == "cleanup" and held and held[st["res"] % len(held)].temp_dir
        cdir = str(own_cleanup) if own_cleanup else None
        o = run.active(go)
        o.pop("ok", None)
        ent = {"k": k, "o": o, "fired": len(w.fired) - nf}
        fd1 = fds()
        ent["fds"] = sorted(str(t).replace(w.root, "$ROOT") for n, t in fd1.items() if fd0.get(n) != t)
        ent["raws"] = w.open_handles()
        st1 = proc_state()
        ent["state"] = [x for x in st1 if st1[x] != state0[x]]
        # territory
        new = set(os.listdir(os.path.join(w.root, "tmp"))) | {m[1][len(w.root) + 5:].split("/")[0] for m in w.mutations
                                                                 if m[0] == "os.mkdir" and m[1].startswith(w.root + "/tmp/")}
        new -= before
        allowed = [os.path.join(w.root, "tmp", n) for n in new]
        if cdir:
            allowed.append(cdir)
        if st["op"] == "save":
            target = os.path.join(w.root, st["to"])
        bad = []
        for m, p in w.mutations:
            if m == "open_r":
                continue
            if any(p == a or p.startswith(a + "/") for a in allowed):
                continue
            if target and (p == target or (target.startswith(p + "/") and m == "os.mkdir") or
                           (os.path.dirname(p) == os.path.dirname(target) and p != target and not os.path.lexists(p))):
                continue  # the file, its folders, or a temporary name beside it that is gone again
            bad.append("%s %s" % (m, p.replace(w.root, "$ROOT")))
        ent["bad"] = bad[:5]
        ent["mut"] = len(w.mutations)
        ent["esc"] = [str(x) for x in w.escapes[:5]]
        snap1 = W.snapshot(src)
        if target and target.startswith(src + "/"):
            rel = os.path.relpath(target, src)
            snap1.pop(rel, None)
            snap0.pop(rel, None)
            saved_in = True
        if saved_in:
            snap1.pop("same.json", None)
        ent["snap"] = sorted(x for x in set(snap0) | set(snap1) if snap0.get(x) != snap1.get(x))[:5]
        cw = sorted(os.listdir(os.path.join(w.root, "cwd")))
        ent["cwd"] = cw
        log.append(ent)
        traces.append(list(w.trace))
    d = {"log": log}
    if dist is None:
        d["traces"] = traces
    d.update(run.stats())
    return d


def judge(v, case, dist, res, what):
    one = dict(case, dists=[dist])
    for ent in res["log"]:
        d = "%s, step %d %s (%s)" % (what, ent["k"], case["steps"][ent["k"]], ops.brief(ent["o"] or {"ok": ""}))
        if ent["snap"]:
            fail(v, "input-changed", "%s: input entries changed: %s" % (d, ent["snap"]), one)
        elif ent["esc"]:
            fail(v, "foreign-write", "%s: attempted outside the sandbox: %s" % (d, ent["esc"]), one)
        elif ent["bad"] or ent["cwd"]:
            fail(v, "foreign-write", "%s: touched outside its own territory: %s %s" % (d, ent["bad"], ent["cwd"]), one)
        elif ent["fds"] or ent["raws"]:
            fail(v, "handle-leak", "%s: still open afterwards: %s %s" % (d, ent["fds"], ent["raws"]), one)
        elif ent["state"]:
            fail(v, "process-state", "%s: process-wide state changed: %s" % (d, ent["state"]), one)
        else:
            continue
        return False
    return True


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(hist, case, None))
    if stuck(v, ref, "stuck", "the undisturbed history", case):
        return v
    if not judge(v, case, None, ref, "no fault"):
        return v
    ds = case.get("dists")
    if ds is None:
        r = random.Random("C13p/%s" % case["pick"])
        ds = []
        for _ in range(PER):
            k = r.randrange(len(case["steps"]))
            fs = faults.picks(r, ref["traces"][k], r.choice([1, 1, 2]))
            if r.random() < 0.15 and fs:
                fs[0].pop("arg", None)
                if fs[0]["op"] != "*":
                    fs[0]["kind"] = "interrupt"
            if fs:
                ds.append({"step": k, "faults": fs})
    hit = sum(1 for e in ref["log"] if e["mut"])
    for dist in ds:
        if dist is None:
            continue
        res = add(v, ctx.fork(hist, case, dist))
        what = "under %s" % faults.describe(dist["faults"])
        if stuck(v, res, "stuck", what, dict(case, dists=[dist])):
            return v
        if not judge(v, case, dist, res, what):
            return v
        if res["log"][dist["step"]]["fired"]:
            probe(v, "faulted_ops")
    for e in ref["log"]:
        probe(v, "ops_ok" if not e["o"] else "ops_failed")
        probe(v, "mutations_checked", e["mut"])
    v["nontrivial"] = hit > 0
    v["sig"] = sig([case["docs"], case["steps"]])
    v["sample"] = {"steps": case["steps"], "disturbances": ds[:3]}
    return v


def shrinks(case):
    ds = case.get("dists")
    keep = ds[0]["step"] if ds and ds[0] else None
    if ds and ds[0] and len(ds[0]["faults"]) > 1:
        for f in ds[0]["faults"]:
            yield dict(case, dists=[dict(ds[0], faults=[f])])
    for k in range(len(case["steps"]) - 1, -1, -1):
        if k == keep or len(case["steps"]) == 1:
            continue
        c = dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
        if ds and ds[0]:
            c["dists"] = [dict(ds[0], step=keep - (k < keep))]
        yield c
    for k, d in enumerate(case["docs"]):
        for f in sorted(d["files"]):
            if f != d["main"] and d.get("pack") != "gz":
                yield dict(case, docs=case["docs"][:k] + [dict(d, files={x: y for x, y in d["files"].items() if x != f})] + case["docs"][k + 1:])
        for f in sorted(d["files"]):
            if isinstance(d["files"][f], str):
                for t in shrink_text(d["files"][f]):
                    yield dict(case, docs=case["docs"][:k] + [dict(d, files=dict(d["files"], **{f: t}))] + case["docs"][k + 1:])
