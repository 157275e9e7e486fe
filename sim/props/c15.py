"""C15 - diagnostics never change the outcome.

Every case is a small history (conversions of documents rich in things to
complain about, healthy or broken inputs, serialisations and saves).  It is run
once with the library's defaults and healthy standard streams, then under
seeded diagnostic configurations: the logger passed in (none, own logger at any
level, handlers on failing streams, log files on a disk that fills up or
breaks at the n-th write, rotating and buffering handlers, broken formatters,
dropping filters, the package's own setup_logger), global logging switches, and
standard output and error closed, absent, broken pipes, full, unflushable or
unable to encode the message.  Every operation must give the same result, or
the same kind of error, and save the same bytes.
"""
import io
import logging
import logging.handlers
import os
import random
import sys
import tarfile
import warnings
import zipfile

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import c01
from runner import shrink_list, shrink_text

ID = "C15"
COUNTS = {"quick": 1400, "thorough": 12000}
PER = 5
RULE = __doc__
ASSUMPTIONS = ["log handlers report their own failures through logging.Handler.handleError, as the standard library's do; a handler or filter that raises into its caller is outside",
               "a sys.stderr object that was closed from within the process, or that is strict about encodings, makes the standard library's own failure reporting raise; outside"]

NOISE = ["\\zunknown{a} text \\zunknown{b}", "\\zunk\u00e9{\u00fcber}", "\\input{missing-file}", "\\input{f\u00e9hlt}", "\\include{nowhere/nothing}",
         "\\newcommand{\\zrec}{\\zrec x} \\zrec", "\\begin{zother} inside", "\\bibliography{none,nix}", "\\zcmd[opt]{arg}{arg}", "\\ifzz open \\else other",
         "\\def\\zd#1{\\zd#1} x", "\\cite{nokey} \\ref{nolabel}", "\\begin{tabular}{ll} a & b \\zcell \\\\ \\end{tabular}", "\\zpercent{%s %d %(x)s}",
         "\\usepackage{missingpkg}", "\\begin{thebibliography}{9} no items \\end{thebibliography}", "\\zctrl{\u2028 \x07 \u0416}", "\\input{main}"]

STREAMS = ["ok", "none", "epipe", "full", "closed", "ascii", "noflush", "nth", "noisatty", "badisatty", "tty", "short", "latin"]
ERRS = ["ok", "ok", "none", "epipe", "full", "noflush", "nth", "tty", "backslash", "noisatty"]


class FailStream:
    """A text stream that fails in one particular way."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, kind, n=3):
        self.kind, self.n, self.k = kind, n, 0
        self.data = []
        self.fails = 0
        self.closed = False

    def write(self, s):
        self.k += 1
        k = self.kind
        e = None
        if k == "epipe":
            e = BrokenPipeError(32, "Broken pipe")
        elif k == "full":
            e = OSError(28, "No space left on device")
        elif k == "closed":
            e = ValueError("I/O operation on closed file.")
        elif k == "nth" and self.k % self.n == 0:
            e = OSError(5, "Input/output error")
        elif k == "short" and self.k >= self.n:
            e = OSError(27, "File too large")
        elif k in ("ascii", "latin"):
            try:
                s.encode("ascii" if k == "ascii" else "latin-1")
            except UnicodeEncodeError as x:
                e = x
        if e is not None:
            self.fails += 1
            raise e
        if len(self.data) < 2000:
            self.data.append(len(s))
        return len(s)

    def flush(self):
        if self.kind in ("noflush", "full", "epipe"):
            self.fails += 1
            raise OSError(28, "No space left on device")
        if self.kind == "closed":
            raise ValueError("I/O operation on closed file.")

    def isatty(self):
        if self.kind == "badisatty":
            raise OSError(5, "Input/output error")
        if self.kind == "closed":
            raise ValueError("I/O operation on closed file.")
        return self.kind == "tty"

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def writable(self):
        return True


class NoTty:
    def __init__(self, kind=None):
        self.fails = 0

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def stream(kind, n=3):
    if kind == "none":
        return None
    if kind == "noisatty":
        return NoTty()
    if kind == "backslash":
        s = io.TextIOWrapper(io.BytesIO(), encoding="ascii", errors="backslashreplace")
        s.fails = 0
        return s
    return FailStream(kind, n)


class BadFormatter(logging.Formatter):
    def format(self, record):
        raise RuntimeError("formatter broke")


class Own(logging.Handler):
    """A third-party handler: remote logging that fails."""

    def __init__(self, n):
        super().__init__()
        self.n, self.k, self.fails = n, 0, 0

    def emit(self, record):
        try:
            self.k += 1
            self.format(record)
            if self.k % self.n == 0:
                self.fails += 1
                raise ConnectionResetError(104, "Connection reset by peer")
        except Exception:
            self.handleError(record)


class Rewrite(logging.Filter):
    def filter(self, record):
        record.msg, record.args = "rewritten", None
        record.exc_info = None
        return True


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.recs = []

    def emit(self, record):
        self.recs.append((record.levelno, record.getMessage()))


# ------------------------------------------------------------------- cases
def gen(seed, tier, i):
    r = random.Random("C15/%s" % seed)
    docs = []
    for k in range(r.randrange(1, 4)):
        d = c01.gen_doc(r, seed, k, enc=False)
        d["files"] = dict(d["files"])
        for f in sorted(d["files"]):
            if not f.endswith(".tex") or r.random() < 0.3:
                continue
            ls = d["files"][f].split("\n\n")
            for z in r.sample(NOISE, r.randrange(0, 5)):
                at = r.randrange(len(ls) + 1)
                if f == d["main"]:
                    at = min(max(at, 1), len(ls) - 1) if len(ls) > 1 else 0
                ls.insert(at, z)
            d["files"][f] = "\n\n".join(ls)
        x = r.random()
        if x < 0.25:
            d["state"] = r.choice(["nomain", "garbage", "truncated", "missing", "dirin", "badbytes"])
            if d["state"] == "nomain":
                d["files"] = {f: t.replace("\\documentclass", "%").replace("\\begin{document}", "") for f, t in d["files"].items()}
        if d["pack"] in ("tar.gz", "tgz", "zip") and r.random() < 0.6:
            d["hostile"] = r.sample(["../out.tex", "/abs/x.tex", "a/../../b.tex", "ln", "fifo", "n\u00e9.tex", "dangling", "x\udce9.tex"], r.randrange(1, 4))
        if r.random() < 0.2:
            d["base"] = r.choice(["d\u00e9j\u00e0", "p\udce9t", "a b", "%s%d", "{x}"])
        docs.append(d)
    steps = []
    for _ in range(r.randrange(1, 4)):
        di = r.randrange(len(docs))
        steps.append({"doc": di, "how": r.choice(ops.hows_for(docs[di])), "save": r.choice([None, None, "out/a.json", "out/n/b.json", "out", "out/b\udce9.json"]), "json": r.random() < 0.8})
    return {"docs": docs, "steps": steps, "pick": r.randrange(1 << 30), "seed": seed & 0xFFFF}


def handler(r):
    k = r.choice(["stream", "stream", "stream", "file", "file", "rot", "mem", "own", "null", "capture", "badfmt", "delay", "tr"])
    h = {"kind": k}
    if k in ("stream", "badfmt", "mem"):
        h["stream"] = r.choice([s for s in STREAMS if s != "none"])
        h["n"] = r.randrange(1, 6)
    if k in ("file", "rot", "tr", "delay"):
        h["fault"] = r.choice([None, "ENOSPC", "EIO", "torn"])
        h["nth"] = r.choice([1, 2, 5, 0])
        h["enc"] = r.choice(["utf-8", "ascii", None])
    if k == "own":
        h["n"] = r.randrange(1, 4)
    if r.random() < 0.25:
        h["level"] = r.choice([0, 10, 20, 30, 40, 60])
    h["fmt"] = r.choice([None, "%(levelname)s %(message)s", "%(nosuchfield)s", "color", "%(asctime)s %(name)s %(pathname)s:%(lineno)d %(message)s"])
    h["filter"] = r.choice([None, None, None, "drop", "rewrite"])
    return h


def config(r):
    c = {"logger": r.choice(["none", "none", "own", "own", "own", "named", "setup", "setup-file", "package", "disabled"]),
         "level": r.choice([0, 1, 10, 10, 10, 20, 30, 40, 50, 60]),
         "handlers": [handler(r) for _ in range(r.choice([0, 1, 1, 2, 3]))],
         "root": [handler(r) for _ in range(r.choice([0, 0, 0, 1, 2]))],
         "rootlevel": r.choice([None, None, 10, 40]),
         "propagate": r.random() < 0.5,
         "disable": r.choice([None, None, None, None, 10, 30, 50]),
         "raise": r.random() < 0.8,
         "stdout": r.choice(STREAMS), "stderr": r.choice(ERRS), "n": r.randrange(1, 5),
         "capture_warnings": r.random() < 0.1, "warnings": r.choice([None, None, "ignore", "always", "default"]),
         "pkglevel": r.choice([None, None, None, 10, 50])}
    return c


def build(c, run, plan, objs, k=[0]):
    """Materialise one handler."""
    h, w = c, run.w
    kind = h["kind"]
    fm = h.get("fmt")
    log = os.path.join(w.root, "log/h%d.log" % len(objs))
    rel = "log/h%d.log" % len(objs)
    if kind == "stream":
        o = logging.StreamHandler(stream(h["stream"], h["n"]))
    elif kind == "badfmt":
        o = logging.StreamHandler(stream(h["stream"], h["n"]))
    elif kind == "mem":
        o = logging.handlers.MemoryHandler(h["n"], flushLevel=logging.ERROR, target=logging.StreamHandler(stream(h["stream"], h["n"])))
    elif kind in ("file", "delay"):
        o = logging.FileHandler(log, mode="w", encoding=h["enc"], delay=kind == "delay")
    elif kind == "rot":
        o = logging.handlers.RotatingFileHandler(log, maxBytes=200, backupCount=2, encoding=h["enc"])
    elif kind == "tr":
        o = logging.handlers.TimedRotatingFileHandler(log, when="S", backupCount=1, encoding=h["enc"])
    elif kind == "own":
        o = Own(h["n"])
    elif kind == "null":
        o = logging.NullHandler()
    else:
        o = Capture()
    # (a delayed log file that cannot be opened raises into its caller; not covered)
    if kind in ("file", "delay", "rot", "tr") and h["fault"]:
        plan.append({"op": "write", "path": rel, "nth": h["nth"], "kind": h["fault"], **({"arg": 3} if h["fault"] == "torn" else {})})
        if kind in ("rot", "tr"):
            plan.append({"op": "rename", "path": rel, "nth": 0, "kind": "EACCES"})
    if fm == "color":
        from latex2json.utils.logger import ColoredFormatter
        o.setFormatter(ColoredFormatter("%(levelname)s - %(message)s"))
    elif fm:
        # (a bad format is only noticed when a record is formatted)
        o.setFormatter(logging.Formatter(fm, validate=False))
    if kind == "badfmt":
        o.setFormatter(BadFormatter())
    if h.get("level") is not None:
        o.setLevel(h["level"])
    if h["filter"] == "drop":
        o.addFilter(lambda rec: False)
    elif h["filter"] == "rewrite":
        o.addFilter(Rewrite())
    objs.append((rel, o))
    return o


def place(w, d, k):
    base = "in/%s%d" % (d.get("base", "d"), k)
    root = os.path.join(w.root, base)
    st = d.get("state")
    d = dict(d)
    files = d["files"] if d["pack"] != "gz" else {d["main"]: d["files"][d["main"]]}
    if d["pack"] not in ("file", "folder"):
        if d.get("hostile"):
            d["bytes"] = hostile(files, d)
        if st in ("garbage", "truncated"):
            data = d.get("bytes") or ops.pack(files, d["pack"], d["pack_seed"])
            d["bytes"] = data[:len(data) * 2 // 3] if st == "truncated" else b"\x1f\x8bnot really" * 9
    elif st in ("badbytes", "garbage", "truncated"):
        f = d["main"]
        d["files"] = dict(files, **{f: files[f].encode("utf-8") + b"\n% \xe9\xff\xfe\x81\n"})
    p = ops.place(w, d, base)
    if st == "missing":
        p += "-gone"
    elif st == "dirin" and d["pack"] == "file":
        p = root
        # a folder handed over as a file
    return p


def hostile(files, d):
    items = []
    for h in d["hostile"]:
        items.append(h)
    buf = io.BytesIO()
    if d["pack"] == "zip":
        with zipfile.ZipFile(buf, "w") as z:
            for h in items:
                if h not in ("ln", "fifo", "dangling"):
                    try:
                        z.writestr(zipfile.ZipInfo(h, (2020, 1, 1, 0, 0, 0)), "refused entry")
                    except UnicodeEncodeError:
                        pass
            for f in sorted(files):
                z.writestr(zipfile.ZipInfo(f, (2020, 1, 1, 0, 0, 0)), files[f])
        return buf.getvalue()
    with tarfile.open(fileobj=buf, mode="w", format=tarfile.GNU_FORMAT, encoding="utf-8", errors="surrogateescape") as t:
        for h in items:
            ti = tarfile.TarInfo(h)
            if h == "ln":
                ti.type, ti.linkname = tarfile.SYMTYPE, "/etc/passwd"
            elif h == "dangling":
                ti.type, ti.linkname = tarfile.SYMTYPE, "no\u00ebnd"
            elif h == "fifo":
                ti.type = tarfile.FIFOTYPE
            else:
                b = b"refused entry"
                ti.size = len(b)
                t.addfile(ti, io.BytesIO(b))
                continue
            t.addfile(ti)
        for f in sorted(files):
            ti = tarfile.TarInfo(f)
            b = files[f].encode("utf-8")
            ti.size = len(b)
            t.addfile(ti, io.BytesIO(b))
    return ops.gz(buf.getvalue())


def sim(root, case, conf):
    run = ops.Run(root, case["seed"])
    w = run.w
    for x in ("in", "out", "log"):
        os.makedirs(os.path.join(w.root, x), exist_ok=True)
    paths = [place(w, d, k) for k, d in enumerate(case["docs"])]
    plan, objs = [], []
    lg = None
    so, se = sys.stdout, sys.stderr
    out = err = None
    if conf is None:
        out, err = io.StringIO(), io.StringIO()
        cap = Capture()
        logging.root.addHandler(cap)
        logging.root.setLevel(1)
    else:
        out, err = stream(conf["stdout"], conf["n"]), stream(conf["stderr"], conf["n"])
        hs = [build(h, run, plan, objs) for h in conf["handlers"]]
        for h in conf["root"]:
            logging.root.addHandler(build(h, run, plan, objs))
        if conf["rootlevel"] is not None:
            logging.root.setLevel(conf["rootlevel"])
        k = conf["logger"]
        if k in ("own", "disabled"):
            lg = logging.Logger("mine", conf["level"])
        elif k == "named":
            lg = logging.getLogger("app.sub")
        elif k == "package":
            lg = logging.getLogger("latex2json.tex_reader")
        elif k.startswith("setup"):
            from latex2json.utils.logger import setup_logger
            lf = None
            if k == "setup-file":
                lf = os.path.join(w.root, "log/setup.log")
                plan.append({"op": "write", "path": "log/setup.log", "nth": 0, "kind": "ENOSPC"})
            sys.stderr = err
            lg = setup_logger("l2j-app", level=conf["level"], log_file=lf)
        if lg is not None:
            lg.setLevel(conf["level"])
            for h in hs:
                lg.addHandler(h)
            if not k.startswith("setup"):
                lg.propagate = conf["propagate"]
            if k == "disabled":
                lg.disabled = True
        else:
            for h in hs:
                logging.getLogger("latex2json").addHandler(h)
        if conf["pkglevel"] is not None:
            logging.getLogger("latex2json").setLevel(conf["pkglevel"])
        if conf["disable"] is not None:
            logging.disable(conf["disable"])
        logging.raiseExceptions = conf["raise"]
        if conf["capture_warnings"]:
            logging.captureWarnings(True)
        if conf["warnings"]:
            warnings.simplefilter(conf["warnings"])
    w.set_plan(plan)
    log = []
    held = []

    def one(st):
        rd = held[0]
        res = ops.process(rd, paths[st["doc"]], st["how"])
        a = ops.to_out(rd, res)
        if st["json"]:
            a += ops.to_out(rd, res)
        if st["save"]:
            try:
                rd.save_json(res, os.path.join(w.root, st["save"]))
            except Exception as e:
                a += "save:" + type(e).__name__
        return a
    sys.stdout, sys.stderr = out, err
    try:
        mk = run.active(lambda: held.append(ops.reader(lg)) or "made")
        log.append(mk)
        if held:
            for st in case["steps"]:
                log.append(run.active(lambda: one(st)))
        tmp = sorted(os.listdir(os.path.join(w.root, "tmp"))) and ["left"]
    finally:
        sys.stdout, sys.stderr = so, se
    saved = {n: v for n, v in W.snapshot(os.path.join(w.root, "out"), mtime=False).items()}
    d = {"log": log, "saved": repr(sorted(saved.items(), key=repr)), "tmp": tmp}
    if conf is None:
        d["records"] = len(cap.recs)
        d["warns"] = sum(1 for x in cap.recs if x[0] >= 30)
    else:
        fl = 0
        for x in [out, err] + [getattr(o, "stream", None) for _, o in objs] + [o for _, o in objs]:
            fl += getattr(x, "fails", 0)
        d["fails"] = fl
    d.update(run.stats())
    return d


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(sim, case, None))
    if stuck(v, ref, "stuck", "the run with default diagnostics", case):
        return v
    confs = case.get("confs")
    if confs is None:
        r = random.Random("C15c/%s" % case["pick"])
        confs = [config(r) for _ in range(PER)]
    for conf in confs:
        one = dict(case, confs=[conf])
        res = add(v, ctx.fork(sim, case, conf))
        what = "with logger %s, stdout %s, stderr %s, handlers %s" % (conf["logger"], conf["stdout"], conf["stderr"],
                                                                      [h["kind"] for h in conf["handlers"] + conf["root"]])
        if stuck(v, res, "stuck", what, one):
            return v
        for k, (a, b) in enumerate(zip(ref["log"], res["log"])):
            if not ops.same(a, b):
                fail(v, "outcome", "%s, operation %d: %s" % (what, k, ops.diff_brief(a, b)), one)
                return v
        if len(ref["log"]) != len(res["log"]):
            fail(v, "outcome", "%s: the reader could not be made: %s" % (what, res["log"][-1:]), one)
            return v
        if ref["saved"] != res["saved"]:
            fail(v, "saved", "%s: saved files differ: %s" % (what, ops.diff_brief({"ok": ref["saved"]}, {"ok": res["saved"]})), one)
            return v
        if ref["tmp"] != res["tmp"]:
            fail(v, "temp", "%s: temporary folders left" % what, one)
            return v
        f = v["stats"]["faults"]
        f["diagnostic_stream"] = f.get("diagnostic_stream", 0) + res["fails"]
        probe(v, "logger_" + conf["logger"])
        probe(v, "stdout_" + conf["stdout"])
        probe(v, "stderr_" + conf["stderr"])
    probe(v, "log_records_in_reference", ref["records"])
    probe(v, "failed_operations", sum(1 for o in ref["log"] if "ok" not in o))
    v["nontrivial"] = ref["warns"] > 0
    v["sig"] = sig([case["docs"], case["steps"], confs])
    v["sample"] = {"steps": case["steps"], "states": [d.get("state") for d in case["docs"]], "confs": confs[:2], "records": ref["records"]}
    return v


PLAIN = {"logger": "none", "level": 30, "handlers": [], "root": [], "rootlevel": None, "propagate": True, "disable": None, "raise": True,
         "stdout": "ok", "stderr": "ok", "n": 3, "capture_warnings": False, "warnings": None, "pkglevel": None}


def shrinks(case):
    cs = case.get("confs")
    if cs:
        for k in sorted(PLAIN):
            if cs[0][k] != PLAIN[k]:
                yield dict(case, confs=[dict(cs[0], **{k: PLAIN[k]})])
        for k in ("handlers", "root"):
            for hs in shrink_list(cs[0][k]):
                yield dict(case, confs=[dict(cs[0], **{k: hs})])
    for s in shrink_list(case["steps"]):
        if s:
            yield dict(case, steps=s)
    for k, st in enumerate(case["steps"]):
        if st["save"]:
            yield dict(case, steps=case["steps"][:k] + [dict(st, save=None)] + case["steps"][k + 1:])
    for k, d in enumerate(case["docs"]):
        for key in ("hostile", "base", "state"):
            if d.get(key):
                yield dict(case, docs=case["docs"][:k] + [{a: b for a, b in d.items() if a != key}] + case["docs"][k + 1:])
        for f in sorted(d["files"]):
            if f != d["main"]:
                yield dict(case, docs=case["docs"][:k] + [dict(d, files={x: y for x, y in d["files"].items() if x != f})] + case["docs"][k + 1:])
        for f in sorted(d["files"]):
            if isinstance(d["files"][f], str):
                for t in shrink_text(d["files"][f]):
                    yield dict(case, docs=case["docs"][:k] + [dict(d, files=dict(d["files"], **{f: t}))] + case["docs"][k + 1:])
