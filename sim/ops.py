"""Operations on the real package, as performed inside a simulated run."""
import gzip
import io
import json
import logging
import os
import random
import tarfile
import zipfile

import world as W
from boot import PKG
from runner import Budget, Interrupter

BUDGET = 40_000_000


class L:
    """Late-bound handles on the package's public API."""

    @property
    def TexReader(self):
        from latex2json.tex_reader import TexReader
        return TexReader

    @property
    def TexProcessingError(self):
        from latex2json.tex_reader import TexProcessingError
        return TexProcessingError

    @property
    def LatexParser(self):
        from latex2json.parser.tex_parser import LatexParser
        return LatexParser


lib = L()


def scrub(s):
    """Make an outcome independent of the run's scratch directory."""
    w = W.W[0]
    return s.replace(w.root, "$ROOT") if w is not None and isinstance(s, str) else s


def outcome(fn):
    try:
        return {"ok": scrub(fn())}
    except W.SimBlocked as e:
        return {"blocked": str(e)}
    except KeyboardInterrupt:
        return {"interrupt": True}
    except Exception as e:
        return {"err": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "msg": scrub(str(e))[:400]}
    except BaseException as e:
        return {"base": type(e).__name__, "msg": scrub(str(e))[:200]}


def same(a, b):
    """Same observable result: identical value, or the same kind of error."""
    if "ok" in a or "ok" in b:
        return a.get("ok") == b.get("ok") and ("ok" in a) == ("ok" in b)
    if "err" in a or "err" in b:
        return a.get("err") == b.get("err")
    return a == b


def brief(o):
    if "ok" in o:
        s = o["ok"]
        s = s if isinstance(s, str) else json.dumps(s, default=str)
        return "ok[%d] %s" % (len(s), s[:160])
    return json.dumps({k: v for k, v in o.items() if k != "mro"})[:300]


def diff_brief(a, b):
    """Where two outcomes differ."""
    if "ok" in a and "ok" in b and isinstance(a["ok"], str) and isinstance(b["ok"], str):
        x, y = a["ok"], b["ok"]
        i = 0
        while i < min(len(x), len(y)) and x[i] == y[i]:
            i += 1
        return "expected ...%s | got ...%s" % (x[max(0, i - 40):i + 110], y[max(0, i - 40):i + 110])
    return "expected %s | got %s" % (brief(a), brief(b))


# --------------------------------------------------------------- packing
def pack(files, kind, seed=0, prefix="", extra_dirs=True, modes=None):
    """Build an archive of `files` ({rel: text}); member order is seeded."""
    r = random.Random("pack/%s" % (seed,))
    names = sorted(files)
    if seed:
        r.shuffle(names)
    data = {n: (files[n].encode("utf-8") if isinstance(files[n], str) else files[n]) for n in names}
    buf = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED if r.random() < 0.7 else zipfile.ZIP_STORED) as z:
            dirs = sorted({os.path.dirname(prefix + n) for n in names} - {""})
            if extra_dirs and r.random() < 0.5:
                for d in dirs:
                    z.writestr(zipfile.ZipInfo(d + "/", (2020, 1, 1, 0, 0, 0)), b"")
            for n in names:
                zi = zipfile.ZipInfo(prefix + n, (2020, 1, 1, 0, 0, 0))
                zi.compress_type = z.compression
                z.writestr(zi, data[n])
        return buf.getvalue()
    if kind in ("tar.gz", "tgz"):
        raw = io.BytesIO()
        fmt = r.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT, tarfile.USTAR_FORMAT])
        with tarfile.open(fileobj=raw, mode="w", format=fmt) as t:
            dirs = sorted({os.path.dirname(prefix + n) for n in names} - {""})
            if extra_dirs and r.random() < 0.5:
                for d in dirs:
                    ti = tarfile.TarInfo(d)
                    ti.type = tarfile.DIRTYPE
                    ti.mode = 0o755 if modes is None else modes
                    t.addfile(ti)
            for n in names:
                ti = tarfile.TarInfo(prefix + n)
                ti.size = len(data[n])
                ti.mode = 0o644 if modes is None else modes
                ti.mtime = 1_600_000_000
                t.addfile(ti, io.BytesIO(data[n]))
        return gz(raw.getvalue())
    if kind == "gz":
        assert len(names) == 1
        return gz(data[names[0]])
    raise ValueError(kind)


def gz(data, name=""):
    buf = io.BytesIO()
    with gzip.GzipFile(filename=name, mode="wb", fileobj=buf, mtime=0) as g:
        g.write(data)
    return buf.getvalue()


# ---------------------------------------------------------------- helpers
def reader(logger=None):
    return lib.TexReader(logger) if logger is not None else lib.TexReader()


def place(w, doc, base):
    """Materialise a document below `base` (relative to the world); return the
    path to hand to the reader."""
    kind = doc.get("pack")
    root = os.path.join(w.root, base)
    if not kind or kind == "file":
        W.put(root, doc["files"])
        return os.path.join(root, doc["main"])
    if kind == "folder":
        W.put(root, doc["files"])
        return root
    data = doc.get("bytes")
    if data is None:
        files = doc["files"] if kind != "gz" else {doc["main"]: doc["files"][doc["main"]]}
        data = pack(files, kind, doc.get("pack_seed", 0), doc.get("prefix", ""))
    name = doc.get("arcname", "paper") + "." + kind
    W.put(root, {name: data})
    return os.path.join(root, name)


def process(rd, path, how="process", cleanup=None):
    if how == "process":
        return rd.process(path, cleanup=True if cleanup is None else cleanup)
    if how == "process_file":
        return rd.process_file(path)
    if how == "process_folder":
        return rd.process_folder(path)
    if how == "process_compressed":
        return rd.process_compressed(str(path), cleanup=True if cleanup is None else cleanup)
    raise ValueError(how)


def to_out(rd, res):
    return rd.to_json(res)


def hows_for(doc):
    k = doc.get("pack")
    if not k or k == "file":
        return ["process", "process_file"]
    if k == "folder":
        return ["process", "process_folder"]
    return ["process", "process_compressed"]


class Run:
    """Set-up shared by all runs: world, budget, bookkeeping."""

    def __init__(self, root, seed=0, order="sorted", budget=BUDGET, **kw):
        self.w = W.enter(root, seed, order, **kw)
        self.b = Budget(budget, PKG)

    def unpriv(self, uid=65534):
        """Continue as a user without privileges who owns the whole world (so
        that modes and ownership bind, as they do for ordinary users)."""
        if os.geteuid() != 0:
            return False
        try:
            for dp, dn, fn in os.walk(self.w.root):
                os.lchown(dp, uid, uid)
                for f in fn:
                    os.lchown(os.path.join(dp, f), uid, uid)
            os.setgroups([])
            os.setresgid(uid, uid, uid)
            os.setresuid(uid, uid, uid)
            os.environ["HOME"] = self.w.root
            return True
        except OSError:
            return False

    def stats(self):
        w = self.w
        return {"steps": self.b.n, "events": w.n, "sim_s": w.clock - w.clock0,
                "fired": [list(f) for f in w.fired]}

    def active(self, fn):
        self.w.active = True
        try:
            return outcome(fn)
        finally:
            self.w.active = False


def run_doc(root, doc, how, order="sorted", seed=0, plan=None, want_trace=False, budget=BUDGET, base="in/d"):
    """One document, one fresh reader, fresh process: the reference."""
    r = Run(root, seed, order, budget)
    path = place(r.w, doc, base)
    r.w.set_plan(plan or [])

    def go():
        rd = reader()
        res = process(rd, path, how)
        return to_out(rd, res)
    out = r.active(go)
    d = {"out": out}
    d.update(r.stats())
    if want_trace:
        d["trace"] = r.w.trace
    return d
