"""C08 - packaging is transparent.

One project is converted from its main file; then the same project is handed
over in seeded packagings (folder, zip, tar.gz, tgz, gz; entry orders, prefixes,
directory entries, format variants, compression methods and levels, optional
header fields, links, modes, extra files) through every entry point, with the
simulated operating system splitting reads and writes at seeded points and
listing directories in seeded order.  Every packaging must give the output of
the main file.
"""
import bz2  # noqa: F401
import gzip
import io
import os
import random
import stat
import struct
import tarfile
import zipfile

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from runner import shrink_text

ID = "C08"
COUNTS = {"quick": 600, "thorough": 9000}
PER = 7
RULE = __doc__
ASSUMPTIONS = ["names of the archive itself have one of the documented extensions in lower case"]
ODD = ["a..b", "x y", "caf\u00e9", "..dots", "dots..", "a...b", "v1..2/s", "..v/s", ".../s", "~t", "-dash", "a#b", "sub.d/s", "s.tex.v2", "UPPER", "a,b", "a+b", "A/../B"[:1] + "q"]


# links that nothing in the project refers to
STRAY = [("figs/old.pdf", "../missing.pdf"), ("etc.txt", "/nonexistent/etc.txt"), ("loop", "loop"), ("aa-link.tex", "missing.tex"), ("aa.tex", "./aa.tex"),
         ("up", ".."), ("figs/here", "."), ("z.bib", "figs/none.bib"), ("AA/x.tex", "../AA/y/../z.tex")]


def rename(p, r, new):
    """Give one included file of the project an odd name."""
    cand = [f for f, k in p["secondary"].items() if k == "tex"]
    if not cand:
        return
    f = r.choice(sorted(cand))
    top = os.path.dirname(p["main"])
    rel = os.path.relpath(f, top) if top else f
    stem = rel[:-4]
    hit = False
    for g in sorted(p["files"]):
        t = p["files"][g]
        for a in ("{%s}" % stem, "{%s}" % rel):
            if a in t:
                t = t.replace(a, "{%s%s}" % (new, ".tex" if a.endswith(".tex}") or "." in new else ""))
                hit = True
        p["files"][g] = t
    if hit:
        nf = os.path.join(top, new + ".tex")
        if nf in p["files"]:
            return
        p["files"][nf] = p["files"].pop(f)
        p["secondary"][nf] = p["secondary"].pop(f)


def gen(seed, tier, i):
    r = random.Random("C08/%s" % seed)
    if r.random() < 0.25:
        d = {"files": {"main.tex": docgen.single(seed)}, "main": "main.tex"}
        one = True
    else:
        p = docgen.project(seed)
        for nm in r.sample(ODD, r.randrange(0, 3)):
            rename(p, r, nm)
        d = {"files": p["files"], "main": p["main"]}
        one = len(p["files"]) == 1
        if r.random() < 0.3:
            f = r.choice([x for x in sorted(d["files"])])
            try:
                d["files"][f] = (d["files"][f] + ("\n% Stra\u00dfe f\u00fcr G\u00f6del\n" if not f.endswith(".bib") else "")).encode(r.choice(["latin-1", "utf-8-sig"]))
            except UnicodeEncodeError:
                pass
        if r.random() < 0.2:
            # a large member: many reads, many blocks
            f = d["main"]
            t = d["files"][f]
            if isinstance(t, str):
                d["files"][f] = t.replace("\\end{document}", "\n\n".join("Par %d %s" % (k, r.randbytes(12).hex()) for k in range(r.choice([400, 1500]))) + "\n\\end{document}")
    t = d["files"][d["main"]]
    if isinstance(t, str) and r.random() < 0.15 and "\\begin{document}" in t and not one:
        # the body, \begin{document} included, in a file of its own
        k = t.index("\\begin{document}")
        n = os.path.join(os.path.dirname(d["main"]), "zz-body.tex")
        if n not in d["files"]:
            d["files"][n] = t[k:]
            d["files"][d["main"]] = t[:k] + "\\input{zz-body}\n"
    elif isinstance(t, str) and r.random() < 0.1:
        # a main file recognisable by one of the two marks only
        t2 = t.replace("\\documentclass", "\\documentstyle") if r.random() < 0.5 else t.replace("\\begin{document}", "").replace("\\end{document}", "")
        d["files"][d["main"]] = t2
    if r.random() < 0.4:
        docgen.flavour(dict(d, pack="zip"), r, tag="f")
    extra = {}
    for n in r.sample(["README", "fig.png", "00README.XXX", ".DS_Store", "a/b/c/data.csv", "anc/notes..txt", "main.aux", "main.log", "x.tex~", "empty.tex", "notes.tex", "aaa.tex", "Abc/old.tex",
                       "__MACOSX/._main.tex", "ms.pdf", "A.tex.orig", "Makefile", "BACKUP/main.tex.bak", "v..1/readme.txt"], r.randrange(0, 4)):
        if n in ("A.tex.orig", "Makefile", "x.tex~", "BACKUP/main.tex.bak") and r.random() < 0.8:
            extra[n] = "\\documentclass{article}\n\\begin{document}\nAn old version.\n\\end{document}\n"
            continue
        extra[n] = r.randbytes(r.choice([0, 10, 700])) if not n.endswith("tex") else r.choice(["% nothing here\n", "% \\documentclass{article}\n%\\begin{document}\n", "100\\% %\\begin{document}\nold\n", "\\\\%\\documentclass{x}\n"])
    vs = [variation(r, one) for _ in range(PER)]
    if r.random() < 0.04:
        # larger than any buffer
        d["bulk"] = r.choice([70, 300, 1100, 2200])
        vs = vs[:4] + ([dict(variation(r, True), kind="gz", gzhead=[], multi=False)] if one else [])
        for x in vs:
            x.pop("short", None)
    return {"doc": d, "extra": extra, "seed": seed & 0xFFFF, "vars": vs}


def variation(r, one):
    kinds = ["folder", "zip", "zip", "tar.gz", "tar.gz", "tgz"] + (["gz", "gz.tar.gz"] if one else [])
    k = r.choice(kinds)
    x = {"kind": k, "seed": r.randrange(1 << 20), "how": r.choice(["process", "process", "direct", "pathlike"]), "order": r.choice(["sorted", "reversed", r.randrange(99)]),
         "prefix": r.choice(["", "", "./", "paper/", "a/b/", "v1..2/", "x y/", "..p/"]), "dirs": r.random() < 0.5, "extra": r.random() < 0.7,
         "name": r.choice(["paper", "arXiv-2301.10945v1", "a b", "p..q", "paper.tex", "x.zip", "tar"]),
         "base": r.choice(["in/d", "in/v1..2", "in/a b", "in/x.tar.gz.d"])}
    if k in ("tar.gz", "tgz"):
        x["fmt"] = r.choice(["pax", "gnu", "ustar", "v7"])
        x["level"] = r.choice([0, 1, 6, 9])
        x["link"] = r.choice([None, None, "sym", "lnk", "symdir"])
        x["mode"] = r.choice([0o644, 0o644, 0o444, 0o600, 0o755])
        x["pad"] = r.choice([0, 0, 512, 20480])
    if k in ("tar.gz", "tgz", "folder") and r.random() < 0.4:
        x["stray"] = r.sample(STRAY, r.randrange(1, 4))
    if k in ("gz", "gz.tar.gz", "tar.gz", "tgz"):
        x["gzhead"] = r.sample(["name", "extra", "comment", "hcrc"], r.randrange(0, 3))
        x["multi"] = r.random() < 0.2
    if k == "zip":
        x["comp"] = r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])
        x["stream"] = r.random() < 0.3
        x["comment"] = r.random() < 0.3
        x["z64"] = r.random() < 0.2
    if r.random() < 0.6:
        x["short"] = r.randrange(1 << 20)
    return x


class NoSeek(io.RawIOBase):
    def __init__(self, b):
        self.b = b

    def writable(self):
        return True

    def write(self, d):
        self.b.write(d)
        return len(d)


def gzhead(raw, flags, name=b"some name.tex"):
    import zlib
    fl = 0
    mid = b""
    if "extra" in flags:
        fl |= 4
        mid += struct.pack("<H", 6) + b"ab\x02\x00zz"
    if "name" in flags:
        fl |= 8
        mid += name + b"\0"
    if "comment" in flags:
        fl |= 16
        mid += b"a comment\0"
    head = raw[:3] + bytes([fl | (2 if "hcrc" in flags else 0)]) + raw[4:10] + mid
    if "hcrc" in flags:
        head += struct.pack("<H", zlib.crc32(head) & 0xFFFF)
    return head + raw[10:]


def gzip_of(data, x):
    parts = [data]
    if x.get("multi") and len(data) > 10:
        c = random.Random(x["seed"]).randrange(1, len(data))
        parts = [data[:c], data[c:]]
    out = b""
    for p in parts:
        b = io.BytesIO()
        with gzip.GzipFile(filename="", mode="wb", fileobj=b, mtime=x["seed"] % 3, compresslevel=x.get("level", 6)) as g:
            g.write(p)
        out += gzhead(b.getvalue(), x.get("gzhead", []))
    return out


def packed(files, x):
    r = random.Random("pk/%s" % x["seed"])
    names = sorted(files)
    r.shuffle(names)
    pre = x["prefix"]
    data = {n: files[n].encode() if isinstance(files[n], str) else files[n] for n in names}
    dirs = set()
    for n in names:
        d = os.path.dirname(pre + n)
        while d and d != ".":
            dirs.add(d)
            d = os.path.dirname(d)
    dirs = sorted(dirs)
    items = [("f", n) for n in names]
    if x["dirs"]:
        if r.random() < 0.5:
            items = [("d", d) for d in dirs] + items
        else:
            for d in dirs:
                items.insert(r.randrange(len(items) + 1), ("d", d))
    buf = io.BytesIO()
    if x["kind"] == "zip":
        with zipfile.ZipFile(NoSeek(buf) if x["stream"] else buf, "w", x["comp"]) as z:
            for t, n in items:
                zi = zipfile.ZipInfo((pre + n) if t == "f" else n + "/", (1980 + x["seed"] % 60, 1, 1, 0, 0, 0))
                zi.compress_type = x["comp"] if t == "f" else zipfile.ZIP_STORED
                zi.external_attr = ((stat.S_IFREG | 0o644) if t == "f" else (stat.S_IFDIR | 0o755)) << 16
                with z.open(zi, "w", force_zip64=x["z64"]) as f:
                    f.write(data[n] if t == "f" else b"")
            if x["comment"]:
                z.comment = b"PK comment"
        return buf.getvalue()
    fmt = {"pax": tarfile.PAX_FORMAT, "gnu": tarfile.GNU_FORMAT, "ustar": tarfile.USTAR_FORMAT, "v7": tarfile.USTAR_FORMAT}[x["fmt"]]
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as t:
        if x["dirs"] and pre == "./":
            ti = tarfile.TarInfo(".")
            ti.type, ti.mode = tarfile.DIRTYPE, 0o755
            t.addfile(ti)
        linked = None
        if x["link"]:
            c = [n for n in names if n.endswith((".sty", ".bib", ".cls")) or n in x.get("sec", ())]
            if c:
                linked = r.choice(sorted(c))
        stray = [y for y in x.get("stray", ()) if not {y[0], y[0].split("/")[0]} & set(names)]
        for n, to in stray:
            items.insert(r.randrange(len(items) + 1), (to, n))
        for ty, n in items:
            if ty not in ("f", "d"):
                ti = tarfile.TarInfo(pre + n)
                ti.type, ti.linkname = tarfile.SYMTYPE, ty
                t.addfile(ti)
                continue
            ti = tarfile.TarInfo((pre + n) if ty == "f" else n)
            ti.mtime = r.choice([0, 1, 1_600_000_000, 4_000_000_000])
            if ty == "d":
                ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                t.addfile(ti)
                continue
            ti.mode = x["mode"]
            ti.uid = ti.gid = r.choice([0, 1000, 65534])
            ti.uname = r.choice(["", "nobody", "alice"])
            if x["fmt"] == "v7":
                ti.type = tarfile.AREGTYPE
            if n == linked:
                # the content under another name, and a link to it
                tn = os.path.join(os.path.dirname(pre + n), "zz.real")
                tr = tarfile.TarInfo(tn)
                tr.size, tr.mode = len(data[n]), 0o644
                ti.type = tarfile.LNKTYPE if x["link"] == "lnk" else tarfile.SYMTYPE
                ti.linkname = tn if x["link"] == "lnk" else ("zz.real" if x["link"] == "sym" else "./zz.real")
                if x["link"] == "lnk" or r.random() < 0.5:
                    t.addfile(tr, io.BytesIO(data[n]))
                    t.addfile(ti)
                else:
                    t.addfile(ti)
                    t.addfile(tr, io.BytesIO(data[n]))
                continue
            ti.size = len(data[n])
            t.addfile(ti, io.BytesIO(data[n]))
    return gzip_of(buf.getvalue() + b"\0" * x["pad"], x)


def full(doc):
    """The documents with the bulk that the case only names: lines of comments in the main file."""
    if not doc.get("bulk"):
        return doc
    t = doc["files"][doc["main"]]
    pad = "% " + "padding " * 120 + "\n"
    pad *= doc["bulk"] * 1024 // len(pad) + 1
    m = "\\begin{document}"
    if isinstance(t, str):
        k = t.index(m) + len(m) if m in t else 0
        t = t[:k] + "\n" + pad + t[k:]
    return dict(doc, files=dict(doc["files"], **{doc["main"]: t}))


def sim(root, doc, extra, x, plan, want):
    run = ops.Run(root, 0, x["order"])
    w = run.w
    base = os.path.join(w.root, x["base"])
    files = dict(doc["files"])
    if x["extra"]:
        for n, t in extra.items():
            files.setdefault(n, t)
    k = x["kind"]
    if k == "folder":
        pre = x["prefix"] if x["prefix"] != "./" else ""
        W.put(base, {pre + n: t for n, t in files.items()})
        for n, to in x.get("stray", ()):
            n = os.path.join(base, pre + n)
            os.makedirs(os.path.dirname(n), exist_ok=True)
            if not os.path.lexists(n):
                os.symlink(to, n)
        path = base
    elif k in ("gz", "gz.tar.gz"):
        t = doc["files"][doc["main"]]
        path = os.path.join(base, x["name"] + (".gz" if k == "gz" else ".tar.gz"))
        W.put(base, {os.path.basename(path): gzip_of(t.encode() if isinstance(t, str) else t, x)})
    else:
        path = os.path.join(base, x["name"] + "." + k)
        W.put(base, {os.path.basename(path): packed(files, x)})
    w.set_plan(plan)

    def go():
        import pathlib
        rd = ops.reader()
        if x["how"] == "direct":
            res = rd.process_folder(path) if k == "folder" else rd.process_compressed(path)
        else:
            res = rd.process(pathlib.Path(path) if x["how"] == "pathlike" else path, cleanup=x["seed"] % 2 == 0)
        return ops.to_out(rd, res)
    o = run.active(go)
    d = {"out": o, "trace": list(w.trace) if want else None}
    d.update(run.stats())
    return d


def same(a, b):
    """The same output; a document that cannot be converted fails in every packaging."""
    return ops.same(a, b) or ("err" in a and "err" in b)


def execute(case, ctx):
    v = verdict()
    doc = full(case["doc"])
    ref = add(v, ctx.fork(ops.run_doc, dict(doc, pack="file"), "process"))
    if stuck(v, ref, "stuck", "the main file", case):
        return v
    if "ok" not in ref["out"]:
        probe(v, "reference_failed")
    for x in case["vars"]:
        one = dict(case, vars=[x])
        res = add(v, ctx.fork(sim, doc, case["extra"], x, x.get("plan", []), "short" in x and "plan" not in x))
        if stuck(v, res, "stuck", "packaging %s" % x, one):
            return v
        if not same(ref["out"], res["out"]):
            fail(v, "short-io" if "plan" in x else "packaging", "packaging %s: %s" % ({k: y for k, y in x.items() if k != "plan"}, ops.diff_brief(ref["out"], res["out"])), one)
            return v
        probe(v, "pack_" + x["kind"])
        if "short" in x and "plan" not in x:
            r = random.Random("C08s/%s" % x["short"])
            paths = sorted({(op, rel) for op, rel, n in res["trace"] if op in ("read", "write")})
            size = r.choice([1, 1, 3, 100, 511])
            big = any(len(t) > 20000 for t in doc["files"].values())
            if big:
                size = max(size, 100)
            plan = [{"op": op, "path": rel, "nth": 0, "kind": "short", "arg": size} for op, rel in paths if r.random() < 0.8]
            one = dict(case, vars=[dict(x, plan=plan)])
            res = add(v, ctx.fork(sim, doc, case["extra"], x, plan, False))
            if stuck(v, res, "stuck", "packaging %s with short reads" % x, one):
                return v
            if not same(ref["out"], res["out"]):
                fail(v, "short-io", "packaging %s, reads and writes split at %d bytes: %s" % (x, size, ops.diff_brief(ref["out"], res["out"])), one)
                return v
            probe(v, "split_io_runs")
    v["nontrivial"] = "ok" in ref["out"]
    v["sig"] = sig([doc, case["vars"]])
    v["sample"] = {"files": sorted(doc["files"]), "extra": sorted(case["extra"]), "variations": case["vars"][:2]}
    return v


def shrinks(case):
    x = case["vars"][0]
    if len(case["vars"]) > 1:
        for y in case["vars"]:
            yield dict(case, vars=[y])
        return
    if case["doc"].get("bulk"):
        yield dict(case, doc=dict(case["doc"], bulk=0))
    for n in sorted(case["extra"]):
        yield dict(case, extra={k: t for k, t in case["extra"].items() if k != n})
    for k, dflt in (("prefix", ""), ("dirs", False), ("extra", False), ("name", "paper"), ("base", "in/d"), ("how", "process"), ("order", "sorted"), ("link", None),
                    ("gzhead", []), ("multi", False), ("pad", 0), ("stream", False), ("comment", False), ("z64", False)):
        if k in x and x[k] != dflt:
            yield dict(case, vars=[dict(x, **{k: dflt})])
    if len(x.get("plan", [])) > 1:
        for f in x["plan"]:
            yield dict(case, vars=[dict(x, plan=[f])])
    d = case["doc"]
    for f in sorted(d["files"]):
        if f != d["main"]:
            yield dict(case, doc=dict(d, files={a: b for a, b in d["files"].items() if a != f}))
    for f in sorted(d["files"]):
        if isinstance(d["files"][f], str):
            for t in shrink_text(d["files"][f]):
                if f == d["main"] and not ("\\documentclass" in t and "\\begin{document}" in t):
                    continue
                yield dict(case, doc=dict(d, files=dict(d["files"], **{f: t})))
