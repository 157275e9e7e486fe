"""C03 - unpacking an archive stays inside its private folder.

Seeded hostile archives (zip, tar.gz, tgz, gz): absolute, parent-relative and
sibling-prefix names, symbolic and hard links and chains of them, entries below
links, duplicates, device nodes, pipes, odd names and modes, in seeded order,
unpacked with and without I/O faults at recorded operations.  Temporary names
are decided by the simulator, so entries can aim at the folder's siblings.  The
audit hook resolves the real target of every mutation and every open; the world
outside the folder is compared before and after; the folder is scanned for
links leading out and special files.
"""
import io
import os
import random
import stat
import struct
import tarfile
import zipfile

import docgen
import faults
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict

ID = "C03"
COUNTS = {"quick": 8000, "thorough": 64000}
PER = 3
RULE = __doc__
ASSUMPTIONS = ["escapes into the simulated world are observed as effects; escapes beyond it are blocked and reported by the audit hook"]
TNAME = "@T@"      # stands for the base name of the temporary folder in generated names
ROOT = "@R@"       # stands for the root of the simulated world


def names(r):
    n = r.choice(["a.tex", "b.tex", "sub/c.tex", "main.tex", "x", "sub", "sub/deep/d.tex", "l", "l2", "fig.png", "refs.bib"])
    x = r.random()
    if x < 0.5:
        return n
    return r.choice([
        "../" + n, "../../out/" + n, "../../out/victim.tex", "sub/../../../out/victim.tex", "/" + n, ROOT + "/out/victim.tex", ROOT + "/out/new.tex",
        "//" + ROOT + "/out/new2.tex", "../" + TNAME + "x/evil.tex", "../" + TNAME + "x/keep.tex", "../" + TNAME + "x", "./" + n, "sub/../" + n, "./../../out/e.tex",
        "l/" + n, "l/victim.tex", "l2/" + n, "l/../" + n, "sub/l/new.tex", "l/l/" + n, "a.tex/" + n, "..", ".", "...", "..." + n, "..\\..\\" + n, "C:\\" + n, "C:/" + n,
        n + "/", "sub//" + n, " " + n, n + " ", "~/" + n, "~root/" + n, "$HOME/" + n, "-" + n, "caf\u00e9/" + n, "l/keep.tex", "sub/l", "x" * 300 + ".tex", "sub/" * 40 + n,
        "a\nb.tex", "*.tex", "..%2f" + n, "..\u2215" + n, "\u2025/" + n, "..;/" + n, ".../" + n, "sub/..", "l/..", "l2/..", "../" + TNAME, "../" + TNAME + "/" + n,
        "../other/keep.txt", "../other", "a..b.tex"])


def links(r):
    return r.choice([
        ROOT + "/out", ROOT + "/out/victim.tex", ROOT + "/out/vdir", "../../out", "../../out/victim.tex", "..", "../..", "../../../..", "/", "/etc/hostname", "/etc",
        ".", "a.tex", "main.tex", "sub", "l", "l2", "l/vdir", "l/victim.tex", "l2/out", "sub/../..", "sub/../../../out", "./a.tex", "../other", "../other/keep.txt",
        "../" + TNAME + "x", "../" + TNAME + "x/keep.tex", "nonexistent", "../nonexistent", ROOT + "/out/fresh", "sub/c.tex", "", "l/..", "/proc/self/cwd", "/dev/zero",
        ROOT + "/in/paper.tar.gz", "x/../../../out"])


def maze(r):
    """Links that look as if they stayed inside, and do not once others are in place."""
    def reg(n):
        return {"name": n, "t": "reg", "data": "evil\n", "mode": 0o644}

    def sym(n, to):
        return {"name": n, "t": r.choice(["sym", "sym", "sym", "lnk"]) if r.random() < 0.2 else "sym", "link": to, "data": "", "mode": 0o755}

    def walk():
        out, d = [], 0
        for _ in range(r.randrange(1, 6)):
            if d > 0 and r.random() < 0.4:
                out.append("..")
                d -= 1
            else:
                out.append(r.choice("abcd"))
                d += 1
        return "/".join(out)
    if r.random() < 0.5:
        ents = []
        for _ in range(r.randrange(4, 11)):
            n = "/".join(r.choice("abcd") for _ in range(r.choice([1, 1, 2, 2, 3])))
            x = r.random()
            up = "../" * n.count("/")
            ents.append(sym(n, (up if r.random() < 0.7 else "") + walk()) if x < 0.6 else reg(n + "/" + r.choice("abcdw")) if x < 0.85 else
                        {"name": n, "t": "dir", "data": "", "mode": 0o755})
        return ents
    # q/r looks two levels deep and is one level deep (or none)
    shallow = r.choice(["../e", "../e", "..", "../d/../e", "z/../../e"])
    first = [sym("p", "q/r/../../" + r.choice(["x", "x/y", "victim.tex", "out", "."]))]
    rest = [sym("q", r.choice(["d", "./d", "e/../d"])), sym("d/r", shallow), reg("d/f.tex"), reg("e/g.tex")]
    if r.random() < 0.4:
        # what the link names exists in the archive too
        first.insert(0, reg(os.path.normpath(first[0]["link"]) if first[0]["link"][-1] != "." else "x"))
    if r.random() < 0.5:
        r.shuffle(rest)
    last = [r.choice([reg("p/evil.tex"), reg("p"), reg("p/victim.tex"), sym("p/l", "x"), {"name": "p/n", "t": "dir", "data": "", "mode": 0o755}])]
    ents = first + rest + last
    if r.random() < 0.25:
        ents = rest + first + last
    elif r.random() < 0.2:
        r.shuffle(ents)
    return ents


def gen(seed, tier, i):
    r = random.Random("C03/%s" % seed)
    kind = r.choice(["tar.gz", "tar.gz", "tgz", "tar.gz", "zip", "zip", "gz"])
    ents = []
    for _ in range(r.randrange(1, 9)):
        e = {"name": names(r), "t": "reg", "data": "% filler " + "x" * r.randrange(0, 30) + "\n", "mode": r.choice([0o644, 0o644, 0o600, 0o444, 0o000, 0o4755, 0o777])}
        x = r.random()
        if kind != "gz" and x < 0.34:
            e["t"] = "sym"
            e["link"] = links(r)
            if r.random() < 0.5:
                e["name"] = r.choice(["l", "l", "l2", "sub/l", "x", "a.tex", "sub"])
        elif kind != "gz" and x < 0.5:
            e["t"] = "lnk"
            e["link"] = links(r)
        elif x < 0.6:
            e["t"] = "dir"
            e["mode"] = r.choice([0o755, 0o700, 0o555, 0o000])
        elif kind != "gz" and x < 0.7:
            e["t"] = r.choice(["fifo", "chr", "blk", "cont", "unk"])
        ents.append(e)
        if e["t"] in ("sym", "lnk") and r.random() < 0.7:
            ents.append({"name": r.choice([e["name"] + "/new.tex", e["name"] + "/victim.tex", e["name"], e["name"] + "/vdir/f.tex", e["name"] + "/sub/x.tex"]),
                         "t": r.choice(["reg", "reg", "reg", "dir", "sym", "lnk"]), "data": "evil\n", "mode": 0o644, "link": links(r)})
    if kind != "gz" and r.random() < 0.15:
        ents = maze(r)
    if r.random() < 0.25:
        ents.append(dict(r.choice(ents)))
    main = {"name": r.choice(["main.tex", "main.tex", "zz/main.tex", "paper.tex"]), "t": "reg", "data": docgen.single(seed, size=(0, 2)), "mode": 0o644}
    pos = r.random()
    if pos < 0.9:
        ents.insert(r.randrange(len(ents) + 1), main)
    if r.random() < 0.1:
        ents.append({"name": "main.tex", "t": r.choice(["sym", "lnk"]), "link": ROOT + "/out/secret.tex", "data": "", "mode": 0o644})
    return {"kind": kind, "ents": ents, "seed": seed & 0xFFFF, "how": r.choice(["extract", "extract", "process", "process_compressed"]),
            "cleanup": r.random() < 0.5, "unpriv": r.random() < 0.3, "fmt": r.choice(["pax", "gnu", "ustar"]), "pick": r.randrange(1 << 30),
            "arcname": r.choice(["paper", "paper", ".", "..", "a..b", "main.tex", "-x", "x y"])}


def build(case, tname, root):
    def sub(s):
        return s.replace(TNAME, tname).replace(ROOT, root)
    buf = io.BytesIO()
    if case["kind"] == "zip":
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with zipfile.ZipFile(buf, "w") as z:
                for e in case["ents"]:
                    n = sub(e["name"])
                    zi = zipfile.ZipInfo("x", (2020, 1, 1, 0, 0, 0))
                    zi.filename = n + "/" if e["t"] == "dir" and not n.endswith("/") else n
                    zi.orig_filename = zi.filename
                    typ = {"reg": stat.S_IFREG, "dir": stat.S_IFDIR, "sym": stat.S_IFLNK, "fifo": stat.S_IFIFO, "chr": stat.S_IFCHR,
                           "blk": stat.S_IFBLK}.get(e["t"], stat.S_IFREG)
                    zi.create_system = 3
                    zi.external_attr = (typ | e["mode"]) << 16
                    z.writestr(zi, sub(e["link"]) if e["t"] in ("sym", "lnk") else ("" if e["t"] == "dir" else e["data"]))
        return buf.getvalue()
    if case["kind"] == "gz":
        # the stored file name is hostile
        raw = ops.gz(case["ents"][-1]["data"].encode())
        n = sub(case["ents"][0]["name"]).encode("utf-8", "surrogateescape").replace(b"\0", b"")
        return raw[:3] + b"\x08" + raw[4:10] + n + b"\0" + raw[10:]
    fmt = {"pax": tarfile.PAX_FORMAT, "gnu": tarfile.GNU_FORMAT, "ustar": tarfile.USTAR_FORMAT}[case["fmt"]]
    T = {"reg": tarfile.REGTYPE, "dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "lnk": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE,
         "chr": tarfile.CHRTYPE, "blk": tarfile.BLKTYPE, "cont": tarfile.CONTTYPE, "unk": b"Z"}
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as t:
        for e in case["ents"]:
            ti = tarfile.TarInfo(sub(e["name"]))
            ti.type = T[e["t"]]
            ti.mode = e["mode"]
            ti.mtime = 1_600_000_000
            data = e["data"].encode()
            if e["t"] in ("sym", "lnk"):
                ti.linkname = sub(e["link"])
            if e["t"] in ("chr", "blk"):
                ti.devmajor, ti.devminor = 1, 3
            if e["t"] in ("reg", "cont", "unk"):
                ti.size = len(data)
            try:
                t.addfile(ti, io.BytesIO(data) if ti.size else None)
            except ValueError:
                ti.name = ti.name[:90]  # the ustar format has limits
                ti.linkname = ti.linkname[:90]
                t.addfile(ti, io.BytesIO(data) if ti.size else None)
    return ops.gz(buf.getvalue())


def inodes(root, skip):
    out = {}
    for dp, dn, fn in os.walk(root):
        if dp == skip or dp.startswith(skip + "/"):
            dn[:] = []
            continue
        for f in fn:
            st = W.REAL["lstat"](os.path.join(dp, f))
            out[(st.st_dev, st.st_ino)] = os.path.join(dp, f)
    return out


def scan(top, outside):
    """Links leading out, special files and foreign inodes below `top`."""
    bad = []
    n = 0
    for dp, dn, fn in os.walk(top):
        for f in dn + fn:
            p = os.path.join(dp, f)
            n += 1
            st = W.REAL["lstat"](p)
            if stat.S_ISLNK(st.st_mode):
                t = W._real_target(p)
                if not (t == top or t.startswith(top + "/")):
                    bad.append("link %s -> %s" % (os.path.relpath(p, top), W.REAL["readlink"](p)))
            elif not (stat.S_ISREG(st.st_mode) or stat.S_ISDIR(st.st_mode)):
                bad.append("special file %s" % os.path.relpath(p, top))
            elif stat.S_ISREG(st.st_mode) and (st.st_dev, st.st_ino) in outside:
                bad.append("hard link %s to %s" % (os.path.relpath(p, top), outside[(st.st_dev, st.st_ino)]))
    return bad, n


def sim(root, case, plan):
    run = ops.Run(root, case["seed"])
    w = run.w
    tname = "tmp" + next(iter(W.SimNames(case["seed"], 0)))
    R = w.root
    W.put(R, {"out/victim.tex": "precious", "out/vdir/f.tex": "precious too", "out/secret.tex": "\\documentclass{article}\\begin{document}secret\\end{document}",
              "tmp/other/keep.txt": "keep", "tmp/%sx/keep.tex" % tname: "keep", "cwd/c.txt": "c"})
    os.chdir(os.path.join(R, "cwd"))
    path = os.path.join(R, "in", case["arcname"] + "." + case["kind"])
    W.put(os.path.dirname(path), {os.path.basename(path): build(case, tname, R)})
    top = os.path.join(R, "tmp", tname)
    outside = inodes(R, top)
    before = {k: x for k, x in W.snapshot(R).items() if not (k == "tmp/" + tname or k.startswith("tmp/" + tname + "/"))}
    if case.get("unpriv"):
        run.unpriv()
    before = {k: x for k, x in W.snapshot(R).items() if not (k == "tmp/" + tname or k.startswith("tmp/" + tname + "/"))}
    w.set_plan(plan)
    w.watch_mut = True
    found = []

    def look():
        bad, n = scan(top, outside)
        found.extend(bad)
        return n
    cnt = [0]

    def go():
        if case["how"] == "extract":
            from latex2json.tex_file_extractor import TexFileExtractor
            with TexFileExtractor.from_compressed(path, cleanup=case["cleanup"]):
                w.active = False
                try:
                    cnt[0] = look()
                finally:
                    w.active = True
        else:
            rd = ops.reader()
            if case["how"] == "process":
                res = rd.process(path, cleanup=False)
            else:
                res = rd.process_compressed(path, cleanup=False)
            w.active = False
            try:
                cnt[0] = look()
            finally:
                w.active = True
            s = ops.to_out(rd, res)
            if "secret" in s and "secret" not in "".join(e["data"] for e in case["ents"]):
                found.append("content of out/secret.tex in the result")
            if case["cleanup"]:
                res.cleanup()
    o = run.active(go)
    o.pop("ok", None)
    if os.path.isdir(top):
        look()
    after = {k: x for k, x in W.snapshot(R).items() if not (k == "tmp/" + tname or k.startswith("tmp/" + tname + "/"))}
    # the folder that holds the temporary folder itself changes its time only
    chg = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    mut, rd_out = [], []
    for m, p in w.mutations:
        ins = p == top or p.startswith(top + "/")
        if m == "open_r":
            if not ins and p != path and not p.startswith(R + "/in/"):
                rd_out.append(p.replace(R, "$ROOT"))
        elif m == "os.mkdir" and (p == R or p[len(R) + 1:] in before):
            pass  # it exists: the attempt cannot have had an effect
        elif not ins:
            mut.append("%s %s" % (m, p.replace(R, "$ROOT")))
    d = {"o": o, "found": sorted(set(found))[:6], "chg": chg[:6], "mut": mut[:6], "reads": rd_out[:6], "esc": [str(x).replace(R, "$ROOT") for x in w.escapes[:6]],
         "n": cnt[0], "trace": list(w.trace) if not plan else None, "nmut": len(w.mutations)}
    d.update(run.stats())
    return d


def judge(v, case, plan, res, what):
    one = dict(case, plans=[plan])
    d = "%s (%s, %s)" % (what, case["how"], ops.brief(res["o"] or {"ok": "extracted"}))
    if res["chg"]:
        fail(v, "outside-changed", "%s: entries outside the temporary folder differ afterwards: %s" % (d, res["chg"]), one)
    elif res["mut"] or res["esc"]:
        fail(v, "outside-touched", "%s: mutation outside the temporary folder: %s %s" % (d, res["mut"], res["esc"]), one)
    elif res["found"]:
        fail(v, "left-inside", "%s: the temporary folder holds %s" % (d, res["found"]), one)
    elif res["reads"]:
        fail(v, "outside-read", "%s: read outside the temporary folder: %s" % (d, res["reads"]), one)
    elif "blocked" in res["o"]:
        fail(v, "blocked", "%s" % d, one)
    else:
        return True
    return False


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(sim, case, []))
    if stuck(v, ref, "stuck", "unpacking", case):
        return v
    if not judge(v, case, [], ref, "no fault"):
        return v
    plans = case.get("plans")
    if plans is None:
        r = random.Random("C03p/%s" % case["pick"])
        plans = []
        tr = [t for t in ref["trace"] if t[0] not in ("close_w",)]
        for _ in range(PER):
            fs = faults.picks(r, tr, r.choice([1, 1, 2]), allow=lambda op, rel, n: rel.startswith("tmp"))
            if fs:
                plans.append(fs)
    for p in plans:
        if not p:
            continue
        res = add(v, ctx.fork(sim, case, p))
        if stuck(v, res, "stuck", "unpacking under %s" % faults.describe(p), dict(case, plans=[p])):
            return v
        if not judge(v, case, p, res, "under %s" % faults.describe(p)):
            return v
    hostile = sum(1 for e in case["ents"] if e["t"] not in ("reg", "dir") or ".." in e["name"] or e["name"].startswith(("/", ROOT, "l/")))
    probe(v, "hostile_entries", hostile)
    probe(v, "unpacked" if not ref["o"] else "refused")
    probe(v, "entries_unpacked", ref["n"])
    v["nontrivial"] = hostile > 0 and ref["nmut"] > 0
    v["sig"] = sig(case["ents"])
    v["sample"] = {"kind": case["kind"], "entries": [[e["name"][:60], e["t"], e.get("link")] for e in case["ents"]], "plans": plans[:2]}
    return v


def shrinks(case):
    for k in range(len(case["ents"])):
        if len(case["ents"]) > 1:
            yield dict(case, ents=case["ents"][:k] + case["ents"][k + 1:])
    for k, e in enumerate(case["ents"]):
        if len(e["data"]) > 80:
            yield dict(case, ents=case["ents"][:k] + [dict(e, data="\\documentclass{article}\\begin{document}x\\end{document}")] + case["ents"][k + 1:])
