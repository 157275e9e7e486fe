"""C14 - a damaged archive is an error, never a different document.

A healthy archive of a seeded project is converted; then seeded storage damage
is applied to its bytes (truncation at any byte, lost, zeroed, overwritten,
repeated and swapped blocks, bit flips in data the format protects, trailing
garbage, a tail that was never written) and it is converted again, also with
the damage appearing on the media between two conversions by the same reader.
Each conversion must give the healthy output or raise a documented error.
"""
import os
import random
import zipfile
import io

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import c08
from runner import shrink_text

ID = "C14"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 4000, "thorough": 40000}
PER = 16
RULE = __doc__
ASSUMPTIONS = ["bit flips, zeroed and overwritten blocks of zip archives are confined to the member data and local headers: the central directory of a zip archive carries no checksum",
               "archives consist of one gzip member: the end of a further member cannot be told from a truncation by anyone"]


def gen(seed, tier, i):
    r = random.Random("C14/%s" % seed)
    k = r.choice(["tar.gz", "tar.gz", "tgz", "zip", "zip", "gz", "gz.tar.gz"])
    if k.startswith("gz") or r.random() < 0.4:
        t = docgen.single(seed)
        if r.random() < 0.3:
            t = t.replace("\\end{document}", "\n\n".join("Par %d %s" % (j, r.randbytes(16).hex()) for j in range(r.choice([50, 800]))) + "\n\\end{document}")
        d = {"files": {"main.tex": t}, "main": "main.tex"}
    else:
        p = docgen.project(seed)
        d = {"files": p["files"], "main": p["main"]}
    if r.random() < 0.4:
        docgen.flavour(dict(d, pack="zip"), r, long=False)
    x = c08.variation(r, True)
    x.update(kind=k, multi=False, extra=False, link=None, prefix="", short=None, base="in/d", name="paper", how="process", stream=x.get("stream", False))
    for a, b in (("fmt", r.choice(["pax", "gnu", "ustar"])), ("level", r.choice([0, 1, 6, 9])), ("mode", 0o644), ("pad", r.choice([0, 10240])), ("gzhead", []),
                 ("comp", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED])), ("comment", False), ("z64", False)):
        x.setdefault(a, b)
    x["gzhead"] = [h for h in x["gzhead"] if h != "comment"]
    return {"doc": d, "x": x, "pick": r.randrange(1 << 30), "how": r.choice(["process", "process_compressed"])}


def archive(doc, x):
    if x["kind"].startswith("gz"):
        t = doc["files"][doc["main"]]
        return c08.gzip_of(t.encode() if isinstance(t, str) else t, x)
    return c08.packed(doc["files"], x)


def damage(data, kind, r):
    """One seeded damage: a list of edits [op, ...]."""
    n = len(data)
    zip_ = kind == "zip"
    safe = n
    if zip_:
        safe = data.rfind(b"PK\x01\x02")
        while safe > 0 and data.rfind(b"PK\x01\x02", 0, safe) >= 0:
            p = data.rfind(b"PK\x01\x02", 0, safe)
            safe = p
    t = r.choice(["trunc", "trunc", "trunc", "zero", "lost", "flip", "flip", "flip", "tail0", "garbage", "repeat", "swap", "over"])
    if t == "trunc":
        m = r.random()
        if m < 0.35:
            c = n - r.randrange(1, min(n, 30) + 1)
        elif m < 0.5:
            c = r.randrange(0, min(n, 64))
        elif m < 0.6:
            c = (r.randrange(n) // 512) * 512
        else:
            c = r.randrange(n)
        return ["trunc", c]
    if t == "tail0":
        return ["over", r.randrange(n), n, "zero", 0] if not zip_ else ["trunc", r.randrange(n)]
    if t == "garbage":
        return ["append", r.choice([1, 4, 8, 100, 5000]), r.randrange(1 << 20)]
    if t == "flip":
        return ["flip", sorted(r.randrange(min(safe, n) * 8) for _ in range(r.choice([1, 1, 1, 2, 8])))]
    size = r.choice([1, 2, 16, 100, 512, 4096])
    a = r.randrange(n)
    if r.random() < 0.5:
        a = a // size * size
    b = min(n, a + size)
    if t == "lost":
        return ["lost", a, b]
    if t == "repeat":
        if b - a > n - 20:
            b = a + max(1, n - 20)
        return ["repeat", a, b]
    if t == "swap":
        c = r.randrange(max(1, safe - 2 * size)) if safe > 2 * size else 0
        d = r.randrange(max(1, safe - size))
        return ["swap", c, d, min(size, max(1, safe - max(c, d)))]
    a = min(a, max(0, safe - 1))
    b = min(safe, max(a + 1, min(b, safe)))
    return ["over", a, b, "zero" if t == "zero" else "rand", r.randrange(1 << 20)]


def apply(data, e):
    t = e[0]
    if t == "trunc":
        return data[:e[1]]
    if t == "lost":
        return data[:e[1]] + data[e[2]:]
    if t == "repeat":
        return data[:e[2]] + data[e[1]:e[2]] + data[e[2]:]
    if t == "append":
        return data + b"\xff" + random.Random(e[2]).randbytes(e[1])
    if t == "over":
        fill = bytes(e[2] - e[1]) if e[3] == "zero" else random.Random(e[4]).randbytes(e[2] - e[1])
        return data[:e[1]] + fill + data[e[2]:]
    b = bytearray(data)
    if t == "flip":
        for k in e[1]:
            b[k // 8] ^= 1 << (k % 8)
    elif t == "swap":
        a, c, s = e[1:]
        b[a:a + s], b[c:c + s] = b[c:c + s], b[a:a + s]
    return bytes(b)


def sim(root, case, edits, then):
    """Convert the archive damaged by each of `edits` in turn with one reader
    (`then`: convert the healthy one before and after)."""
    run = ops.Run(root, 0)
    w = run.w
    x = case["x"]
    ext = "tar.gz" if x["kind"] == "gz.tar.gz" else x["kind"]
    path = os.path.join(w.root, "in/d/paper." + ext)
    good = archive(case["doc"], x)
    rd = ops.reader()
    out = []
    for e in ([None] + list(edits) + [None]) if then else edits:
        W.put(os.path.dirname(path), {os.path.basename(path): good if e is None else apply(good, e)})

        def go():
            return ops.to_out(rd, ops.process(rd, path, case["how"], cleanup=True))
        out.append([e, run.active(go)])
    d = {"out": out, "n": len(good)}
    d.update(run.stats())
    return d


OK = {"TexProcessingError", "FileNotFoundError", "RuntimeError"}


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(sim, case, [None], False))
    if stuck(v, ref, "stuck", "the healthy archive", case):
        return v
    good = ref["out"][0][1]
    if "ok" not in good:
        probe(v, "healthy_fails")
        v["sig"] = sig(case["doc"])
        return v
    eds = case.get("edits")
    if eds is None:
        r = random.Random("C14p/%s" % case["pick"])
        data = archive(case["doc"], case["x"])
        eds = [damage(data, case["x"]["kind"], r) for _ in range(PER)]
        eds = [e for e in eds if apply(data, e) != data]
    half = len(eds) // 2
    groups = [(eds, True)] if "edits" in case else [(eds[:half], True), (eds[half:], False)]
    for es, then in groups:
        if not es:
            continue
        res = add(v, ctx.fork(sim, case, es, then))
        if stuck(v, res, "stuck", "damages %s" % es, dict(case, edits=es)):
            return v
        for e, o in res["out"]:
            what = "damage %s of %d bytes (%s)" % (e, res["n"], case["x"]["kind"]) if e else "the healthy archive again"
            one = dict(case, edits=[e] if e else es)
            if e:
                key = "damage:" + e[0]
                v["stats"]["faults"][key] = v["stats"]["faults"].get(key, 0) + 1
            if "ok" in o:
                if o["ok"] != good["ok"]:
                    fail(v, "altered", "%s: returned a different document: %s" % (what, ops.diff_brief(good, o)), one)
                    return v
                probe(v, "intact_output" if e else "healthy")
            elif not e:
                fail(v, "healthy-refused", "%s: %s" % (what, ops.brief(o)), one)
                return v
            elif "err" not in o or not OK & set(o["mro"]):
                fail(v, "undocumented-error", "%s: %s" % (what, ops.brief(o)), one)
                return v
            else:
                probe(v, "reported")
    v["nontrivial"] = bool(eds)
    v["sig"] = sig([case["doc"], eds])
    v["sample"] = {"kind": case["x"]["kind"], "files": sorted(case["doc"]["files"]), "damages": eds[:4]}
    return v


def shrinks(case):
    # the damage refers to byte positions, so only the damage itself is reduced
    eds = case.get("edits") or []
    if len(eds) > 1:
        for e in eds:
            yield dict(case, edits=[e])
    elif eds and eds[0] and eds[0][0] == "flip" and len(eds[0][1]) > 1:
        for k in eds[0][1]:
            yield dict(case, edits=[["flip", [k]]])
