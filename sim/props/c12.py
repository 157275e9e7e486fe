"""C12 - conversion terminates on every include graph.

Seeded include graphs over inputs, includes, packages, classes and
bibliographies: chains, diamonds, cycles of any length, self-loops, aliases
(symbolic links to files and to folders, redundant path spellings), includes
from macros, groups and environments, and pipes, folders, sockets, dangling and
looping links in place of files.  A small reference expansion (an include stack
that refuses files still being read) gives the sequence of markers that must
appear; the work of the run, counted in deterministic steps, is compared with
the work of converting the expanded text as one flat file.
"""
import os
import random
import re
import socket

import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from runner import shrink_list

ID = "C12"
COUNTS = {"quick": 12000, "thorough": 96000}
RULE = __doc__
ASSUMPTIONS = ["include depth up to 14 levels (TeX itself stops at 15)"]
BUDGET = 6_000_000
MAXM = 90


def gen(seed, tier, i):
    r = random.Random("C12/%s" % seed)
    for att in range(50):
        c = draw(r)
        exp = expand(c)
        if exp is not None:
            break
    else:
        c = draw(r, 1)
    c["how"] = r.choice(["process", "process", "process_file", "folder", "tar.gz", "zip"])
    if c["special"] or c["links"]:
        c["how"] = r.choice(["process", "process_file", "folder"])
    return c


def spell(r, n, links):
    """Different ways to write the same file name."""
    f = n
    x = r.random()
    if x < 0.3:
        f = n + ".tex"
    elif x < 0.4:
        f = "./" + n
    elif x < 0.5:
        f = "sub/../" + n
    elif x < 0.55:
        f = ".//" + n + ".tex"
    elif x < 0.7 and links:
        f = r.choice(["ln_" + n, "loop/" + n, "loop/loq/" + n, "ln_" + n + ".tex", "sub/up/" + n])
    return f


def draw(r, k=None):
    deep = k is None and r.random() < 0.06
    k = k if k is not None else r.randrange(9, 14) if deep else r.randrange(1, 7)
    nodes = ["t%d" % j for j in range(k)]
    dens = r.choice([0.5, 1.0, 1.5, 2.5])
    links = r.random() < 0.35
    shape = r.choice(["any", "any", "cycle", "chain", "diamond", "self"]) if not deep else r.choice(["cycle", "chain", "chain"])
    # files that contribute nothing but what they include
    bare = set(r.sample(nodes, r.randrange(1, k + 1)) if r.random() < 0.5 else nodes) if r.random() < (0.6 if deep else 0.1) else set()
    segs = {}
    for j, n in enumerate(["main"] + nodes):
        m = [["m"]] if n not in bare else []
        if shape == "any":
            cnt = sum(1 for _ in range(4) if r.random() < dens / 4) or (1 if n == "main" else 0)
            tg = [r.choice(nodes + (["main"] if r.random() < 0.15 else [])) for _ in range(cnt)]
        elif shape == "cycle":
            tg = [nodes[j % k]] if n == "main" or r.random() < 0.95 else []
            if r.random() < 0.2:
                tg.append(r.choice(nodes))
        elif shape == "chain":
            tg = [nodes[j]] if j < k else []
        elif shape == "diamond":
            tg = [nodes[j]] * r.choice([1, 2]) if j < k else []
            if j + 1 < k and r.random() < 0.5:
                tg.append(nodes[j + 1])
        else:
            tg = [n if n != "main" or r.random() < 0.3 else nodes[0]] * r.choice([1, 2, 3])
            if n == "main":
                tg.append(nodes[0])
        for t in tg:
            form = r.choice(["input", "input", "include", "center", "item", "brace", "quote", "macro"] if not deep else ["input", "input", "input", "include", "macro"])
            m.append(["i", t, form, spell(r, t, links)])
            if r.random() < 0.7 and n not in bare:
                m.append(["m"])
        if r.random() < 0.1:
            m.append(["i", "absent", "input", "absent"])
        segs[n] = m
    stys, sedge, cls = [], {}, []
    if r.random() < 0.5:
        stys = ["pk%s" % c for c in "abcd"[:r.randrange(1, 5)]]
        cls = ["kl%s" % c for c in "ab"[:r.randrange(0, 3)]]
        for s in stys + cls:
            sedge[s] = []
            for _ in range(r.randrange(0, 4)):
                cmd = r.choice(["RequirePackage", "usepackage", "RequirePackage", "input", "LoadClass" if cls else "input"])
                sedge[s].append([r.choice(cls if cmd == "LoadClass" else stys), cmd,
                                 r.choice(["", "", "./", "sub/../"] + (["loop/", "loq/", "ln_"] if links else []))])
    if stys and links and r.random() < 0.3:
        for s in r.sample(stys, r.randrange(1, len(stys) + 1)):
            sedge[s] += [[r.choice([s] + stys), "RequirePackage", d] for d in ("loop/", "loq/")]
    uses = [r.sample(stys, r.randrange(1, len(stys) + 1)) for _ in range(r.randrange(1, 3))] if stys else []
    bibs = []
    if r.random() < 0.4:
        bibs = [["b%d" % j, r.choice(["bib", "bbl"])] for j in range(r.randrange(1, 3))]
        for _ in range(r.randrange(1, 3)):
            n = r.choice(sorted(segs))
            segs[n].append(["b", ",".join(r.choice(bibs)[0] for _ in range(r.choice([1, 1, 2])))])
    wild = bool(bibs) and r.random() < 0.35
    special = {}
    if r.random() < 0.35:
        for _ in range(r.randrange(1, 3)):
            special[r.choice(nodes)] = r.choice(["fifo", "dir", "dangling", "loop", "sock", "lnfifo", "null"] + ([] if links else ["EIO", "EACCES"]))
        if stys and r.random() < 0.4:
            special[r.choice(stys) + ".sty"] = r.choice(["fifo", "dir", "loop", "lnfifo"])
        if r.random() < 0.4:
            special["stray"] = r.choice(["a.tex", "zz.tex", "sub/a.tex", "q.bbl", "main.bbl", "Z.tex"])
    shadow = {}
    if r.random() < 0.3:
        # something else that bears the name without the extension
        for n in r.sample(nodes + stys + [b[0] for b in bibs], r.randrange(1, 3) if len(nodes) > 1 else 1):
            shadow[n] = r.choice(["dir", "dir", "fulldir", "loop", "dangling"])
    place = {}
    if not links and not special and not shadow and r.random() < 0.45:
        # files in folders; inputs and bibliographies are named from the main file's folder, packages from their user's
        for n in nodes + stys + cls + [b[0] for b in bibs]:
            if r.random() < 0.6:
                place[n] = r.choice(["pa/", "pb/", "pa/pc/"])
    return {"place": place, "shadow": shadow, "segs": segs, "stys": stys, "sedge": sedge, "uses": uses, "cls": cls, "bibs": bibs, "wild": wild, "special": special, "links": links, "n": 0}


def expand(c):
    """Reference: markers in order, or None if the expansion is too large."""
    out = []

    def go(n, stack):
        if len(out) > MAXM or len(stack) > 14:
            return False
        if n not in c["segs"] or n in c["special"]:
            return True
        j = 0
        for s in c["segs"][n]:
            if s[0] == "m":
                out.append("MK%sx%dq" % (n, j))
                j += 1
            elif s[0] == "i":
                if s[1] in stack:
                    continue
                if not go(s[1], stack + [s[1]]):
                    return False
            elif s[0] == "b":
                seen = set()
                for b in s[1].split(","):
                    if b not in seen:
                        out.append("BK%sq" % b)
                    seen.add(b)
        return len(out) <= MAXM
    if not go("main", ["main"]):
        return None
    return out


def squeeze(ms):
    return [m for k, m in enumerate(ms) if m[0] != "B" or k == 0 or ms[k - 1] != m]


def packages(c):
    """Reference: names of packages and classes that are reachable."""
    seen = set()

    def go(s):
        if s in seen or s + ".sty" in c["special"] or s not in c["stys"] + c["cls"]:
            return
        seen.add(s)
        for t, _, _ in c["sedge"].get(s, ()):
            go(t)
    for u in c["uses"]:
        for s in u:
            go(s)
    return seen


def at(c, n, base=""):
    """Folder of a file, seen from folder `base` (both end in / unless empty)."""
    p = c.get("place", {}).get(n, "")
    if not base:
        return p
    x = os.path.relpath("/" + p, "/" + base)
    return "" if x == "." else x + "/"


def text_of(c, n, flat=False, stack=()):
    parts = []
    j = 0
    for s in c["segs"][n]:
        if s[0] == "m":
            parts.append("MK%sx%dq text" % (n, j))
            j += 1
        elif s[0] == "b":
            parts.append("\\bibliography{%s}" % ",".join(at(c, b) + b for b in s[1].split(",")))
        else:
            q = s[3].rfind("/") + 1
            name = s[3][:q] + at(c, s[1]) + s[3][q:]
            inc = "\\input{%s}" % name if s[2] != "include" else "\\include{%s}" % name
            if flat:
                if s[1] in stack or s[1] not in c["segs"] or s[1] in c["special"]:
                    continue
                inc = text_of(c, s[1], True, stack + (s[1],))
            elif s[2] == "macro":
                inc = "\\go%s" % "abcdefghijklmn"[int(s[1][1:])] if s[1][0] == "t" else inc
            f = s[2]
            if f == "center":
                inc = "\\begin{center}\nin %s out\n\\end{center}" % inc
            elif f == "item":
                inc = "\\begin{itemize}\n\\item in %s\n\\end{itemize}" % inc
            elif f == "quote":
                inc = "\\begin{quote}\n%s\n\\end{quote}" % inc
            elif f == "brace":
                inc = "{ in %s out }" % inc
            parts.append(inc)
    return "\n\n".join(parts)


def files_of(c, flat=False):
    fs = {}
    pre = []
    if not flat:
        for j in range(14):
            pre.append("\\newcommand{\\go%s}{\\input{%st%d}}" % ("abcdefghijklmn"[j], at(c, "t%d" % j), j))
    for u in c["uses"]:
        pre.append("\\usepackage{%s}" % ",".join(at(c, x) + x for x in u))
    use = "\n\n".join("\\%scmd{}" % s for s in c["stys"] + c["cls"])
    fs["main.tex"] = "\\documentclass{article}\n" + "\n".join(pre) + "\n\\begin{document}\n" + use + "\n\n" + text_of(c, "main", flat, ("main",)) + "\n\\end{document}\n"
    for n in c["segs"]:
        if n != "main" and not flat:
            fs[at(c, n) + n + ".tex"] = text_of(c, n) + "\n"
    for s in c["stys"] + c["cls"]:
        fs[at(c, s) + s + (".sty" if s in c["stys"] else ".cls")] = "\\newcommand{\\%scmd}{x}\n" % s + "".join(
            "\\%s{%s%s}\n" % (cmd, at(c, t, at(c, s)) or (p if not at(c, s) or p == "./" else ""), t) for t, cmd, p in c["sedge"][s])
    for b, k in c["bibs"]:
        if k == "bib":
            fs[at(c, b) + b + ".bib"] = "@article{%s,\n title = {BK%sq},\n year = {2000}\n}\n" % (b, b)
        else:
            w = ""
            if c["wild"]:
                w = " \\input{t0} \\bibliography{%s} \\input{main} \\include{t0} \\bibliography{none}" % b
            fs[at(c, b) + b + ".bbl"] = "\\begin{thebibliography}{9}\n\\bibitem{%s} BK%sq thing%s\n\\end{thebibliography}\n" % (b, b, w)
    return fs


def special_at(p, kind):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if kind in ("fifo", "lnfifo"):
        q = p + ".pipe" if kind == "lnfifo" else p
        W.REAL["mkfifo"](q)
        if kind == "lnfifo":
            os.symlink(os.path.basename(q), p)
    elif kind == "dir":
        os.mkdir(p)
    elif kind == "fulldir":
        W.put(p, {"main.tex": "MKshadow", "x.bbl": "MKshadow", ".tex": "MKshadow"})
    elif kind == "dangling":
        os.symlink("nowhere.tex", p)
    elif kind == "loop":
        os.symlink(os.path.basename(p), p)
    elif kind == "null":
        os.symlink("/dev/null", p)
    elif kind == "sock":
        d = os.getcwd()
        os.chdir(os.path.dirname(p))
        s = socket.socket(socket.AF_UNIX)
        try:
            s.bind(os.path.basename(p))
        finally:
            s.close()
            os.chdir(d)


def sim(root, c, flat):
    run = ops.Run(root, 0, budget=BUDGET)
    w = run.w
    base = os.path.join(w.root, "in/d")
    os.makedirs(os.path.join(base, "sub"))
    how = c["how"] if not flat else "process"
    plan = []
    fs = files_of(c, flat)
    if how in ("tar.gz", "zip"):
        fs["sub/.keep"] = ""
        for n in () if flat else sorted(c.get("shadow", ())):
            fs[n + "/.keep"] = ""
        path = os.path.join(w.root, "in/p." + how)
        W.put(os.path.join(w.root, "in"), {"p." + how: ops.pack(fs, how, 3)})
    else:
        if not flat:
            for n, k in c["special"].items():
                if k in W.ERRNO:
                    plan.append({"op": "open_r", "path": "in/d/%s.tex" % n, "nth": 0, "kind": k})
                elif n == "stray":
                    fs.pop(k, None)
                    special_at(os.path.join(base, k), "fifo")
                else:
                    f = n if "." in n else n + ".tex"
                    fs.pop(f, None)
                    special_at(os.path.join(base, f), k)
            for n, k in sorted(c.get("shadow", {}).items()):
                special_at(os.path.join(base, n), k)
            if c["links"]:
                os.symlink(".", os.path.join(base, "loop"))
                os.symlink(".", os.path.join(base, "loq"))
                os.symlink("..", os.path.join(base, "sub/up"))
                for f in sorted(fs):
                    os.symlink(f, os.path.join(base, "ln_" + f))
        W.put(base, fs)
        path = base if how == "folder" else os.path.join(base, "main.tex")

    w.set_plan(plan)

    def go():
        rd = ops.reader()
        res = rd.process_file(path) if how == "process_file" else rd.process(path, cleanup=True)
        return ops.to_out(rd, res)
    o = run.active(go)
    d = {"out": o, "blocked": w.blocked, "size": sum(len(t) for t in fs.values())}
    d.update(run.stats())
    return d


def execute(c, ctx):
    v = verdict()
    exp = expand(c)
    if exp is None:
        v["sig"] = "-"
        return v
    ref = add(v, ctx.fork(sim, c, True))
    if stuck(v, ref, "flat-stuck", "the expanded text", c):
        return v
    res = add(v, ctx.fork(sim, c, False))
    if stuck(v, res, "endless", "the project", c):
        return v
    o = res["out"]
    if res["blocked"] or "blocked" in o:
        fail(v, "blocked", "the conversion blocks: %s" % (res["blocked"] or o), c)
        return v
    if "ok" not in o:
        fail(v, "not-converted", "the project is not converted: %s" % ops.brief(o), c)
        return v
    lim = 8 * ref["steps"] + 150_000
    if res["steps"] > lim:
        fail(v, "work", "%d steps, %.1f times those of the expanded text (%d); project of %d bytes" % (
            res["steps"], res["steps"] / max(1, ref["steps"]), ref["steps"], res["size"]), c)
        return v
    if not c["wild"]:
        # an entry's text can appear in several fields
        got = squeeze(re.findall(r"(?:MK\w+?x\d+|BKb\d)q", o["ok"]))
        exp = squeeze(exp)
        if got != exp:
            k = 0
            while k < min(len(got), len(exp)) and got[k] == exp[k]:
                k += 1
            fail(v, "content", "included content differs from the expansion at marker %d: expected %s, got %s (all: %s / %s)" % (
                k, exp[k:k + 4], got[k:k + 4], exp[:60], got[:60]), c)
            return v
    # a command that a package defines leaves no trace; an unknown one does
    pk = set(c["stys"] + c["cls"]) - set(re.findall(r"\\(\w+)cmd", o["ok"]))
    want = packages(c)
    if pk != want:
        fail(v, "packages", "packages that contributed: %s, reachable: %s" % (sorted(pk), sorted(want)), c)
        return v
    cyc = sum(1 for n in c["segs"] for s in c["segs"][n] if s[0] == "i")
    probe(v, "include_edges", cyc)
    probe(v, "markers", len(exp))
    probe(v, "special_files", len(c["special"]))
    probe(v, "wild_bibliographies", int(c["wild"]))
    probe(v, "linked_projects", int(c["links"]))
    v["nontrivial"] = cyc > 0 or bool(c["stys"])
    v["sig"] = sig([c["segs"], c["sedge"], c["special"], c["how"]])
    v["sample"] = {"edges": {n: [s[1:] for s in x if s[0] != "m"] for n, x in c["segs"].items()}, "packages": c["sedge"], "special": c["special"], "how": c["how"],
                   "ratio": round(res["steps"] / max(1, ref["steps"]), 2)}
    return v


def shrinks(c):
    for k in ("shadow", "stys", "bibs", "special", "links", "cls", "wild"):
        if c.get(k):
            e = dict(c, **{k: type(c[k])() if not isinstance(c[k], bool) else False})
            if k == "cls":
                e["sedge"] = {n: [y for y in x if y[1] != "LoadClass"] for n, x in c["sedge"].items() if n in c["stys"]}
            if k == "stys":
                e["cls"] = []
                e["uses"], e["sedge"] = [], {}
            if k == "bibs":
                e["wild"] = False
                e["segs"] = {n: [s for s in x if s[0] != "b"] for n, x in c["segs"].items()}
            if k == "links":
                e["segs"] = {n: [s if s[0] != "i" else s[:3] + [s[1]] for s in x] for n, x in c["segs"].items()}
                e["sedge"] = {n: [[a, b, ""] for a, b, _ in x] for n, x in c["sedge"].items()}
            yield e
    if c["how"] != "process":
        yield dict(c, how="process")
    for n in sorted(c["segs"]):
        for x in shrink_list(c["segs"][n]):
            yield dict(c, segs=dict(c["segs"], **{n: x}))
    for n in sorted(c["sedge"]):
        for x in shrink_list(c["sedge"][n]):
            yield dict(c, sedge=dict(c["sedge"], **{n: x}))
    for n in sorted(c["segs"]):
        for k, s in enumerate(c["segs"][n]):
            if s[0] == "i" and (s[2] != "input" or s[3] != s[1]):
                yield dict(c, segs=dict(c["segs"], **{n: c["segs"][n][:k] + [["i", s[1], "input", s[1]]] + c["segs"][n][k + 1:]}))
