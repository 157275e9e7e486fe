"""C07 - output does not depend on the environment.

One project is converted in a baseline environment and again in a number of
seeded variations: other directory listing orders, foreign interpreters (hash
seed, locale, default encoding, -O, dev mode), other clock values, file times,
working directories, temporary folders, project locations, path spellings and
path types.  Every variation must give the baseline outcome.
"""
import os
import random
import re

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import ENVS
from runner import shrink_list, shrink_text

ID = "C07"
COUNTS = {"quick": 900, "thorough": 7200}
PER = 9
RULE = __doc__
ASSUMPTIONS = ["one Python version and one set of installed libraries"]
FOREIGN = [e for e in ENVS if e not in ("base", "cold")]


def gen(seed, tier, i):
    r = random.Random("C07/%s" % seed)
    pk = r.choice(["file", "folder", "folder", "tar.gz", "zip", "tgz", "gz"])
    if pk == "gz" or r.random() < 0.2:
        d = {"files": {"main.tex": docgen.single(seed)}, "main": "main.tex"}
    else:
        p = docgen.project(seed)
        d = {"files": p["files"], "main": p["main"]}
        if r.random() < 0.5:
            # a second (and third) document in the same folder
            for k in range(r.randrange(1, 3)):
                name = r.choice(["supp.tex", "alt/main.tex", "zz.tex", "Appendix.tex", "aa/deep/x.tex", "main2.tex", "b/b.tex", "a.tex", "A.tex"])
                d["files"].setdefault(name, docgen.single("%s/x%d" % (seed, k), tag="x%d" % k))
        if r.random() < 0.35:
            for n in r.sample(["q.bbl", "Z.bbl", "m.bbl", "a.bbl", "e.bbl"], r.randrange(1, 5)):
                d["files"].setdefault(os.path.join(os.path.dirname(d["main"]), n),
                                      "\\begin{thebibliography}{9}\n\\bibitem{%s} Item of %s.\n\\end{thebibliography}\n" % (r.choice(docgen.KEYS), n))
            if r.random() < 0.8 or not any("bibliography{" in t for t in d["files"].values()):
                d["files"][d["main"]] = d["files"][d["main"]].replace("\\end{document}", "\\bibliography{absent}\n\\end{document}")
    t = d["files"][d["main"]]
    if r.random() < 0.4:
        # files the project names and does not have
        for x in r.sample(["\\input{gone}", "\\include{gone-too}", "\\input{gone/deep.tex}", "\\usepackage{gonesty}", "\\bibliography{gonebib}", "\\input gone"], r.randrange(1, 4)):
            t = t.replace("\\begin{document}", x + "\n\\begin{document}", 1) if "package" in x else t.replace("\\end{document}", x + "\n\\end{document}", 1)
        d["files"][d["main"]] = t
    if r.random() < 0.3:
        # encodings other than UTF-8
        enc = r.choice(["latin-1", "utf-8-sig", "cp1252"])
        f = r.choice(sorted(d["files"]))
        txt = d["files"][f]
        if enc != "utf-8-sig":
            txt = txt.replace("\\end{document}", "Stra\u00dfe f\u00fcr G\u00f6del \u00e9t\u00e9 na\u00efve caf\u00e9\n\\end{document}")
        try:
            d["files"][f] = txt.encode(enc)
        except UnicodeEncodeError:
            pass
    d["pack"] = pk
    d["pack_seed"] = r.randrange(1000)
    docgen.flavour(d, r, tag="t%04x" % (seed & 0xFFFF))
    return {"doc": d, "how": r.choice(ops.hows_for(d)), "seed": seed & 0xFFFF, "vars": [variation(r, pk) for _ in range(PER)]}


def variation(r, pk):
    x = {}
    if r.random() < 0.7:
        x["order"] = r.choice(["sorted", "reversed", r.randrange(1000), r.randrange(1000)])
    if r.random() < 0.35:
        x["env"] = r.choice(FOREIGN)
    if r.random() < 0.25:
        x["base"] = r.choice(["in/d", "in/other dir/x", "in/\u00fcml\u00e4ut/p", "in/a.b/c.tex.d", "in/deep/er/and/deeper", "in/d/..hidden", "in/x%20y", "in/~tilde"])
        if not x["base"].isascii() and x.get("env") in ("posix", "clocale"):
            del x["base"]  # such a path does not exist for an interpreter whose file names are ASCII
    if r.random() < 0.25:
        x["cwd"] = r.choice(["proj", "parent", "/", "tmp", "gone"])
    if x.get("cwd") == "gone" or r.random() < 0.1:
        x["cwd"] = "gone"
        x["decoys"] = r.random() < 0.7
    if r.random() < 0.35:
        x["spell"] = r.choice(["rel", "dots", "slashes", "pathlike", "trailing", "symlink", "bare", "bare", "dot"])
    if r.random() < 0.2:
        x["tmp"] = r.choice(["tmp2", "t m p", "tmp/nested", "in", "out", "linktmp"])
    if r.random() < 0.2:
        x["clock"] = r.choice([0.0, 1.0, 4e9, 1e9, 253402300800.0])
    if r.random() < 0.2:
        x["mtime"] = r.randrange(1000)
    if r.random() < 0.2:
        x["wseed"] = r.randrange(1000)
    if r.random() < 0.1:
        x["umask"] = r.choice([0, 0o077, 0o022])
    if r.random() < 0.15:
        x["envvars"] = r.choice([{"HOME": "/nonexistent"}, {"TEXINPUTS": "/x:"}, {"NO_COLOR": "1", "TERM": "dumb"}, {"COLUMNS": "1"},
                                 {"TZ": "Pacific/Kiritimati", "USER": "nobody", "LOGNAME": "nobody"}, {"DEBUG": "1", "VERBOSE": "1", "CI": "true"},
                                 {"LANGUAGE": "de:fr", "LC_MESSAGES": "de_DE"}, {"LATEX2JSON_DEBUG": "1", "LATEX2JSON_ENCODING": "latin-1"}, {"PATH": ""}, {"EDITOR": "x", "PWD": "/elsewhere"}])
    if r.random() < 0.1:
        x["argv"] = r.choice([["x", "--verbose", "--help"], [""], ["latex2json", "/etc/passwd"]])
    if r.random() < 0.1:
        x["modes"] = r.choice([0o444, 0o600, 0o755])
    return x


def decoys(cwd, files):
    """Other files of the names the project mentions, in a folder that is not the project's."""
    names = set(files)
    for t in files.values():
        t = t if isinstance(t, str) else t.decode("latin-1")
        for m in re.findall(r"\\(?:input|include|usepackage|RequirePackage|documentclass|LoadClass|bibliography|loadclass)\*?\s*(?:\[[^\]{}]*\])?\{([\w ,./-]{1,80})\}", t):
            for n in m.split(","):
                n = n.strip()
                if n and not n.startswith("/") and ".." not in n:
                    names.update([n, n + ".tex", n + ".sty", n + ".cls", n + ".bib", n + ".bbl"])
    names.update(["main.tex", "main.bbl", "main.bib", "any.bbl"])
    for n in sorted(names):
        p = os.path.join(cwd, n)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p):
                with W.REAL_OPEN(p, "w") as f:
                    if n.endswith((".bib", ".bbl")):
                        f.write("\\begin{thebibliography}{9}\n\\bibitem{decoy} Decoy.\n\\end{thebibliography}\n")
                    elif n.endswith((".sty", ".cls")):
                        f.write("\\newtheorem{decoy}{Decoy}\n\\newtheorem{theorem}{Decoy}\n\\newtheorem{lemma}{Decoy}\n")
                    else:
                        f.write("Decoy of " + n.replace("_", " ") + ".\n")
        except OSError:
            pass


def go(root, case, var):
    doc = case["doc"]
    tmp = var.get("tmp", "tmp")
    run = ops.Run(root, case["seed"] + 7 * var.get("wseed", 0), var.get("order", "sorted"), tmp="tmp" if tmp == "linktmp" else tmp)
    w = run.w
    if tmp == "linktmp":
        import tempfile
        os.symlink(os.path.join(w.root, "tmp"), os.path.join(w.root, "linktmp"))
        tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(w.root, "linktmp")
    base = var.get("base", "in/d")
    path = ops.place(w, doc, base)
    if "clock" in var:
        w.clock = w.clock0 = var["clock"]
    if "mtime" in var:
        r = random.Random("mt/%s" % var["mtime"])
        for dp, dn, fn in os.walk(os.path.join(w.root, "in")):
            for n in sorted(fn):
                os.utime(os.path.join(dp, n), (r.randrange(1, 2 ** 31), r.randrange(1, 2 ** 31)))
    if "umask" in var:
        os.umask(var["umask"])
    os.environ.update(var.get("envvars", {}))
    if "TZ" in var.get("envvars", {}):
        import time
        time.tzset()
    if "argv" in var:
        import sys
        sys.argv[:] = var["argv"]
    if "modes" in var:
        for dp, dn, fn in os.walk(os.path.join(w.root, "in")):
            for n in fn:
                if not os.path.islink(os.path.join(dp, n)):
                    W.REAL.get("chmod", os.chmod)(os.path.join(dp, n), var["modes"])
    cwd = {"proj": os.path.join(w.root, base), "parent": os.path.dirname(os.path.join(w.root, base)), "/": "/",
           "tmp": os.path.join(w.root, tmp if tmp != "linktmp" else "tmp"), None: w.root, "gone": os.path.join(w.root, "out/gone")}[var.get("cwd")]
    os.makedirs(cwd, exist_ok=True) if cwd != "/" else None
    if var.get("decoys") and cwd.endswith("out/gone"):
        decoys(cwd, doc["files"])
        os.environ.update(TEXINPUTS=cwd + ":", BIBINPUTS=cwd, HOME=cwd)
    os.chdir(cwd)
    sp = var.get("spell")
    if sp == "bare":
        # named from within its own folder, as at a shell prompt
        os.chdir(os.path.dirname(path))
        path = random.Random("sp/%s" % case["seed"]).choice(["", "", "./"]) + os.path.basename(path)
    if var.get("cwd") == "gone":
        if sp in ("rel", "dots", "slashes"):
            sp = None
        else:
            pass
        # the working directory stays, but is emptied of meaning: nothing resolvable in it
    if sp == "rel":
        path = os.path.relpath(path, cwd)
    elif sp == "dots":
        d, b = os.path.split(path)
        path = os.path.join(d, ".", "..", os.path.basename(d), b)
    elif sp == "slashes":
        d, b = os.path.split(path)
        path = d.replace("/", "//") + "///" + b
    elif sp == "dot" and var.get("cwd") != "gone":
        if os.path.isdir(path):
            os.chdir(path)
            path = "."
        else:
            os.chdir(os.path.dirname(path))
            path = "./" + os.path.basename(path)
    elif sp == "trailing" and doc["pack"] == "folder":
        path += "/"
    elif sp == "symlink" and doc["pack"] in ("file", "folder"):
        # the project is reached through a link to its folder
        ln = os.path.join(w.root, "in", "lnk")
        if doc["pack"] == "folder":
            os.symlink(path, ln)
            path = ln
        else:
            tgt = os.path.join(w.root, base)
            os.symlink(tgt, ln)
            path = os.path.join(ln, os.path.relpath(path, tgt))
    elif sp == "pathlike" and case["how"] != "process_compressed":
        from pathlib import Path
        path = Path(path)

    def one():
        rd = ops.reader()
        return ops.to_out(rd, ops.process(rd, path, case["how"]))
    d = {"out": run.active(one)}
    d.update(run.stats())
    return d


def served(scratch_root, case, var):
    return go(scratch_root, case, var)


def run_var(ctx, case, var):
    if "env" in var:
        root = ctx.scratch.new()
        try:
            return ctx.interp(var["env"]).call("props.c07", "go", (root, case, var))
        finally:
            ctx.scratch.drop(root)
    return ctx.fork(go, case, var)


def execute(case, ctx):
    v = verdict()
    ref = add(v, ctx.fork(go, case, {}))
    if stuck(v, ref, "stuck", "the baseline conversion", case):
        return v
    n = 0
    for var in case["vars"]:
        res = add(v, run_var(ctx, case, var))
        one = dict(case, vars=[var])
        what = "%s of a %s under %s" % (case["how"], case["doc"]["pack"], {k: (ENVS[x] if k == "env" else x) for k, x in var.items()})
        if stuck(v, res, "stuck", what, one):
            return v
        for k in var:
            probe(v, "var_" + k)
        if not ops.same(ref["out"], res["out"]):
            fail(v, "environment-dependence", "%s: %s" % (what, ops.diff_brief(ref["out"], res["out"])), one)
            return v
        n += bool(var)
    v["nontrivial"] = n > 0 and "ok" in ref["out"]
    v["sig"] = sig([case["doc"]["pack"], repr(case["doc"]["files"]), case["vars"]])
    v["sample"] = {"how": case["how"], "pack": case["doc"]["pack"], "files": sorted(case["doc"]["files"]), "variations": case["vars"][:3]}
    return v


def shrinks(case):
    for k, var in enumerate(case["vars"]):
        for key in sorted(var):
            yield dict(case, vars=[{a: b for a, b in var.items() if a != key}])
    d = case["doc"]
    for f in sorted(d["files"]):
        if f != d["main"]:
            yield dict(case, doc=dict(d, files={k: x for k, x in d["files"].items() if k != f}))
    for f in sorted(d["files"]):
        if isinstance(d["files"][f], str):
            for t in shrink_text(d["files"][f]):
                yield dict(case, doc=dict(d, files=dict(d["files"], **{f: t})))
