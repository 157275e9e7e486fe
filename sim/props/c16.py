"""C16 - a torn project never stalls a conversion.

A seeded project (single document, several files, archives; feature-rich text
and snippets of every construct the package knows) meets storage damage, as a
crash or a failing disk leaves it: a file cut off at an arbitrary byte, blocks
lost, zeroed, duplicated, replaced by stale data or by a block of another file,
flipped bits.  One reader then converts a number of differently damaged states
of the project one after the other, and at last the undamaged one.

Every conversion ends within a bounded amount of work, with a result (valid
JSON that can be encoded) or a documented error; the undamaged project gives exactly what a fresh process
makes of it; and when the main file was merely cut off, the plain paragraphs
before the cut are still there.
"""
import json
import os
import random
import re

import docgen
import ops
import world as W
from base import add, fail, probe, sig, stuck, verdict
from props import c01
from runner import shrink_list, shrink_text

ID = "C16"
COUNTS = {"quick": 3000, "thorough": 20000}
PER = 8
LIMIT = 8_000_000
CPU = 45
MINIMISE = 60.0
RULE = __doc__
ASSUMPTIONS = ["the damage is in the bytes of project files; damage of archives themselves is C14's",
               "a macro that calls itself without end is endless for TeX as well; damage that turns a definition into one is not generated"]
DOCUMENTED = ("TexProcessingError", "FileNotFoundError", "RuntimeError")

OPENERS = ["\\begin{%s}", "\\begin{%s}[", "\\begin{%s}{ll", "\\begin{%s}[h]{", "\\end{%s}"]
ENVS = ["tabular", "table", "figure", "itemize", "enumerate", "equation", "align", "align*", "theorem", "proof", "verbatim", "lstlisting", "algorithm", "algorithmic",
        "tikzpicture", "picture", "overpic", "center", "quote", "minipage", "subfigure", "abstract", "thebibliography", "array", "cases", "matrix", "multline", "tabularx",
        "longtable", "wrapfigure", "filecontents", "comment", "description", "gather", "split", "zenv", "document", "titlepage", "frame", "restatable"]
SWITCHES = ["\\bf", "\\it", "\\em", "\\tt", "\\sc", "\\rm", "\\sf", "\\large", "\\tiny", "\\huge", "\\centering", "\\bfseries", "\\itshape", "\\bgroup", "\\egroup", "{", "}", "\\begingroup", "\\endgroup", "\\par", "\\color{red}"]
HEADS = ["\\section{", "\\textbf{", "\\footnote{", "\\item", "\\caption{", "\\label{", "\\ref{", "\\cite[", "\\href{a}{", "\\url{", "$", "$$", "\\[", "\\(", "{", "\\begin{", "\\end{", "\\begingroup", "\\bgroup",
         "\\newcommand{\\zq}[1", "\\newcommand{\\zq}[2][a]{", "\\def\\zq#1", "\\def\\zq{", "\\newenvironment{zq}{", "\\newtheorem{zq}{", "\\newcounter{", "\\let\\zq", "\\newif\\ifzq \\ifzq", "\\ifx", "\\ifnum",
         "\\iftrue", "\\iffalse", "\\else", "\\fi", "\\input{", "\\include{", "\\usepackage[", "\\usepackage{", "\\bibliography{", "\\verb|", "\\verb", "\\includegraphics[", "\\includegraphics{", "\\title{", "\\author{",
         "\\multicolumn{2}{", "\\multirow{2}{*}{", "\\hline", "\\\\[", "\\\\", "&", "%", "\\makeatletter", "\\csname", "\\expandafter\\def\\csname", "\\color{", "\\textcolor{red}{", "{\\bf", "{\\color{", "\\left(", "\\kw{",
         "\\DeclareMathOperator{", "\\setcounter{", "\\hspace{", "\\paragraph{", "\\appendix", "\\bibitem[", "\\bibitem{", "\\And", "\\thanks{", "\\frac{", "\\sqrt[", "\\put(", "\\draw", "\\write", "\\csname end", "\\@ifnextchar[", "\\string"]


# ---------------------------------------------------------------- damage
def some(r):
    """A few constructs, so that one meets itself again."""
    out = []
    for _ in range(r.randrange(2, 6)):
        x = r.random()
        out.append(r.choice(HEADS) if x < 0.45 else r.choice(SWITCHES) if x < 0.65 else r.choice(OPENERS) % r.choice(ENVS))
    return out


def shreds(r, swarm):
    """Remains of an older file: constructs without their ends, ends without their beginnings."""
    t = ""
    for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
        t += r.choice(swarm) + r.choice([" ", "\n", " text ", "{", "}", "{a}", " & ", "\n\n", " $x$ ", "%\n", "]", " \\emph{a} ", " x \\\\ y "])
    return t


def damage(r, files, main, pool, swarm):
    """One damaged state: a list of [file, kind, args]."""
    out = []
    names = sorted(files)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        f = main if r.random() < 0.6 else r.choice(names)
        n = max(1, len(raw(files[f])))
        k = r.choice(["cut", "cut", "cut", "cut", "lose", "zero", "stale", "dup", "swap", "flip", "splice", "splice", "tail", "tail"])
        bs = r.choice([1, 4, 16, 64, 512])
        a = r.randrange(0, n)
        if r.random() < 0.5:
            a -= a % bs
        if k == "cut":
            out.append([f, "cut", a])
        elif k in ("lose", "zero", "dup"):
            out.append([f, k, a, bs])
        elif k == "swap":
            out.append([f, k, a, r.randrange(0, n), bs])
        elif k == "flip":
            out.append([f, k, sorted(r.randrange(n) for _ in range(r.randrange(1, 5))), r.randrange(8)])
        elif k in ("stale", "splice"):
            # a block of an older version, or of a file that once lived there
            out.append([f, k, a, pool[r.randrange(len(pool))][:bs * 4] if r.random() < 0.6 else shreds(r, swarm)])
        else:
            out.append([f, "tail", a, shreds(r, swarm)])
    return out


def raw(t):
    return t if isinstance(t, bytes) else t.encode("utf-8")


def apply(files, dmg):
    fs = {f: raw(t) for f, t in files.items()}
    for d in dmg:
        f, k = d[0], d[1]
        if f not in fs:
            continue
        b = fs[f]
        a = d[2]
        if k == "cut":
            b = b[:a]
        elif k == "lose":
            b = b[:a] + b[a + d[3]:]
        elif k == "zero":
            b = b[:a] + b"\0" * len(b[a:a + d[3]]) + b[a + d[3]:]
        elif k == "dup":
            b = b[:a] + b[a:a + d[3]] * 2 + b[a + d[3]:]
        elif k == "swap":
            i, j = sorted((a, d[3]))
            n = min(d[4], j - i)
            if n > 0:
                x, y = b[i:i + n], b[j:j + n]
                b = b[:i] + y + b[i + n:j] + x + b[j + n:]
        elif k == "flip":
            bb = bytearray(b)
            for p in a:
                if p < len(bb):
                    bb[p] ^= 1 << d[3]
            b = bytes(bb)
        elif k == "stale":
            s = raw(d[3])
            b = b[:a] + s + b[a + len(s):]
        elif k == "splice":
            b = b[:a] + raw(d[3]) + b[a:]
        elif k == "tail":
            # the file ends in the middle of a construct
            b = b[:a] + b"\n" + raw(d[3])
        fs[f] = b
    return fs


RECUR = re.compile(r"\\(?:def|gdef|newcommand|renewcommand|let|newenvironment|renewenvironment|edef|xdef|providecommand|DeclareRobustCommand|csname)\b")


def defines(b):
    """Definitions present in a file, for spotting damage that changed one."""
    t = b.decode("latin-1")
    return [t[m.start():m.start() + 160] for m in RECUR.finditer(t)]


def tame(files, fs):
    """Whether all definitions are as they were (or gone, or cut off at the end)."""
    for f in fs:
        old = defines(raw(files[f]))
        left = list(old)
        for d in defines(fs[f]):
            if d in left:
                left.remove(d)
            elif not any(o.startswith(d) for o in old):
                return False
    return True


def gen(seed, tier, i):
    r = random.Random("C16/%s" % seed)
    d = c01.gen_doc(r, seed, 0, raw=False)
    m = d["main"]
    if r.random() < 0.4 and isinstance(d["files"][m], str):
        g = docgen.G(r, "tq")
        xs = [docgen.p_corpus(g) for _ in range(r.randrange(3, 14))]
        d["files"] = dict(d["files"], **{m: docgen.doc([], xs) if len(d["files"]) == 1 else d["files"][m].replace("\\end{document}", "\n\n".join(xs) + "\n\n\\end{document}")})
    if isinstance(d["files"][m], str) and r.random() < 0.7:
        d["files"] = dict(d["files"], **{m: marked(d["files"][m])})
    pool = [docgen.p_corpus(docgen.G(r, "tr")) for _ in range(3)] + [docgen.single("%s/old" % seed, tag="t0")[200:]]
    swarm = some(r)
    states = [damage(r, d["files"], m, pool, swarm) for _ in range(PER)]
    return {"doc": d, "states": states, "how": r.choice(ops.hows_for(d)), "seed": seed & 0xFFFF}


def marked(t):
    """Plain marker paragraphs between the paragraphs of the body."""
    a = t.find("\\begin{document}")
    if a < 0:
        return t
    ps = t[a:].split("\n\n")
    out = [ps[0]]
    for k, p in enumerate(ps[1:]):
        if balanced("\n\n".join(out)):
            out.append("Mark%szz plain words." % _word(k))
        out.append(p)
    return t[:a] + "\n\n".join(out)


def balanced(t):
    """Nothing is open at the end of t."""
    if "\\$" in t:
        # how an escaped dollar pairs is the parser's own affair
        return False
    t = re.sub(r"\\\\|\\[{}$%]|(?m:%.*$)", "", t)
    n = len(re.findall(r"\\begin\b", t)) - 1 - len(re.findall(r"\\end\b", t))
    i = len(re.findall(r"\\if(?![a-z]*then)", t)) - len(re.findall(r"\\newif\s*\\if", t)) - len(re.findall(r"\\fi\b", t))
    return n == 0 and i == 0 and t.count("{") == t.count("}") and t.count("$") % 2 == 0 and t.count("\\[") == t.count("\\]") and t.count("\\(") == t.count("\\)")


def _word(k):
    s = ""
    while True:
        s += "abcdefghij"[k % 10]
        k //= 10
        if not k:
            return s


def sim(root, case, states):
    run = ops.Run(root, case["seed"], budget=LIMIT)
    w = run.w
    d = case["doc"]
    rd = []
    log, steps = [], []
    run.active(lambda: rd.append(ops.reader()) or "made")
    cur = [None]

    def over():
        from runner import _emit
        run.b.mon.set_events(4, 0)
        _emit[0]({"__budget__": run.b.limit - base, "at": cur[0], "steps": run.b.n, "log": log})
    run.b.overrun = over
    base = 0
    for k, st in enumerate(states):
        fs = apply(d["files"], st) if st else {f: raw(t) for f, t in d["files"].items()}
        path = ops.place(w, dict(d, files=fs), "in/s%d" % k)
        cur[0] = k
        base = run.b.n
        run.b.limit = base + LIMIT

        def go():
            res = ops.process(rd[0], path, case["how"])
            return ops.to_out(rd[0], res)
        o = run.active(go)
        if "ok" in o:
            try:
                x = json.loads(o["ok"].encode("utf-8"))
                bad = None if isinstance(x, dict) and isinstance(x.get("tokens"), list) and all(isinstance(y, dict) and isinstance(y.get("type"), str) for y in x["tokens"]) else "no list of tokens"
            except ValueError as e:
                bad = "%s: %s" % (type(e).__name__, str(e)[:100])
            if bad:
                o = {"invalid": bad}
        if st and "ok" in o:
            o = {"ok": o["ok"] if any(x[1] == "cut" and x[0] == d["main"] for x in st) and len(st) == 1 else None}
        elif not st and "ok" in o:
            o = {"ok": o["ok"].replace("/in/s%d/" % k, "/in/s/")}
        log.append(o)
        steps.append(run.b.n - base)
    r = {"log": log, "each": steps}
    r.update(run.stats())
    return r


def text(o):
    """The text of a result, order as it appears."""
    return o["ok"] or ""


def before_cut(t, at):
    """Marker paragraphs of t wholly before byte `at`, up to the last blank line before it."""
    b = raw(t)[:at]
    p = b.rfind(b"\n\n")
    return re.findall(r"Mark[a-j]+zz", b[:max(p, 0)].decode("latin-1"))


def execute(case, ctx):
    v = verdict()
    ctx.cpu = CPU
    d = case["doc"]
    ref = add(v, ctx.ref([d, case["how"]], sim, dict(case, states=[]), [None]))
    if stuck(v, ref, "stuck", "the undamaged document", dict(case, states=[])):
        return v
    want = ref["log"][0]
    states = [s for s in case["states"] if tame(d["files"], apply(d["files"], s))]
    res = add(v, ctx.fork(sim, case, states + [None]))
    if "__hang__" in res:
        # which one of them was it
        for st in states:
            one = add(v, ctx.fork(sim, case, [st]))
            if stuck(v, one, "endless", "the conversion of a damaged project (%s)" % st, dict(case, states=[st])):
                return v
    if "__budget__" in res:
        k = res["at"]
        fail(v, "endless", "the conversion of a damaged project did not end within %d steps (%d for the undamaged one); damage %s" % (
            LIMIT, ref["steps"], states[k] if k < len(states) else "undone"), dict(case, states=[states[k]] if k < len(states) else states))
        return v
    if stuck(v, res, "endless", "the conversion of a damaged project", dict(case, states=states)):
        return v
    ref_marks = set(re.findall(r"Mark[a-j]+zz", text(want))) if "ok" in want else set()
    for k, st in enumerate(states):
        o = res["log"][k]
        if "ok" not in o and o.get("err") not in DOCUMENTED:
            fail(v, "error", "the conversion of a damaged project ended with %s; damage %s" % (ops.brief(o), st), dict(case, states=[st]))
            return v
        if o.get("ok") and isinstance(d["files"][d["main"]], str):
            need = [m for m in before_cut(d["files"][d["main"]], st[0][2]) if m in ref_marks]
            got = set(re.findall(r"Mark[a-j]+zz", o["ok"]))
            lost = [m for m in need if m not in got]
            probe(v, "paragraphs_before_a_cut", len(need))
            if lost:
                fail(v, "lost", "paragraphs before the cut are missing: %s of %d; damage %s" % (lost[:5], len(need), st), dict(case, states=[st]))
                return v
        for x in st:
            f = v["stats"]["faults"]
            f["storage:" + x[1]] = f.get("storage:" + x[1], 0) + 1
    got = res["log"][-1]
    if not ops.same(want, got):
        fail(v, "after", "after conversions of damaged states the undamaged project differs: %s" % ops.diff_brief(want, got), dict(case, states=states))
        return v
    probe(v, "damaged_conversions", len(states))
    probe(v, "failed_conversions", sum(1 for o in res["log"] if "ok" not in o))
    if "ok" in want:
        probe(v, "states_costing_over_2x", sum(1 for x in res["each"][:-1] if x > 2 * ref["steps"] + 2000))
    v["nontrivial"] = bool(states)
    v["sig"] = sig([d["files"] if all(isinstance(t, str) for t in d["files"].values()) else repr(d["files"]), states, case["how"]])
    v["sample"] = {"states": [[str(y)[:60] for y in x] for st in states[:3] for x in st], "how": case["how"], "flavour": d.get("flavour"),
                   "work": res["each"], "undamaged": ref["steps"]}
    return v


def shrinks(case):
    for s in shrink_list(case["states"]):
        yield dict(case, states=s)
    for k, st in enumerate(case["states"]):
        for x in shrink_list(st):
            if x:
                yield dict(case, states=case["states"][:k] + [x] + case["states"][k + 1:])
    d = case["doc"]
    if d["pack"] != "file":
        yield dict(case, doc=dict(d, pack="file"), how="process")
    if len(case["states"]) == 1:
        # make the damage part of the document
        fs = apply(d["files"], case["states"][0])
        try:
            fs = {f: b.decode("utf-8") for f, b in fs.items()}
        except UnicodeDecodeError:
            fs = None
        if fs is not None and case["states"][0] != [[d["main"], "flip", [], 0]]:
            yield dict(case, doc=dict(d, files=fs), states=[[[d["main"], "flip", [], 0]]])
    for f in sorted(d["files"]):
        if f != d["main"]:
            yield dict(case, doc=dict(d, files={x: y for x, y in d["files"].items() if x != f}), states=[[x for x in st if x[0] != f] or [[d["main"], "flip", [], 0]] for st in case["states"]])
    for f in sorted(d["files"]):
        for t in shrink_text(d["files"][f]):
            yield dict(case, doc=dict(d, files=dict(d["files"], **{f: t})))
