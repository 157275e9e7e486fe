"""Seeded generator of TeX projects.

Every stateful feature of the converter is represented by a pair of snippets:
a *define* (which leaves state behind: macros, conditionals, theorem names,
colours, labels, boxes, counters, citation aliases, keyval families, packages,
bibliographies, numbering ...) and a *probe* (whose rendering depends on that
state).  Names come from a deliberately tiny pool shared by every document, so
that state belonging to one document is visible in another one as soon as any
isolation between them is lost.  `tag` is unique per document.
"""
import json
import os
import random

# realistic snippets of every feature (made by tools/mkcorpus.py)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json"), encoding="utf-8") as _f:
    CORPUS = [s for _, s in json.load(_f)]

MACROS = ["foo", "qux", "zed"]
THMS = ["lem", "conj", "obs"]
COLS = ["mycol", "accent"]
KEYS = ["k1", "k2", "k3"]
LABELS = ["la", "lb", "lc"]
BOXES = ["bxa", "bxb"]
IFS = ["draft", "long"]
ENVS = ["myenv", "panel"]
FAMS = ["fam", "opt"]
CNTS = ["cnta", "cntb"]
WORDS = ("alpha beta gamma delta epsilon lorem ipsum dolor vector matrix field "
         "theory model graph proof limit bound sample tensor kernel").split()

NONASCII = ["Gauß", "café", "Łukasz", "naïve", "Erdős", "中文", "Ωmega"]


class G:
    def __init__(self, rng, tag, nonascii=True):
        self.r = rng
        self.tag = tag
        self.nonascii = nonascii
        self.n = 0

    def w(self, k=3):
        return " ".join(self.r.choice(WORDS) for _ in range(k))

    def t(self):
        self.n += 1
        return "%s%d" % (self.tag, self.n)

    def p(self, seq):
        return self.r.choice(seq)


# ---------------------------------------------------------------- features
# name -> (define(g) -> preamble/body text, probe(g) -> body text)

def d_newcommand(g):
    m = g.p(MACROS)
    form = g.r.randrange(6)
    t = g.t()
    return [
        r"\newcommand{\%s}{N%s}" % (m, t),
        r"\renewcommand{\%s}[1]{R%s(#1)}" % (m, t),
        r"\newcommand{\%s}[2][d%s]{(#1/#2)}" % (m, t),
        r"\def\%s{D%s}" % (m, t),
        r"\def\%s#1{P%s<#1>}" % (m, t),
        r"\providecommand{\%s}{V%s}" % (m, t),
    ][form]


def p_newcommand(g):
    m = g.p(MACROS)
    return g.p([
        r"See \%s{arg%s} end." % (m, g.t()),
        r"Value \%s\ here." % m,
        r"Mathy $x + \%s{y}$ done." % m,
        r"\textbf{\%s{q}} %s" % (m, g.w()),
        "\\begin{equation}\n\\%s{z} = 1\n\\end{equation}" % m,
        r"\%s[o%s]{p}" % (m, g.t()),
    ])


def d_let(g):
    a, b = g.r.sample(MACROS, 2)
    return g.p([r"\let\%s\%s" % (a, b), r"\let\%s=\alpha" % a,
                r"\expandafter\def\csname %s\endcsname{C%s}" % (a, g.t()),
                r"\DeclareMathOperator{\%s}{Op%s}" % (a, g.t()),
                r"\DeclareRobustCommand{\%s}{Rb%s}" % (a, g.t()),
                r"\DeclarePairedDelimiter{\%s}{|}{|}" % a,
                r"\makeatletter\@namedef{%s}{Nd%s}\makeatother" % (a, g.t())])


def d_nested_macro(g):
    a, b = g.r.sample(MACROS, 2)
    return ("\\newcommand{\\%s}[1]{outer#1\\newcommand{\\%s}[1]{inner #1 ##1}}\n\\%s{u}\\%s{v}"
            % (a, b, a, b))


def d_if(g):
    n = g.p(IFS)
    return r"\newif\if%s \%s%s" % (n, n, g.p(["true", "false"]))


def p_if(g):
    n = g.p(IFS)
    return g.p([
        r"\if%s yes%s \else no%s \fi" % (n, g.t(), g.t()),
        r"\if%smode pre%s \else post%s \fi" % (n, g.t(), g.t()),
        r"\if%s{tight%s}\else{loose%s}\fi" % (n, g.t(), g.t()),
        r"\%strue \if%s T%s\else F%s\fi" % (n, n, g.t(), g.t()),
        r"\ifx\%s\undefined undef%s\else def%s\fi" % (g.p(MACROS), g.t(), g.t()),
        r"\ifdefined\%s isdef%s\else nodef%s\fi" % (g.p(MACROS), g.t(), g.t()),
    ])


def d_theorem(g):
    n = g.p(THMS)
    return g.p([r"\newtheorem{%s}{Lemma%s}" % (n, g.t()),
                r"\newtheorem{%s}{Conj%s}[section]" % (n, g.t()),
                r"\newtheorem*{%s}{Obs%s}" % (n, g.t())])


def p_theorem(g):
    n = g.p(THMS)
    opt = g.p(["", "[Note %s]" % g.t()])
    return "\\begin{%s}%s\\label{%s}\n%s $a_%d$.\n\\end{%s}\n\\begin{proof} %s \\end{proof}" % (
        n, opt, g.p(LABELS), g.w(), g.r.randrange(9), n, g.w())


def d_float(g):
    return r"\floatname{%s}{Float%s}" % (g.p(["algorithm", "figure", "table"]), g.t())


def p_float(g):
    e = g.p(["algorithm", "figure", "table"])
    inner = {"algorithm": r"\begin{algorithmic}\State $x \gets 1$ %s\end{algorithmic}" % g.w(1),
             "figure": r"\includegraphics[width=3cm]{fig%s.png}" % g.t(),
             "table": "\\begin{tabular}{ll}\nA%s & B \\\\\n\\multicolumn{2}{c}{%s} \\\\\n\\end{tabular}" % (g.t(), g.w(2))}[e]
    return "\\begin{%s}\n%s\n\\caption{Cap %s}\\label{%s}\n\\end{%s}" % (e, inner, g.t(), g.p(LABELS), e)


def d_env(g):
    n = g.p(ENVS)
    return g.p([r"\newenvironment{%s}{Open%s }{ Close%s}" % (n, g.t(), g.t()),
                r"\newenvironment{%s}[1]{Op%s #1 }{ Cl%s}" % (n, g.t(), g.t()),
                r"\renewenvironment{%s}{Re%s }{ Er%s}" % (n, g.t(), g.t())])


def p_env(g):
    n = g.p(ENVS)
    return "\\begin{%s}{arg%s}\n%s\n\\end{%s}" % (n, g.t(), g.w(), n)


def d_color(g):
    n = g.p(COLS)
    return g.p([r"\definecolor{%s}{HTML}{%06X}" % (n, g.r.randrange(1 << 24)),
                r"\definecolor{%s}{rgb}{0.%d,0.%d,1}" % (n, g.r.randrange(9), g.r.randrange(9))])


def p_color(g):
    return g.p([r"\textcolor{%s}{Col%s}" % (g.p(COLS), g.t()),
                r"{\color{%s} Tint%s}" % (g.p(COLS), g.t()),
                r"\colorbox{%s}{Box%s}" % (g.p(COLS), g.t())])


def d_label(g):
    return "\\begin{equation}\\label{%s}\nE_{%s} = mc^2\n\\end{equation}" % (g.p(LABELS), g.t())


def p_label(g):
    return g.p([r"By \ref{%s} and \eqref{%s}." % (g.p(LABELS), g.p(LABELS)),
                r"\autoref{%s}, \cref{%s,%s}" % (g.p(LABELS), g.p(LABELS), g.p(LABELS)),
                r"\hyperref[%s]{link %s}" % (g.p(LABELS), g.t()),
                r"\label{%s}" % g.p(LABELS)])


def d_citealias(g):
    k = g.p(KEYS)
    return g.p([r"\defcitealias{%s}{Alias %s}" % (k, g.t()),
                "$ a + \\text{\\defcitealias{%s}{EqAlias %s}} b $" % (k, g.t()),
                "\\begin{equation}\n a \\defcitealias{%s}{DispAlias %s} = b\n\\end{equation}" % (k, g.t()),
                "\\begin{align}\n a &= \\defcitealias{%s}{AlAlias %s} b \\\\\n c &= d\n\\end{align}" % (k, g.t())])


def p_citealias(g):
    k = g.p(KEYS)
    return g.p([r"As in \citetalias{%s}." % k, r"See \citepalias{%s} now." % k,
                "\\begin{equation}\n a = \\citetalias{%s} \\citepalias{%s} b\n\\end{equation}" % (k, k),
                "$ a \\citepalias{%s} $" % k])


def d_box(g):
    b = g.p(BOXES)
    return g.p([r"\newsavebox{\%s}\sbox{\%s}{Boxed %s}" % (b, b, g.t()),
                r"\newsavebox{\%s}\sbox\%s{Boxed \textbf{%s}}" % (b, b, g.t()),
                r"\setbox%d=\hbox{HB %s}" % (g.r.randrange(3), g.t()),
                r"\newbox\%s \setbox\%s=\hbox{Vb %s}" % (b, b, g.t()),
                r"\savebox{\%s}{Sv %s \ref{%s}}" % (b, g.t(), g.p(LABELS)),
                r"\begin{equation} a \sbox{\%s}{Mb%s} b \end{equation}" % (b, g.t()),
                r"Inline $a \setbox\%s=\hbox{Mh%s} b$ maths" % (b, g.t())])


def p_box(g):
    b = g.p(BOXES)
    return g.p([r"Use \usebox{\%s} and \usebox{\%s}." % (b, b), r"\usebox{\%s}\label{%s} then \usebox{\%s}" % (b, g.p(LABELS), b),
                r"\usebox\%s tail %s" % (b, g.w()), r"\usebox{\%s}" % b,
                r"\fbox{F %s} \usebox{\%s}" % (g.t(), b),
                r"\begin{equation} c \usebox{\%s} d_{%s} \end{equation}" % (b, g.w()), r"So $\usebox\%s + %s$ it is" % (b, g.w())])


def d_keyval(g):
    return r"\makeatletter\define@key{%s}{%s}{KV%s #1}\makeatother" % (g.p(FAMS), g.p(KEYS), g.t())


def p_keyval(g):
    return r"\setkeys{%s}{%s=val%s}" % (g.p(FAMS), g.p(KEYS), g.t())


def d_counter(g):
    c = g.p(CNTS)
    return g.p([r"\newcounter{%s}\setcounter{%s}{%d}" % (c, c, g.r.randrange(9)),
                r"\newlength{\%slen}\setlength{\%slen}{%dpt}" % (c, c, g.r.randrange(9)),
                r"\newcount\%s \%s=%d" % (c, c, g.r.randrange(9)),
                r"\newtoks\%stok" % c])


def p_counter(g):
    c = g.p(CNTS)
    return g.p([r"Count \arabic{%s} \the%s." % (c, c), r"\hspace{\%slen} gap%s" % (c, g.t()),
                r"\ifnum\value{%s}>3 big%s\else small%s\fi" % (c, g.t(), g.t()), r"\%s\ %s" % (c, g.w(1))])


def d_bool(g):
    return r"\newbool{%s}\booltrue{%s}" % (g.p(IFS), g.p(IFS))


def p_bool(g):
    return g.p([r"\setbool{%s}{true}" % g.p(IFS), r"\notbool{%s}{A%s}{B%s}" % (g.p(IFS), g.t(), g.t()),
                r"\ifbool{%s}{C%s}{D%s}" % (g.p(IFS), g.t(), g.t())])


def d_front(g):
    return g.p([r"\title{Title %s \thanks{Grant %s}}" % (g.t(), g.t()),
                r"\author{Ann %s\thanks{Mail %s} \and Bob %s\footnotemark[1]}" % (g.t(), g.t(), g.t()),
                r"\author{Cat %s\\ Uni \And Dan %s}" % (g.t(), g.t()),
                r"\affiliation{Inst %s} \email{x%s@y.z}" % (g.t(), g.t()),
                r"\begin{abstract} Abs %s \footnote{fn %s} \end{abstract}" % (g.t(), g.t())])


def p_sections(g):
    lvl = g.p(["section", "subsection", "subsubsection", "paragraph", "section*"])
    return "\\%s{Head %s}\\label{%s}\n%s." % (lvl, g.t(), g.p(LABELS), g.w())


def p_eq(g):
    return g.p([
        "\\begin{equation}\n\\int_0^{%d} f_{%s} \\label{%s}\n\\end{equation}" % (g.r.randrange(9), g.t(), g.p(LABELS)),
        "\\begin{align}\na &= b_{%s} \\\\\nc &= d \\nonumber \\\\\ne &= f \\tag{%s}\n\\end{align}" % (g.t(), g.t()),
        "\\[ \\sum_{i=%d}^n i \\]" % g.r.randrange(9), "$$ q_{%s} $$" % g.t(), r"Inline \( x_{%s} \)." % g.t()])


def p_list(g):
    e = g.p(["itemize", "enumerate", "description"])
    return "\\begin{%s}\n\\item one %s\n\\item[b] two \\begin{itemize}\\item deep %s\\end{itemize}\n\\end{%s}" % (e, g.t(), g.t(), e)


def p_table(g):
    return ("\\begin{table}[h]\n\\caption{T %s}\\label{%s}\n\\begin{tabular}{|c|c|c|}\n\\hline\nA%s & B & C \\\\\n"
            "\\multirow{2}{*}{M%s} & $x$ & \\textbf{y} \\\\\n & \\multicolumn{2}{c}{wide %s} \\\\\n\\end{tabular}\n\\end{table}"
            % (g.t(), g.p(LABELS), g.t(), g.t(), g.t()))


def p_fig(g):
    return ("\\begin{figure}\n\\begin{subfigure}[b]{0.4\\textwidth}\\includegraphics{a%s.png}\\caption{S %s}\\end{subfigure}\n"
            "\\caption{F %s}\\label{%s}\n\\end{figure}" % (g.t(), g.t(), g.t(), g.p(LABELS)))


def p_verb(g):
    return g.p(["\\begin{verbatim}\n  raw %s  \\foo{x}\n\n\n   x\n\\end{verbatim}" % g.t(),
                "\\begin{lstlisting}[language=C]\nint a%s = 1;   // %s\n\\end{lstlisting}" % (g.t(), g.w(1)),
                r"\verb|v%s \foo|" % g.t(),
                "\\begin{tikzpicture}\n\\draw (0,0) -- (%d,1);\n\\end{tikzpicture}" % g.r.randrange(9)])


def p_text(g):
    x = ""
    if g.nonascii and g.r.random() < 0.35:
        x = " " + " ".join(g.r.sample(NONASCII, 3))
    return g.p(["%s %s.%s" % (g.w(6), g.t(), x),
                r"Quote ``%s'' and `%s'%s" % (g.w(2), g.t(), x),
                r"{\bf old %s} \textit{it \underline{%s}}%s" % (g.t(), g.w(1), x),
                r"Erd\H{o}s \'{e} \ss\ %s \u0041 \alpha%s" % (g.t(), x),
                r"Sign \textsection{} \ae{} \o{} \copyright\ \pounds\ \dag\ %s --- \oe{}%s" % (g.t(), x),
                r"\footnote{Foot %s \textbf{b}}%s" % (g.t(), x),
                r"\url{http://x.y/%s} \href{http://a.b}{go %s}%s" % (g.t(), g.t(), x)])


def p_cite(g):
    return g.p([r"\cite{%s,%s}" % (g.p(KEYS), g.p(KEYS)), r"\citep[see %s]{%s}" % (g.t(), g.p(KEYS)),
                r"\citet{%s}" % g.p(KEYS)])


def p_appendix(g):
    return "\\appendix\n\\section{App %s}\n%s" % (g.t(), g.w())


def p_misc(g):
    return g.p([
        r"\foreach \x in {1,2} {n%s}" % g.t(),
        r"\setkeys{Gin}{width=1cm} after %s" % g.t(),
        r"\ifthenelse{\equal{a}{b}}{E%s}{U%s}" % (g.t(), g.t()),
        r"\unknowncmd%s{stuff}" % "abcdefgh"[g.r.randrange(8)],
        r"\begin{center}\begin{minipage}{3cm} mini %s \end{minipage}\end{center}" % g.t(),
        r"\crefname{%s}{Eq%s}{Eqs}" % (g.p(LABELS), g.t()),
        r"\captionof{figure}{Cof %s}" % g.t(),
        r"\date{\today} \LaTeX\ %s" % g.t(),
    ])


def p_corpus(g):
    return g.p(CORPUS)


def p_if2(g):
    n = g.r.randrange(5)
    return g.p([
        r"\ifnum %d>2 numbig%s \else numsmall%s\fi" % (n, g.t(), g.t()),
        r"\ifdim %dpt<2pt dimless%s\else dimmore%s\fi" % (n, g.t(), g.t()),
        r"\ifcat a%s cat%s\else nocat%s\fi" % (g.p("a1"), g.t(), g.t()),
        r"\ifcase %d zero%s\or one%s\or two%s\else many%s\fi" % (n, g.t(), g.t(), g.t(), g.t()),
        r"\ifthenelse{\equal{a}{b}}{same%s}{diff%s}" % (g.t(), g.t()),
        r"\makeatletter\@ifundefined{%s}{undef%s}{def%s}\@ifstar{st%s}{nost%s}\makeatother" % (g.p(MACROS), g.t(), g.t(), g.t(), g.t()),
        r"\makeatletter\@ifpackageloaded{amsmath}{pl%s}{npl%s}\@ifclassloaded{article}{cl%s}{ncl%s}\makeatother" % (g.t(), g.t(), g.t(), g.t()),
        r"\iftrue tr%s\else fa%s\fi \iffalse x%s\fi" % (g.t(), g.t(), g.t()),
        r"\IfFileExists{nofile.tex}{fe%s}{nf%s}" % (g.t(), g.t())])


DEFINES = [d_newcommand, d_newcommand, d_let, d_nested_macro, d_if, d_theorem, d_float, d_env, d_color,
           d_label, d_citealias, d_citealias, d_box, d_box, d_keyval, d_counter, d_bool, d_front]
PROBES = [p_newcommand, p_newcommand, p_if, p_theorem, p_float, p_env, p_color, p_label, p_citealias, p_citealias,
          p_box, p_box, p_keyval, p_counter, p_bool, p_sections, p_eq, p_list, p_table, p_fig, p_verb,
          p_text, p_text, p_cite, p_appendix, p_misc, p_if2,
          p_corpus, p_corpus, p_corpus, p_corpus, p_corpus, p_corpus, p_corpus, p_corpus]


def lines(g, n_def, n_probe, mix=True):
    ds = [g.p(DEFINES)(g) for _ in range(n_def)]
    ps = [g.p(PROBES)(g) for _ in range(n_probe)]
    if mix:
        ps = ps + [g.p(DEFINES)(g) for _ in range(g.r.randrange(3))]
        g.r.shuffle(ps)
    return ds, ps


def _sty(g):
    out = ["\\NeedsTeXFormat{LaTeX2e}", "\\ProvidesPackage{x}"]
    for _ in range(g.r.randrange(1, 4)):
        out.append(g.p([d_newcommand, d_let, d_if, d_theorem, d_env, d_color, d_counter, d_float])(g))
    if g.r.random() < 0.5:
        m = g.p(MACROS)
        out.insert(g.r.randrange(2, len(out) + 1), g.p([
            "\\AtBeginDocument{\\def\\%s{ABD%s}}" % (m, g.t()),
            "\\IfFileExists{nofile.cfg}{\\def\\%s{IFE%s}}{\\def\\%s{NFE%s}}" % (m, g.t(), m, g.t()),
            "{\\gdef\\%s{GR%s}}" % (m, g.t()),
            "\\DeclareOption{final}{\\def\\%s{Opt%s}}\n\\ProcessOptions\\relax" % (m, g.t()),
            "\\@ifpackageloaded{hyperref}{\\def\\%s{HL%s}}{\\def\\%s{HN%s}}" % (m, g.t(), m, g.t()),
            "\\makeatletter\n\\renewcommand{\\maketitle}{\\@title %s}\n\\makeatother" % g.t(),
            "%% a comment {with} \\def\\%s{no}\n\\endinput" % m]))
    if g.r.random() < 0.4:
        # switches set here, elsewhere, or nowhere
        n, (a, b) = g.p(IFS), g.r.sample(MACROS, 2)
        out.append(g.p(["", "\\newif\\if%s\n" % n, "\\newif\\if%s \\%strue\n" % (n, n), "\\%strue\n" % n])
                   + "\\if%s%s\\def\\%s{Y%s}\n\\else\n\\def\\%s{N%s}\n\\fi" % (n, g.p(["\n", "mode\n", "{}", "{} "]), a, g.t(), b, g.t()))
    return "\n".join(out) + "\n"


def _bib(g, non=True):
    out = []
    for k in g.r.sample(KEYS, g.r.randrange(1, 4)):
        nm = g.p(NONASCII) if non and g.r.random() < 0.6 else "Plain"
        if g.r.random() < 0.2:
            out.append("@string{jr = \"Journal %s\"}\n@comment{not this}\n@book{%s, title = \"Quoted {%s} title\", publisher = jr, pages = {1--2}, year = 1999}\n" % (g.t(), k, g.t()))
            continue
        out.append("@article{%s,\n  title = {Bib %s},\n  author = {%s, A. and Roe, B.},\n  year = {20%02d}\n}\n"
                   % (k, g.t(), nm, g.r.randrange(30)))
    return "\n".join(out)


def _bbl(g):
    x = g.r.random()
    if x < 0.2:
        # as written by biber
        out = ["\\datalist[entry]{none/global//global/global}"]
        for k in g.r.sample(KEYS, g.r.randrange(1, 4)):
            out.append("  \\entry{%s}{article}{}\n    \\name{author}{1}{}{%%\n      {{hash=AA}{%%\n         family={Fam%s},\n         given={Giv},\n      }}%%\n    }\n"
                       "    \\field{title}{Compiled %s}\n    \\field{year}{20%02d}\n    \\verb{eprint}\n    \\verb 15%02d.1\n    \\endverb\n  \\endentry"
                       % (k, g.t(), g.t(), g.r.randrange(30), g.r.randrange(99)))
            if g.r.random() < 0.3:
                # entries nothing can be made of
                out.append("  " + g.r.choice(["\\entry{zbad}{article} text\n  \\endentry", "\\entry{z1}\n  \\endentry",
                                              "\\entry{%s}{misc}{}\n    \\name{author}{1}\n  \\endentry" % g.r.choice(KEYS),
                                              "\\entry{%s}{misc}{}\n    \\field{title}{unclosed\n  \\endentry" % g.r.choice(KEYS)]))
        return "\n".join(out + ["\\enddatalist"]) + "\n"
    if x < 0.35:
        out = ["\\begin{bibdiv}\n\\begin{biblist}"]
        for k in g.r.sample(KEYS, g.r.randrange(1, 4)):
            out.append("\\bib{%s}{article}{\n author={Aut%s},\n title={Div %s},\n date={19%02d},\n}" % (k, g.t(), g.t(), g.r.randrange(99)))
        return "\n".join(out + ["\\end{biblist}\n\\end{bibdiv}"]) + "\n"
    out = ["\\begin{thebibliography}{9}"]
    for k in g.r.sample(KEYS, g.r.randrange(1, 4)):
        out.append("\\bibitem[%s]{%s} Author %s, \\emph{Item}, 19%02d." % (g.t(), k, g.t(), g.r.randrange(99)))
    out.append("\\end{thebibliography}")
    return "\n".join(out) + "\n"


def single(seed, tag=None, size=None, nonascii=True):
    """One self-contained document (text)."""
    r = random.Random("single/%s" % (seed,))
    g = G(r, tag or "t%s" % _short(seed), nonascii)
    nd, np_ = size or (r.randrange(0, 7), r.randrange(3, 11))
    ds, ps = lines(g, nd, np_)
    return doc(ds, ps)


def sink(seed, tag="t", n=6):
    """One of each feature, and some more."""
    r = random.Random("sink/%s" % (seed,))
    g = G(r, tag)
    fs = list(dict.fromkeys(DEFINES)) + list(dict.fromkeys(PROBES)) + [p_if2] * 3 + [p_corpus] * n
    body = [f(g) for f in fs]
    return doc(body[:4], body[4:])


def doc(pre, body):
    return ("\\documentclass{article}\n" + "\n".join(pre) + "\n\\begin{document}\n"
            + "\n\n".join(body) + "\n\\end{document}\n")


def _short(seed):
    return "%04x" % (random.Random("tag/%s" % (seed,)).randrange(1 << 16))


def project(seed, tag=None, nonascii=True, kinds=("tex", "sty", "cls", "bib", "nest"), sub=True, each_once=True):
    """A multi-file project.  Returns {"files": {rel: text}, "main": rel, "secondary": {rel: kind}}.
    Every secondary file is referenced exactly once (so that one fault hits one occurrence)."""
    r = random.Random("project/%s" % (seed,))
    g = G(r, tag or "t%s" % _short(seed), nonascii)
    ds, ps = lines(g, r.randrange(0, 5), r.randrange(3, 8))
    files, sec = {}, {}
    kinds = [k for k in kinds if r.random() < 0.75] or [kinds[0]]
    cls = "article"
    if "cls" in kinds:
        cls = "jcls"
        files["jcls.cls"] = _sty(g) + ("\\LoadClass{base}\n" if r.random() < 0.5 else "")
        sec["jcls.cls"] = "cls"
        if "\\LoadClass" in files["jcls.cls"]:
            files["base.cls"] = _sty(g)
            sec["base.cls"] = "cls"
    if "sty" in kinds:
        n = r.randrange(1, 3)
        names = ["pka", "pkb"][:n]
        for nm in names:
            files[nm + ".sty"] = _sty(g)
            sec[nm + ".sty"] = "sty"
        if r.random() < 0.5:
            files["pkn.sty"] = _sty(g)
            sec["pkn.sty"] = "sty"
            files["pka.sty"] += "\\RequirePackage{pkn}\n"
        if sub and r.random() < 0.35:
            # a package kept in a subfolder; the next one is looked up from the top again
            files["styles/sp.sty"] = _sty(g)
            files["pkt.sty"] = _sty(g)
            sec["styles/sp.sty"] = sec["pkt.sty"] = "sty"
            files["pka.sty"] += "\\RequirePackage{styles/sp}\n\\RequirePackage{pkt}\n"
        ds.insert(0, "\\usepackage{%s}" % ",".join(names))
    if "tex" in kinds:
        for i in range(r.randrange(1, 4)):
            rel = ("sections/s%d.tex" if sub and r.random() < 0.5 else "s%d.tex") % i
            a, b = lines(g, r.randrange(0, 3), r.randrange(1, 4))
            body = a + b
            if "nest" in kinds and r.random() < 0.4:
                nrel = "nest%d.tex" % i
                a2, b2 = lines(g, r.randrange(0, 2), r.randrange(1, 3))
                files[nrel] = "\n\n".join(a2 + b2) + "\n"
                sec[nrel] = "tex"
                body.insert(r.randrange(len(body) + 1), "\\input{%s}" % (nrel[:-4] if r.random() < .5 else nrel))
            files[rel] = "\n\n".join(body) + "\n"
            sec[rel] = "tex"
            cmd = "\\%s{%s}" % (r.choice(["input", "include"]), rel[:-4] if r.random() < 0.5 else rel)
            ps.insert(r.randrange(len(ps) + 1), cmd)
    if "bib" in kinds:
        style = r.randrange(5)
        if style == 4:
            # one stem, both a .bbl and a .bib
            files["refs.bbl"] = _bbl(g)
            sec["refs.bbl"] = "bib"
            if each_once:
                ps.append("\\bibliography{refs}")
            files["refs.bib"] = _bib(g, nonascii)
        elif style == 0:
            files["refs.bib"] = _bib(g, nonascii)
            sec["refs.bib"] = "bib"
            ps.append("\\bibliography{refs}")
        elif style == 1:
            files["refs.bib"] = _bib(g, nonascii)
            files["more.bib"] = _bib(g, nonascii)
            sec["refs.bib"] = sec["more.bib"] = "bib"
            ps.append("\\bibliography{refs, more}")
        elif style == 2:
            files["main.bbl"] = _bbl(g)
            sec["main.bbl"] = "bib"
            ps.append("\\bibliography{absent}")
        else:
            files["other.bbl"] = _bbl(g)
            files["zlast.bbl"] = _bbl(g)
            sec["other.bbl"] = sec["zlast.bbl"] = "bib"
            ps.append("\\bibliography{absent}")
    main = r.choice(["main.tex", "paper.tex", "ms.tex"]) if not sub or r.random() < 0.8 else "src/main.tex"
    if "/" in main:
        files = {("src/" + k): v for k, v in files.items()}
        sec = {("src/" + k): v for k, v in sec.items()}
    text = doc(ds, ps).replace("\\documentclass{article}", "\\documentclass{%s}" % cls)
    files[main] = text
    return {"files": files, "main": main, "secondary": sec}




def body_of(text):
    """The part of a document between begin and end of the document body."""
    a = text.find("\\begin{document}")
    b = text.rfind("\\end{document}")
    return text[a + len("\\begin{document}"):b] if a >= 0 and b > a else text


def encode(text, enc):
    if enc == "tail":
        # the sample that is looked at for detection is pure ASCII; the rest is not UTF-8
        pad = ("%% " + "filler " * 18 + "\n") * 90
        pos = text.find("\\end{document}")
        if pos < 0:
            pos = len(text)
        t = text[:pos].encode("latin-1", "replace")
        return b"\n".join([pad.encode(), t, "caf\xe9 na\xefve \xdcber \xa71".encode("latin-1"), "\xdcber \u0141\xf3d\u017a".encode("utf-8"), text[pos:].encode("latin-1", "replace")])
    if enc in ("latin-1", "cp1252"):
        return (text.replace("\\end{document}", "Stra\xdfe caf\xe9 na\xefve M\xfcller d\xe9j\xe0 vu \xe0 la fran\xe7aise\n\\end{document}")
                ).encode(enc, "replace")
    return text.encode(enc)


ENCODINGS = ["utf-16", "utf-8-sig", "latin-1", "cp1252", "tail", "utf-16-le", "utf-32"]


POOL = ["".join(x) for x in ("bra ket inn nrm avg prd smm exv hlt dlt lam eps vcx mtx opx sta qed thx aux bux").split()]


def rich(d, r, tag="t0", n=None):
    """Many definitions and uses: more than any small table of them would hold.
    Half of the names come from a pool that documents share."""
    m = d["main"]
    t = d["files"][m]
    if not isinstance(t, str) or "\\begin{document}" not in t:
        return d
    n = n or r.choice([10, 20, 40])
    pre, use = [], []
    for j in range(n):
        nm = r.choice(POOL) if r.random() < 0.4 else "".join(r.choice("bcdfghjklmnpqrtvwxz") for _ in range(7))
        v = "%sn%d" % (tag, r.randrange(1000))
        k = r.randrange(8)
        if k < 3:
            pre.append("\\newcommand{\\%s}{Val %s}" % (nm, v))
            use.append("\\%s{} and $x_\\%s$." % (nm, nm) if r.random() < 0.3 else "\\%s{}." % nm)
        elif k == 3:
            pre.append("\\newcommand{\\%s}[2][dft]{Two #1 %s #2}" % (nm, v))
            use.append(r.choice(["\\%s{one}.", "\\%s[opt]{one}."]) % nm)
        elif k == 4:
            pre.append("\\def\\%s#1{Def %s #1}" % (nm, v))
            use.append("\\%s{arg}." % nm)
        elif k == 5:
            pre.append("\\newtheorem{%s}{Thm %s}" % (nm, v))
            use.append("\\begin{%s} Claim. \\end{%s}" % (nm, nm))
        elif k == 6:
            pre.append("\\newenvironment{%s}{Open %s }{ Close %s}" % (nm, v, v))
            use.append("\\begin{%s} Inside. \\end{%s}" % (nm, nm))
        else:
            pre.append("\\DeclareMathOperator{\\%s}{%s}" % (nm, v))
            use.append("$\\%s x$." % nm)
    r.shuffle(use)
    d["files"][m] = t.replace("\\begin{document}", "\n".join(pre) + "\n\\begin{document}", 1).replace("\\end{document}", "\n\n".join(use) + "\n\\end{document}", 1)
    return d


def flavour(d, r, long=True, enc=True, raw=True, deep=True, crlf=True, abyss=False, tag="t0"):
    """Vary the shape of a document: long bodies, bare fragments, other
    encodings, DOS line ends, nesting.  `d` has files/main/pack."""
    x = r.random()
    if x >= 0.45:
        return d
    m = d["main"]
    t = d["files"][m]
    if not isinstance(t, str):
        return d
    pack = d.get("pack") or "file"
    if x < 0.08:
        if long:
            g = G(r, tag + "z")
            n = r.choice([20, 40, 80])
            more = "\n\n".join(g.p(PROBES)(g) for _ in range(n))
            d["files"][m] = t.replace("\\end{document}", more + "\n\\end{document}")
            d["flavour"] = "long"
    elif x < 0.17:
        if raw and pack == "file":
            g = G(r, tag + "y")
            more = "\n\n".join(g.p(PROBES)(g) for _ in range(r.choice([3, 30, 60])))
            d["files"][m] = body_of(t) + "\n\n" + more + "\n"
            d["flavour"] = "fragment"
    elif x < 0.22:
        if deep:
            # nested more deeply than the interpreter can follow, now and then
            n = 700 if abyss and r.random() < 0.2 else r.choice([5, 15, 30])
            k = r.randrange(4) if n < 700 else r.choice([2, 3])
            o, c = [("{", "}"), ("\\textbf{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"),
                    ("\\begin{center}", "\\end{center}")][k]
            d["files"][m] = t.replace("\\end{document}", o * n + " core " + c * n + "\n\\end{document}")
            d["flavour"] = "deep"
    elif x < 0.27:
        if crlf:
            for f in list(d["files"]):
                if isinstance(d["files"][f], str) and r.random() < 0.8:
                    d["files"][f] = d["files"][f].replace("\n", r.choice(["\r\n", "\r\n", "\r"]) if f != m else "\r\n")
            d["flavour"] = "crlf"
    elif enc:
        e = r.choice(ENCODINGS)
        sec = [f for f in sorted(d["files"]) if f != m]
        tg = [m] if not sec or r.random() < 0.5 else [r.choice(sec)]
        if pack != "file" and e.startswith(("utf-16", "utf-32")):
            e = "latin-1"
        for f in tg:
            if isinstance(d["files"][f], bytes):
                continue
            d["files"][f] = encode(d["files"][f], e)
        d["flavour"] = "enc:" + e
    return d


def as_text(x):
    return x if isinstance(x, str) else x.decode("latin-1")
