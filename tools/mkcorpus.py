"""Harvest TeX snippets from the string constants of the repository's tests
into sim/corpus.json (run once; the checks only read the committed file)."""
import ast, json, os, re, sys, time, logging
sys.path.insert(0, '/repo'); sys.path.insert(0, '/verif/sim')
logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter('ignore')
from latex2json.tex_reader import TexReader
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
out = {}
for dp, dn, fn in sorted(os.walk('/repo/tests')):
    for f in sorted(fn):
        p = os.path.join(dp, f)
        if f.endswith('.py'):
            tree = ast.parse(open(p).read())
            vals = [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
        else:
            continue
        for s in vals:
            if '\\' not in s or not 12 <= len(s) <= 1500:
                continue
            if re.search(r'\\(input|include|bibliography|documentclass|usepackage|RequirePackage|LoadClass|InputIfFileExists|import|subimport|end\{document|begin\{document|today)\b', s) or 'document}' in s:
                continue
            s = '\n'.join(l[len(os.path.commonprefix([x[:len(x) - len(x.lstrip())] for x in s.split('\n') if x.strip()])):] if l.strip() else '' for l in s.split('\n')).strip()
            s = re.sub(r'\n{3,}', '\n\n', s)
            out.setdefault(s, os.path.relpath(p, '/repo/tests'))
good = []
import signal
class TO(Exception): pass
def al(*a): raise TO
signal.signal(signal.SIGALRM, al)
for s, src in out.items():
    signal.alarm(3)
    doc = '\\documentclass{article}\n\\begin{document}\nStart.\n\n' + s + '\n\nClosing words.\n\\end{document}\n'
    t = time.time()
    try:
        p = LatexParser()
        toks = p.parse(doc, preprocess=True)
        b = TokenBuilder().build(toks)
        ok = 'Closing words' in json.dumps(b, default=str)
    except TO:
        print('SLOW', src, repr(s)); ok = False
    except Exception as e:
        ok = False
    signal.alarm(0)
    if ok and time.time() - t < 0.4:
        good.append([src, s])
print(len(out), len(good), sum(len(s) for _, s in good))
json.dump(good, open('/verif/sim/corpus.json', 'w'), indent=0, ensure_ascii=False)
