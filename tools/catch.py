#!/usr/bin/env python3
"""Run the quick check of each planted bug's property on a scratch copy with the bug:
catch.py [-a: all checks] [ID...]; prints one line per bug."""
import json, os, shutil, subprocess, sys, tempfile, time
args = sys.argv[1:]
all_checks = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir('/verif/seeded'))
env = {k: v for k, v in os.environ.items()}
env.setdefault('VERIF_SEED', '1')
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    s = tempfile.mkdtemp(prefix='catch-', dir='/dev/shm')
    try:
        subprocess.run(['cp', '-a', '/repo', s + '/repo'], check=True)
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=s + '/repo', capture_output=True, text=True)
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr[:200]); continue
        res = []
        for p in ([prop] + ['C%02d' % n for n in range(1, 18) if 'C%02d' % n != prop] if all_checks else [prop]):
            t = time.time()
            r = subprocess.run(['/verif/run', 'check', p], env={**env, 'L2J_REPO': s + '/repo'}, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('%s:%s%s %.0fs' % (p, r.returncode, '' if bool(v) == (r.returncode == 1) else '?', time.time() - t))
            if r.returncode not in (0, 1): res.append((r.stdout + r.stderr)[-300:].replace('\n', ' | '))
        print('%-24s %s' % (i, '  '.join(res)), flush=True)
    finally:
        shutil.rmtree(s)
