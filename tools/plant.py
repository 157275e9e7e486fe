#!/usr/bin/env python3
"""Confirm a planted bug: plant.py SPEC.py [--check] [--keep]

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python).
Works in a scratch copy of /repo; on success writes /verif/seeded/<ID>/.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
spec = runpy.run_path(sys.argv[1])
ID, PROP = spec['ID'], spec['PROP']
scratch = tempfile.mkdtemp(prefix='plant-', dir='/dev/shm')
repo = scratch + '/repo'
out = '/verif/seeded/' + ID
env = {k: v for k, v in os.environ.items() if not k.startswith('L2J')}

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

try:
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    demo_dir = scratch + '/demo'
    os.mkdir(demo_dir)
    with open(demo_dir + '/demo.py', 'w') as f: f.write(spec['DEMO'].lstrip('\n'))
    with open(demo_dir + '/demo.sh', 'w') as f:
        f.write('#!/bin/sh\n# cwd: the repository; exit 0 if the property holds\n'
                'd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 2\n'
                'TMPDIR="$t" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$d/demo.py"\nrc=$?\n'
                'chmod -R u+rwx "$t" 2>/dev/null; rm -rf "$t"\nexit $rc\n')
    os.chmod(demo_dir + '/demo.sh', 0o755)
    r = sh(['sh', demo_dir + '/demo.sh'], cwd=repo, env=env)
    if r.returncode: sys.exit(f'{ID}: demo fails on the clean tree\n' + (r.stdout + r.stderr)[-1500:])
    for file, old, new in spec['EDITS']:
        p = repo + '/' + file
        s = open(p).read()
        if s.count(old) != 1: sys.exit(f'{ID}: {file}: old text occurs {s.count(old)} times')
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=repo).stdout
    # changed lines must be original ones
    for f in {e[0] for e in spec['EDITS']}:
        orig = set(sh(['git', 'show', 'bff3a4d:' + f], cwd=repo).stdout.splitlines())
        removed = [l[1:] for l in sh(['git', 'diff', '--', f], cwd=repo).stdout.splitlines()
                   if l.startswith('-') and not l.startswith('---')]
        bad = [l for l in removed if l not in orig]
        if bad: print(f'{ID}: WARNING removes lines that are not original:', bad)
        if not removed: print(f'{ID}: note: {f}: only adds lines')
    r = sh(['sh', demo_dir + '/demo.sh'], cwd=repo, env=env)
    if r.returncode == 0: sys.exit(f'{ID}: demo passes on the patched tree')
    last = (r.stdout + r.stderr).strip().splitlines()[-1:]
    t = sh('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3', cwd=repo, env=env)
    if not re.search(r'\b331 passed', t.stdout) or 'failed' in t.stdout:
        sys.exit(f'{ID}: tests: ' + t.stdout[-400:])
    os.makedirs(out, exist_ok=True)
    for n in ('demo.sh', 'demo.py'): shutil.copy2(demo_dir + '/' + n, out)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': PROP, 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
              open(out + '/meta.json', 'w'), indent=1)
    print(f'{ID}: planted ({last})', flush=True)
    if '--check' in sys.argv:
        for prop in (spec.get('CHECK') or [PROP]):
            r = sh(['/verif/run', 'check', prop], env={**env, 'L2J_REPO': repo, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
            lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print(f'{ID}: {prop} rc={r.returncode}', lines[:1] or (r.stdout + r.stderr)[-200:].replace('\n', ' | '), flush=True)
finally:
    subprocess.run(['chmod', '-R', 'u+rwx', scratch])
    shutil.rmtree(scratch)
