#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy of /repo and runs the
analyzer on it. usage: mutants.py FILE [NAME...]
FILE is a Python file with M = [(name, [(file, old, new), ...], checks)], where
checks is a string of ids: those that must report ("C02"), or with a leading '='
those that must stay quiet ("=C01 C02")."""
import sys, os, shutil, subprocess, concurrent.futures as cf, tempfile
src = sys.argv[1]; only = sys.argv[2:]
ns = {}; exec(open(src).read(), ns)
an = os.environ.get('AN', '/tmp/an')
def run(m):
    name, edits, checks = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', 'node_modules'))
        for f, old, new in edits:
            p = d + '/r/' + f
            s = open(p).read()
            if s.count(old) < 1: return name, 'EDIT DOES NOT APPLY ' + old[:40], ''
            open(p, 'w').write(s.replace(old, new, 1))
        b = subprocess.run(['go', 'build', './...'], cwd=d + '/r', capture_output=True, text=True)
        if b.returncode: return name, 'DOES NOT BUILD', b.stderr[:300]
        res = []; out = ''
        quiet = checks.startswith('=')
        if os.environ.get('ALL') and quiet: checks = ' '.join('C%02d' % i for i in range(1, 28))
        for c in checks.lstrip('=').split():
            r = subprocess.run([an, d + '/r', d, c], capture_output=True, text=True, timeout=900)
            good = (r.returncode == 0) == quiet
            und = 'undecided' in r.stdout and r.returncode
            if os.environ.get('ALL') and good and not und: continue
            res.append(f"{c}:{'ok' if good else 'WRONG'}{'(undecided)' if und else ''}")
            if not good or und or os.environ.get('V'): out += '\n'.join('      ' + l[:260] for l in r.stdout.splitlines()[:5]) + '\n'
        return name, ' '.join(res), out
    finally:
        shutil.rmtree(d)
todo = [m for m in ns['M'] if (not only or m[0] in only) and (not os.environ.get('ALL') or m[2].startswith('='))]
with cf.ThreadPoolExecutor(6) as ex:
    for name, res, out in ex.map(run, todo):
        print(f"{name}: {res}")
        if out: print(out.rstrip('\n'))
