#!/usr/bin/env python3
"""Development aid: applies the behaviour-preserving edits (checks starting with
'=') of files in the format of mutants.py and runs every claimed check on each.
usage: quietall.py [-n NAME,...] [-c C01,...] FILE..."""
import sys, os, shutil, subprocess, concurrent.futures as cf, tempfile, json, argparse, threading
ap = argparse.ArgumentParser(); ap.add_argument('-n'); ap.add_argument('-c'); ap.add_argument('-j', type=int, default=8); ap.add_argument('files', nargs='+')
a = ap.parse_args()
an = os.environ.get('AN', '/tmp/an')
checks = a.c.split(',') if a.c else sorted(json.load(open(os.path.dirname(__file__) + '/claims.json')))
slow = ['C17', 'C14', 'C18', 'C08', 'C07', 'C13']
checks.sort(key=lambda c: slow.index(c) if c in slow else 9)
touch = {'merge.go': 'C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C20 C23 C24 C25 C26 C27',
  'cache.go': 'C01 C02 C03 C12 C17 C23', 'rules.go': 'C01 C12 C13 C14 C15 C16 C17 C18 C23',
  'parser.go': 'C14 C17 C18 C19 C20 C23 C27', 'serialize.go': 'C08 C12 C17 C19 C20 C27',
  'selector.go': 'C07 C08 C12 C14 C17 C18 C19 C20 C21 C24 C27', 'pseudo_classes.go': 'C08 C17 C19 C20 C21 C27',
  'specificity.go': 'C17 C21 C27', 'properties.go': 'C01 C09 C12 C17 C22 C23'}
jobs = []; left = {}; lock = threading.Lock()
for f in a.files:
    ns = {}; exec(open(f).read(), ns)
    for name, edits, ch in ns['M']:
        if not ch.startswith('=') or a.n and name not in a.n.split(','): continue
        d = tempfile.mkdtemp(prefix='mut-')
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', 'node_modules'))
        bad = ''
        for fn, old, new in edits:
            p = d + '/r/' + fn; s = open(p).read()
            if s.count(old) < 1: bad = 'EDIT DOES NOT APPLY ' + old[:60]; break
            open(p, 'w').write(s.replace(old, new, 1))
        if not bad:
            b = subprocess.run(['go', 'build', './...'], cwd=d + '/r', capture_output=True, text=True)
            if b.returncode: bad = 'DOES NOT BUILD ' + b.stderr[:300]
        if not bad:
            t = subprocess.run(['go', 'test', './...'], cwd=d + '/r', capture_output=True, text=True)
            if t.returncode: bad = 'TESTS FAIL ' + t.stdout[-300:]
        if bad: print(name, bad, flush=True); shutil.rmtree(d); continue
        mine = set(' '.join(touch[os.path.basename(fn)] for fn, _, _ in edits).split())
        cs = [c for c in checks if a.c or os.environ.get('ALL') or c in mine]
        left[d] = len(cs)
        for c in cs: jobs.append((name, d, c))
jobs.sort(key=lambda j: slow.index(j[2]) if j[2] in slow else 9)
def run(j):
    name, d, c = j
    o = d + '/' + c; os.mkdir(o)
    try:
        r = subprocess.run(f"export GOMAXPROCS=1; ulimit -v 14000000; {an} {d}/r {o} {c}", shell=True, capture_output=True, text=True, timeout=900)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, out = 'TIMEOUT', ''
    with lock:
        left[d] -= 1
        if not left[d]: shutil.rmtree(d)
    return name, c, rc, out
n = 0
with cf.ThreadPoolExecutor(a.j) as ex:
    for f in cf.as_completed([ex.submit(run, j) for j in jobs]):
        name, c, rc, out = f.result(); n += 1
        if rc != 0:
            print(f"{name} {c}: rc={rc}"); print('\n'.join('      ' + l.strip()[:280] for l in out.splitlines()[:4]), flush=True)
print(f"{n} runs done")
