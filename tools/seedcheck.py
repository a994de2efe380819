#!/usr/bin/env python3
"""seedcheck.py [ID...]: re-confirm every seeded change against /repo's HEAD: it applies,
changes lines of the original repository, builds, keeps the stable tests, and its
demonstration passes without and fails with it. With AN set, also runs its check."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
SEED, BASE = '/verif/seeded', 'f30b24a'
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = stable.get('stable') or stable.get('passed') or stable.get('tests')
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)
def original(d, diff):
    """some removed line is original, or the change only inserts"""
    f, n, removed, orig, ctx = None, 0, 0, 0, []
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m[1]); continue
        if l.startswith('---') or l.startswith('+++') or f is None: continue
        if l.startswith('-'):
            removed += 1
            b = sh(f'git blame -s -L {n},{n} HEAD -- {f}', d).stdout
            orig += b.startswith('^' + BASE[:7])
            n += 1
        elif l.startswith(' '): n += 1
    return removed, orig
def one(id):
    t = tempfile.mkdtemp(prefix='seedck-')
    try:
        d = t + '/r'
        shutil.copytree('/repo', d, symlinks=True)
        diff = open(f'{SEED}/{id}/patch.diff').read()
        s = t + '/s'; shutil.copytree(f'{SEED}/{id}', s)
        bad = []
        rem, orig = original(d, diff)
        if not orig: bad.append(f'no original line changed ({rem} removed)')
        if sh(f'bash {s}/demo.sh', d).returncode: bad.append('demo fails on unchanged')
        if sh(f'git apply {s}/patch.diff', d).returncode: return id, ['does not apply'] + bad
        if sh('go build ./...', d).returncode: return id, ['does not build'] + bad
        sh(f'go test -json -vet=off -count=1 ./... > {t}/log; python3 /opt/vp/results.py {t}/out.json gojson:{t}/log', d)
        p = set(json.load(open(t + '/out.json')).get('passed') or [])
        lost = [x for x in stable if x not in p]
        if lost: bad.append(f'tests lost {lost[:3]}')
        if not sh(f'bash {s}/demo.sh', d).returncode: bad.append('demo passes with the change')
        if os.environ.get('AN'):
            prop = json.load(open(f'{s}/meta.json'))['property']
            ids = os.environ.get('CHECKS', prop).split()
            caught = []
            for c in ids:
                r = sh(f'{os.environ["AN"]} {d} {t}/ev {c}', '/')
                if r.returncode == 1: caught.append(c)
                elif r.returncode: bad.append(f'{c} rc={r.returncode}')
            if prop not in caught: bad.append('not caught')
            bad.append('caught by ' + ' '.join(caught))
        return id, bad
    finally:
        shutil.rmtree(t)
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for id, bad in ex.map(one, sys.argv[1:] or sorted(os.listdir(SEED))):
        print(id, 'ok' if not bad else '; '.join(bad), flush=True)
