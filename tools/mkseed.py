#!/usr/bin/env python3
"""mkseed.py SPEC.py [NAME...]: make /verif/seeded/<name>/ from a spec and confirm it.

SPEC.py defines S = [dict(id, property, edits=[(file, old, new)], pkg, test, needs, breaks, race=False)].
test is the body of a Go test file (any package clause). Confirmed means: the patch
applies, the tree builds, the stable tests pass, the demonstration passes without and
fails with the change. Works on a copy of /repo under /tmp, removed afterwards.
"""
import json, os, shutil, subprocess, sys, runpy
REPO, OUT = '/repo', '/verif/seeded'
ENV = '. /opt/vp/env.sh; '
DEMO = '''#!/bin/bash
# Exit 0 if the property holds for the demonstrated case. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -f "$t/o.json"; rmdir "$t"' EXIT
printf '{"Replace":{"%%s/%(dst)s":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/o.json"
timeout 280 go test %(race)s-overlay "$t/o.json" -vet=off -count=1 -timeout %(to)s -run '^TestSeededDemo' %(pkg)s
'''
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', ENV + cmd], cwd=cwd, capture_output=True, text=True)
def main():
    spec = runpy.run_path(sys.argv[1])['S']
    want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
    for s in spec:
        if want and s['id'] not in want: continue
        d = '/tmp/mkseed_repo'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True)
        bad = None
        for f, a, b in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) != 1:
                bad = f'{f}: {t.count(a)} matches for {a[:50]!r}'; break
            open(p, 'w').write(t.replace(a, b))
        if bad: print(s['id'], 'BAD EDIT', bad); continue
        diff = sh('git diff', d).stdout
        dst = os.path.join(OUT, s['id'])
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        open(dst + '/demo_test.go', 'w').write(s['test'])
        pkg = s.get('pkg', '.')
        td = '' if pkg == '.' else pkg.lstrip('./') + '/'
        open(dst + '/demo.sh', 'w').write(DEMO % dict(dst=td + 'zz_seeded_demo_test.go', race='-race ' if s.get('race') else '', pkg=pkg, to=s.get('timeout', '120s')))
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        r = sh('go build ./...', d)
        if r.returncode: print(s['id'], 'DOES NOT BUILD', r.stderr[:500]); continue
        r = sh('go test -json -vet=off -count=1 ./... > /tmp/mkseed_log; python3 /opt/vp/results.py /tmp/mkseed_out.json gojson:/tmp/mkseed_log', d)
        res = json.load(open('/tmp/mkseed_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        failing = lost(base, res)
        with_ = sh(f'bash {dst}/demo.sh', d)
        without = sh(f'bash {dst}/demo.sh', REPO)
        ok = not failing and with_.returncode != 0 and without.returncode == 0
        print(s['id'], 'ok' if ok else 'NOT CONFIRMED', 'tests lost:', failing[:5], 'with:', with_.returncode, 'without:', without.returncode)
        if not ok:
            print(with_.stdout[-600:], with_.stderr[-600:], without.stdout[-800:], without.stderr[-800:])
        shutil.rmtree(d, ignore_errors=True)
def lost(base, res):
    names = base.get('stable') or base.get('passed') or base.get('tests')
    passed = set(res.get('passed') or [])
    return [n for n in names if n not in passed]
main()
