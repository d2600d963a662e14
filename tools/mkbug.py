#!/usr/bin/env python3
"""mkbug.py FILE.json...: turns a description of a planted bug into /verif/seeded/<id>/ after checking it in a scratch copy.

description: {"id","property","pkg","edits":[[file,old,new]...],"needs","what_it_breaks","test": go test body file text}
"""
import json, os, subprocess, sys, tempfile, shutil
ENV = dict(os.environ, HOME='/root', GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GO111MODULE='on')
DEMO = '''#!/bin/bash
# Runs demo_test.go against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$scratch/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$scratch/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def tests(cwd):
    rc, out = sh('go test -json -vet=off -count=1 ./...', cwd)
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add((e['Package'], e['Test']))
    return ok
base = None
for f in sys.argv[1:]:
    for b in json.load(open(f)):
        scratch = tempfile.mkdtemp(prefix='bug')
        repo = scratch + '/repo'
        shutil.copytree('/repo', repo)
        if base is None: base = tests(repo)
        bad = None
        for fn, old, new in b['edits']:
            p = repo + '/' + fn
            s = open(p).read()
            if s.count(old) != 1: bad = 'edit matches %d times in %s: %r' % (s.count(old), fn, old); break
            open(p, 'w').write(s.replace(old, new))
        if not bad:
            d = '/verif/seeded/' + b['id']
            os.makedirs(d, exist_ok=True)
            rc, diff = sh('git diff', repo)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo_test.go', 'w').write(b['test'])
            open(d + '/demo.sh', 'w').write(DEMO % {'pkg': b.get('pkg', 'mqttp')})
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
            # blame: every removed line must be an original one
            rc, _ = sh('go build ./...', repo)
            if rc: bad = 'does not build: ' + _
            if not bad and not base <= tests(repo): bad = 'existing tests fail: ' + str(base - tests(repo))
            if not bad:
                rc1, o1 = sh('bash %s/demo.sh' % d, '/repo'); rc2, o2 = sh('bash %s/demo.sh' % d, repo)
                if rc1 != 0: bad = 'demo fails on unchanged tree:\n' + o1[-1500:]
                elif rc2 == 0: bad = 'demo passes with the patch'
                elif '[build failed]' in o2: bad = 'demo does not build'
            own = 0
            for fn in set(e[0] for e in b['edits']):
                rc, bl = sh("git diff -U0 -- %s | grep '^@@' | sed 's/^@@ -\\([0-9]*\\)\\(,\\([0-9]*\\)\\)\\?.*/\\1 \\3/'" % fn, repo)
                for l in bl.split('\n'):
                    q = l.split()
                    if not q: continue
                    st, n = int(q[0]), int(q[1]) if len(q) > 1 else 1
                    for i in range(st, st + n):
                        rc, x = sh('git blame -s -L %d,%d HEAD -- %s' % (i, i, fn), repo)
                        if '477666a' not in x[:12]: own += 1
            if own: print(b['id'], 'WARNING: touches', own, 'lines of own fixes')
            if bad: shutil.rmtree(d)
        shutil.rmtree(scratch)
        print(b['id'], 'OK' if not bad else 'REJECTED ' + bad, flush=True)
