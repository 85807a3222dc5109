#!/usr/bin/env python3
"""Builds and confirms the planted bugs: tools/seed.py NAME...  reads
tools/bugs/NAME.py-like entries from tools/bugs.py and writes /verif/seeded/NAME."""
import os, subprocess, sys, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
ROOT = '/verif/seeded'
def sh(cmd, cwd, **k):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Runs the demonstration inside package %(pkg)s of the tree in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export TMPDIR=$tmp%(env)s
go test -overlay "$tmp/overlay.json" -count=1 -timeout 200s -run 'TestZZDemo$' ./%(pkg)s
'''
def main():
    names = sys.argv[1:] or sorted(BUGS)
    work = tempfile.mkdtemp(prefix='seedwork.', dir='/tmp')
    repo = work + '/repo'
    sh('git clone -q /repo repo', work)
    for n in names:
        b = BUGS[n]
        sh('git checkout -q -- . && git clean -fdq', repo)
        d = ROOT + '/' + n
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            p = repo + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(n, 'edit matches', s.count(old), 'times:', old); break
            open(p, 'w').write(s.replace(old, new))
        else:
            open(d + '/patch.diff', 'w').write(sh('git diff', repo).stdout)
            open(d + '/demo_test.go', 'w').write(b['demo'])
            open(d + '/demo.sh', 'w').write(DEMO % {'pkg': b['pkg'], 'env': b.get('env', '')})
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            bl = sh('. /opt/vp/env.sh; gofmt -l . ; go vet ./... && go build ./... && go test -count=1 ./...', repo)
            if bl.returncode or 'FAIL' in bl.stdout: print(n, 'BUILD/TEST', bl.stdout)
            w = sh('bash %s/demo.sh' % d, repo)
            sh('git checkout -q -- . && git clean -fdq', repo)
            o = sh('bash %s/demo.sh' % d, repo)
            ok = w.returncode != 0 and o.returncode == 0 and 'panic: test timed out' not in w.stdout and 'setup failed' not in w.stdout and 'build failed' not in w.stdout
            print(n, 'ok' if ok else 'BAD', 'with=%d without=%d' % (w.returncode, o.returncode))
            if not ok: print('WITH', w.stdout[-1500:], '\nWITHOUT', o.stdout[-1500:])
            elif os.environ.get('V'): print(w.stdout[-600:])
    shutil.rmtree(work)
main()
