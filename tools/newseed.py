#!/usr/bin/env python3
"""newseed.py ID PROP SPECFILE: builds /verif/seeded/ID from SPECFILE, a Python file defining
edits=[(file, old, new)...], demo (Go test body file text), needs, breaks.  Confirms in a scratch copy
that it builds, passes the tests, the demo fails with it and passes without, and says what the check says."""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
r = tmp + '/repo'
subprocess.check_call(['git', 'clone', '-q', '/repo', r])
for f, old, new in ns['edits']:
    p = r + '/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', r, 'diff'], text=True))
open(d + '/demo_test.go.txt', 'w').write(ns['demo'].lstrip())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero with the patch
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$tmp/zz_demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 %s-timeout 200s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' .
''' % ns.get('flags', ''))
os.chmod(d + '/demo.sh', 0o755)
json.dump({"property": prop, "needs": ns['needs'], "what_it_breaks": ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def run(cmd, cwd=r, env=None, t=900):
    e = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
rc, o = run('git stash -q; bash %s/demo.sh' % d); print('demo clean rc', rc, '' if rc == 0 else o[-1500:])
rc, o = run('git checkout -q -- . ; git apply %s/patch.diff && go build ./... && bash %s/demo.sh' % (d, d)); print('demo bug rc', rc, o[-600:])
rc, o = run('go test -vet=off -count=1 ./... 2>&1'); print('tests rc', rc, '' if rc == 0 else o[-1500:])
if len(sys.argv) < 5:
    import time; t = time.time()
    rc, o = run('/verif/check.sh %s quick' % prop, env={'REPO': r}); print('check rc', rc, '%.0fs' % (time.time() - t), '\n'.join(o.splitlines()[-4:]))
shutil.rmtree(tmp)
