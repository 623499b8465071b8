#!/usr/bin/env python3
"""mkseed.py ID PROP PKG NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...] < demo_test.go
makes /verif/seeded/ID from textual replacements on a scratch copy of /repo."""
import sys, os, subprocess, shutil, tempfile, json
ID, prop, pkg, needs, breaks = sys.argv[1:6]
reps = sys.argv[6:]
demo = sys.stdin.read()
w = tempfile.mkdtemp(prefix='/tmp/mks')
try:
    subprocess.check_call(['cp', '-a', '/repo', w + '/r'])
    for i in range(0, len(reps), 3):
        f = w + '/r/' + reps[i]; s = open(f).read()
        assert s.count(reps[i+1]) == 1, (reps[i], s.count(reps[i+1]), reps[i+1])
        open(f, 'w').write(s.replace(reps[i+1], reps[i+2]))
    subprocess.call(['gofmt', '-l', w + '/r/data', w + '/r/node', w + '/r/util', w + '/r/server'])
    d = '/verif/seeded/' + ID; os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo_test.go.txt', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# runs the demonstration inside the package through an overlay; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestDemo' ./%s
''' % (pkg, pkg))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
finally:
    shutil.rmtree(w)
subprocess.call(['/verif/tools/seedcheck.sh', ID])
