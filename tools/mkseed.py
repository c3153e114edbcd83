#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG < spec : makes /verif/seeded/ID from edits and a demonstration test.
spec (python): EDITS = [(file, old, new), ...]; NEEDS=''; BREAKS=''; DEMO='go test source';
WITH = [names of /verif/replay helper files copied beside the demonstration]"""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, pkg = sys.argv[1:4]
ns = {}
exec(sys.stdin.read(), ns)
W = '/tmp/seedwork'
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
if os.path.exists(W):
    shutil.rmtree(W)
subprocess.run(['cp', '-a', '/repo', W], check=True)
for f, old, new in ns['EDITS']:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
D = '/verif/seeded/' + sid
os.makedirs(D, exist_ok=True)
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
open(D + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
open(D + '/demo_test.go', 'w').write(ns['DEMO'].lstrip('\n'))
pk = os.path.basename(pkg)
files = {'zz_demo_test.go': 'demo_test.go'}
for w in ns.get('WITH', []):
    t = open('/verif/replay/' + w).read().replace('package PKG', 'package ' + pk, 1)
    open(D + '/' + w, 'w').write(t)
    files['zz_' + w] = w
ov = ', '.join('"$R/%s/%s": "$D/%s"' % (pkg, a, b) for a, b in files.items())
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated case, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp "$R/go.mod" "$R/go.sum" "$T/"
cat > "$T/ov.json" <<EOF
{"Replace": {%s}}
EOF
TMPDIR=$T go test -modfile "$T/go.mod" -overlay "$T/ov.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
''' % (ov, pkg))
os.chmod(D + '/demo.sh', 0o755)
