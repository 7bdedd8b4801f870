#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py (run by hand, no check uses it)."""
import json, os, subprocess, sys, tempfile, glob, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
'''
BIN = HEAD + '''go build -o "$T/flatjsonl" . || exit 2
cd "$T" || exit 2
'''
TEST = HEAD + '''echo "{\\"Replace\\": {\\"$PWD/flatjsonl/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
timeout 250 go test -overlay "$T/overlay.json" -vet=off -count=1 -run '^TestZZDemo$' ./flatjsonl/
'''
seeds = []

def seed(id, prop, edits, needs, breaks, sh=None, test=None):
    seeds.append((id, prop, edits, needs, breaks, sh, test))

for f in sorted(glob.glob(ROOT + '/tools/seeds/*.py')):
    exec(open(f).read())

want = sys.argv[1:]
for id, prop, edits, needs, breaks, sh, test in seeds:
    if want and id not in want:
        continue
    t = tempfile.mkdtemp(prefix='seed.')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, old, new in edits:
        p = t + '/r/' + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d matches in %s' % (id, s.count(old), f))
        open(p, 'w').write(s.replace(old, new))
    d = ROOT + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True))
    blame = subprocess.run(['git', '-C', t + '/r', 'diff', '-U0', 'deb3308'], capture_output=True)
    if test:
        open(d + '/demo_test.go', 'w').write(test)
        open(d + '/demo.sh', 'w').write(TEST)
    else:
        open(d + '/demo.sh', 'w').write(BIN + sh)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    print('wrote', id)
