#!/usr/bin/env python3
"""Makes a planted bug: mkbug.py SPEC.py [ID...]

SPEC.py defines BUGS: a list of dicts with id, property, edits
[(file, old, new)], needs, breaks, demo (Go test file body).
Every bug is confirmed in a scratch copy: it builds, the stable tests pass,
the demonstration passes without and fails with it.
"""
import sys, os, subprocess, shutil, json, tempfile, textwrap

DEMO_SH = '''#!/bin/bash
# Runs the demonstration as a test of the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$t/zz_demo_test.go\\"}}" > "$t/o.json"
export GOPROXY=off GOTOOLCHAIN=local TMPDIR="$t"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 250s -run '^TestPlantedDemo$' .
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    for b in spec['BUGS']:
        if want and b['id'] not in want:
            continue
        out = '/verif/seeded/' + b['id']
        w = tempfile.mkdtemp(prefix='bug', dir='/tmp')
        repo = w + '/repo'
        sh('cp -a /repo %s' % repo, '/')
        ok = True
        for f, old, new in b['edits']:
            p = repo + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(w); continue
        os.makedirs(out, exist_ok=True)
        diff = sh('git diff', repo).stdout
        open(out + '/patch.diff', 'w').write(diff)
        if 'demo' in b:
            open(out + '/demo.go.txt', 'w').write(b['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(b.get('demo_sh', DEMO_SH))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        r = sh('go build ./... && go vet . 2>/dev/null; go test -vet=off -count=1 ./...', repo)
        tests = r.returncode == 0
        d1 = sh('bash %s/demo.sh' % out, repo)
        sh('git checkout -q -- .', repo)
        d0 = sh('bash %s/demo.sh' % out, repo)
        good = tests and d0.returncode == 0 and d1.returncode != 0
        print(b['id'], 'OK' if good else 'BAD', 'tests', tests, 'demo clean', d0.returncode, 'demo bug', d1.returncode)
        if not good:
            print(r.stdout[-1500:] if not tests else '', r.stderr[-500:], d0.stdout[-1500:] if d0.returncode else '', d1.stdout[-500:] if not d1.returncode else '')
            shutil.rmtree(out)
        shutil.rmtree(w)

main()
