#!/usr/bin/env python3
"""seed.py DEF.py [ID...]: make /verif/seeded/<id> from definitions and confirm each in a scratch copy of /repo.

DEF.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], and either
  pkg + test (Go source of an in-package test TestDemo, put in through an overlay), or demo (text of demo.sh) + files.
"""
import sys, os, json, subprocess, shutil, tempfile, runpy

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)

GO_DEMO = '''#!/bin/bash
# Runs demo_test.go.txt as a test of package %(pkg)s of the tree in the working directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
cp "$here/demo_test.go.txt" "$work/demo_test.go"
target="$PWD/src/%(dir)sseeded_demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$target" "$work/demo_test.go" > "$work/overlay.json"
cd src && go test -vet=off -count=1 -timeout 200s -overlay "$work/overlay.json" -run '^TestSeededDemo$' ./%(pkg)s
'''

def main():
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for s in defs:
        if only and s['id'] not in only: continue
        d = '/verif/seeded/' + s['id']
        w = tempfile.mkdtemp(prefix='seed.')
        try:
            subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
            r = w + '/repo'
            os.makedirs(d, exist_ok=True)
            if 'test' in s:
                pkg = s['pkg']
                open(d + '/demo_test.go.txt', 'w').write(s['test'].lstrip('\n'))
                open(d + '/demo.sh', 'w').write(GO_DEMO % dict(pkg=pkg, dir='' if pkg == '.' else pkg + '/'))
            else:
                open(d + '/demo.sh', 'w').write(s['demo'].lstrip('\n'))
                for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            clean = sh('bash %s/demo.sh' % d, cwd=r)
            for f, old, new in s['edits']:
                t = open(r + '/src/' + f).read()
                if t.count(old) != 1: print(s['id'], 'EDIT does not match once:', f, t.count(old), old[:60]); raise SystemExit(1)
                open(r + '/src/' + f, 'w').write(t.replace(old, new))
            sh('gofmt -w ' + ' '.join('src/' + e[0] for e in s['edits']), cwd=r)
            diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True).stdout
            open(d + '/patch.diff', 'w').write(diff)
            patched = sh('bash %s/demo.sh' % d, cwd=r)
            tests = sh('. /opt/vp/env.sh; cd src && rm -rf .test-cache; go build ./... && go test -vet=off -count=1 -p 1 ./... 2>&1 | grep -v "no test files"', cwd=r)
            failed = [l for l in tests.stdout.splitlines() if l.startswith(('--- FAIL', 'FAIL', 'panic'))]
            print(s['id'], 'clean', clean.returncode, 'patched', patched.returncode, 'unit tests failing:', failed[:4] or 'none')
            if clean.returncode or '-v' in os.environ.get('SEED', ''): print(clean.stdout[-1500:])
            if patched.returncode == 0: print(patched.stdout[-600:])
            elif 'build failed' in patched.stdout or 'setup failed' in patched.stdout: print(patched.stdout[:1500])
            else: print('    ', '; '.join(l.strip() for l in patched.stdout.splitlines() if '_test.go' in l or 'demo' in l.lower())[:300])
        finally:
            subprocess.run(['find', w, '-delete'])

main()
