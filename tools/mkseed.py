"""Helper to plant and confirm a bug: seed(id, prop, needs, breaks, [(file, old, new)], demo_go).
demo_go is the body of a Go main package using only godeep's exported API; it exits 1 when broken."""
import json, os, subprocess, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo "{\\"Replace\\": {\\"$PWD/zz_demo/main.go\\": \\"$here/demo.go.txt\\"}}" > "$work/ov.json"
cp go.mod "$work/go.mod"; cp go.sum "$work/go.sum"
go build -modfile="$work/go.mod" -overlay="$work/ov.json" -o "$work/demo" ./zz_demo || exit 3
cd "$work" && ./demo
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
BASE = None
def failing(cwd):
    r = run('GODEBUG=randautoseed=0 go test -json -vet=off -count=1 ./... ', cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get('Action') == 'pass' and j.get('Test'): ok.add(j['Package'] + '::' + j['Test'])
    return ok
def seed(id, prop, needs, breaks, edits, demo, check=True):
    global BASE
    tmp = tempfile.mkdtemp(prefix='seed.')
    try:
        w = tmp + '/r'
        run('git clone -q /repo ' + w, '/')
        if BASE is None: BASE = failing(w)
        d = V + '/seeded/' + id
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.go.txt', 'w').write(demo)
        r = run(d + '/demo.sh', w)
        if r.returncode != 0: print(id, 'DEMO FAILS ON CLEAN', r.returncode, r.stdout[-600:]); return False
        for f, a, b in edits:
            p = w + '/' + f; s = open(p).read()
            if s.count(a) < 1: print(id, 'NO MATCH', f, a); return False
            open(p, 'w').write(s.replace(a, b, 1))
        r = run('gofmt -l . ; go build ./...', w)
        if r.returncode != 0: print(id, 'BUILD', r.stdout[-800:]); return False
        lost = BASE - failing(w)
        if lost: print(id, 'TESTS LOST', sorted(lost)[:5]); return False
        r = run(d + '/demo.sh', w)
        if r.returncode in (0, 3): print(id, 'DEMO PASSES WITH BUG', r.stdout[-300:]); return False
        open(d + '/patch.diff', 'w').write(subprocess.check_output('git diff', cwd=w, shell=True, text=True))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        print(id, 'planted;', end=' ')
        if check:
            print(caught(id, prop))
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def caught(id, prop, tier='quick'):
    assert not run('git status --porcelain', '/repo').stdout.strip()
    run('git apply %s/seeded/%s/patch.diff' % (V, id), '/repo')
    try:
        r = run('./check.sh %s %s' % (prop, tier), V)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return 'CAUGHT ' + ('%d' % len(v)) if r.returncode == 1 and v else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-400:])
    finally:
        run('git checkout -- .', '/repo')
if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
        m = json.load(open(V + '/seeded/%s/meta.json' % i))
        print(i, m['property'], caught(i, m['property']), flush=True)
