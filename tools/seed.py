#!/usr/bin/env python3
"""tools/seed.py make SPEC.py   - write /verif/seeded/<id>/ from a spec (see below)
tools/seed.py test ID...       - confirm each planted bug in a scratch copy
tools/seed.py check ID...      - also run this property's quick check on the scratch copy with the patch
A spec file defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], pkg, test=Go source)]."""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = '/verif'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the working directory (through an overlay).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)s/zz_seed_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' "./%(pkg)s"
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def make(spec, only):
    for s in runpy.run_path(spec)['SEEDS']:
        if only and s['id'] not in only: continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='seedmk')
        for side in 'ab':
            for f in {e[0] for e in s['edits']}:
                os.makedirs(os.path.dirname(f'{tmp}/{side}/{f}') , exist_ok=True)
                shutil.copy('/repo/' + f, f'{tmp}/{side}/{f}')
        for f, old, new in s['edits']:
            p = f'{tmp}/b/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, stdout=subprocess.PIPE, text=True)
        t = r.stdout
        open(f'{d}/patch.diff', 'w').write(t)
        shutil.rmtree(tmp)
        open(f'{d}/demo_test.go', 'w').write(s['test'].lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg']))
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        print('made', s['id'])
def test(ids, check):
    base = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        d = f'{V}/seeded/{i}'
        tmp = tempfile.mkdtemp(prefix='seedtest')
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        out = []
        r = run(['bash', d + '/demo.sh'], repo); out.append('demo-clean=%d' % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
        r = run(['git', 'apply', d + '/patch.diff'], repo); out.append('apply=%d' % r.returncode)
        if r.returncode: print(r.stdout)
        b = run('go build ./... && GOOS=windows GOARCH=amd64 go build ./...', repo, shell=True); out.append('build=%d' % b.returncode)
        if b.returncode: print(b.stdout)
        t = run('go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"', repo, shell=True)
        bad = [l for l in t.stdout.splitlines() if 'FAIL' in l]; out.append('tests=%s' % ('ok' if not bad else bad[:3]))
        r = run(['bash', d + '/demo.sh'], repo); out.append('demo-bug=%d' % r.returncode)
        if '[build failed]' in r.stdout or 'setup failed' in r.stdout: print(r.stdout)
        if check:
            p = json.load(open(d + '/meta.json'))['property']
            env = dict(ENV, GOVC_REPO=repo, GOVC_VERIF=tmp + '/verif')
            shutil.copytree(V, tmp + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', '.work'))
            r = subprocess.run([os.environ.get('GV', V + '/bin/govc'), 'check', 'quick', p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append('check=%d %s' % (r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]))
        shutil.rmtree(tmp)
        print(i, ' '.join(out), flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'make': make(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        test(ids, sys.argv[1] == 'check')
