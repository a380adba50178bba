#!/usr/bin/env python3
"""Builds the planted bugs listed in tools/seeds.py into seeded/<id>/ after
confirming each in a scratch copy of /repo: it builds, the tests pass three
times, and its demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs main.go against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp"/ || exit 3
echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$here/main.go\\"}}" > "$tmp/o.json"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
go build -modfile="$tmp/go.mod" -overlay="$tmp/o.json" -o "$tmp/demo" ./zzdemo || exit 3
timeout 60 "$tmp/demo"
'''
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local', CGO_ENABLED='0')
def sh(cmd, cwd, ok=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if ok and r.returncode: raise Exception(cmd + '\n' + r.stdout)
    return r
def build(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    wt = tempfile.mkdtemp(prefix='seed')
    repo = os.path.join(wt, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        assert not sh('git status --porcelain', repo).stdout, 'repo not clean'
        out = os.path.join(wt, 'demo'); os.mkdir(out)
        open(os.path.join(out, 'demo.sh'), 'w').write(s.get('demo', DEMO))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        if 'main' in s and not s.get('nomain'): open(os.path.join(out, 'main.go'), 'w').write(s['main'])
        for n, c in s.get('files', {}).items(): open(os.path.join(out, n), 'w').write(c)
        r = sh('bash ' + out + '/demo.sh', repo, False)
        assert r.returncode == 0, 'demo fails on the unchanged tree: ' + r.stdout
        for f, old, new in s['edits']:
            p = os.path.join(repo, f); t = open(p).read()
            assert old in t, ('not found', f, old)
            open(p, 'w').write(t.replace(old, new, s.get('count', 1)))
        if s.get('regen'):
            for p in s['regen']: sh(p, repo)
        sh('go build ./... && go vet ./generate ./cmd/... .', repo, True) if s.get('vet', False) else sh('go build ./...', repo)
        for i in range(3): sh('go test -vet=off -count=1 ./...', repo)
        r = sh('bash ' + out + '/demo.sh', repo, False)
        assert r.returncode not in (0, 3), 'demo passes with the bug: ' + r.stdout
        diff = sh('git diff', repo).stdout
        os.makedirs(d, exist_ok=True)
        for n in os.listdir(out): shutil.copy(os.path.join(out, n), d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(s['id'], 'ok:', r.stdout.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(wt)
want = sys.argv[1:]
for s in SEEDS:
    if (s['id'] in want) or (not want and not os.path.exists(os.path.join(VERIF, 'seeded', s['id'], 'patch.diff'))):
        try: build(s)
        except Exception as e: print(s['id'], 'REJECTED', str(e)[-1500:])
