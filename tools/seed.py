#!/usr/bin/env python3
"""Writes one planted change to seeded/<id>/ and tries it out.

usage: seed.py SEEDS.py [id ...]     SEEDS.py defines SEEDS (see there)

Every change is applied to a scratch copy of /repo, which must build and pass
its tests; the demonstration must pass without the change and fail with it.
No check runs this.
"""
import json, os, shutil, subprocess, sys, tempfile

OUT = os.environ.get('SEED_OUT', '/verif/seeded')
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false',
           PATH='/usr/local/go/bin:' + os.environ['PATH'])

DEMO = '''#!/bin/bash
# Runs the test beside this file inside the package of the current directory.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOFLAGS="-mod=mod -buildvcs=false"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/parser/zz_demo_test.go\\": \\"$dir/demo_test.go\\"}}" > "$tmp/overlay.json"
go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./parser
'''
CLI = '''#!/bin/bash
# Builds the command line tool of the current directory and runs it.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOFLAGS="-mod=mod -buildvcs=false"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/cli" . || exit 2
'''
HEAD = '''package parser_test

import (
%s	p "github.com/AfterShip/clickhouse-sql-parser/parser"
)

func parse(t *testing.T, sql string) []p.Expr {
	t.Helper()
	stmts, err := p.NewParser(sql).ParseStmts()
	if err != nil {
		t.Fatalf("%%s: %%v", sql, err)
	}
	return stmts
}

var _ = parse

func TestDemo(t *testing.T) {
%s}
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, env=ENV, capture_output=True, text=True, **kw)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    w = tempfile.mkdtemp(prefix='seed')
    base = w + '/r'
    sh(f'cp -a /repo {base}')
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for s in ns['SEEDS']:
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        sh('git checkout -q -- . && git clean -qfd', cwd=base)
        d = f'{OUT}/{s["id"]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        bad = ''
        for f, old, new in s['edits']:
            t = open(f'{base}/{f}').read()
            if t.count(old) != 1:
                bad = f'{f}: {t.count(old)} matches of {old!r}'
                break
            open(f'{base}/{f}', 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'BAD', bad); shutil.rmtree(d); continue
        sh('gofmt -w parser main.go', cwd=base) if False else None
        diff = sh('git diff', cwd=base).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if 'cli' in s:
            open(d + '/demo.sh', 'w').write(CLI + s['cli'])
        else:
            open(d + '/demo.sh', 'w').write(DEMO)
            imports = sorted({'testing', *s.get('imports', [])})
            open(d + '/demo_test.go', 'w').write(HEAD % (''.join(f'\t"{i}"\n' for i in imports) + '\n', s['demo'].strip('\n') + '\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        os.chmod(d + '/demo.sh', 0o755)
        b = sh('go build ./... && go vet ./parser . >/dev/null 2>&1; go build ./...', cwd=base)
        tests = sh('go test ./... 2>&1 | tail -40', cwd=base)
        fails = [l for l in tests.stdout.splitlines() if 'FAIL' in l][:4]
        on = sh(f'bash {d}/demo.sh', cwd=base)
        sh('git checkout -q -- .', cwd=base)
        off = sh(f'bash {d}/demo.sh', cwd=base)
        okay = b.returncode == 0 and not fails and on.returncode != 0 and off.returncode == 0
        print(s['id'], 'ok' if okay else 'NOT OK', '' if okay else f'build={b.returncode} {b.stderr[:200]} tests={fails} patched={on.returncode} clean={off.returncode} {off.stdout[-300:]}{off.stderr[-200:]}', flush=True)
        if not okay:
            shutil.rmtree(d)
    shutil.rmtree(w)

main()
